"""Contracts: set-up of an arbitrary state satisfying the precondition, the postcondition on every return, frame and leaks."""
import z3, time
from .terms import *
from .core import *
from .engine import *
from .loops import *
from .libc import *
from . import regex

class Eng(LoopMixin, Engine):
    def line_of(s, fr, h):
        for i in fr.f.blocks[h].ins:
            if i.line: return i.line
        return None

class Case:
    """one initial state: label, state, arguments, named ghost values"""
    def __init__(s, label, st, args, **g): s.label, s.st, s.args, s.g = label, st, args, g
    def __getattr__(s, n):
        try: return s.__dict__['g'][n]
        except KeyError: raise AttributeError(n)

class Spec:
    name = None; mod = None; alloc_fail = False; noterm = (); props = ()
    schemas = ()
    owned_ret = True
    def cases(s, E): raise NotImplementedError
    def post(s, E, c, st, ret): raise NotImplementedError
    def cover(s, E): return ()
    def verify(s, E, only=None):
        E.cur = s; E.alloc_fail = s.alloc_fail; E.schemas = list(s.schemas)
        E.npaths = 0; E.steps = 0; nret = 0; E.only = only
        for ci, c in enumerate(s.cases(E)):
            if only is not None and ci != only: continue
            c.pre = c.st.copy(); c.st.writes = None
            if E.prove(c.st, z3.BoolVal(False), True):
                E.obl.append(Result('precondition satisfiable [%s]' % c.label, False, 'contradictory precondition', None, s.name)); continue
            E.case = c
            outs = E.run_function(s.name, s.mod, c.st.copy(), list(c.args), s)
            live = 0
            for o in outs:
                if o.st.dead: continue
                live += 1
                before = len(E.obl)
                s.check_exit(E, c, o.st, o.a)
            nret += live
        return nret
    def check_exit(s, E, c, st, ret, depth=0):
        mark = len(E.obl); st0 = st.copy()
        try: s.check_exit1(E, c, st, ret)
        except Fork as f:          # what the contract reads depends on a condition: check both cases
            if depth > 6: raise Unsupported('contract undecided')
            del E.obl[mark:]
            for cond in (f.cond, bnot(f.cond)):
                s2 = st0.copy(); s2.assume(cond)
                if not s2.dead and not E.prove(s2, z3.BoolVal(False)): s.check_exit(E, c, s2, ret, depth + 1)
    def check_exit1(s, E, c, st, ret):
        tag = ' [%s]' % c.label
        r = s.post(E, c, st, ret)
        for it in r or ():
            prove_item(E, st, it, tag)
        s.frame(E, c, st, ret, tag)
        s.leaks(E, c, st, ret, tag)
    # ------------------------------------------------ frame
    def modifies(s, E, c, st, ret):
        """{obj: True (whole) | fn(k) -> formula "byte k may change"}"""
        return {}
    def frees(s, E, c, st, ret): return ()
    def frame(s, E, c, st, ret, tag):
        m = s.modifies(E, c, st, ret); fr = s.frees(E, c, st, ret)
        for o in c.pre.mem:
            if o.kind in ('const', 'ghost') or o.name.startswith('errno'): continue
            a0 = c.pre.mem[o][1]; a1 = st.mem[o][1]
            if a0 is not a1 and not (o in fr):
                if a1 is False: E.oblige(st, 'frame: %s is released' % nm(o) + tag, False); continue
            if o in fr:
                if a1 is not False: E.oblige(st, '%s is released' % nm(o) + tag, bnot(a1) if isz(a1) else not a1)
                continue
            if m.get(o) is True: continue
            n0, n1 = c.pre.mem[o][0], st.mem[o][0]
            if n0 is n1: continue
            same_frame(E, st, n0, n1, o, m.get(o), tag)
    def owned(s, E, c, st, ret):
        """objects that the caller owns after the call (reachable from the result)"""
        return [ret.obj] if isinstance(ret, Ptr) and ret.obj is not None else []
    def leaks(s, E, c, st, ret, tag):
        own = set(s.owned(E, c, st, ret))
        for o in st.allocs:
            if o in c.pre.mem or o.kind != 'heap': continue
            if st.alive(o) is False or o in own: continue
            E.oblige(st.copy(), 'no leak: %s allocated at line %s' % (nm(o), o.meta.get('line')) + tag, bnot(st.alive(o)) if isz(st.alive(o)) else False)

def nm(o): return o.name.split('#')[0]
def same_frame(E, st, n0, n1, o, guard, tag):
    """every byte of o outside the modified part is unchanged; pointer cells by comparison"""
    # collect constant cells written in chain
    size = o.size
    cells = {}
    cur = n1
    simple = True
    while cur is not n0 and not isinstance(cur, Base):
        if isinstance(cur, St) and not isz(cur.off): cells.setdefault(cur.off, (cur.n, cur.val))
        else: simple = False
        cur = cur.prev
    if cur is not n0: simple = False
    if simple:
        for off, (n, v) in sorted(cells.items()):
            if guard is not None and guard(off) is True: continue
            isp = isinstance(v, (Ptr, Fn))
            try: v0 = rd(st, n0, off, n, isp)
            except Unsupported: v0 = None
            same = samev(v0, v)
            g = bor(guard(off) if guard else False, same)
            E.oblige(st, 'frame: %s+%d unchanged' % (nm(o), off) + tag, g)
        return
    E.oblige_q(st, 'frame: bytes of %s unchanged' % nm(o) + tag,
               lambda k: bor(guard(k) if guard else False, eq(rd(None, n1, k, 1), rd(None, n0, k, 1))), 0, size)
def samev(a, b):
    if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
        if isinstance(a, Fn) or isinstance(b, Fn): return isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): return False
        if a.obj is not b.obj: return False
        return eq(a.off, b.off)
    if a is None or b is None or a is UNDEF or b is UNDEF: return a is b
    return eq(a, b)

def prove_item(E, st, it, tag=''):
    name, f = it[0], it[1]
    if isinstance(f, All):
        E.oblige_q(st, name + tag, f.body, f.lo, f.hi)
        st.assume(f.q())
    elif isinstance(f, Many):
        for x in f.fs: prove_item(E, st, (name, x), tag)
    else: E.oblige(st, name + tag, f)
def assume_item(st, f): assume_c(st, f)

# ------------------------------------------------ helpers to build states
def nat(st, name, hi=None, w=64):
    v = fresh(name); st.assume(ge(v, 0), lt(v, hi if hi is not None else (1 << w)))
    return v
def buf(st, name, size=None, kind='param', **meta):
    """object of unknown bytes"""
    if size is None: size = nat(st, name + '.size', 1 << 60)
    o = Obj(name, size, kind, **meta)
    return st.new(o, Base(name))
def cstring(st, name, kind='param', **meta):
    """terminated string; returns (pointer, length)"""
    n = nat(st, name + '.len', 1 << 60)
    extra = nat(st, name + '.slack', 1 << 60)
    o = Obj(name, add(add(n, 1), extra), kind, **meta)
    b = Base(name); p = st.new(o, b)
    is_string(st, b, 0, n); hint(st, o, n)
    st.term(n)
    return p, n
def is_string(st, node, off, n):
    st.assume(eq(rd(None, node, add(off, n), 1), 0))
    st.assume(Q(lambda k: implies(between(off, k, add(off, n)), ne(rd(None, node, k, 1), 0)), trig((node, 0)), 2, 'string'))
def struct(st, name, size, cells, kind='param', **meta):
    o = Obj(name, size, kind, **meta)
    return st.new(o, Base(name, 'uf', cells=cells))
def bytes_all(na, a, nb, b, n, f=None):
    """forall k < n: na[a+k] == nb[b+k]"""
    return All(lambda k: eq(rd(None, na, add(a, k), 1), rd(None, nb, add(b, k), 1)), merge(trig((na, a)), trig((nb, b))), 0, n)
def merge(*ts):
    o = {}
    for t in ts:
        for k, l in t.items(): o.setdefault(k, []).extend(l)
    return o
