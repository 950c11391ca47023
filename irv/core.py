"""States, memory, quantified facts and the proof procedure of the verifier."""
import z3, time, itertools
from .terms import *
from .llparse import Unsupported

W = {w: 1 << w for w in (1, 8, 16, 32, 64)}
BIG = 1 << 40          # stride between the members of an object family

class Fork(Exception):
    """the current instruction has to be re-executed under cond and under not cond"""
    def __init__(s, cond): s.cond = cond

def lift(x): return x.as_long() if z3.is_int_value(x) else x
# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj, s.off = obj, off
    def __repr__(s): return 'Ptr(%s,%s)' % (s.obj, s.off)
NULL = Ptr(None, 0)
class Fn:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __repr__(s): return 'Fn(%s)' % s.name
class PInt:
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
class Dbl:
    __slots__ = ('k', 'e', 'e2')
    def __init__(s, k, e, e2=None): s.k, s.e, s.e2 = k, e, e2
    def __repr__(s): return 'Dbl(%s,%s)' % (s.k, s.e)
class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class Obj:
    n = 0
    def __init__(s, name, size, kind, **meta):
        Obj.n += 1; s.id = Obj.n; s.name = '%s#%d' % (name, s.id); s.size, s.kind, s.meta = size, kind, meta
    def __repr__(s): return s.name
    def __hash__(s): return s.id
    def __eq__(s, o): return s is o

def isnull(p): return isinstance(p, Ptr) and p.obj is None and not isz(p.off) and p.off == 0

# ------------------------------------------------------------------ quantified facts
class Q:
    """forall k. guard(k) -> body(k);   triggers: {decl name: [(argidx, shift)]}  (k := arg + shift)"""
    n = 0
    def __init__(s, fn, triggers, maxgen=2, name=''):
        Q.n += 1; s.id = Q.n; s.fn, s.triggers, s.maxgen, s.name, s.cache = fn, triggers, maxgen, name, {}
    def inst(s, k):
        i = k.get_id() if isz(k) else ('c', k)
        if i not in s.cache:
            if isz(k): keep(k)
            s.cache[i] = s.fn(k)
        return s.cache[i]
    def inst2(s, k, kid):
        r = s.cache.get(kid)
        if r is None: r = s.cache[kid] = s.fn(k)
        return r

_appname = {}
def appname(a):
    r = _appname.get(a)
    if r is None: r = _appname[a] = byid(a).decl().name()
    return r
_trigk = {}
def trigk(a, ai, sh):
    key = (a, ai, sh.get_id() if isz(sh) else ('c', sh))
    r = _trigk.get(key)
    if r is None:
        k = add(byid(a).arg(ai), sh)
        if isz(k): keep(k)
        if isz(sh): keep(sh)
        r = _trigk[key] = (k, k.get_id() if isz(k) else ('c', k))
    return r
_axinst = {}
def axinst(a, nm, g):
    r = _axinst.get(a)
    if r is None:
        app = byid(a); r = []
        if nm in BYTEFN: r.append((9, keep(And(app >= 0, app <= 255))))
        for ax in AXIOMS.get(nm, ()):
            l = ax.fn(app)
            for f in l:
                if isz(f): keep(f)
                r.append((ax.maxgen, f))
        _axinst[a] = r
    return [f for mg, f in r if g <= mg]
class Axiom:
    def __init__(s, fn, maxgen): s.fn, s.maxgen = fn, maxgen
AXIOMS = {}          # decl name -> [Axiom]
BYTEFN = set()       # names of byte valued functions
def axiom(decl, fn, maxgen=2):
    AXIOMS.setdefault(decl.name(), []).append(Axiom(fn, maxgen))

# ------------------------------------------------------------------ contents
class Node: pass
class Base(Node):
    n = 0
    def __init__(s, name, kind='uf', cells=None, data=None, dyn=None, nuls=()):
        Base.n += 1; s.name = '%s$%d' % (name, Base.n); s.kind = kind
        s.cells = cells or {}; s.data = data; s.dyn = dyn; s.f = {}; s.nuls = list(nuls)
        s.ord = _ctr()
    def fn(s, n):
        if n not in s.f:
            f = Function('%s:%d!%d' % (s.name, n, s.ord), I, I); s.f[n] = f
            if n == 1: BYTEFN.add(f.name())
            else: axiom(f, lambda a, n=n: [And(a >= 0, a < W[8*n])])
        return s.f[n]
    def __repr__(s): return s.name
class St(Node):
    __slots__ = ('prev', 'off', 'n', 'val')
    def __init__(s, prev, off, n, val): s.prev, s.off, s.n, s.val = prev, off, n, val
class Cp(Node):
    __slots__ = ('prev', 'off', 'n', 'src', 'soff')
    def __init__(s, prev, off, n, src, soff): s.prev, s.off, s.n, s.src, s.soff = prev, off, n, src, soff
class Ms(Node):
    __slots__ = ('prev', 'off', 'n', 'val')
    def __init__(s, prev, off, n, val): s.prev, s.off, s.n, s.val = prev, off, n, val

import irv.terms as _t
def _ctr():
    _t._cnt[0] += 1
    return _t._cnt[0]

def byte_of(v, d):
    if not isz(v): return (v >> (8*d)) & 255
    return mod(div(v, 1 << (8*d)) if d else v, 256)

def rd(st, node, off, n, ptr=False):
    """value of the n bytes at off; st=None: syntactic decisions only (inside quantified facts, n must be 1)"""
    while True:
        if isinstance(node, Base):
            if not isz(off) and off in node.cells and node.cells[off][0] == n:
                return node.cells[off][1]
            if node.dyn is not None:
                r = node.dyn(st, off, n, ptr)
                if r is not None: return r
            if node.kind == 'zero': return NULL if ptr else 0
            if node.kind == 'undef' and ptr: return UNDEF
            if node.kind == 'data':
                if ptr: raise Unsupported('pointer read from constant bytes')
                if not isz(off):
                    if off + n <= len(node.data): return int.from_bytes(node.data[off:off+n], 'little')
                    return 0
                if n == 1:
                    if len(node.data) > 300: raise Unsupported('long constant at symbolic index')
                    r = 0
                    for i, c in enumerate(node.data): r = ite(eq(off, i), c, r)
                    return r
            if not isz(off):
                # a cell that overlaps partially
                for o, (m, v) in node.cells.items():
                    if o <= off and off + n <= o + m and not isinstance(v, (Ptr, Fn)):
                        d = off - o; r = 0
                        for i in range(n): r = add(r, scale(1 << (8*i), byte_of(v, d + i)))
                        return r
            if ptr: raise Unsupported('pointer read from untyped memory %s at %s' % (node, off))
            if n == 1 and isz(off):
                # cells that may be hit by a symbolic byte read are only linked for constant offsets
                pass
            return keep(node.fn(n)(Z(off)))
        d = cdiff(off, node.off)
        m = node.n
        if d is not None and not isz(m):
            if d + n <= 0 or d >= m: node = node.prev; continue
            if d >= 0 and d + n <= m: inside = True
            else: return rd_bytes(st, node, off, n)
        else:
            dd = sub(off, node.off)
            incond = band(le(0, dd), le(add(dd, n), m))
            out = bor(le(add(dd, n), 0), ge(dd, m))
            inside = None
            if not isz(incond): inside = incond
            if inside is None and st is not None:
                if st.quick(incond): inside = True
                elif st.quick(out): inside = False
                elif isinstance(node, St) and n == m and st.quick(bor(eq(dd, 0), out)):
                    if n == 1 and not ptr: inside = None
                    else: raise Fork(eq(dd, 0))
            if not isz(out) and out: inside = False
            if inside is False: node = node.prev; continue
            if inside is None:
                if n == 1 and not ptr:
                    if isinstance(node, St):
                        a = node.val if m == 1 else None
                        if a is None or isinstance(a, (Ptr, Fn)):
                            a = _sel_byte(node.val, dd, m)
                    elif isinstance(node, Ms): a = node.val
                    else: a = rd(st, node.src, add(node.soff, dd), 1)
                    return ite(incond, a, rd(st, node.prev, off, 1))
                if st is not None: raise Fork(incond)
                raise Unsupported('wide read in a quantified fact')
        # inside
        if isinstance(node, St):
            if d is None:
                if st is not None and m == n: d = 0
                elif n == 1: return _sel_byte(node.val, sub(off, node.off), m)
                else: raise Unsupported('symbolic part of a stored word')
            if d == 0 and m == n: return node.val
            v = node.val
            if isinstance(v, (Ptr, Fn)) or v is UNDEF: raise Unsupported('part of a stored pointer')
            r = 0
            for i in range(n): r = add(r, scale(1 << (8*i), byte_of(v, d + i)))
            return r
        if isinstance(node, Ms):
            v = node.val
            if ptr:
                if not isz(v) and v == 0: return NULL
                raise Unsupported('pointer from memset')
            if not isz(v): return int.from_bytes(bytes([v]) * n, 'little')
            r = 0
            for i in range(n): r = add(r, scale(1 << (8*i), v))
            return r
        off = add(node.soff, sub(off, node.off)); node = node.src

def _sel_byte(v, dd, m):
    if isinstance(v, (Ptr, Fn)) or v is UNDEF:
        return fresh('ptrbyte')
    r = byte_of(v, m - 1)
    for i in range(m - 2, -1, -1): r = ite(eq(dd, i), byte_of(v, i), r)
    return r

def rd_bytes(st, node, off, n):
    r = 0
    for i in range(n): r = add(r, scale(1 << (8*i), rd(st, node, add(off, i), 1)))
    return r

def bases(node, shift=0, out=None, depth=0, seen=None):
    """[(Base, shift)]: base index t corresponds to content offset t + shift"""
    if out is None: out = []; seen = set()
    while not isinstance(node, Base):
        key = (id(node), shift.get_id() if isz(shift) else shift)
        if key in seen: return out
        seen.add(key)
        if isinstance(node, Cp) and depth < 6:
            bases(node.src, add(shift, sub(node.off, node.soff)), out, depth + 1, seen)
        node = node.prev
    if node.kind in ('uf', 'undef'):
        for b, s in out:
            if b is node and cdiff(s, shift) == 0: return out
        out.append((node, shift))
    return out

def trig(*specs):
    """specs: (node, shift): quantified k = content offset of node minus shift"""
    t = {}
    for node, shift in specs:
        for b, s in bases(node):
            t.setdefault(b.fn(1).name(), []).append((0, sub(s, shift)))
    return t

# ------------------------------------------------------------------ states
_ver = itertools.count(1)
class State:
    E = None
    def __init__(s):
        s.facts, s.qs, s.mem, s.env = [], [], {}, {}
        s.exp = None; s.ver = next(_ver); s.allocs = []; s.log = {}; s.writes = None; s.terms = []; s.dead = False; s.freed = []
        s.path = ()
    def copy(s):
        c = State.__new__(State)
        c.facts, c.qs, c.mem, c.env = list(s.facts), list(s.qs), dict(s.mem), dict(s.env)
        c.exp = s.exp; c.ver = s.ver; c.allocs = list(s.allocs); c.log = dict(s.log); c.terms = list(s.terms); c.dead = s.dead
        c.writes = list(s.writes) if s.writes is not None else None; c.freed = list(s.freed); c.path = s.path
        return c
    def assume(s, *fs):
        for f in fs:
            if isinstance(f, Q):
                s.qs.append(f); s.ver = next(_ver)
            elif isinstance(f, bool):
                if not f: s.dead = True
            elif isz(f):
                if z3.is_and(f):
                    for c in f.children(): s.assume(c)
                else:
                    keep(f); s.facts.append(f); s.ver = next(_ver)
            elif isinstance(f, (list, tuple)): s.assume(*f)
            else: raise Exception('assume %r' % (f,))
    def term(s, *ts):
        for t in ts:
            if isz(t) and not any(t.get_id() == x.get_id() for x in s.terms): s.terms.append(keep(t))
    def quick(s, g): return s.E.prove(s, g, quick=True)
    def decide(s, g):
        if not isz(g): return g
        if s.quick(g): return True
        if s.quick(bnot(g)): return False
        return None
    # memory
    def node(s, o):
        if o not in s.mem: s.glob(o)
        return s.mem[o][0]
    def alive(s, o):
        if o not in s.mem: s.glob(o)
        return s.mem[o][1]
    def glob(s, o):
        """a global that another global points to"""
        for o2, node in s.E.globals.values():
            if o2 is o: s.mem[o] = (node, True)
    def setnode(s, o, n): s.mem[o] = (n, s.mem[o][1])
    def new(s, o, node):
        s.mem[o] = (node, True)
        return Ptr(o, 0)
    def rdb(s, p, k=0):
        return rd(s, s.node(p.obj), add(p.off, k), 1)
    def rdn(s, p, off, n, ptr=False):
        return rd(s, s.node(p.obj), add(p.off, off), n, ptr)
    def wr(s, o, off, n, val):
        s.setnode(o, store(s, s.node(o), off, n, val))
        if s.writes is not None: s.writes.append((o, off, n, 's'))
    def cp(s, o, off, n, src, soff):
        s.setnode(o, Cp(s.node(o), off, n, src, soff))
        if s.writes is not None: s.writes.append((o, off, n, 'c'))
    def ms(s, o, off, n, val):
        s.setnode(o, Ms(s.node(o), off, n, val))
        if s.writes is not None: s.writes.append((o, off, n, 'm'))

def store(st, node, off, n, val):
    # drop an overwritten store at the same constant place (keeps chains short)
    if isinstance(node, St) and cdiff(off, node.off) == 0 and node.n == n:
        return St(node.prev, off, n, val)
    chain = []; cur = node
    if not isz(off):
        while isinstance(cur, St) and not isz(cur.off) and len(chain) < 40:
            if cur.off == off and cur.n == n:
                cur = cur.prev
                for c in reversed(chain): cur = St(cur, c.off, c.n, c.val)
                return St(cur, off, n, val)
            if not (cur.off + cur.n <= off or off + n <= cur.off): break
            chain.append(cur); cur = cur.prev
    return St(node, off, n, val)

# ------------------------------------------------------------------ prover
class Result:
    __slots__ = ('name', 'ok', 'why', 'line', 'fn', 'model', 'ms')
    def __init__(s, name, ok, why='', line=None, fn=None, model=None, ms=0): s.name, s.ok, s.why, s.line, s.fn, s.model, s.ms = name, ok, why, line, fn, model, ms

QUICK_RL = 400000
FULL_RL = 12000000
MAXINST = 1500

def assert_all(sol, fs):
    if not fs: return
    n = len(fs)
    arr = (z3.Ast * n)(*[f.ast for f in fs])
    c = fs[0].ctx_ref()
    sol.add(z3.BoolRef(z3.Z3_mk_and(c, n, arr), fs[0].ctx) if n > 1 else fs[0])
class Exp:
    """facts of a state with the instances of its quantified facts and of the axioms"""
    __slots__ = ('gen', 'out', 'outids', 'trigs', 'byname', 'done', 'nf', 'nq', 'solver', 'queue', 'mul')
    def __init__(s):
        s.gen, s.out, s.outids, s.trigs, s.byname, s.done = {}, [], set(), {}, {}, set()
        s.nf = s.nq = 0; s.solver = None; s.queue = []; s.mul = []
    def clone(s):
        c = Exp.__new__(Exp)
        c.gen = dict(s.gen); c.out = list(s.out); c.outids = set(s.outids); c.done = set(s.done)
        c.trigs = {k: list(v) for k, v in s.trigs.items()}; c.byname = {k: list(v) for k, v in s.byname.items()}
        c.nf, c.nq = s.nf, s.nq; c.solver = None; c.queue = []; c.mul = list(s.mul)
        return c
    def addapps(s, f, g):
        gen = s.gen; ismul = False
        for a in apps(f):
            o = gen.get(a)
            if o is None or g < o:
                gen[a] = g; s.queue.append((a, o is None))
            if appname(a) == 'MUL': ismul = True
        return ismul
    def emit(s, f, g):
        if isinstance(f, (list, tuple)):
            for x in f: s.emit(x, g)
        elif isinstance(f, Q): s.addq(f, g)
        elif not isz(f):
            if f is False: s.out.append(keep(z3.BoolVal(False)))
        else:
            i = f.get_id()
            if i in s.outids: return
            s.outids.add(i); keep(f); s.out.append(f)
            if s.addapps(f, g): s.mul.append(f)
    def fire(s, q, ai, sh, a, g):
        k, kid = trigk(a, ai, sh)
        key = (q.id, kid)
        if key in s.done: return
        s.done.add(key)
        s.emit(q.inst2(k, kid), g + 1)
    def addq(s, q, g0):
        gen = s.gen
        for name, l in q.triggers.items():
            s.trigs.setdefault(name, []).extend((q, ai, sh, i) for i, (ai, sh) in enumerate(l))
            for a2 in list(s.byname.get(name, ())):
                if gen[a2] <= q.maxgen:
                    for ai, sh in (l if gen[a2] == 0 or len(l) == 1 else l[:1]): s.fire(q, ai, sh, a2, max(g0, gen[a2]))
    def facts(s, fs, qs, limit):
        for f in fs: s.emit(f, 0)
        for q in qs: s.addq(q, 0)
        qi = 0; queue = s.queue; gen = s.gen
        while qi < len(queue):
            a, new = queue[qi]; qi += 1
            if len(s.out) >= limit and (gen[a] > 0 or len(s.out) >= 4 * limit): continue      # over the limit: only what the facts themselves mention
            nm = appname(a); g = gen[a]
            if new: s.byname.setdefault(nm, []).append(a)
            for f in axinst(a, nm, g): s.emit(f, g + 1)
            for q, ai, sh, i in list(s.trigs.get(nm, ())):
                if g <= q.maxgen and (i == 0 or g == 0): s.fire(q, ai, sh, a, g)
        s.queue = []

_lem = {}
class Prover:
    def __init__(s):
        s.cache = {}; s.nq = 0; s.tq = 0.0; s.nfull = 0; s.backends = {'z3': 0, 'cvc5': 0}
        s.deadline = None; s.solvers = []; s.slow = float(__import__('os').environ.get('SLOW', 0))
    def mul_lemmas(s, fs, goal=()):
        """instances of  b >= 0, q >= 0 => q*b >= 0  (and their kin) for the products the formulas mention"""
        groups = {}; has = False; monos = {}; gq = {}
        gids = {g.get_id() for g in goal}
        for f in fs:
            for a in apps(f):
                if byid(a).decl().name() == 'MUL': monos[a] = byid(a)
        if not monos: return []
        def note(b, q):
            g = groups.setdefault(b.get_id(), (b, {}))[1]
            if isz(q): g.setdefault(q.get_id(), q)
        for x in monos.values():
            for p, q in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))): note(q, p)
        for f in list(goal) + list(fs):
            if not any(a in monos for a in apps(f)): continue
            isg = f.get_id() in gids
            for c in atoms_cmp(f):
                if not any(a in monos for a in apps(c)): continue
                for side in (sub(c.arg(1), c.arg(0)), lift(c.arg(0)), lift(c.arg(1))):
                    if not isz(side): continue
                    ld, c0, la = lin(side); bs = {}
                    for k, v in ld.items():
                        x = la[k]
                        if z3.is_app(x) and x.decl().name() == 'MUL' and x.num_args() == 2:
                            for p, q in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                                bs.setdefault(q.get_id(), (q, {}))[1][p.get_id()] = (p, v)
                    for bid, (b, qd) in bs.items():
                        Qv = ld.get(bid, 0)
                        for p, v in qd.values(): Qv = add(Qv, scale(v, p))
                        note(b, Qv)
                        if isg and isz(Qv): gq.setdefault(bid, {}).setdefault(Qv.get_id(), Qv)
        # places of one content that may coincide: the difference of the two arguments
        byf = {}
        for f in list(goal) + list(fs):
            for a in apps(f):
                x = byid(a)
                if x.num_args() == 1 and appname(a) in BYTEFN and x.arg(0).get_id() not in [y.get_id() for y in byf.get(appname(a), ())] and any(b in monos for b in apps(x.arg(0))): byf.setdefault(appname(a), []).append(x.arg(0))
        for l in byf.values():
            l = l[:8]
            for i, x in enumerate(l):
                for y in l[i+1:]:
                    ld, c0, la = lin(sub(x, y)); bs = {}
                    for k, v in ld.items():
                        z = la[k]
                        if k in monos:
                            for p, q in ((z.arg(0), z.arg(1)), (z.arg(1), z.arg(0))): bs.setdefault(q.get_id(), (q, {}))[1][p.get_id()] = (p, v)
                    for bid, (b, qd) in bs.items():
                        Qv = ld.get(bid, 0)
                        for p, v in qd.values(): Qv = add(Qv, scale(v, p))
                        if isz(Qv): note(b, Qv); gq.setdefault(bid, {}).setdefault(Qv.get_id(), Qv)
        out = []; seen = set()
        def lem(b, Qv):
            if not isz(Qv): return
            key = (b.get_id(), Qv.get_id())
            if key in seen: return
            seen.add(key)
            r = _lem.get(key)
            if r is None:
                keep(Qv); keep(b)
                P_ = mul(Qv, b); bp = ge(b, 0)
                r = _lem[key] = [x for x in (implies(band(bp, ge(Qv, 0)), ge(P_, 0)), implies(band(bp, ge(Qv, 1)), ge(P_, b)),
                    implies(band(bp, le(Qv, 0)), le(P_, 0)), implies(band(bp, le(Qv, -1)), le(P_, scale(-1, b)))) if isz(x)]
            out.extend(r)
        for b, g in groups.values():
            qs = list(g.values())
            for q in qs: lem(b, q)
            if len(qs) <= 14:
                for i, q in enumerate(qs):
                    for r in qs[i+1:]: lem(b, sub(q, r))
            else:
                gi = gq.get(b.get_id(), {})
                for q in list(gi.values())[:12]:
                    for r in qs[:60]: lem(b, sub(q, r))
        return [x for x in out if isz(x)]
    def base(s, st):
        """the expanded facts of a state (shared along the path, extended incrementally)"""
        e = st.exp
        if e is not None and e.nf == len(st.facts) and e.nq == len(st.qs): return e
        if e is None: e = Exp()
        else: e = e.clone()
        e.facts(st.facts[e.nf:], st.qs[e.nq:], MAXINST); e.nf = len(st.facts); e.nq = len(st.qs)
        st.exp = e
        return e
    def check(s, st, extra, rl, want_model=False):
        s.nq += 1; t0 = time.time()
        if any(x is False for x in extra): return z3.unsat, None
        extra = [x for x in extra if isz(x)]
        b = s.base(st)
        if b.solver is None:
            b.solver = z3.SimpleSolver(); assert_all(b.solver, b.out)
            s.solvers.append(b)
            if len(s.solvers) > 40: s.solvers.pop(0).solver = None
        e = b.clone()
        e.facts(extra, (), len(b.out) + 500)
        new = e.out[len(b.out):]
        if e.mul: new = new + s.mul_lemmas(e.mul, extra)
        sol = b.solver
        sol.push()
        sol.set('rlimit', rl); sol.set('timeout', 20000)
        assert_all(sol, new)
        r = sol.check()
        m = None
        if want_model and r == z3.sat: m = sol.model()
        sol.pop()
        dt = time.time() - t0
        s.tq += dt
        if s.slow and dt > s.slow: print('   slow %.1fs %s facts=%d+%d goal=%s' % (dt, r, len(b.out), len(new), ' '.join(str(extra)[:800].split())[:200]))
        s.last = (b.out, new)
        return r, m
    def prove(s, st, goal, quick=False):
        if isinstance(goal, bool): return goal or st.dead
        if st.dead: return True
        key = (st.ver, goal.get_id(), quick)
        r = s.cache.get(key)
        if r is not None: return r
        keep(goal)
        if not quick and s.cache.get((st.ver, goal.get_id(), True)): return True
        ng = bnot(goal)
        res, _ = s.check(st, [ng], QUICK_RL if quick else FULL_RL)
        ok = res == z3.unsat
        if ok: s.backends['z3'] += 1
        elif not quick and res == z3.unknown:
            ok = s.cvc5(s.last[0] + s.last[1])
        s.cache[key] = ok
        return ok
    def cvc5(s, fs):
        import subprocess, tempfile, os
        sol = z3.Solver(); sol.add(*fs)
        txt = '(set-logic ALL)\n' + sol.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
        try:
            r = subprocess.run(['cvc5', '--tlimit=15000', f.name], capture_output=True, text=True, timeout=30)
            ok = r.stdout.strip().startswith('unsat')
        except Exception: ok = False
        os.unlink(f.name)
        if ok: s.backends['cvc5'] += 1
        return ok
