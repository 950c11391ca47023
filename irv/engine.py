"""Symbolic execution of functions (LLVM IR of the real code) against contracts; loop invariants are inferred
(Houdini) from generated candidates and from the candidate schemas a contract supplies, then checked like any other."""
import z3, time, sys, re
from .terms import *
from .core import *
from . import bits
from .llparse import *

class Frame:
    def __init__(s, f, depth, spec=None):
        s.f, s.depth, s.spec = f, depth, spec
        s.loops, s.dom, s.reach = analyse_loops(f)

class TooMuch(Exception): pass
class Out:
    __slots__ = ('k', 'st', 'a', 'b')
    def __init__(s, k, st, a=None, b=None): s.k, s.st, s.a, s.b = k, st, a, b

def s2u(v, w): return v % (1 << w)

class View:
    """what candidate invariants can see of a loop state"""
    def __init__(s, E, st, slots, vals, cars, ctx):
        s.E, s.slots, s.vals, s.cars, s.ctx = E, slots, vals, cars, ctx
        s.st = st.copy() if st is not None else None      # a snapshot: candidates are evaluated lazily
    def ints(s):
        """{key: value} of all integer loop variables (pointer offsets included)"""
        o = {}
        for k, v in s.vals.items():
            if isinstance(v, Ptr):
                if v.obj is not None and v.obj.kind == 'family':
                    from .family import split
                    o[('idx',) + k] = split(v.off)[0]
                elif v.obj is not None or isz(v.off) or k in s.ctx.nullvar: o[('off',) + k] = v.off
            elif isinstance(v, bool) or (isz(v) and z3.is_bool(v)): pass
            elif isinstance(v, (Fn, Dbl, PInt)) or v is UNDEF: pass
            else: o[k] = v
        for k, ob in s.cars.items():
            o[('size',) + k] = ob.size
        return o
    def ptrs(s):
        return {k: v for k, v in s.vals.items() if isinstance(v, Ptr)}
    def objs(s):
        """objects pointed to by loop variables, by slot"""
        return {k: v.obj for k, v in s.vals.items() if isinstance(v, Ptr) and v.obj is not None}

class Engine(Prover):
    def __init__(s, modules):
        Prover.__init__(s)
        State.E = s
        s.mods = modules; s.funcs = {}; s.fmod = {}
        for fn, m in modules.items():
            for n, f in m.funcs.items():
                s.funcs[(fn, n)] = f
        s.contracts = {}       # name -> Spec
        s.models = {}          # libc models: name -> fn(E, st, fr, args, inst) -> [(st, val)]
        s.obl = []; s.quiet = 0; s.nolog = 0; s.track = []
        s.globals = {}
        s.cur = None; s.schemas = []; s.alloc_fail = False
        s.maxpaths = 4000; s.npaths = 0
        s.log = None
        s.inlined = set(); s.used_contracts = set(); s.used_models = set()
        s.fnmodel = None
        s.step_limit = 400000; s.steps = 0
        s.loopinfo = []
        s.loopcache = {}
        s.time_limit = None; s.only = None     # build this case only
    # ---------------------------------------------------------------- lookup
    def find(s, name, mod=None):
        if not name.startswith('@'): name = '@' + name
        if mod is not None and (mod, name) in s.funcs: return mod, s.funcs[(mod, name)]
        for (m, n), f in s.funcs.items():
            if n == name and not f.internal: return m, f
        for (m, n), f in s.funcs.items():
            if n == name: return m, f
        return None, None
    # ---------------------------------------------------------------- obligations
    def oblige(s, st, kind, goal, line=None, fn=None):
        """prove goal on this path, record the result, then assume it"""
        if s.quiet:
            st.assume(goal); return
        if st.dead: return
        t0 = time.time()
        if isinstance(goal, Q): raise Exception('use oblige_q')
        ok = s.prove(st, goal) if isz(goal) else bool(goal)
        model = None
        if not ok:
            try:
                r, m = s.check(st, [bnot(goal)], QUICK_RL * 4, want_model=True)
                if m is not None: model = [(str(d), str(m[d])) for d in m.decls() if d.arity() == 0][:40]
                if r == z3.unsat: ok = True
                why = 'counter-model found' if r == z3.sat else 'solver: ' + str(r)
            except z3.Z3Exception as e: why = str(e)
        else: why = ''
        s.obl.append(Result(kind, ok, why, line, fn or (s.cur and s.cur.name), model, int(1000 * (time.time() - t0))))
        if s.log and not ok and not s.nolog: s.log('  FAIL %s line %s: %s' % (kind, line, ' '.join(str(goal)[:2000].split())[:260]))
        st.assume(goal)
    def oblige_q(s, st, kind, body, lo=None, hi=None, line=None, name='k'):
        """forall k (lo<=k<hi): body(k), by a fresh constant"""
        k = fresh(name)
        s2 = st.copy()
        if lo is not None: s2.assume(le(lo, k))
        if hi is not None: s2.assume(lt(k, hi))
        if s2.dead: 
            s.obl.append(Result(kind, True, '', line, s.cur and s.cur.name)); return
        s.oblige(s2, kind, body(k), line)
    # ---------------------------------------------------------------- memory access
    def access(s, st, p, n, what, inst, write=False):
        ln = inst.line if inst is not None else None
        if not isinstance(p, Ptr):
            raise Unsupported('access through %r' % (p,))
        if p.obj is None:
            s.oblige(st, what + ' through a null pointer', False, ln); st.dead = True; return False
        o = p.obj
        if o.kind == 'opaque': raise Unsupported('access to opaque object %s' % o)
        al = st.alive(o)
        if al is not True: s.oblige(st, what + ' of released memory', al, ln)
        if o.kind == 'family':
            s.oblige(st, what + ' out of bounds', o.meta['valid'](st, p.off, n), ln)
        else:
            s.oblige(st, what + ' out of bounds', band(le(0, p.off), le(add(p.off, n), o.size)), ln)
        if write and o.kind == 'const': s.oblige(st, 'write to constant data', False, ln)
        if write and o.meta.get('readonly'): s.oblige(st, 'write to data the caller declared const', False, ln)
        return not st.dead
    def range_ok(s, st, p, n, what, inst, write=False):
        """n bytes at p are accessible (n may be zero or symbolic)"""
        ln = inst.line if inst is not None else None
        if p.obj is None:
            s.oblige(st, what + ' through a null pointer', eq(n, 0), ln); return
        o = p.obj; al = st.alive(o)
        if al is not True: s.oblige(st, what + ' of released memory', bor(eq(n, 0), al), ln)
        if o.kind == 'family': g = o.meta['valid'](st, p.off, n)
        else: g = band(le(0, p.off), le(add(p.off, n), o.size))
        s.oblige(st, what + ' out of bounds', bor(le(n, 0), g), ln)
        if write and (o.kind == 'const' or o.meta.get('readonly')): s.oblige(st, 'write to constant data', le(n, 0), ln)
    # ---------------------------------------------------------------- globals
    def glob(s, st, mod, name):
        key = (mod, name)
        if (mod, name) in s.funcs or s.find(name)[1] is not None or name in s.mods[mod].decls:
            return Fn(name)
        if key not in s.globals:
            t, v, const = s.mods[mod].globals[name]
            if t is None:
                o = Obj('ext' + name, 8, 'opaque'); s.globals[key] = (o, Base('ext'))
            else:
                o = Obj(name, sizeof(t), 'const' if const else 'global')
                s.globals[key] = (o, None)
                s.globals[key] = (o, s.ginit(st, mod, name, t, v))
        o, node = s.globals[key]
        if o not in st.mem: st.mem[o] = (node, True)
        return Ptr(o, 0)
    def ginit(s, st, mod, name, t, v):
        if v.k == 'cstr':
            return Base(name, 'data', data=v.v)
        cells = {}
        def go(t, v, o):
            if v.k in ('zero',): 
                return
            if v.k == 'agg':
                if t.k == 'struct':
                    for i, x in enumerate(v.v): go(t.f[i], x, o + fieldoff(t, i))
                else:
                    for i, x in enumerate(v.v): go(t.e, x, o + i * sizeof(t.e))
            elif v.k == 'cstr':
                for i, c in enumerate(v.v): cells[o + i] = (1, c)
            elif v.k == 'int': cells[o] = (sizeof(t), s2u(v.v, t.w))
            else: cells[o] = (sizeof(t), s.const(st, mod, v))
        go(t, v, 0)
        return Base(name, 'zero', cells=cells)
    def const(s, st, mod, v):
        if v.k == 'int':
            return bool(v.v & 1) if v.t.w == 1 else s2u(v.v, v.t.w)
        if v.k == 'null': return NULL
        if v.k == 'glob': return s.glob(st, mod, v.v)
        if v.k == 'undef': return UNDEF
        if v.k == 'fp': return Dbl('int', int(v.v)) if v.v == int(v.v) else Dbl('real', v.v)
        if v.k == 'zero':
            if v.t.k == 'ptr': return NULL
            if v.t.k == 'int': return 0
            raise Unsupported('zeroinitializer operand')
        if v.k == 'cexpr':
            if v.v[0] == 'inttoptr':
                return Ptr(None, s2u(v.v[1].v, 64))
            _, bt, ops = v.v
            return s.gep(st, bt, [s.const(st, mod, o) for o in ops], [o.t for o in ops])
        raise Unsupported('constant ' + v.k)
    def val(s, st, fr, v):
        if v.k == 'loc':
            if v.v not in st.env: raise Unsupported('undefined ' + v.v)
            return st.env[v.v]
        return s.const(st, fr.mod, v)
    def signed(s, st, x, w):
        if not isz(x): return x - (1 << w) if x >= (1 << (w-1)) else x
        if st is not None:
            if st.quick(lt(x, 1 << (w-1))): return x
            if st.quick(ge(x, 1 << (w-1))): return sub(x, 1 << w)
        return ite(ge(x, 1 << (w-1)), sub(x, 1 << w), x)
    def gep(s, st, bt, ops, tys):
        p = ops[0]
        if isinstance(p, Fn): raise Unsupported('gep on function')
        if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
        off = p.off
        off = add(off, mul(s.signed(st, ops[1], tys[1].w), sizeof(bt)))
        t = bt
        for v, ty in zip(ops[2:], tys[2:]):
            if t.k == 'struct':
                off = add(off, fieldoff(t, v)); t = t.f[v]
            elif t.k == 'arr':
                off = add(off, mul(s.signed(st, v, ty.w), sizeof(t.e))); t = t.e
            else: raise Unsupported('gep into ' + t.k)
        return Ptr(p.obj, off)
    # ---------------------------------------------------------------- arithmetic
    def wrap(s, st, r, w, neg=False):
        M = 1 << w
        if not isz(r): return r % M
        t = bits.top(r)
        if t is not None and t < M: return r
        if st.quick(band(ge(r, 0), lt(r, M))): return r
        if st.quick(band(ge(r, -M), lt(r, 0))): return add(r, M)
        if st.quick(band(ge(r, M), lt(r, 2*M))): return sub(r, M)
        if st.quick(band(ge(r, -M), lt(r, M))): return ite(lt(r, 0), add(r, M), r)
        if st.quick(band(ge(r, 0), lt(r, 2*M))): return ite(ge(r, M), sub(r, M), r)
        return mod(r, M)
    def binop(s, st, fr, inst):
        op = inst.op; a = s.val(st, fr, inst.a[0]); b = s.val(st, fr, inst.a[1]); fl = inst.a[2]
        t = inst.t
        if t.k != 'int':
            return s.fop(st, op, a, b)
        w = t.w
        if a is UNDEF or b is UNDEF: raise Unsupported('undef operand')
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.obj is b.p.obj: return s.wrap(st, sub(a.p.off, b.p.off), w)
                if isnull(b.p): return a
                raise Unsupported('difference of unrelated pointers (%s, %s)' % (a.p.obj, b.p.obj))
            raise Unsupported('arithmetic on addresses')
        if w == 1:
            if op == 'xor': return s.xorb(a, b)
            if op == 'and': return band(a, b)
            if op == 'or': return bor(a, b)
            raise Unsupported('i1 ' + op)
        if op in ('and', 'or', 'lshr') and (isz(a) != isz(b)):
            x, m = (a, b) if isz(a) else (b, a)
            if op != 'lshr' or isz(a):
                r = {'and': bits.and_const, 'or': bits.or_const, 'lshr': bits.shr_const}[op](x, m, w)
                if r is not None: return r
        if op == 'mul' and isz(a) and isz(b): a, b = bits.named(st, a), bits.named(st, b)
        if op == 'add': return s.wrap(st, add(a, b), w)
        if op == 'sub': return s.wrap(st, sub(a, b), w)
        if op == 'mul': return s.wrap(st, mul(a, b), w)
        if op in ('udiv', 'urem'):
            s.oblige(st, 'division by zero', ne(b, 0), inst.line)
            if st.dead: return 0
            if isz(b):
                dv = st.decide(ge(a, b))
                raise Unsupported('division by a symbolic value')
            return div(a, b) if op == 'udiv' else mod(a, b)
        if op == 'and':
            if not isz(a): a, b = b, a
            if not isz(a): return a & b
            if not isz(b):
                if b == (1 << w) - 1: return a
                if (b & (b + 1)) == 0: return mod(a, b + 1)
                if b == 0: return 0
                # single bit test or shifted mask
                lo = (b & -b).bit_length() - 1
                m = b >> lo
                if (m & (m + 1)) == 0:
                    return scale(1 << lo, mod(div(a, 1 << lo), m + 1))
            h = s.and_hook(st, a, b, w)
            if h is not None: return h
            return s.ufop('AND%d' % w, a, b, w)
        if op == 'or':
            if not isz(a) and not isz(b): return a | b
            if not isz(b) and b == 0: return a
            if not isz(a) and a == 0: return b
            return s.ufop('OR%d' % w, a, b, w)
        if op == 'xor':
            if not isz(a) and not isz(b): return a ^ b
            if not isz(b) and b == (1 << w) - 1: return sub((1 << w) - 1, a)
            return s.ufop('XOR%d' % w, a, b, w)
        if op == 'shl':
            if not isz(b): return s.wrap(st, mul(a, 1 << b), w)
            return s.ufop('SHL%d' % w, a, b, w, False)
        if op == 'lshr':
            if not isz(b): return div(a, 1 << b)
            return s.ufop('LSHR%d' % w, a, b, w, False)
        if op in ('sdiv', 'srem'):
            if not isz(a) and not isz(b) and a < (1 << (w-1)) and 0 < b < (1 << (w-1)): return a // b if op == 'sdiv' else a % b
            if not isz(b) and 0 < b < (1 << (w-1)) and st.quick(lt(a, 1 << (w-1))): return div(a, b) if op == 'sdiv' else mod(a, b)
        raise Unsupported('binop ' + op)
    def and_hook(s, st, a, b, w): 
        for h in getattr(s, 'and_hooks', ()):
            r = h(st, a, b, w)
            if r is not None: return r
        return None
    def xorb(s, a, b):
        if not isz(a): a, b = b, a
        if not isz(b): return (a if not b else bnot(a))
        return keep(z3.Xor(a, b))
    def ufop(s, name, a, b, w, comm=True):
        a, b = Z(a), Z(b)
        keep(a); keep(b)
        if comm and (str(a) > str(b)): a, b = b, a
        f = Function(name, I, I, I)
        if name not in AXIOMS:
            axiom(f, lambda x, w=w: [And(x >= 0, x < (1 << w))])
        return keep(f(a, b))
    def fop(s, st, op, a, b):
        if op == 'fadd' and a.k == 'int' and b.k == 'int': return Dbl('int', add(a.e, b.e))
        if op == 'fdiv' and a.k == 'int' and b.k == 'int': return Dbl('div', a.e, b.e)
        if op == 'fsub' and a.k == 'int' and b.k == 'int': return Dbl('int', sub(a.e, b.e))
        if op == 'fdiv': return Dbl('fdiv', a, b)
        raise Unsupported('floating point ' + op)
    def icmp(s, st, pr, a, b, t):
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt): a, b = a.p, b.p
            else:
                p, x = (a, b) if isinstance(a, PInt) else (b, a)
                if not isz(x) and x == 0: a, b = p.p, NULL
                else: raise Unsupported('comparison of an address')
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if a is UNDEF or b is UNDEF: raise Unsupported('comparison of an undefined pointer')
            if isinstance(a, Fn) or isinstance(b, Fn):
                if isinstance(a, Fn) and isinstance(b, Fn):
                    same = a.name == b.name
                    if not same and (a.name.startswith('?') or b.name.startswith('?')): raise Unsupported('comparison of unknown functions')
                else:
                    same = False
                return same if pr == 'eq' else not same
            if a.obj is b.obj:
                if a.obj is None or True:
                    x, y = a.off, b.off
            elif a.obj is None or b.obj is None:
                o, q = (a, b) if b.obj is None else (b, a)
                if o.obj.meta.get('nullif') and isnull(q) and pr in ('eq', 'ne'):
                    n = o.obj.meta['nullif'](o.off); return n if pr == 'eq' else bnot(n)
                if pr == 'eq': return False
                if pr == 'ne': return True
                raise Unsupported('ordering against null')
            else:
                if pr == 'eq': return False
                if pr == 'ne': return True
                raise Unsupported('ordering of unrelated pointers')
            if pr == 'eq': return eq(x, y)
            if pr == 'ne': return ne(x, y)
            return {'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge, 'slt': lt, 'sle': le, 'sgt': gt, 'sge': ge}[pr](x, y)
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of an undefined value')
        if pr == 'eq': return eq(a, b)
        if pr == 'ne': return ne(a, b)
        if t.w == 1: raise Unsupported('i1 ordering')
        if pr[0] == 's':
            w = t.w
            a = s.signed(st, a, w); b = s.signed(st, b, w)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pr[1:]](a, b)
    # ---------------------------------------------------------------- running
    def run(s, fr, items, region=None, header=None):
        """items: [(state, block, previous block, index)]; index -1: phis already bound"""
        outs = []
        blocks = fr.f.blocks
        while items:
            st, blk, prev, idx = items.pop()
            if st.dead: continue
            if s.deadline and time.time() > s.deadline: raise TooMuch('time limit')
            if idx == 0:
                if region is not None:
                    if blk == header and prev in region:
                        outs.append(Out('back', st, prev)); continue
                    if blk not in region:
                        outs.append(Out('exit', st, blk, prev)); continue
                if blk in fr.loops and prev not in fr.loops[blk]:
                    for o in s.loop(fr, st, blk, prev):
                        if o.k == 'exit': items.append((o.st, o.a, o.b, 0))
                        else: outs.append(o)
                    continue
                try: s.bind_phis(fr, st, blk, prev)
                except Fork as f:
                    s.dofork(st, f.cond, items, (blk, prev, 0)); continue
                idx = s.nphi(fr, blk)
            elif idx < 0: idx = s.nphi(fr, blk)
            b = blocks[blk]; done = False
            while not done:
                inst = b.ins[idx]
                s.steps += 1
                if s.steps > s.step_limit: raise TooMuch('step limit')
                op = inst.op
                try:
                    if op == 'br':
                        items.append((st, inst.a[0], blk, 0)); done = True
                    elif op == 'cbr':
                        c = s.val(st, fr, inst.a[0])
                        if c is UNDEF: raise Unsupported('branch on an undefined value')
                        if s.track and s.track[-1][0] is fr:
                            reg = s.track[-1][1]
                            if (inst.a[1] not in reg or inst.a[2] not in reg) and (len(s.track[-1]) > 3 and s.track[-1][3] or not s.ptrcond(fr, inst.a[0])):
                                s.track[-1][2].append(not isz(c))
                        if not isz(c):
                            items.append((st, inst.a[1] if c else inst.a[2], blk, 0))
                        else:
                            d = st.decide(c)
                            if d is None:
                                s.npaths += 1
                                if s.npaths > s.maxpaths: raise TooMuch('path limit')
                                s2 = st.copy(); s2.assume(bnot(c)); items.append((s2, inst.a[2], blk, 0))
                                st.assume(c); items.append((st, inst.a[1], blk, 0))
                            else:
                                st.assume(c if d else bnot(c))
                                items.append((st, inst.a[1] if d else inst.a[2], blk, 0))
                        done = True
                    elif op == 'switch':
                        v = s.val(st, fr, inst.a[0]); rest = st
                        for cv, tgt in inst.a[2]:
                            c = eq(v, s2u(cv, inst.a[0].t.w))
                            d = rest.decide(c)
                            if d is False: continue
                            if d is True: items.append((rest, tgt, blk, 0)); rest = None; break
                            s2 = rest.copy(); s2.assume(c); items.append((s2, tgt, blk, 0)); rest = rest.copy(); rest.assume(bnot(c))
                        if rest is not None: items.append((rest, inst.a[1], blk, 0))
                        done = True
                    elif op == 'ret':
                        v = None if inst.a[0] is None else (s.agg(st, fr, inst.a[0]) if inst.a[0].k == 'agg' else s.val(st, fr, inst.a[0]))
                        outs.append(Out('ret', st, v)); done = True
                    elif op == 'unreachable':
                        done = True
                    elif op == 'call':
                        r = s.call(fr, st, inst)
                        if r is None:          # simple: value already bound
                            if st.dead: break
                            idx += 1
                        else:
                            for s2, v in r:
                                if s2.dead: continue
                                if inst.name: s2.env[inst.name] = v
                                items.append((s2, blk, prev, idx + 1 if idx + 1 > 0 else idx + 1))
                            done = True
                    else:
                        s.exec1(fr, st, inst)
                        if st.dead: break
                        idx += 1
                except Fork as f:
                    s.dofork(st, f.cond, items, (blk, prev, idx if idx > 0 else -1)); done = True
                if not done and idx >= len(b.ins): raise Unsupported('fell off block')
        return outs
    def ptrcond(s, fr, v):
        d = getattr(fr, 'defs', None)
        if d is None:
            d = fr.defs = {i.name: i for b in fr.f.blocks.values() for i in b.ins if i.name}
        i = d.get(v.v) if v.k == 'loc' else None
        if i is None or i.op != 'icmp': return False
        if i.a[1].t.k == 'ptr': return True
        j = d.get(i.a[1].v) if i.a[1].k == 'loc' else None           # the two outcomes of a comparison of strings are explored separately
        return j is not None and j.op == 'call' and s.compares(fr.mod, j.a[0].v)
    def compares(s, mod, name, depth=0):
        """a function whose result depends on comparing texts"""
        if name in ('@strcmp', '@strncmp', '@memcmp', '@bcmp', '@strncasecmp', '@regexec'): return True
        m, f = s.find(name, mod) if isinstance(name, str) else (None, None)
        return f is not None and depth < 3 and any(i.op == 'call' and s.compares(m, i.a[0].v, depth + 1) for b in f.blocks.values() for i in b.ins)
    def deciding(s, fr, region):
        """is there a branch out of the loop that could decide how often it runs?"""
        for b in region:
            for i in fr.f.blocks[b].ins:
                if i.op == 'cbr' and (i.a[1] not in region or i.a[2] not in region) and not s.ptrcond(fr, i.a[0]): return True
        return False
    def dofork(s, st, c, items, where):
        s.npaths += 1
        if s.npaths > s.maxpaths: raise TooMuch('path limit')
        s2 = st.copy(); s2.assume(bnot(c)); st.assume(c)
        items.append((s2,) + where); items.append((st,) + where)
    def nphi(s, fr, blk):
        n = 0
        for i in fr.f.blocks[blk].ins:
            if i.op != 'phi': break
            n += 1
        return n
    def phi_vals(s, fr, st, blk, prev):
        out = {}
        for i in fr.f.blocks[blk].ins:
            if i.op != 'phi': break
            for v, p in i.a:
                if p == prev: out[i.name] = s.val(st, fr, v); break
            else: raise Unsupported('phi without edge')
        return out
    def bind_phis(s, fr, st, blk, prev):
        st.env.update(s.phi_vals(fr, st, blk, prev))
    def agg(s, st, fr, v): return {'agg': [s.val(st, fr, x) for x in v.v]}
    def exec1(s, fr, st, inst):
        op = inst.op; val = lambda v: s.val(st, fr, v)
        if op == 'alloca':
            t, n = inst.a; sz = sizeof(t)
            if n is not None: sz = mul(val(n), sz)
            o = Obj(fr.f.name + ':' + inst.name, sz, 'stack')
            b = o.meta['fresh'] = Base(inst.name[1:], 'undef')
            st.env[inst.name] = st.new(o, b)
            return
        if op == 'load':
            p = val(inst.a[0]); t = inst.t; n = sizeof(t)
            if not s.access(st, p, n, 'read', inst): return
            if t.k == 'struct':
                v = {'agg': [s.rdt(st, Ptr(p.obj, add(p.off, fieldoff(t, i))), x) for i, x in enumerate(t.f)]}
            else: v = s.rdt(st, p, t)
            st.env[inst.name] = v; return
        if op == 'store':
            v = val(inst.a[0]); p = val(inst.a[1]); t = inst.a[0].t
            if isinstance(v, dict):
                if not s.access(st, p, sizeof(t), 'write', inst, True): return
                for i, x in enumerate(t.f): st.wr(p.obj, add(p.off, fieldoff(t, i)), sizeof(x), v['agg'][i])
                return
            if t.k == 'int' and t.w == 1: v = ite(v, 1, 0)
            if not s.access(st, p, sizeof(t), 'write', inst, True): return
            if isinstance(v, PInt): raise Unsupported('stored address')
            st.wr(p.obj, p.off, sizeof(t), v); return
        if op == 'gep':
            bt, ops = inst.a
            st.env[inst.name] = s.gep(st, bt, [val(o) for o in ops], [o.t for o in ops]); return
        if op == 'icmp':
            pr, a, b = inst.a
            st.env[inst.name] = s.icmp(st, pr, val(a), val(b), a.t); return
        if op in ('zext', 'sext', 'trunc'):
            v = val(inst.a[0]); w0 = inst.a[0].t.w; w = inst.t.w
            if v is UNDEF: st.env[inst.name] = UNDEF; return
            if op == 'zext': r = ite(v, 1, 0) if w0 == 1 else v
            elif op == 'sext':
                if w0 == 1: r = ite(v, (1 << w) - 1, 0)
                else:
                    sv = s.signed(st, v, w0)
                    if not isz(sv): r = sv % (1 << w)
                    elif isz(v) and sv.get_id() == v.get_id(): r = v
                    elif st.quick(lt(sv, 0)): r = add(sv, 1 << w)
                    else: r = ite(ge(v, 1 << (w0-1)), add(v, (1 << w) - (1 << w0)), v)
            else:
                if isinstance(v, PInt): raise Unsupported('truncated address')
                if w == 1: r = eq(mod(v, 2), 1)
                elif not isz(v): r = v % (1 << w)
                elif st.quick(lt(v, 1 << w)): r = v
                elif st.quick(ge(v, (1 << w0) - (1 << (w-1)))): r = sub(v, (1 << w0) - (1 << w))
                else: r = mod(v, 1 << w)
            st.env[inst.name] = r; return
        if op == 'ptrtoint': st.env[inst.name] = PInt(val(inst.a[0])); return
        if op == 'inttoptr':
            v = val(inst.a[0])
            if isinstance(v, PInt): st.env[inst.name] = v.p; return
            raise Unsupported('inttoptr')
        if op in ('bitcast', 'freeze'): st.env[inst.name] = val(inst.a[0]); return
        if op == 'select':
            c, a, b = inst.a; cv = val(c); x, y = val(a), val(b)
            if isz(cv) and isinstance(x, (Ptr, Fn, Dbl)) or isinstance(y, (Ptr, Fn, Dbl)):
                if isz(cv):
                    d = st.decide(cv)
                    if d is None: raise Fork(cv)
                    cv = d
            st.env[inst.name] = ite(cv, x, y) if isz(cv) else (x if cv else y); return
        if op == 'extractvalue':
            v, ix = inst.a; st.env[inst.name] = val(v)['agg'][ix[0]]; return
        if op == 'insertvalue':
            v, w, ix = inst.a; base = val(v)
            l = list(base['agg']) if isinstance(base, dict) else [UNDEF] * len(v.t.f)
            l[ix[0]] = val(w); st.env[inst.name] = {'agg': l}; return
        if op in ('uitofp', 'sitofp'):
            st.env[inst.name] = Dbl('int', val(inst.a[0])); return
        if op in ('fpext', 'fptrunc'): st.env[inst.name] = val(inst.a[0]); return
        if op in ('fptoui', 'fptosi'):
            d = val(inst.a[0])
            if d.k != 'int': raise Unsupported('fptoui of %r' % d)
            st.env[inst.name] = d.e; return
        if op == 'fcmp':
            pr, a, b = inst.a; x, y = val(a), val(b)
            if x.k == 'div' and y.k == 'real' and pr in ('oge', 'ogt'):
                num, den = float(y.e).as_integer_ratio()
                l, r = scale(den, x.e), scale(num, x.e2)
                st.env[inst.name] = ge(l, r) if pr == 'oge' else gt(l, r); return
            if x.k == 'int' and y.k == 'int':
                f = {'oeq': eq, 'olt': lt, 'ole': le, 'ogt': gt, 'oge': ge, 'une': ne}.get(pr)
                if f: st.env[inst.name] = f(x.e, y.e); return
            raise Unsupported('fcmp %s %r %r' % (pr, x, y))
        st.env[inst.name] = s.binop(st, fr, inst)
    def rdt(s, st, p, t):
        v = rd(st, st.node(p.obj), p.off, sizeof(t), t.k == 'ptr')
        if t.k == 'int' and t.w == 1: v = ne(v, 0) if isz(v) else bool(v)
        if t.k == 'int' and isinstance(v, (Ptr, Fn)): v = PInt(v)
        if t.k == 'ptr' and not isinstance(v, (Ptr, Fn)) and v is not UNDEF:
            if not isz(v) and v == 0: v = NULL
            else: raise Unsupported('integer read as pointer')
        return v
    # ---------------------------------------------------------------- calls
    def call(s, fr, st, inst):
        cal = inst.a and inst.a[0]
        args = []
        if cal.k == 'loc': f = s.val(st, fr, cal)
        else: f = Fn(cal.v)
        for v, ad in inst.a[1]:
            x = s.val(st, fr, v)
            if 'byval' in ad:
                t = ad['byval']; o = Obj('byval', sizeof(t), 'stack')
                s.range_ok(st, x, sizeof(t), 'read', inst)
                p = st.new(o, Base('byval', 'undef')); st.cp(o, 0, sizeof(t), st.node(x.obj), x.off); x = p
            args.append(x)
        if isinstance(f, Ptr):
            s.oblige(st, 'call through a null pointer', False, inst.line); st.dead = True; return None
        name = f.name
        if name.startswith('@llvm.'):
            name = '@' + '.'.join(name[1:].split('.')[:2])
        if name.startswith('?'):
            if getattr(s.cur, 'fnmodel', None): return s.cur.fnmodel(s, st, fr, name, args, inst)
            if s.fnmodel is None: raise Unsupported('unknown function pointer')
            return s.fnmodel(s, st, fr, name, args, inst)
        c = s.contracts.get(name)
        if c is not None and not (s.cur is c and fr.depth == 0 and False):
            s.used_contracts.add(name)
            return c.call(s, st, fr, args, inst)
        md = s.models.get(name)
        mod, fn = s.find(name, fr.mod)
        if fn is None or md is not None and not (fr.mod, name) in s.funcs and mod is None:
            if md is None: raise Unsupported('no contract for ' + name)
            s.used_models.add(name)
            r = md(s, st, fr, args, inst)
            if isinstance(r, list): return r
            if inst.name: st.env[inst.name] = r
            return None
        if md is not None and getattr(md, 'override', False):
            s.used_models.add(name)
            r = md(s, st, fr, args, inst)
            if isinstance(r, list): return r
            if inst.name: st.env[inst.name] = r
            return None
        # inline
        if fr.depth > 6: raise Unsupported('inlining too deep: ' + name)
        s.inlined.add(name)
        return s.inline(mod, fn, st, args, fr.depth + 1, fr.spec)
    def inline(s, mod, fn, st, args, depth, spec=None):
        fr2 = Frame(fn, depth, spec); fr2.mod = mod
        saved = st.env
        st.env = {}
        if len(fn.params) != len(args): raise Unsupported('argument count of ' + fn.name)
        for (n, t, ad), v in zip(fn.params, args): st.env[n] = v
        outs = s.run(fr2, [(st, fn.order[0], None, 0)])
        r = []
        for o in outs:
            o.st.env = dict(saved); r.append((o.st, o.a))
        return r
    def run_function(s, name, mod, st, args, spec):
        m, fn = s.find(name, mod)
        if fn is None: raise Unsupported('function %s is gone' % name)
        fr = Frame(fn, 0, spec); fr.mod = m
        if len(fn.params) != len(args): raise Unsupported('signature of %s changed' % name)
        st.env = {}
        for (n, t, ad), v in zip(fn.params, args): st.env[n] = v
        return s.run(fr, [(st, fn.order[0], None, 0)])
