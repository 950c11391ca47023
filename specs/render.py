"""Contracts for the rendering functions of src/greshunkel.c (M22 - M26)."""
from irv.spec import *
from irv.family import *
from irv.libc import release, eqb
from irv import regex, libc
from specs import vector as V
from specs import grsh as G
T_ = G.T_
TUPLE, TYPE, VALUE, ARR, STR, SUB = G.TUPLE, G.TYPE, G.VALUE, G.ARR, G.STR, G.SUB
# the documented syntax; _compile_regex is verified to compile patterns with exactly these matches, in these fields
PAT = {k: p.encode() for k, p in dict(
    var=r'xXx @([a-zA-Z_0-9]+) xXx', cvar=r'xXx @([a-zA-Z_0-9]+)\.([a-zA-Z_0-9]+) xXx',
    loop=r'^\s*xXx LOOP ([a-zA-Z_]+) ([a-zA-Z_]+) xXx(.*)xXx BBL xXx', filter=r'XxX ([a-zA-Z_0-9]+)\s+(.*) XxX',
    filter0=r'XxX ([a-zA-Z_0-9]+) XxX', include=r'^\s*xXx SCREAM ([a-zA-Z_./]+) xXx',
    cond=r'^\s*xXx UNLESS @([a-zA-Z_.]+) xXx(.*)xXx ENDLESS xXx', inv=r'^\s*xXx UNLESS NOT @([a-zA-Z_.]+) xXx(.*)xXx ENDLESS xXx').items()}
FIELDS = ('var', 'cvar', 'loop', 'filter', 'filter0', 'include', 'cond', 'inv')
ALLRX = 64 * len(FIELDS)
def allregex(st):
    p = buf(st, 'all_regex', ALLRX, readonly=True)
    for k, f in enumerate(FIELDS): st.log[('regex', p.obj, 64 * k)] = PAT[f]
    return p
class CompileRegex(Spec):
    name, mod = '_compile_regex', T_
    def cases(s, E):
        st = State(); p = buf(st, 'all_regex', ALLRX); yield Case('any', st, [p], p=p)
    def post(s, E, c, st, r):
        out = []
        for k, f in enumerate(FIELDS):
            t = st.log.get(('regex', c.p.obj, 64 * k))
            out.append(('%s tag: the documented pattern' % f, t is not None and regex.same_pattern(t, PAT[f])))
        return out
    def modifies(s, E, c, st, r): return {c.p.obj: True}
    def call(s, E, st, fr, a, inst):
        E.range_ok(st, a[0], ALLRX, '_compile_regex', inst, True)
        for k, f in enumerate(FIELDS):
            E.oblige(st, 'compile of an expression in use', ('regex', a[0].obj, 64 * k) not in st.log, inst.line)
            st.log[('regex', a[0].obj, 64 * k)] = PAT[f]
        return [] if st.dead else [(st, None)]
class DestroyRegex(Spec):
    name, mod = '_destroy_regex', T_
    def cases(s, E):
        st = State(); p = allregex(st); yield Case('any', st, [p], p=p)
    def post(s, E, c, st, r): return [('%s tag: released' % f, ('regex', c.p.obj, 64 * k) not in st.log) for k, f in enumerate(FIELDS)]
    def modifies(s, E, c, st, r): return {c.p.obj: True}
    def call(s, E, st, fr, a, inst):
        for k, f in enumerate(FIELDS):
            E.oblige(st, 'release of a compiled expression', ('regex', a[0].obj, 64 * k) in st.log, inst.line)
            if st.dead: return []
            del st.log[('regex', a[0].obj, 64 * k)]
        return [(st, None)]

# ---------------------------------------------------------------- what a context may hold
class Items:
    """the items that can be found: item i has type T(i), a name of NL(i) and a string of VL(i) bytes; a list or sub-context i holds
    CNT(i) items of its own, item j of it with name NL2(i, j), type T2(i, j) and string VL2(i, j)"""
    def __init__(s, st, nested=(0, 1, 2)):
        s.N = nat(st, 'items', 1 << 30); st.assume(ge(s.N, 1))
        def fn(n, k, lo, hi):
            f = Function(freshname(n), *[I] * (k + 1)); axiom(f, lambda x: [And(x >= lo, x <= hi)])
            return f, lambda *a: keep(f(*[Z(x) for x in a]))
        s.fT, s.T = fn('type', 1, 0, 2); s.fNL, s.NL = fn('namelen', 1, 0, G.MAXNAME); s.fVL, s.VL = fn('vallen', 1, 0, G.MAXSTR)
        s.fC, s.C = fn('cnt', 1, 0, (1 << 31) - 1); s.fM, s.M = fn('max', 1, 0, (1 << 31) - 1)
        axiom(s.fC, lambda x: [keep(x <= s.M(x.arg(0)))])
        s.fT2, s.T2 = fn('type2', 2, 0, 2); s.fNL2, s.NL2 = fn('namelen2', 2, 0, G.MAXNAME); s.fVL2, s.VL2 = fn('vallen2', 2, 0, G.MAXSTR)
        s.sub2 = Family(st, 'subcontext2', 1 << 62, lambda i: 24, readonly=True)
        def dyn2(st2, off, n, ptr):
            i, r = split(off); d, c, a = lin(r) if isz(r) else ({}, r, {})
            f = c % TUPLE; j = div_exact(sub(r, f), TUPLE)
            if j is None: return None
            if f == TYPE and n == 4: return s.T2(i, j)
            if f == VALUE and ptr:
                if st2 is None: return None
                for t, fam in ((ARR, s.vec2), (SUB, s.sub2)):
                    d = st2.decide(eq(s.T2(i, j), t))
                    if d is None: raise Fork(eq(s.T2(i, j), t))
                    if d: return fam.at(add(scale(1 << 31, i), j))
                raise Unsupported('pointer value of a string')
        s.fC2, s.C2 = fn('cnt2', 1, 0, (1 << 31) - 1)
        s.vec2 = Family(st, 'list2', 1 << 62, lambda i: 32, Base('list2', 'uf', dyn=lambda st2, off, n, ptr: s.C2(split(off)[0]) if not isz(split(off)[1]) and (split(off)[1], n) == (16, 8) else None), readonly=True)
        s.inner = Family(st, 'inner', s.N, lambda i: add(scale(TUPLE, s.M(i)), 1), Base('inner', 'uf', dyn=dyn2), readonly=True); s.inner.strat = s.strat2
        def vec(st2, off, n, ptr):
            i, r = split(off)
            return None if isz(r) else {(0, 8): TUPLE, (8, 8): s.M(i), (16, 8): s.C(i), (24, 8): s.inner.at(i)}.get((r, n))
        s.vec = Family(st, 'list', s.N, lambda i: 32, Base('list', 'uf', dyn=vec), readonly=True)
        def sub_(st2, off, n, ptr):
            i, r = split(off)
            return s.vec.at(i) if not isz(r) and (r, n) == (0, 8) else None
        s.sub = Family(st, 'subcontext', s.N, lambda i: 24, Base('subcontext', 'uf', dyn=sub_), readonly=True)
        def dyn(st2, off, n, ptr):
            i, r = split(off)
            if isz(r): return None
            if (r, n) == (TYPE, 4): return s.T(i)
            if (r, n) == (VALUE, 8) and ptr:
                if st2 is None: return None
                for t, f in ((ARR, s.vec), (SUB, s.sub)):
                    d = st2.decide(eq(s.T(i), t))
                    if d is None: raise Fork(eq(s.T(i), t))
                    if d: return f.at(i)
                raise Unsupported('pointer value of a string')
        s.it = Family(st, 'item', s.N, lambda i: TUPLE, Base('item', 'uf', dyn=dyn), readonly=True); s.it.strat = s.strat
        # filters: clean-up or none, per item
        s.fCL, s.CL = fn('hascleanup', 1, 0, 1)
        def dynf(st2, off, n, ptr):
            i, r = split(off)
            if isz(r) or not ptr or st2 is None: return None
            if r == 32: return Fn('?filter')
            if r == 40:
                d = st2.decide(eq(s.CL(i), 1))
                if d is None: raise Fork(eq(s.CL(i), 1))
                return Fn('?clean') if d else NULL
        s.filt = Family(st, 'filter', s.N, lambda i: G.FILTER, Base('filter', 'uf', dyn=dynf), readonly=True)
        s.filt.strat = lambda st2, i, r: s.text(st2, s.filt, i, 0, s.NL(i)) if r == 0 else None
    def text(s, st, fam, i, r, n):
        o = add(scale(BIG, i), r); st.assume(*G.is_name(fam.node, o, n)); return n
    def strat(s, st, i, r):
        if isz(r): return None
        if r == 0: return s.text(st, s.it, i, 0, s.NL(i))
        if r == VALUE:
            E = st.E; d = st.decide(eq(s.T(i), STR))
            if d is None: raise Fork(eq(s.T(i), STR))
            return s.text(st, s.it, i, VALUE, s.VL(i)) if d else None
    def strat2(s, st, i, r):
        d, c, a = lin(r) if isz(r) else ({}, r, {}); f = c % TUPLE; j = div_exact(sub(r, f), TUPLE)
        if j is None: return None
        if f == 0: return s.text(st, s.inner, i, r, s.NL2(i, j))
        if f == VALUE:
            d = st.decide(eq(s.T2(i, j), STR))
            if d is None: raise Fork(eq(s.T2(i, j), STR))
            return s.text(st, s.inner, i, r, s.VL2(i, j)) if d else None

def same_text(E, st, what, na, a, n, nb, b, m, inst):
    """obligations: the n bytes at a and the m bytes at b are the same text"""
    E.oblige(st, what + ': length', eq(n, m), inst.line)
    E.oblige_q(st, what + ': bytes', lambda k: eq(rd(None, na, add(a, k), 1), rd(None, nb, add(b, k), 1)), 0, m, inst.line)
class Find:
    """contract of find_needle for a caller: nothing, or an item of that name; implied by FindNeedle's"""
    def call(s, E, st, fr, a, inst):
        ctx, needle, values = a; c = E.case
        E.oblige(st, 'looked up in the current context', samev(ctx, c.ctx), inst.line)
        if isz(values): raise Unsupported('find_needle of a computed kind')
        n = str_end(st, needle, 'find_needle: name', inst)
        if st.dead: return []
        fam = c.X.it if values else c.X.filt; node = st.node(needle.obj); i = nat(st, 'found', 1 << 30); s0 = st.copy()
        rec = dict(node=node, off=needle.off, n=n, values=bool(values), i=i)
        l = st.log.get('lookups', ())
        s0.log['lookup'] = dict(rec, found=False); s0.log['lookups'] = l + (s0.log['lookup'],)
        st.assume(lt(i, c.X.N), eq(c.X.NL(i), n)); st.term(i)
        assume_c(st, bytes_all(fam.node, scale(BIG, i), node, needle.off, n))
        st.log['lookup'] = dict(rec, found=True); st.log['lookups'] = l + (st.log['lookup'],)
        return [(st, fam.at(i)), (s0, NULL)]

# ---------------------------------------------------------------- lines
class Vishnu(Spec):
    """the bytes before the match, the result, the bytes behind the match"""
    name, mod = 'vishnu', T_
    def cases(s, E):
        st = State(); size = nat(st, 'size', 1 << 60); data = buf(st, 'data', readonly=True); so, eo = nat(st, 'so', 1 << 31), nat(st, 'eo', 1 << 31)
        st.assume(le(so, eo), le(eo, size), le(size, data.obj.size)); st.term(size, so, eo)
        res, rl = cstring(st, 'result', readonly=True)
        out = struct(st, 'out', 16, {0: (8, 0), 8: (8, NULL)}, ptrs=(8,)); ln = struct(st, 'line', 16, {0: (8, size), 8: (8, data)}, ptrs=(8,), readonly=True)
        m = struct(st, 'match', 24, {0: (4, so), 4: (4, eo), 8: (8, sub(eo, so)), 16: (8, Ptr(data.obj, so))}, ptrs=(16,))
        yield Case('any', st, [out, m, res, ln], out=out, so=so, eo=eo, size=size, data=data, res=res, rl=rl)
    def post(s, E, c, st, r):
        d = st.rdn(c.out, 8, 8, True); n = add(add(c.so, c.rl), sub(c.size, c.eo))
        if not isinstance(d, Ptr) or d.obj is None or d.obj in c.pre.mem: return [('a line of its own', False)]
        node = st.node(d.obj); old = c.pre.node(c.data.obj)
        return [('the size', eq(st.rdn(c.out, 0, 8), n)), ('at its start', eq(d.off, 0)), ('room for the end', lt(n, d.obj.size)), ('terminated', eq(rd(st, node, n, 1), 0)),
                ('what is before the tag is kept', bytes_all(node, 0, old, 0, c.so)), ('the result replaces the tag', bytes_all(node, c.so, c.pre.node(c.res.obj), 0, c.rl)),
                ('what is behind the tag is kept', bytes_all(node, add(c.so, c.rl), old, c.eo, sub(c.size, c.eo)))]
    def modifies(s, E, c, st, r): return {c.out.obj: True}
    def owned(s, E, c, st, r):
        d = st.rdn(c.out, 8, 8, True); return [d.obj] if isinstance(d, Ptr) else []
    def call(s, E, st, fr, a, inst):
        out, m, res, ln = a
        so, eo = st.rdn(m, 0, 4), st.rdn(m, 4, 4); size = st.rdn(ln, 0, 8); d = st.rdn(ln, 8, 8, True); rl = str_end(st, res, 'vishnu: result', inst)
        E.oblige(st, 'vishnu: the tag lies in the line', band(le(so, eo), le(eo, size)), inst.line)
        E.range_ok(st, d, size, 'vishnu: line', inst); E.range_ok(st, out, 16, 'vishnu: new line', inst, True)
        if st.dead: return []
        E.cur.replaced(E, st, so, eo, res, d, size, inst)
        if st.dead: return []
        n = add(add(so, rl), sub(size, eo)); st.assume(lt(n, 1 << 60))          # allocations succeed (out of memory is excluded)
        o = Obj('line', add(n, 1), 'heap', line=inst.line); st.allocs.append(o); src = st.node(d.obj)
        nd = Cp(Base('line', 'zero'), 0, so, src, d.off)
        if isz(rl) or rl > 0: nd = Cp(nd, so, rl, st.node(res.obj), res.off)
        nd = Cp(nd, add(so, rl), sub(size, eo), src, add(d.off, eo)); st.mem[o] = (nd, True); st.wr(o, n, 1, 0); hint(st, o, n)
        st.wr(out.obj, out.off, 8, n); st.wr(out.obj, add(out.off, 8), 8, Ptr(o, 0)); st.term(n)
        return [(st, None)]

def endof(node, size):
    """an included file is rendered into a line that may be followed by the line end of its last line"""
    return add(size, ite(eq(rd(None, node, size, 1), 0), 0, 1))
def terminated(node, o, size, weak):
    if not weak: return band(lt(size, o.size), eq(rd(None, node, size, 1), 0))
    e, b = endof(node, size), rd(None, node, size, 1)
    return band(lt(e, o.size), eq(rd(None, node, e, 1), 0), bor(eq(b, 0), eq(b, 10), eq(b, 13)))
def newline(st, o, node, size, weak):
    """facts of a line of that size"""
    st.assume(terminated(node, o, size, weak)); hint(st, o, size); st.term(size)
    if weak: hint(st, o, endof(node, size))
class LineSpec(Spec):
    """functions that turn a line into another; weak: a line end may follow the line that goes in or comes out"""
    mod = T_; byref = weakin = weakout = False
    def ends(s, node, v): return [endof(node, v)] if s.weakin or s.weakout else []
    def mkline(s, st):
        size = nat(st, 'size', 1 << 60); data = buf(st, 'data', None, 'heap', readonly=True); newline(st, data.obj, st.node(data.obj), size, s.weakin)
        return size, data
    def cases(s, E):
        st = State(); size, data = s.mkline(st); X = Items(st); ctx = buf(st, 'ctext', 24, readonly=True); rx = allregex(st)
        if s.byref: args = [ctx, struct(st, 'line', 16, {0: (8, size), 8: (8, data)}, ptrs=(8,), readonly=True), rx]
        else: args = [ctx, size, data, rx]
        yield Case('any', st, args, size=size, data=data, X=X, ctx=ctx, rx=rx)
    @staticmethod
    def schema(ctx, vk):
        """every line that is held: terminated at its size, inside its storage"""
        out = []
        for k, v in ctx.variants[vk][0].items():
            if k[0] != 'cell' or not isinstance(v, Ptr) or v.obj is None or ('cell', k[1], sub(k[2], 8)) not in ctx.variants[vk][0]: continue
            k2 = ('cell', k[1], sub(k[2], 8))
            out.append(('%s: size inside' % (k,), lambda w, k=k, k2=k2: lt(w.vals[k2], w.vals[k].obj.size)))
            out.append(('%s: terminated at its size' % (k,), lambda w, k=k, k2=k2: eq(rd(None, w.st.node(w.vals[k].obj), w.vals[k2], 1), 0)))
            if ctx.E.cur.weakout: out.append(('%s: terminated there or behind a line end' % (k,), lambda w, k=k, k2=k2: terminated(w.st.node(w.vals[k].obj), w.vals[k].obj, w.vals[k2], True)))
        return out
    def __init__(s): s.schemas = (LineSpec.schema,)
    def post(s, E, c, st, r):
        size, d = r['agg']
        if not isinstance(d, Ptr) or d.obj is None: return [('a line', False)]
        out = [('the line is alive', st.alive(d.obj)), ('at its start', eq(d.off, 0)), ('its size lies inside', lt(size, d.obj.size)), ('terminated at its size', terminated(st.node(d.obj), d.obj, size, s.weakout))]
        if d.obj is c.data.obj: out.append(('the line itself', eq(size, c.size)))
        else: out.append(('a line of its own', d.obj not in c.pre.mem))
        return out + s.done(E, c, st, d)
    def done(s, E, c, st, d): return []
    def owned(s, E, c, st, r):
        d = r['agg'][1]; return [d.obj] if isinstance(d, Ptr) and d.obj is not None else []
    def line(s, st, a): 
        return (st.rdn(a[1], 0, 8), st.rdn(a[1], 8, 8, True), a[0], a[2]) if s.byref else (a[1], a[2], a[0], a[3])
    def call(s, E, st, fr, a, inst):
        size, d, ctx, rx = s.line(st, a); what = s.name
        if not isinstance(d, Ptr) or d.obj is None: E.oblige(st, what + ': there is a line', False, inst.line); st.dead = True; return []
        E.oblige(st, what + ': a live line terminated at its size', band(st.alive(d.obj), eq(d.off, 0), le(0, size), terminated(st.node(d.obj), d.obj, size, s.weakin)), inst.line)
        E.oblige(st, what + ': in the current context', samev(ctx, E.case.ctx), inst.line); compiled(E, st, rx, what, inst)
        s.order(E, st, d, inst)
        if st.dead: return []
        s2 = st.copy(); n = nat(s2, 'size', 1 << 60); o = Obj('line', nat(s2, 'line.size', 1 << 61), 'heap', line=inst.line); s2.allocs.append(o)
        b = Base('line'); s2.mem[o] = (b, True); newline(s2, o, b, n, s.weakout)
        st.log[('line', s.name)] = (size, d); s2.log[('line', s.name)] = (n, Ptr(o, 0))
        return [(st, {'agg': [size, d]}), (s2, {'agg': [n, Ptr(o, 0)]})]
    def order(s, E, st, d, inst): pass

def compiled(E, st, rx, what, inst):
    E.oblige(st, what + ': with the compiled patterns', isinstance(rx, Ptr) and rx.off == 0 and all(st.log.get(('regex', rx.obj, 64 * k)) == PAT[f] for k, f in enumerate(FIELDS)), inst.line)
def no_tag(st, d, text):
    node = st.node(d.obj)
    return any(n is node and cdiff(o, d.off) == 0 and t == text for n, o, t in st.log.get('nomatch', ()))
def last_match(E, st, so, eo, d, text, inst, what):
    """obligations: what is replaced is the match of the pattern in this line; returns its groups"""
    l = st.log.get('match', ())
    if not l or l[-1][0] is not st.node(d.obj) or cdiff(l[-1][1], d.off) != 0 or l[-1][2] != text:
        E.oblige(st, what + ': a tag of this line is replaced', False, inst.line); st.dead = True; return None
    gs = l[-1][3]; E.oblige(st, what + ': exactly the tag is replaced', band(eq(so, gs[0][0]), eq(eo, gs[0][1])), inst.line)
    return gs
class SubLine(LineSpec):
    name, noterm, nohistory = '_interpolate_line_subcontext', ('@_interpolate_line_subcontext',), True
    def uses(s): return {**V.CONTRACTS(), '@find_needle': Find(), '@vishnu': Vishnu()}
    def __init__(s): s.schemas = (LineSpec.schema, SubLine.schema2)
    @staticmethod
    def schema2(ctx, vk):
        """no earlier item of the sub-context has the name"""
        out = []; c = ctx.E.case; lk = ctx.st0.log.get('lookup')
        l = ctx.st0.log.get('match', ())
        if not lk or not lk['found'] or not l: return out
        for x in View(ctx.E, None, None, ctx.variants[vk][0], ctx.variants[vk][1], ctx).ints():
            out.append(('no earlier item has it %s' % (x,), lambda v, x=x: SubLine.none_before(c, lk, l[-1], v.ints()[x])))
        return out
    @staticmethod
    def none_before(c, lk, m, hi):
        X = c.X; i = lk['i']; a, b = m[3][2]; n = sub(b, a)
        return All(lambda j: bnot(band(eq(X.NL2(i, j), n), eqb(X.inner.node, add(scale(BIG, i), scale(TUPLE, j)), m[0], add(m[1], a), n))), {X.fNL2.name(): [(1, 0)]}, 0, hi, 2)
    def replaced(s, E, st, so, eo, res, d, size, inst):
        gs = last_match(E, st, so, eo, d, PAT['cvar'], inst, 'sub-context tag')
        if gs is None: return
        X = E.case.X; lk = st.log.get('lookup'); m = st.log['match'][-1]; node = m[0]
        ok = lk is not None and lk['found'] and lk['values']
        E.oblige(st, 'sub-context tag: the sub-context was found', ok, inst.line)
        if not ok: return
        same_text(E, st, 'sub-context tag: its name is looked up', lk['node'], lk['off'], lk['n'], node, add(m[1], gs[1][0]), sub(gs[1][1], gs[1][0]), inst)
        if not isinstance(res, Ptr) or res.obj is not X.inner.obj:
            E.oblige(st, 'sub-context tag: replaced by the value of an item of the sub-context', False, inst.line); st.dead = True; return
        i, r = split(res.off); j = div_exact(sub(r, VALUE), TUPLE)
        ok = j is not None; E.oblige(st, 'sub-context tag: replaced by a value', ok, inst.line)
        if not ok: return
        E.oblige(st, 'sub-context tag: a string of the sub-context that was found', band(eq(i, lk['i']), eq(X.T(i), SUB), eq(X.T2(i, j), STR), le(0, j), lt(j, X.C(i))), inst.line)
        n = sub(gs[2][1], gs[2][0]); o = add(scale(BIG, i), scale(TUPLE, j)); st.assume(implies(lt(n, X.NL2(i, j)), ne(rd(None, X.inner.node, add(o, n), 1), 0)))
        same_text(E, st, 'sub-context tag: the item of that name', X.inner.node, add(scale(BIG, i), scale(TUPLE, j)), X.NL2(i, j), node, add(m[1], gs[2][0]), sub(gs[2][1], gs[2][0]), inst)
        q = SubLine.none_before(E.case, lk, m, j); E.oblige_q(st, 'sub-context tag: the first item of that name', q.body, 0, j, inst.line)
    def aborted(s, E, st, inst):
        """only if there is no such sub-context, no such item, or it is no string"""
        X = E.case.X; lk = st.log.get('lookup'); what = 'ends the process only for a sub-context tag without a value'
        if lk is None: E.oblige(st, what, False, inst.line); return
        if not lk['found'] or st.decide(ne(X.T(lk['i']), SUB)): return
        m = st.log['match'][-1]; got = st.log.get('got')
        if isinstance(got, Ptr) and got.obj is X.inner.obj:
            i, r = split(got.off); j = div_exact(r, TUPLE)
            if j is not None and st.quick(band(eq(i, lk['i']), ne(X.T2(i, j), STR))): return
        q = SubLine.none_before(E.case, lk, m, X.C(lk['i'])); E.oblige_q(st, what, q.body, 0, X.C(lk['i']), inst.line)
    def done(s, E, c, st, d): return [('no sub-context tag is left', no_tag(st, d, PAT['cvar']))]

class IncludeLine(LineSpec):
    """a line that starts with an include tag becomes the rendering of that file"""
    name, byref, weakout, noterm, nohistory = '_include_line', True, True, ('@_include_line',), True
    def uses(s): return {'@gshkl_render': RenderCall()}
    def __init__(s): s.schemas = (LineSpec.schema, IncludeLine.schema2)
    def cases(s, E):
        for c in LineSpec.cases(s, E): c.g['F'] = s.files = libc.Files(c.st); yield c
    @staticmethod
    def schema2(ctx, vk):
        f = ctx.st0.log.get('file'); out = []; F = ctx.E.case.F
        if not f: return out
        vals = ctx.variants[vk][0]; iv = [x for x in View(ctx.E, None, None, vals, ctx.variants[vk][1], ctx).ints() if x[0] not in ('off', 'size', 'idx')]
        for x in iv: out.append(('%s bytes of the file are read' % (x,), lambda v, x=x: eq(v.ints()[x], F.pos(v.st))))
        for k, p in vals.items():
            if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'heap': continue
            for x in iv:
                out.append(('%s holds the first %s bytes of the file' % (k, x), lambda v, k=k, x=x: bytes_all(v.st.node(v.vals[k].obj), 0, f['node'], 0, v.ints()[x])))
                out.append(('%s has room behind %s' % (k, x), lambda v, k=k, x=x: lt(v.ints()[x], v.vals[k].obj.size)))
        return out
    def opened(s, E, st, p, inst):
        n = str_end(st, p, 'fopen: name', inst); l = st.log.get('match', ())
        if st.dead: return
        ok = bool(l) and l[-1][2] == PAT['include']; E.oblige(st, 'include tag: a tag was found', ok, inst.line)
        if ok: m = l[-1]; same_text(E, st, 'include tag: the file of that name is opened', st.node(p.obj), p.off, n, m[0], add(m[1], m[3][1][0]), sub(m[3][1][1], m[3][1][0]), inst)
    def rendered(s, E, st, bound, node, off, n, d, size, inst):
        f = st.log.get('file'); ok = f is not None and not bound and 'included' not in st.log
        E.oblige(st, 'include tag: the file is rendered once, in the current context', ok, inst.line)
        if ok: same_text(E, st, 'include tag: the whole file is rendered', node, off, n, f['node'], 0, f['size'], inst)
        st.log['included'] = True
    def aborted(s, E, st, inst): E.oblige(st, 'ends the process only if the file cannot be opened', 'fopen_failed' in st.log, inst.line)
    def done(s, E, c, st, d): return [('no include tag is left', no_tag(st, d, PAT['include'])), ('every file is closed', eq(c.F.open(st), 0))]
    def order(s, E, st, d, inst): E.oblige(st, 'variables are replaced before files are included', no_tag(st, d, PAT['var']), inst.line)
class FilterLine(LineSpec):
    """every filter tag, first those with an argument"""
    name, byref, weakin, weakout, noterm, nohistory = '_filter_line', True, True, True, ('@_filter_line',), True
    def uses(s): return {**V.CONTRACTS(), '@find_needle': Find(), '@vishnu': Vishnu()}
    def fnmodel(s, E, st, fr, name, args, inst):
        c = E.case; X = c.X
        if name == '?filter': return s.called(E, st, args[0], inst)
        if name == '?clean':
            f = st.log.get('filter'); ok = f is not None and f['copied'] and samev(args[0], f['result'])
            E.oblige(st, 'filter tag: the clean-up gets the result once it is copied', ok, inst.line)
            if st.dead or ok is not True and not isz(ok): return []
            E.oblige(st, 'filter tag: the clean-up is called once', st.alive(f['result'].obj), inst.line); release(E, st, f['result'].obj)
            return [(st, None)]
        raise Unsupported('call of ' + name)
    def tag(s, E, st, inst):
        """the tag that is being replaced: (node, offset of the line, groups, the first end of a tag behind its start)"""
        m = st.log['match'][-1]
        if m[2] not in (PAT['filter'], PAT['filter0']): E.oblige(st, 'filter tag: a filter tag was found', False, inst.line); st.dead = True; return None
        at = keep(regex.FIRST(m[0], b' XxX')(Z(add(m[1], m[3][0][0]))))
        return m, at
    def called(s, E, st, arg, inst):
        X = E.case.X; lk = st.log.get('lookup')
        ok = 'filter' not in st.log; E.oblige(st, 'filter tag: its filter is called once', ok, inst.line)
        ok2 = lk is not None and lk['found'] and not lk['values']; E.oblige(st, 'filter tag: the filter was found', ok2, inst.line)
        if not ok or not ok2: return []
        m, at = s.tag(E, st, inst)
        if st.dead: return []
        same_text(E, st, 'filter tag: its name is looked up', lk['node'], lk['off'], lk['n'], m[0], add(m[1], m[3][1][0]), sub(m[3][1][1], m[3][1][0]), inst)
        if m[2] == PAT['filter0']: E.oblige(st, 'filter tag: no argument', isnull(arg), inst.line)
        else:
            a = add(m[1], m[3][2][0])
            if isnull(arg): E.oblige(st, 'filter tag: the argument is missing only if the tag ends before it', lt(at, a), inst.line)
            else:
                n = str_end(st, arg, 'filter argument', inst)
                if st.dead: return []
                E.oblige(st, 'filter tag: there is an argument', ge(at, a), inst.line)
                same_text(E, st, 'filter tag: the argument', st.node(arg.obj), arg.off, n, m[0], a, sub(at, a), inst)
        if st.dead: return []
        has = st.decide(eq(X.CL(lk['i']), 1))
        if has is None: raise Fork(eq(X.CL(lk['i']), 1))
        n = nat(st, 'result', 1 << 59); b = Base('filtered')
        def nofree(E, st, p, inst): E.oblige(st, 'filter tag: the result belongs to the filter', False, inst.line); st.dead = True
        o = Obj('filter result', add(n, 1), 'heap', line=inst.line, free=nofree, readonly=True); st.mem[o] = (b, True); is_string(st, b, 0, n); hint(st, o, n)
        if has: st.allocs.append(o)            # to be handed to the clean-up
        st.log['filter'] = dict(result=Ptr(o, 0), copied=False)
        return [(st, Ptr(o, 0))]
    def replaced(s, E, st, so, eo, res, d, size, inst):
        f = st.log.get('filter'); ok = f is not None and not f['copied'] and samev(res, f['result'])
        E.oblige(st, 'filter tag: replaced by what the filter returned', ok, inst.line)
        if ok is not True: return
        m, at = s.tag(E, st, inst)
        if st.dead: return
        E.oblige(st, 'filter tag: a tag of this line', m[0] is st.node(d.obj) and cdiff(m[1], d.off) == 0, inst.line)
        E.oblige(st, 'filter tag: exactly the tag is replaced', band(eq(so, m[3][0][0]), eq(add(eo, m[1]), add(at, 4))), inst.line)
        st.log['filter'] = dict(f, copied=True)
    def aborted(s, E, st, inst):
        lk = st.log.get('lookup'); E.oblige(st, 'ends the process only for an unknown filter', lk is not None and not lk['found'] and not lk['values'], inst.line)
    def order(s, E, st, d, inst):
        l = st.log.get(('line', '_include_line'))
        E.oblige(st, 'filters are applied to the line with its includes', l is not None and samev(l[1], d), inst.line)
    def done(s, E, c, st, d): return [('no filter tag is left', no_tag(st, d, PAT['filter0']))]
class Line(LineSpec):
    name, weakout, noterm, nohistory = '_interpolate_line', True, ('@_interpolate_line',), True
    def uses(s): return {**V.CONTRACTS(), '@find_needle': Find(), '@vishnu': Vishnu(), '@_interpolate_line_subcontext': SubLine(), '@_include_line': IncludeLine(), '@_filter_line': FilterLine()}
    def replaced(s, E, st, so, eo, res, d, size, inst):
        gs = last_match(E, st, so, eo, d, PAT['var'], inst, 'variable tag')
        if gs is None: return
        X = E.case.X; lk = st.log.get('lookup'); m = st.log['match'][-1]; node = m[0]
        ok = lk is not None and lk['found'] and lk['values']
        E.oblige(st, 'variable tag: the variable was found', ok, inst.line)
        if not ok: return
        same_text(E, st, 'variable tag: its name is looked up', lk['node'], lk['off'], lk['n'], node, add(m[1], gs[1][0]), sub(gs[1][1], gs[1][0]), inst)
        E.oblige(st, 'variable tag: replaced by the string that was found', band(eq(X.T(lk['i']), STR), samev(res, X.it.at(lk['i'], VALUE))), inst.line)
    def aborted(s, E, st, inst):
        lk = st.log.get('lookup'); what = 'ends the process only for a variable tag without a value'
        if lk is None: E.oblige(st, what, False, inst.line); return
        if lk['found']: E.oblige(st, what, ne(E.case.X.T(lk['i']), STR), inst.line)
    def done(s, E, c, st, d):
        l = st.log.get(('line', '_filter_line')); return [('the result is the filtered line', l is not None and samev(l[1], d))]
    def order(s, E, st, d, inst): pass


# ---------------------------------------------------------------- M23: what counts as false
def is_false_text(node, o): return band(*[eq(rd(None, node, add(o, k), 1), b) for k, b in enumerate(b'FALSE')])
def falsey(X, st, p):
    """an empty string, the string FALSE or an empty list"""
    i, r = split(p.off)
    if p.obj is X.it.obj: T, VL, C = X.T(i), X.VL(i), X.C(i)
    else:
        j = div_exact(r, TUPLE)
        if j is None: raise Unsupported('part of an item')
        T, VL, C = X.T2(i, j), X.VL2(i, j), X.C2(add(scale(1 << 31, i), j))
    o = add(p.off, VALUE)
    return bor(band(eq(T, STR), bor(eq(VL, 0), band(eq(VL, 5), is_false_text(p.obj.meta['fam'].node, o)))), band(eq(T, ARR), eq(C, 0)))
class Truthy(Spec):
    name, mod, sense = '_is_truthy', T_, False
    def cases(s, E):
        st = State(); X = Items(st); i = nat(st, 'i', 1 << 30); st.assume(lt(i, X.N)); j = nat(st, 'j', 1 << 31); st.assume(lt(j, X.C(i)))
        st.term(i, j)
        yield Case('item of a context', st, [X.it.at(i)], X=X, p=X.it.at(i))
        st = st.copy(); p = X.inner.at(i, scale(TUPLE, j)); yield Case('item of a sub-context', st, [p], X=X, p=p)
    def post(s, E, c, st, r):
        f = falsey(c.X, st, c.p); return [('falsey exactly for an empty string, FALSE, or an empty list', eq(r, ite(f if s.sense else bnot(f), 1, 0)))]
    def call(s, E, st, fr, a, inst):
        if not E.access(st, a[0], TUPLE, s.name, inst): return []
        f = falsey(E.case.X, st, a[0]); f = f if s.sense else bnot(f); s2 = st.copy(); s2.assume(bnot(f)); st.assume(f)
        return [(x, v) for x, v in ((st, 1), (s2, 0)) if not x.dead and not x.quick(z3.BoolVal(False))]
class Falsey(Truthy): name, sense = '_is_falsey', True

# ---------------------------------------------------------------- rendering with a context of its own
class ChildCtx:
    """_gshkl_init_child_context for a caller: a fresh empty context on top of another; implied by InitChild's"""
    def call(s, E, st, fr, a, inst):
        def new(name, size, cells, ptrs=()):
            o = Obj(name, size, 'heap', line=inst.line, ptrs=ptrs); st.allocs.append(o); return st.new(o, Base(name, 'uf', cells=cells))
        def vec(name, z):
            mx = nat(st, 'max', 1 << 31); it = new(name + '.items', add(scale(z, mx), 1), {})
            return new(name, 32, {0: (8, z), 8: (8, mx), 16: (8, 0), 24: (8, it)}, (24,))
        p = new('child', 24, {0: (8, vec('values', TUPLE)), 8: (8, vec('filters', G.FILTER)), 16: (8, a[0])}, (0, 8, 16))
        return [(st, p)]
class AddTo:
    """gshkl_add_string / gshkl_add_sub_context for a caller: one variable is added to a fresh context; implied by AddString's and AddSub's"""
    def __init__(s, kind): s.kind = kind
    def call(s, E, st, fr, a, inst):
        ctx, name, val = a
        if not isinstance(ctx, Ptr) or ctx.obj is None or ctx.obj in E.case.pre.mem: raise Unsupported('variable added to a context of the caller')
        if not E.access(st, ctx, 24, 'add: context', inst): return []
        v = st.rdn(ctx, 0, 8, True); n = str_end(st, name, 'add: name', inst)
        if st.dead: return []
        if s.kind == STR: str_end(st, val, 'add: value', inst)
        else: E.oblige(st, 'add: there is a sub-context', not isnull(val), inst.line)
        if st.dead: return []
        cnt = st.rdn(v, 16, 8); mx = st.rdn(v, 8, 8); m2 = nat(st, 'max', 1 << 32); st.assume(gt(m2, cnt), ge(m2, mx))
        old = st.rdn(v, 24, 8, True); o = Obj('values.items', add(scale(TUPLE, m2), 1), 'heap', line=inst.line); st.allocs.append(o); st.mem[o] = (Base('values.items'), True)
        if not E.access(st, old, 0, 'add: storage', inst): return []
        release(E, st, old.obj); st.wr(v.obj, add(v.off, 8), 8, m2); st.wr(v.obj, add(v.off, 16), 8, add(cnt, 1)); st.wr(v.obj, add(v.off, 24), 8, Ptr(o, 0))
        st.log[('bound', ctx.obj)] = st.log.get(('bound', ctx.obj), ()) + ((st.node(name.obj), name.off, n, s.kind, val),)
        return [(st, 0)]
class FreeCtx:
    """gshkl_free_context for a caller with a context of its own"""
    def call(s, E, st, fr, a, inst):
        ctx = a[0]
        if not isinstance(ctx, Ptr) or ctx.obj is None or ctx.obj in E.case.pre.mem: E.oblige(st, 'a context of the caller is released', False, inst.line); st.dead = True; return []
        if not E.access(st, ctx, 24, 'gshkl_free_context', inst): return []
        v = st.rdn(ctx, 0, 8, True); owns = any(b[3] == SUB for b in st.log.get(('bound', ctx.obj), ()))
        E.oblige(st, 'sub-contexts of the caller are kept', bor(not owns, eq(st.rdn(v, 16, 8), 0)), inst.line)
        for q in (v, st.rdn(ctx, 8, 8, True)):
            for p in (st.rdn(q, 24, 8, True), q): MODELS['@free'](E, st, fr, [p], inst)
            if st.dead: return []
        MODELS['@free'](E, st, fr, [ctx], inst)
        return [] if st.dead else [(st, None)]
class RenderCall:
    """gshkl_render for a caller: a fresh terminated text of the reported size"""
    def call(s, E, st, fr, a, inst):
        ctx, text, size, outsize = a
        if not isinstance(text, Ptr) or text.obj is None: E.oblige(st, 'render: there is a template', False, inst.line); st.dead = True; return []
        E.oblige(st, 'render: the size is that of the template', band(st.alive(text.obj), le(0, size), le(0, text.off), lt(add(text.off, size), text.obj.size), eq(rd(st, st.node(text.obj), add(text.off, size), 1), 0)), inst.line)
        if not E.access(st, ctx, 24, 'render: context', inst): return []
        b = st.log.get(('bound', ctx.obj), ()) if isinstance(ctx, Ptr) and ctx.obj not in E.case.pre.mem else ()
        E.oblige(st, 'render: in the current context or one on top of it', samev(ctx, E.case.ctx) if ctx.obj in E.case.pre.mem else samev(st.rdn(ctx, 16, 8, True), E.case.ctx), inst.line)
        if st.dead: return []
        m = nat(st, 'rendered', 1 << 59); o = Obj('rendered', nat(st, 'rendered.size', 1 << 60), 'heap', line=inst.line); st.allocs.append(o); st.mem[o] = (Base('rendered'), True)
        newline(st, o, st.node(o), m, True)
        if not isnull(outsize):
            if not E.access(st, outsize, 8, 'render: size', inst, True): return []
            st.wr(outsize.obj, outsize.off, 8, m)
        h = getattr(E.cur, 'rendered', None)
        if h: h(E, st, b, st.node(text.obj), text.off, size, Ptr(o, 0), m, inst)
        return [] if st.dead else [(st, Ptr(o, 0))]
class LineCall(LineSpec):
    """_interpolate_line for a caller; implied by Line's"""
    name = '_interpolate_line'
    def call(s, E, st, fr, a, inst):
        src = st.node(a[2].obj) if isinstance(a[2], Ptr) and a[2].obj is not None else None; out = LineSpec.call(s, E, st, fr, a, inst)
        for x, v in out:
            h = getattr(E.cur, 'rendered', None); size, d = v['agg']
            if h: h(E, x, (), src, a[2].off, a[1], d, size, inst)
        return out
def render_contracts(): return {**V.CONTRACTS(), '@find_needle': Find(), '@_gshkl_init_child_context': ChildCtx(), '@gshkl_add_string': AddTo(STR), '@gshkl_add_sub_context': AddTo(SUB),
    '@gshkl_free_context': FreeCtx(), '@gshkl_render': RenderCall(), '@_interpolate_line': LineCall(), '@_is_truthy': Truthy(), '@_is_falsey': Falsey()}

class Block(Spec):
    """a block at the start of the text: where its body is, where it ends, and what replaces it"""
    mod, nohistory = T_, True
    def cases(s, E):
        for i, label in enumerate(s.kinds):
            if E.only not in (None, i): yield None; continue
            st = State(); text, n = cstring(st, 'text', readonly=True); X = Items(st); ctx = buf(st, 'ctext', 24, readonly=True); rx = allregex(st)
            num = struct(st, 'num_read', 8, {0: (8, nat(st, 'junk'))}); st.assume(lt(n, 1 << 31))
            node = st.node(text.obj); g = dict(X=X, ctx=ctx, rx=rx, text=text, n=n, num=num, node=node); s.more(st, g); st.assume(s.kind(node, label))
            yield Case(label, st, [ctx, text, num, rx], **g)
    def more(s, st, g): pass
    def groups(s, node, key, n):
        return regex.match_facts(State(), node, 0, PAT[key], n)
    def hit(s, node, key): return regex.ghost(node, PAT[key])[0](0)
    def close(s, node, gs, tag, g):
        """offset of the closest end tag behind the start of the body"""
        return keep(regex.FIRST(node, tag)(Z(gs[g][0])))
    def modifies(s, E, c, st, r): return {c.num.obj: True}
    def owned(s, E, c, st, r):
        d = r['agg'][1]; return [d.obj] if isinstance(d, Ptr) and d.obj is not None else []
    def call(s, E, st, fr, a, inst):
        """no block: nothing is read and nothing comes out; a block: some of the text, and an output of its own or none if it is empty"""
        ctx, text, num, rx = a; what = s.name
        E.oblige(st, what + ': in the current context', samev(ctx, E.case.ctx), inst.line); compiled(E, st, rx, what, inst)
        if not isinstance(text, Ptr) or text.obj is not E.case.text.obj: raise Unsupported('block in another text')
        n = str_end(st, text, what + ': text', inst); E.range_ok(st, num, 8, what + ': count', inst, True)
        if st.dead: return []
        p = text.off; h = s.found(st.node(text.obj), p); s0 = st.copy(); out = []
        s0.assume(bnot(h)); s0.wr(num.obj, num.off, 8, 0); E.cur.no_block(E, s0, s.name, p, inst); out.append((s0, {'agg': [0, NULL]}))
        st.assume(h); k = nat(st, 'consumed', 1 << 60); st.assume(ge(k, 1), le(k, n)); st.wr(num.obj, num.off, 8, k); st.term(k); s1 = st.copy()
        E.cur.block(E, s1, s.name, p, k, NULL, 0, inst); out.append((s1, {'agg': [0, NULL]}))
        m = nat(st, 'blocksize', 1 << 59); o = Obj('block', nat(st, 'block.size', 1 << 60), 'heap', line=inst.line); st.allocs.append(o); st.mem[o] = (Base('block'), True); st.assume(le(m, o.size)); st.term(m)
        E.cur.block(E, st, s.name, p, k, Ptr(o, 0), m, inst); out.append((st, {'agg': [m, Ptr(o, 0)]}))
        return [x for x in out if not x[0].dead]
class Cond(Block):
    name = '_interpolate_conditionals'; END = b'xXx ENDLESS xXx'; kinds = ('negated', 'conditional', 'none')
    def kind(s, node, label):
        inv, cond = s.hit(node, 'inv'), s.hit(node, 'cond')
        return {'negated': inv, 'conditional': band(bnot(inv), cond), 'none': band(bnot(inv), bnot(cond))}[label]
    def uses(s): return render_contracts()
    def more(s, st, g):
        # dotted names (items of sub-contexts) are only checked for memory safety
        g['nd'] = nd = freshb('nodot'); node = g['node']
        for k in ('inv', 'cond'):
            a, b = s.groups(node, k, g['n'])[1]
            st.assume(Q(lambda q, a=a, b=b: implies(band(nd, between(a, q, b)), ne(rd(None, node, q, 1), 46)), trig((node, 0)), 2, 'nodot'))
    def found(s, node, p): return bor(*[regex.ghost(node, PAT[k])[0](p) for k in ('inv', 'cond')])
    def rendered(s, E, st, bound, node, off, n, d, size, inst):
        c = E.case; ok = 'body' not in st.log and not bound
        E.oblige(st, 'the body is rendered once, in the current context', ok, inst.line)
        st.log['body'] = (node, off, n, st.node(d.obj), d.off, size)
    def post(s, E, c, st, r):
        size, d = r['agg']; num = st.rdn(c.num, 0, 8); X = c.X; inv = s.hit(c.node, 'inv'); cond = s.hit(c.node, 'cond')
        which = None
        for k, h in (('inv', inv), ('cond', band(cond, bnot(inv)))):
            if st.decide(h): which = k
        nothing = [('no output', band(eq(size, 0), isnull(d)))]
        if which is None: return [('nothing is consumed if there is no block', eq(num, 0)), ('there is no block', band(bnot(inv), bnot(cond)))] + nothing
        gs = s.groups(c.node, which, c.n); end = s.close(c.node, gs, s.END, 2); out = [('consumed up to the end tag', eq(num, add(end, len(s.END))))]
        lks = st.log.get('lookups', ()); body = st.log.get('body'); nd = c.nd
        if not lks: return out + [('the variable is looked up', False)]
        lk = lks[0]; a, b = gs[1]
        out += [('the variable is looked up by its name: length', eq(lk['n'], sub(b, a))), ('the variable is looked up', lk['values']),
                ('the variable is looked up by its name', All(lambda k: eq(rd(None, lk['node'], add(lk['off'], k), 1), rd(None, c.node, add(a, k), 1)), merge(trig((lk['node'], lk['off'])), trig((c.node, a))), 0, sub(b, a)))]
        F = falsey(X, st, X.it.at(lk['i'])) if lk['found'] else True
        want = F if which == 'cond' else (bnot(F) if lk['found'] else False)
        if body is None: return out + [('a block is left out only if its variable says so', implies(nd, bnot(want)))] + nothing
        bn, bo, bs, dn, do, m = body
        out += [('a block is rendered only if its variable says so', implies(nd, want)), ('the rendered body: size', eq(bs, sub(end, gs[2][0]))),
                ('the rendered body', bytes_all(bn, bo, c.node, gs[2][0], bs)), ('the output: size', eq(size, m))]
        if not isinstance(d, Ptr) or d.obj is None: return out + [('no output only for an empty rendering', eq(size, 0))]
        return out + [('the output is alive', st.alive(d.obj)), ('the output lies inside', le(size, d.obj.size)), ('the output is the rendered body', bytes_all(st.node(d.obj), d.off, dn, do, size))]
class Loop(Block):
    """the body is rendered once per element, in order, each time with the loop variable bound to the element"""
    name = '_interpolate_loop'; END = b'xXx BBL xXx'; kinds = ('loop', 'none')
    def uses(s): return render_contracts()
    def __init__(s): s.schemas = (Loop.schema,)
    def found(s, node, p): return regex.ghost(node, PAT['loop'])[0](p)
    def kind(s, node, label): h = s.hit(node, 'loop'); return h if label == 'loop' else bnot(h)
    def more(s, st, g):
        # RL(j): length of the rendering of element j; SUM(j): what the elements before j take; WANT: the renderings, one behind the other
        rl, sm = Function(freshname('RL'), I, I), Function(freshname('SUM'), I, I)
        axiom(rl, lambda x: [And(x >= 0, x < 1 << 59)]); axiom(sm, lambda x: [And(x >= 0, x < 1 << 60)]); g['RL'] = lambda j: keep(rl(Z(j))); g['SUM'] = lambda j: keep(sm(Z(j))); g['WANT'] = Base('rendered elements')
        st.assume(eq(g['SUM'](0), 0))
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; out = []; iv = View(ctx.E, None, None, *ctx.variants[vk][:2], ctx).ints(); vals = ctx.variants[vk][0]
        iv = [x for x in iv if x[0] not in ('off', 'size', 'idx')]
        lk = (ctx.st0.log.get('lookups') or (None,))[-1]
        for x in iv:
            if lk and lk['found']: out.append(('element %s exists or is the end' % (x,), lambda v, x=x: le(v.ints()[x], c.X.C(lk['i']))))
            for y in iv:
                if x != y: out.append(('%s is the size before element %s' % (x, y), lambda v, x=x, y=y: eq(v.ints()[x], c.SUM(v.ints()[y]))))
        for k, p in vals.items():
            if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'heap': continue
            for x in iv:
                out.append(('%s holds %s bytes' % (k, x), lambda v, k=k, x=x: le(v.ints()[x], v.vals[k].obj.size)))
                out.append(('%s holds the first %s bytes' % (k, x), lambda v, k=k, x=x: bytes_all(v.st.node(v.vals[k].obj), 0, c.WANT, 0, v.ints()[x])))
        return out
    def rendered(s, E, st, bound, node, off, n, d, size, inst):
        c = E.case; X = c.X; lk = (st.log.get('lookups') or (None,))[0]; what = 'loop element: '; gs = s.groups(c.node, 'loop', c.n); end = s.close(c.node, gs, s.END, 3)
        ok = len(bound) == 1 and lk is not None and lk['found']; E.oblige(st, what + 'only the loop variable is bound', ok, inst.line)
        if not ok: st.dead = True; return
        bn, bo, bl, kind, val = bound[0]; same_text(E, st, what + 'the name of the loop variable', bn, bo, bl, c.node, gs[1][0], sub(gs[1][1], gs[1][0]), inst)
        j = None
        if kind == STR and isinstance(val, Ptr) and val.obj is X.inner.obj: i, r = split(val.off); j = div_exact(sub(r, VALUE), TUPLE)
        elif kind == SUB and isinstance(val, Ptr) and val.obj is X.sub2.obj:
            i = lk['i']; x, r = split(val.off); j = sub(x, scale(1 << 31, i))
            if isz(r) or r: j = None
        if j is None: E.oblige(st, what + 'bound to an element', False, inst.line); st.dead = True; return
        E.oblige(st, what + 'bound to an element of the list', band(eq(i, lk['i']), eq(X.T2(i, j), kind), le(0, j), lt(j, X.C(i))), inst.line)
        same_text(E, st, what + 'the body', node, off, n, c.node, gs[3][0], sub(end, gs[3][0]), inst)
        a, w, o = c.SUM(j), c.WANT, st.node(d.obj); st.term(j, add(j, 1))
        st.assume(eq(size, c.RL(j)), eq(c.SUM(add(j, 1)), add(a, c.RL(j))), Q(lambda k: implies(between(a, k, add(a, size)), eq(rd(None, w, k, 1), rd(None, o, sub(k, a), 1))), trig((w, 0)), 1, 'element'))
    def aborted(s, E, st, inst):
        X = E.case.X; what = 'ends the process only without a list, or for a list in the list'; lks = st.log.get('lookups', ())
        if len(lks) != 1: E.oblige(st, what, False, inst.line); return
        lk = lks[0]
        if not lk['found'] or st.decide(ne(X.T(lk['i']), ARR)): return
        got = st.log.get('got'); ok = False
        if isinstance(got, Ptr) and got.obj is X.inner.obj:
            i, r = split(got.off); j = div_exact(r, TUPLE)
            if j is not None: ok = band(eq(i, lk['i']), eq(X.T2(i, j), ARR))
        E.oblige(st, what, ok, inst.line)
    def post(s, E, c, st, r):
        size, d = r['agg']; num = st.rdn(c.num, 0, 8); X = c.X
        if c.label == 'none': return [('nothing is consumed if there is no loop', eq(num, 0)), ('no output', band(eq(size, 0), isnull(d)))]
        gs = s.groups(c.node, 'loop', c.n); end = s.close(c.node, gs, s.END, 3); out = [('consumed up to the end tag', eq(num, add(end, len(s.END))))]
        lks = st.log.get('lookups', ())
        if len(lks) != 1 or not lks[0]['found'] or not lks[0]['values']: return out + [('the list is looked up', False)]
        lk = lks[0]; a, b = gs[2]; i = lk['i']
        out += [('the list is looked up by its name: length', eq(lk['n'], sub(b, a))),
                ('the list is looked up by its name', All(lambda k: eq(rd(None, lk['node'], add(lk['off'], k), 1), rd(None, c.node, add(a, k), 1)), merge(trig((lk['node'], lk['off'])), trig((c.node, a))), 0, sub(b, a))),
                ('it is a list', eq(X.T(i), ARR)), ('every element is rendered once', eq(size, c.SUM(X.C(i))))]
        if not isinstance(d, Ptr) or d.obj is None: return out + [('no output only for an empty rendering', eq(size, 0))]
        return out + [('the output is alive', st.alive(d.obj)), ('the output lies inside', le(size, d.obj.size)), ('at its start', eq(d.off, 0)), ('the output is the renderings in order', bytes_all(st.node(d.obj), 0, c.WANT, 0, size))]
# ---------------------------------------------------------------- M25
def isend(b): return bor(eq(b, 0), eq(b, 10), eq(b, 13))
_LE = {}
def LINEEND(node):
    """offset of the first zero byte, line feed or carriage return at or behind a place"""
    if id(node) not in _LE: _LE[id(node)] = (Function(freshname('LINEEND'), I, I), node)
    f = _LE[id(node)][0]
    return lambda p: keep(f(Z(p)))
class ReadLine(Spec):
    """the text up to and including the first line end or terminator, in memory of its own"""
    name, mod = 'read_line', T_
    def cases(s, E):
        st = State(); text, n = cstring(st, 'text', readonly=True); yield Case('any', st, [text], text=text, n=n)
    def post(s, E, c, st, r):
        size, d = r['agg']; t = c.pre.node(c.text.obj)
        if not isinstance(d, Ptr) or d.obj is None or d.obj in c.pre.mem: return [('a line of its own', False)]
        return [('not empty', ge(size, 1)), ('ends at a line end', isend(rd(None, t, sub(size, 1), 1))), ('inside the text', le(size, add(c.n, 1))),
                ('no line end before', All(lambda k: bnot(isend(rd(None, t, k, 1))), trig((t, 0)), 0, sub(size, 1))), ('at its start', eq(d.off, 0)), ('alive', st.alive(d.obj)),
                ('the size lies inside', lt(size, d.obj.size)), ('terminated', eq(rd(st, st.node(d.obj), size, 1), 0)), ('the text of the line', bytes_all(st.node(d.obj), 0, t, 0, size))]
    def owned(s, E, c, st, r):
        d = r['agg'][1]; return [d.obj] if isinstance(d, Ptr) and d.obj is not None else []
    def call(s, E, st, fr, a, inst):
        p = a[0]; n = str_end(st, p, 'read_line', inst)
        if st.dead: return []
        t = st.node(p.obj); e = LINEEND(t)(p.off); size = add(sub(e, p.off), 1)
        st.assume(le(p.off, e), le(e, add(p.off, n)), isend(rd(None, t, e, 1)), Q(lambda k: implies(between(p.off, k, e), bnot(isend(rd(None, t, k, 1)))), trig((t, 0)), 1, 'lineend'))
        o = Obj('line', nat(st, 'line.size', 1 << 61), 'heap', line=inst.line); st.allocs.append(o); nd = Cp(Base('line'), 0, size, t, p.off); st.mem[o] = (nd, True)
        st.assume(lt(size, o.size)); st.assume(eq(rd(None, nd, size, 1), 0)); hint(st, o, size); st.term(e)
        return [(st, {'agg': [size, Ptr(o, 0)]})]
class Render(Spec):
    """the outputs of the template's lines and blocks, one behind the other"""
    name, mod, nohistory = 'gshkl_render', T_, True
    def uses(s): return {'@read_line': ReadLine(), '@_interpolate_loop': Loop(), '@_interpolate_conditionals': Cond(), '@_interpolate_line': LineCall(), '@_compile_regex': CompileRegex(), '@_destroy_regex': DestroyRegex()}
    def __init__(s): s.schemas = (Render.schema,)
    def cases(s, E):
        for label in ('size wanted', 'size not wanted'):
            st = State(); n = nat(st, 'size', 1 << 60); text = buf(st, 'text', readonly=True); st.assume(lt(n, text.obj.size), eq(rd(None, st.node(text.obj), n, 1), 0)); hint(st, text.obj, n); st.term(n)
            ctx = buf(st, 'ctext', 24, readonly=True); out = struct(st, 'outsize', 8, {0: (8, nat(st, 'junk'))}) if label == 'size wanted' else NULL
            # AT(p): what the pieces before the place p give, for the places p where a piece starts and where the last one ends
            at, tm = Function(freshname('AT'), I, I), Function(freshname('TERM'), I, I); total, last = nat(st, 'total', 1 << 60), nat(st, 'last', 2)
            axiom(at, lambda x: [And(x >= 0, x < 1 << 60), implies(ge(x.arg(0), n), eq(x, total))]); axiom(tm, lambda x: [And(x >= 0, x <= 1), implies(ge(x.arg(0), n), eq(x, last))])
            AT, TERM = (lambda p: keep(at(Z(p)))), (lambda p: keep(tm(Z(p)))); st.assume(eq(AT(0), 0), eq(TERM(0), 0))
            yield Case(label, st, [ctx, text, n, out], ctx=ctx, text=text, n=n, out=out, AT=AT, TERM=TERM, total=total, last=last, WANT=Base('pieces'))
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; out = []; iv = View(ctx.E, None, None, *ctx.variants[vk][:2], ctx).ints(); vals = ctx.variants[vk][0]
        iv = [x for x in iv if x[0] not in ('off', 'size', 'idx')]
        for x in iv:
            for y in iv:
                if x == y: continue
                out.append(('%s is the output before %s' % (x, y), lambda v, x=x, y=y: eq(v.ints()[x], c.AT(v.ints()[y]))))
                out.append(('%s tells of a line end before %s' % (x, y), lambda v, x=x, y=y: eq(v.ints()[x], c.TERM(v.ints()[y]))))
        for k, p in vals.items():
            if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'heap': continue
            for x in iv:
                out.append(('%s has room behind %s bytes' % (k, x), lambda v, k=k, x=x: lt(v.ints()[x], v.vals[k].obj.size)))
                out.append(('%s is terminated behind %s bytes' % (k, x), lambda v, k=k, x=x: eq(rd(None, v.st.node(v.vals[k].obj), v.ints()[x], 1), 0)))
                out.append(('%s holds the first %s bytes' % (k, x), lambda v, k=k, x=x: bytes_all(v.st.node(v.vals[k].obj), 0, c.WANT, 0, v.ints()[x])))
        return out
    def no_block(s, E, st, fn, p, inst): st.log['none'] = st.log.get('none', ()) + ((fn, p),)
    def piece(s, E, st, p, q, node, off, n, term):
        """the output of the piece [p, q) of the text"""
        c = E.case; a, w = c.AT(p), c.WANT; st.term(p, q); st.assume(eq(c.AT(q), add(a, n)), eq(c.TERM(q), term))
        if node is not None: st.assume(Q(lambda k: implies(between(a, k, add(a, n)), eq(rd(None, w, k, 1), rd(None, node, add(off, sub(k, a)), 1))), trig((w, 0)), 1, 'piece'))
    def block(s, E, st, fn, p, k, d, m, inst):
        if fn == Cond.name: E.oblige(st, 'conditionals are looked for only where no loop is', any(f == Loop.name and cdiff(q, p) == 0 for f, q in st.log.get('none', ())), inst.line)
        E.oblige(st, 'every piece is rendered once', 'piece' not in st.log, inst.line); st.log['piece'] = True
        s.piece(E, st, p, add(p, k), st.node(d.obj) if d.obj is not None else None, 0, m, 0)
    def rendered(s, E, st, bound, node, off, n, d, size, inst):
        l = st.log.get('none', ()); c = E.case; t = c.pre.node(c.text.obj)
        ok = len(l) == 2 and {f for f, q in l} == {Loop.name, Cond.name} and cdiff(l[0][1], l[1][1]) == 0 and 'piece' not in st.log
        E.oblige(st, 'a line is rendered only where no block is', ok, inst.line)
        if not ok: st.dead = True; return
        p = l[0][1]; e = LINEEND(t)(p); same_text(E, st, 'the line from there to its end is rendered', node, off, n, t, p, sub(add(e, 1), p), inst); st.log['piece'] = True
        dn = st.node(d.obj); s.piece(E, st, p, add(e, 1), dn, d.off, size, ite(band(ge(size, 1), eq(rd(None, dn, add(d.off, sub(size, 1)), 1), rd(None, t, e, 1))), 1, 0))
    def post(s, E, c, st, r):
        if not isinstance(r, Ptr) or r.obj is None or r.obj in c.pre.mem: return [('a result of its own', False)]
        node = st.node(r.obj); out = [('at its start', eq(r.off, 0)), ('alive', st.alive(r.obj)), ('room for all', lt(c.total, r.obj.size)), ('terminated behind it', eq(rd(st, node, c.total, 1), 0)),
            ('the pieces in order', bytes_all(node, 0, c.WANT, 0, c.total)), ('the patterns are released', not any(k[0] == 'regex' for k in st.log if isinstance(k, tuple)))]
        if not isnull(c.out): out.append(('the size without the line end of a last line', eq(st.rdn(c.out, 0, 8), sub(c.total, c.last))))
        return out
    def modifies(s, E, c, st, r): return {c.out.obj: True} if not isnull(c.out) else {}
SPECS = {'M22': [CompileRegex, DestroyRegex, Vishnu, SubLine, Line], 'M23': [CompileRegex, Truthy, Falsey, Cond], 'M24': [CompileRegex, Loop], 'M25': [CompileRegex, DestroyRegex, ReadLine, IncludeLine, Render], 'M26': [CompileRegex, Vishnu, FilterLine]}
