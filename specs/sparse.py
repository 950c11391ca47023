"""Contracts for src/simple_sparsehash.c: the sparse array (M03)."""
from irv.spec import *
from irv.family import *
from irv import bits
from irv.libc import release
H_ = 'src/simple_sparsehash.c'
GS, GSZ = 48, 32                       # positions per group, bytes of a group record
CNT, ESZ, GRP, BM = 0, 8, 16, 24       # fields of a group record

class Group:
    """the group that position p belongs to: bitmap bits b, elements packed in the order of their positions"""
    def __init__(s, st, es, p, empty):
        s.es, s.p = es, p; s.F = add(es, 8)
        s.b = [0 if empty else bits.newbit(st, 'b%d' % i) for i in range(GS)]
        s.count = sum_(s.b); s.rank = sum_(s.b[:p])
        s.w = [sum_([scale(1 << j, s.b[32 * i + j]) for j in range(32) if 32 * i + j < GS]) for i in range(2)]
        s.R = s.C = 0
        if not empty:
            s.C = nat(st, 'count', 64); s.R = nat(st, 'rank', 64) if p else 0
            bits.alias(st, s.rank, s.R); bits.alias(st, s.count, s.C); bits.alias(st, sub(s.count, s.rank), sub(s.C, s.R)); bits.alias(st, sub(s.count, add(s.rank, s.b[p])), sub(s.C, add(s.R, s.b[p])))
        if empty: s.g = NULL
        else:
            st.assume(ge(s.C, 1)); s.slack = nat(st, 'slack', 1 << 40)
            st.assume(ge(sub(s.C, sum_([s.R, s.b[p]])), 0), lt(mul(add(s.C, 1), s.F), 1 << 59))
            s.size = add(mul(s.C, s.F), s.slack); s.g = buf(st, 'group', s.size, 'heap'); st.term(mul(s.C, s.F), mul(s.R, s.F))
        s.cells = {CNT: (4, s.count), ESZ: (8, es), GRP: (8, s.g), BM: (4, s.w[0]), BM + 4: (4, s.w[1])}
def sum_(l):
    d, c, a = {}, 0, {}
    for x in l:
        d2, c2, a2 = lin(x); c += c2; a.update(a2)
        for k, v in d2.items(): d[k] = d.get(k, 0) + v
    return unlin(d, c, a)
class Arr:
    """an arbitrary sparse array, seen from position 48*g + p"""
    def __init__(s, st, p, empty):
        s.max = nat(st, 'maximum', 1 << 32); s.g = nat(st, 'g', 1 << 27); s.i = add(scale(GS, s.g), p); s.es = nat(st, 'elem_size', 1 << 40)
        st.assume(ge(s.max, 1)); st.term(s.g, s.max, s.es)
        s.G = Group(st, s.es, p, empty); base = scale(GSZ, s.g)
        def dyn(st2, off, n, ptr):
            d = cdiff(off, base); c = s.G.cells.get(d) if d is not None else None
            return c[1] if c and c[0] == n else None
        n = add(div(sub(s.max, 1), GS), 1); s.ngroups = n
        o = Obj('groups', scale(GSZ, n), 'heap'); s.groups = st.new(o, Base('groups', 'uf', dyn=dyn))
        s.arr = struct(st, 'arr', 16, {0: (8, s.max), 8: (8, s.groups)}, 'heap', ptrs=(8,))
    def inside(s): return lt(s.i, s.max)
    def field(s, st, f, n, ptr=False): return rd(st, st.node(s.groups.obj), add(scale(GSZ, s.g), f), n, ptr)

class SetOne(Spec):
    name, mod, alloc_fail = 'sparse_array_set', H_, True
    def cases(s, E):
        for k, (p, empty) in enumerate((p, e) for p in range(GS) for e in (False, True)):
                if E.only not in (None, k): yield None; continue
                st = State(); A = Arr(st, p, empty); st.assume(lt(A.i, 1 << 32)); n = nat(st, 'vlen'); v = buf(st, 'value', readonly=True); st.assume(le(n, v.obj.size)); st.term(n)
                yield Case('position %d, %s' % (p, 'empty group' if empty else 'group in use'), st, [A.arr, A.i, v, n], A=A, n=n, v=v, p=p)
    def post(s, E, c, st, r):
        A, G, n = c.A, c.A.G, c.n; ok = st.decide(ne(r, 0))
        if ok is None: return [('result is definite', False)]
        if not ok: return [('refused only out of bounds, too large or out of memory', bor(bnot(A.inside()), gt(n, A.es), E.failed(c, st))), ('refusal value', eq(r, 0))] + s.same(E, c, st)
        b = G.b[c.p]; F = G.F
        out = [('result is 1', eq(r, 1)), ('an index past the maximum is refused', A.inside()), ('a value larger than an element is refused', le(n, A.es))]
        w = [A.field(st, BM + 4 * i, 4) for i in range(2)]; g1 = A.field(st, GRP, 8, True)
        for i in range(2): out.append(('only the bit of the position is set (word %d)' % i, eq(w[i], add(G.w[i], scale(1 << (c.p % 32), sub(1, b)) if c.p // 32 == i else 0))))
        out += [('the count is the number of bits', eq(A.field(st, CNT, 4), add(G.count, sub(1, b)))), ('element size is unchanged', eq(A.field(st, ESZ, 8), A.es))]
        if not isinstance(g1, Ptr) or g1.obj is None: return out + [('the group has storage', False)]
        N = st.node(g1.obj); at = mul(G.R, F); cf = mul(G.C, F)
        out += [('storage is live and at its start', band(st.alive(g1.obj), eq(g1.off, 0), g1.obj.kind == 'heap')), ('storage holds all elements', le(add(cf, ite(eq(b, 0), F, 0)), g1.obj.size)),
                ('the length is stored', eq(rd(st, N, at, 8), n)), ('the value is stored', bytes_all(N, add(at, 8), c.pre.node(c.v.obj), 0, n))]
        if not isnull(G.g):
            N0 = c.pre.node(G.g.obj)
            out.append(('elements at lower positions are unchanged', bytes_all(N, 0, N0, 0, at)))
            d = st.decide(eq(b, 0))
            if d is None: out.append(('the case is definite', False))
            elif d: out.append(('elements at higher positions move up by one', All(lambda k: eq(rd(None, N, add(k, F), 1), rd(None, N0, k, 1)), merge(trig((N, F)), trig((N0, 0))), at, cf)))
            else: out.append(('elements at higher positions are unchanged', All(lambda k: eq(rd(None, N, k, 1), rd(None, N0, k, 1)), merge(trig((N, 0)), trig((N0, 0))), add(at, F), cf)))
        return out + s.ranks(c)
    def ranks(s, c):
        """the element of every other position is found where it now is: its rank is one higher exactly behind a new position"""
        b = c.A.G.b; p = c.p; b1 = b[:p] + [1] + b[p+1:]; bad = []
        for q in range(GS):
            if q != p and cdiff(sub(sum_(b1[:q]), sum_(b[:q])), sub(1, b[p]) if p < q else 0) != 0: bad.append(q)
        return [('ranks of the other positions', not bad)]
    def same(s, E, c, st):
        A, G = c.A, c.A.G; g1 = A.field(st, GRP, 8, True)
        out = [('bitmap unchanged', band(*[eq(A.field(st, BM + 4 * i, 4), G.w[i]) for i in range(2)])), ('count unchanged', eq(A.field(st, CNT, 4), G.count)), ('element size is unchanged', eq(A.field(st, ESZ, 8), A.es)), ('same storage', samev(g1, G.g))]
        if not isnull(G.g): out += [('storage kept', st.alive(G.g.obj)), ('elements unchanged', bytes_all(st.node(G.g.obj), 0, c.pre.node(G.g.obj), 0, G.g.obj.size))]
        return out
    def modifies(s, E, c, st, r):
        A = c.A; lo = scale(GSZ, A.g); m = {A.groups.obj: lambda k: between(lo, k, add(lo, GSZ))}
        if not isnull(A.G.g): m[A.G.g.obj] = True
        return m
    def frees(s, E, c, st, r):
        g = c.A.G.g; return () if isnull(g) or st.alive(g.obj) is True else (g.obj,)
    def owned(s, E, c, st, r):
        g = c.A.field(st, GRP, 8, True); return [g.obj] if isinstance(g, Ptr) else []

class GetOne(Spec):
    name, mod = 'sparse_array_get', H_
    def cases(s, E):
        for k, (p, empty, want) in enumerate((p, e, w) for p in range(GS) for e in (False, True) for w in (True, False)):
                    if E.only not in (None, k): yield None; continue
                    st = State(); A = Arr(st, p, empty); st.assume(lt(A.i, 1 << 32)); o = buf(st, 'outsize', 8) if want else NULL
                    if not empty: ln = rd(st, st.node(A.G.g.obj), mul(A.G.R, A.G.F), 8); st.assume(implies(eq(A.G.b[p], 1), le(ln, A.es)))
                    yield Case('position %d, %s%s' % (p, 'empty group' if empty else 'group in use', '' if want else ', no size'), st, [A.arr, A.i, o], A=A, o=o, p=p)
    def post(s, E, c, st, r):
        A, G = c.A, c.A.G; b = G.b[c.p]
        if isnull(r): 
            ln = rd(st, st.node(G.g.obj), mul(G.R, G.F), 8) if not isnull(G.g) else 0
            out = [('nothing only for a position never set (or an empty value)', bor(bnot(A.inside()), eq(b, 0), eq(ln, 0)))]
            if c.o is not NULL: out.append(('the size is not written', eq(rd(st, st.node(c.o.obj), 0, 8), rd(st, c.pre.node(c.o.obj), 0, 8))))
            return out
        if isnull(G.g) or not isinstance(r, Ptr) or r.obj is not G.g.obj: return [('the result points into the group', False)]
        at = mul(G.R, G.F); ln = rd(st, st.node(G.g.obj), at, 8)
        out = [('inside the maximum', A.inside()), ('only for a position that was set', eq(b, 1)), ('the value of that position', eq(r.off, add(at, 8))), ('an element', le(add(r.off, ln), G.g.obj.size))]
        if c.o is not NULL: out.append(('the length of that value', eq(rd(st, st.node(c.o.obj), 0, 8), ln)))
        return out
    def modifies(s, E, c, st, r): return {} if isnull(c.o) else {c.o.obj: True}
    def owned(s, E, c, st, r): return []
def rec(node, es, lo, hi):
    """the group records in bytes [32*lo, 32*hi) are empty, with element size es"""
    def body(q):
        b = 0
        for j in range(8): b = ite(eq(mod(q, GSZ), ESZ + j), byte_of(es, j), b)
        return eq(rd(None, node, q, 1), b)
    return All(body, trig((node, 0)), scale(GSZ, lo), scale(GSZ, hi))
class Init(Spec):
    name, mod, alloc_fail = 'sparse_array_init', H_, True
    def __init__(s): s.schemas = (Init.schema,)
    def cases(s, E):
        st = State(); es = nat(st, 'elem_size', 1 << 40); mx = nat(st, 'maximum', 1 << 32); st.assume(ge(mx, 1)); st.term(es, mx)
        yield Case('any', st, [es, mx], es=es, mx=mx)
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; out = []
        o = [x for x in ctx.st0.allocs if x.meta.get('line') and cdiff(x.size, scale(GSZ, add(div(sub(c.mx, 1), GS), 1))) == 0]
        if not o: return []
        o = o[-1]
        for x in View(ctx.E, None, None, ctx.variants[vk][0], {}, ctx).ints():
            out.append(('records below %s are set up' % (x,), lambda v, x=x: rec(v.st.node(o), c.es, 0, v.ints()[x])))
            out.append(('records from %s on are zero' % (x,), lambda v, x=x: All(lambda q: eq(rd(None, v.st.node(o), q, 1), 0), trig((v.st.node(o), 0)), scale(GSZ, v.ints()[x]), o.size)))
        return out
    def post(s, E, c, st, r):
        if isnull(r): return [('fails only when out of memory', E.failed(c, st))]
        g = st.rdn(r, 8, 8, True); n = add(div(sub(c.mx, 1), GS), 1)
        if not isinstance(g, Ptr) or g.obj is None: return [('has groups', False)]
        return [('maximum', eq(st.rdn(r, 0, 8), c.mx)), ('starts at its allocation', band(eq(r.off, 0), eq(g.off, 0), st.alive(g.obj))), ('a record for every group', le(scale(GSZ, n), g.obj.size)), ('every group is empty', rec(st.node(g.obj), c.es, 0, n))]
    def owned(s, E, c, st, r): return [] if isnull(r) else [r.obj, st.rdn(r, 8, 8, True).obj]
class Free(Spec):
    """every group's storage is released exactly once, then the records, then the array"""
    name, mod = 'sparse_array_free', H_
    def __init__(s): s.schemas = (Free.schema,)
    def cases(s, E):
        st = State(); mx = nat(st, 'maximum', 1 << 32); st.assume(ge(mx, 1)); n = add(div(sub(mx, 1), GS), 1); st.term(mx, n)
        nul = Function(freshname('EMPTY'), I, I); null = lambda i: keep(nul(Z(i)) == 0)
        fam = Family(st, 'group', n, lambda i: 1, null=null)
        def dyn(st2, off, k, ptr):
            i = div_exact(sub(off, GRP), GSZ)
            return fam.at(i) if i is not None and k == 8 else None
        g = st.new(Obj('groups', scale(GSZ, n), 'heap'), Base('groups', 'uf', dyn=dyn))
        arr = struct(st, 'arr', 16, {0: (8, mx), 8: (8, g)}, 'heap', ptrs=(8,))
        yield Case('any', st, [arr], arr=arr, recs=g, fam=fam, n=n)
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; out = []
        for x in View(ctx.E, None, None, ctx.variants[vk][0], {}, ctx).ints():
            out.append(('groups before %s are released' % (x,), lambda v, x=x: c.fam.gone(v.st, 0, v.ints()[x])))
            n0 = c.pre.node(c.fam.live)
            out.append(('groups from %s on are untouched' % (x,), lambda v, x=x: All(lambda k: eq(rd(None, v.st.node(c.fam.live), k, 1), rd(None, n0, k, 1)), trig((v.st.node(c.fam.live), 0)), v.ints()[x], c.n)))
        return out
    def post(s, E, c, st, r): return [('result is 1', eq(r, 1)), ('the storage of every group is released', c.fam.gone(st, 0, c.n))]
    def frees(s, E, c, st, r): return (c.arr.obj, c.recs.obj)
SPECS = {'M03': [SetOne, GetOne, Init, Free]}
