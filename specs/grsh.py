"""Contracts for src/greshunkel.c (M21 - M26, M29)."""
from irv.spec import *
from irv.family import *
from irv.libc import release, inttext, eqb
from specs import vector as V
T_ = 'src/greshunkel.c'
NAME, TYPE, VALUE, TUPLE = 0, 32, 40, 560
ARR, STR, SUB = 0, 1, 2
FILTER = 48; MAXNAME, MAXSTR = 31, 512

# ---------------------------------------------------------------- M21: adding
class Ctx:
    """an arbitrary context: two valid vectors and a parent"""
    def __init__(s, st):
        s.values, s.v = V.mkvec(st, TUPLE, 'values'); s.filters, s.f = V.mkvec(st, FILTER, 'filters')
        s.parent = buf(st, 'parent', 24, readonly=True)
        s.ctx = struct(st, 'ctext', 24, {0: (8, s.values), 8: (8, s.filters), 16: (8, s.parent)}, ptrs=(0, 8, 16))
def smin_(a, b): return ite(lt(a, b), a, b)
def text_at(st, node, at, src, n, cap, what):
    """the cap bytes at `at` are the first min(n, cap) bytes of src followed by zeroes"""
    m = smin_(n, cap)
    return All(lambda k: eq(rd(None, node, add(at, k), 1), ite(lt(k, m), rd(None, src, k, 1), 0)), merge(trig((node, at)), trig((src, 0))), 0, cap + 1)

class Add(Spec):
    """one item is appended behind everything added before"""
    mod, alloc_fail = T_, True
    size = TUPLE; named = True; type = STR
    def uses(s): return V.CONTRACTS()
    def start(s):
        st = State()
        if s.target == 'loop':
            vec, g = V.mkvec(st, TUPLE, 'list'); first = struct(st, 'loop', 520, {0: (8, vec)}, ptrs=(0,))
        else:
            X = Ctx(st); first = X.ctx; vec, g = (X.filters, X.f) if s.target == 'filters' else (X.values, X.v)
        st.assume(lt(g['cnt'], 1 << 32)); gv = dict(vec=vec, first=first, **g); args = [first]
        if s.named: gv['name'], gv['nlen'] = cstring(st, 'name', readonly=True); args.append(gv['name'])
        return st, args, gv
    def cases(s, E):
        for label in s.labels():
            st, args, gv = s.start(); s.more(st, args, gv, label)
            yield Case(label, st, args, **gv)
    def labels(s): return ('any',)
    def more(s, st, args, gv, label): pass
    def added(s, E, c, st, r): return eq(r, 0), eq(r, 1)
    def post(s, E, c, st, r):
        cnt = c.cnt; it = st.rdn(c.vec, V.ITEMS, 8, True); cnt1 = st.rdn(c.vec, V.CNT, 8); out = V.valid(st, c.vec, s.size)
        node = st.node(it.obj); used = scale(s.size, cnt)
        out.append(('what was added before is kept', bytes_all(node, 0, c.pre.node(c.items.obj), 0, used)))
        grown = st.decide(eq(cnt1, add(cnt, 1)))
        if grown is not True:
            return out + [('fails only when out of memory', E.failed(c, st)), ('the failure is reported', s.added(E, c, st, r)[1]), ('nothing is added on failure', eq(cnt1, cnt))]
        out.append(('the success is reported', s.added(E, c, st, r)[0]))
        if s.named: out.append(('the name, cut to its limit', text_at(st, node, used, c.pre.node(c.name.obj), c.nlen, MAXNAME, 'name')))
        if s.size == TUPLE: out.append(('the type', eq(rd(st, node, add(used, TYPE), 4), s.type)))
        return out + s.value(E, c, st, node, add(used, VALUE if s.size == TUPLE else NAME))
    def value(s, E, c, st, node, at): return []
    def modifies(s, E, c, st, r): return {c.vec.obj: lambda k: (k >= 8) if not isz(k) else ge(k, 8), c.items.obj: True}
    def frees(s, E, c, st, r): return () if st.alive(c.items.obj) is True else (c.items.obj,)
    def owned(s, E, c, st, r): return [st.rdn(c.vec, V.ITEMS, 8, True).obj]
class AddString(Add):
    name, target = 'gshkl_add_string', 'values'
    def more(s, st, args, gv, label): gv['val'], gv['vlen'] = cstring(st, 'value', readonly=True); args.append(gv['val'])
    def value(s, E, c, st, node, at): return [('the value, cut to its limit', text_at(st, node, at, c.pre.node(c.val.obj), c.vlen, MAXSTR, 'value'))]
class AddStringToLoop(AddString):
    name, target, named = 'gshkl_add_string_to_loop', 'loop', False
    def labels(s): return ('any', 'no string')
    def more(s, st, args, gv, label):
        if label == 'any': return AddString.more(s, st, args, gv, label)
        gv['val'] = NULL; args.append(NULL)
    def value(s, E, c, st, node, at):
        if not isnull(c.val): return AddString.value(s, E, c, st, node, at)
        return [('a missing string is empty', eq(rd(st, node, at, 1), 0))]
class AddInt(Add):
    name, target = 'gshkl_add_int', 'values'
    def more(s, st, args, gv, label): gv['val'] = nat(st, 'value', 1 << 32); args.append(gv['val'])
    def value(s, E, c, st, node, at):
        n, txt = inttext('d', c.val, 32)
        return [('the value is the decimal text', All(lambda k: eq(rd(None, node, add(at, k), 1), rd(None, txt, k, 1)), trig((node, at)), 0, n)), ('terminated', eq(rd(st, node, add(at, n), 1), 0))]
class AddIntToLoop(AddInt): name, target, named = 'gshkl_add_int_to_loop', 'loop', False
class AddSub(Add):
    name, target, type = 'gshkl_add_sub_context', 'values', SUB
    def more(s, st, args, gv, label): gv['child'] = buf(st, 'child', 24, readonly=True); args.append(gv['child'])
    def value(s, E, c, st, node, at): return [('the value is the sub-context', samev(rd(st, node, at, 8, True), c.child))]
class AddSubToLoop(AddSub): name, target, named = 'gshkl_add_sub_context_to_loop', 'loop', False
class AddFilter(Add):
    name, target, size = 'gshkl_add_filter', 'filters', FILTER
    def labels(s): return ('with a clean-up', 'without')
    def more(s, st, args, gv, label):
        gv['fn'] = Fn('?filter'); gv['clean'] = Fn('?clean') if label != 'without' else NULL; args += [gv['fn'], gv['clean']]
    def value(s, E, c, st, node, at): return [('the function', samev(rd(st, node, add(at, 32), 8, True), c.fn)), ('the clean-up', samev(rd(st, node, add(at, 40), 8, True), c.clean))]
class AddArray(Add):
    name, target, type, alloc_fail = 'gshkl_add_array', 'values', ARR, False
    def start(s):
        st, args, gv = Add.start(s); gv['ret'] = st.new(Obj('returned', 520, 'param', ptrs=(0,)), Base('returned')); return st, [gv['ret']] + args, gv
    def added(s, E, c, st, r): return True, False
    def value(s, E, c, st, node, at):
        p = rd(st, node, at, 8, True); q = rd(st, st.node(c.ret.obj), 0, 8, True)
        if not isinstance(p, Ptr) or p.obj is None or p.obj in c.pre.mem: return [('the value is a list of its own', False)]
        return V.valid(st, p, TUPLE) + [('the list is empty', eq(st.rdn(p, V.CNT, 8), 0)), ('the list is returned', samev(p, q)), ('at its start', eq(p.off, 0))]
    def modifies(s, E, c, st, r): return {**Add.modifies(s, E, c, st, r), c.ret.obj: True}
    def owned(s, E, c, st, r):
        l = Add.owned(s, E, c, st, r); q = rd(st, st.node(c.ret.obj), 0, 8, True)
        if isinstance(q, Ptr) and q.obj is not None: l += [q.obj, st.rdn(q, V.ITEMS, 8, True).obj]
        return l
class Init(Spec):
    """a fresh empty context (out of memory ends the process by the function's own assertions)"""
    name, mod, child = 'gshkl_init_context', T_, False
    def uses(s): return V.CONTRACTS()
    def cases(s, E):
        st = State(); p = buf(st, 'parent', 24, readonly=True) if s.child else NULL
        yield Case('any', st, [p] if s.child else [], parent=p)
    def post(s, E, c, st, r):
        if not isinstance(r, Ptr) or r.obj is None or r.obj in c.pre.mem: return [('a context of its own', False)]
        out = [('at its start', eq(r.off, 0)), ('large enough', ge(r.obj.size, 24)), ('the parent', samev(st.rdn(r, 16, 8, True), c.parent))]
        l = [r.obj]
        for what, f, z in (('variables', 0, TUPLE), ('filters', 8, FILTER)):
            v = st.rdn(r, f, 8, True)
            if not isinstance(v, Ptr) or v.obj is None or v.obj in l: return out + [('a vector for %s' % what, False)]
            l.append(v.obj)
            out += [('%s: %s' % (what, x), y) for x, y in V.valid(st, v, z) + [('none yet', eq(st.rdn(v, V.CNT, 8), 0)), ('at its start', eq(v.off, 0))]]
        return out
    def owned(s, E, c, st, r):
        l = [r.obj]
        for f in (0, 8): v = st.rdn(r, f, 8, True); l += [v.obj, st.rdn(v, V.ITEMS, 8, True).obj]
        return l
class InitChild(Init):
    name, child = '_gshkl_init_child_context', True

# ---------------------------------------------------------------- M21: finding
class Chain:
    """an arbitrary context and its ancestors: context i has cnt(i) items, item j of context i a name of nl(i, j) bytes; context
    number N (and only that) is missing.  Only the items of the kind that is looked for are described."""
    def __init__(s, st, needle, nlen, values, size):
        s.N = N = nat(st, 'contexts', 1 << 30); s.size = size
        cnt, mx, NL, F = (Function(freshname(n), *[I] * k) for n, k in (('cnt', 2), ('max', 2), ('namelen', 3), ('FIRST', 2)))
        s.cnt, s.mx, s.nl, s.F = [(lambda f: lambda *a: keep(f(*[Z(x) for x in a])))(f) for f in (cnt, mx, NL, F)]
        axiom(cnt, lambda x: [And(x >= 0, x < (1 << 31))]); axiom(mx, lambda x: [And(x >= 0, x < (1 << 31)), keep(cnt(x.arg(0)) <= x)])
        axiom(NL, lambda x: [And(x >= 0, x <= MAXNAME)])
        s.items = Family(st, 'items', N, lambda i: add(scale(size, s.mx(i)), 1), readonly=True)
        s.items.strat = s.namelen
        def vec(name, it, z): 
            def dyn(st2, off, n, ptr):
                i, r = split(off)
                return {(0, 8): z, (8, 8): s.mx(i), (16, 8): s.cnt(i), (24, 8): it.at(i) if it else None}.get((r, n)) if not isz(r) else None
            return Family(st, name, N, lambda i: 32, Base(name, 'uf', dyn=dyn), readonly=True)
        s.vecs = vec('vectors', s.items, size)
        s.other = Family(st, 'others', N, lambda i: 32, readonly=True)
        def dyn(st2, off, n, ptr):
            i, r = split(off)
            if isz(r) or n != 8: return None
            a, b = (s.vecs, s.other) if values else (s.other, s.vecs)
            return {0: a.at(i), 8: b.at(i), 16: s.ctx.at(add(i, 1))}.get(r)
        s.ctx = Family(st, 'contexts', add(N, 1), lambda i: 24, Base('contexts', 'uf', dyn=dyn), readonly=True, null=lambda i: ge(i, N))
        # item j of context i has the name: exactly the bytes of the needle
        items = s.items.node; nd = st.node(needle.obj)
        s.M = lambda i, j: band(eq(s.nl(i, j), nlen), eqb(items, s.off(i, j), nd, 0, nlen))
        # FIRST(i): the first item of context i that has the name, or the number of its items
        def ax(app):
            i = app.arg(0); c = s.cnt(i)
            return [And(app >= 0, app <= c), implies(lt(app, c), s.M(i, app)), Q(lambda k: implies(band(le(0, k), lt(k, app)), bnot(s.M(i, k))), {NL.name(): [(1, 0)]}, 2, 'first')]
        axiom(F, ax, 2)
        # the first context with such an item, or N
        s.first = f = nat(st, 'firstcontext', 1 << 30); st.assume(le(f, N), implies(lt(f, N), lt(s.F(f), s.cnt(f))), Q(lambda k: implies(band(le(0, k), lt(k, f)), eq(s.F(k), s.cnt(k))), {F.name(): [(0, 0)]}, 2, 'firstcontext'))
        st.term(N, f)
    def off(s, i, j): return add(scale(BIG, i), scale(s.size, j))
    def namelen(s, st, i, r):
        j = div_exact(r, s.size)
        if j is None: return None
        n = s.nl(i, j); st.assume(*is_name(s.items.node, s.off(i, j), n)); return n
def is_name(node, o, n):
    return eq(rd(None, node, add(o, n), 1), 0), Q(lambda k: implies(between(o, k, add(o, n)), ne(rd(None, node, k, 1), 0)), trig((node, 0)), 1, 'name')

class FindNeedle(Spec):
    name, mod, nohistory = 'find_needle', T_, True
    def uses(s): return V.CONTRACTS()
    def cases(s, E):
        for label, values, size in (('variable', 1, TUPLE), ('filter', 0, FILTER)):
            st = State(); needle, n = cstring(st, 'needle', readonly=True); X = Chain(st, needle, n, values, size)
            yield Case(label, st, [X.ctx.at(0), needle, values], X=X, needle=needle, n=n)
    @staticmethod
    def schema(ctx, vk):
        """no context before this one and no item before this one has the name"""
        X = ctx.E.case.X; out = []
        iv = View(ctx.E, None, None, ctx.variants[vk][0], ctx.variants[vk][1], ctx).ints()
        for k in iv:
            if k[0] == 'idx': out.append(('no earlier context has it %s' % (k,), lambda v, k=k: le(v.ints()[k], X.first)))
            else:
                for b in ctx.st0.env.values():
                    if isinstance(b, Ptr) and b.obj is X.ctx.obj:
                        i = split(b.off)[0]; out.append(('no earlier item has it %s' % (k,), lambda v, k=k, i=i: ge(X.F(i), v.ints()[k])))
        return out
    def __init__(s): s.schemas = (FindNeedle.schema,)
    def post(s, E, c, st, r):
        X = c.X
        if isnull(r): return [('nothing is found only if no context has the name', eq(X.first, X.N))]
        if not isinstance(r, Ptr) or r.obj is not X.items.obj: return [('an item of a context is found', False)]
        return [('found only if some context has the name', lt(X.first, X.N)), ('the first such item of the innermost such context', eq(r.off, X.off(X.first, X.F(X.first))))]
    def owned(s, E, c, st, r): return []
# ---------------------------------------------------------------- M29
# Ownership is a pair of mutually recursive predicates: a context owns its two vectors, the lists among its variables and the
# sub-contexts among them; a list owns its vector and the sub-contexts among its elements.  The functions are verified with their
# own argument unfolded; what it owns in turn are members of families that the recursive calls release as a whole.
class Owned:
    """n items whose types are T(j); item j owns list j or sub-context j according to its type"""
    def __init__(s, st, name, nested):
        s.n = nat(st, name + '.count', 1 << 31); s.mx = nat(st, name + '.max', 1 << 31); st.assume(le(s.n, s.mx)); st.term(s.n, s.mx)
        T = Function(freshname(name + '.type'), I, I); axiom(T, lambda x: [And(x >= (0 if nested else 1), x <= 2)]); s.T = lambda j: keep(T(Z(j)))
        s.lists = Family(st, name + '.lists', s.n, lambda j: 32, null=lambda j: ne(s.T(j), ARR)) if nested else None
        s.subs = Family(st, name + '.subcontexts', s.n, lambda j: 24, null=lambda j: ne(s.T(j), SUB))
        def dyn(st2, off, n, ptr):
            d, c, a = lin(off) if isz(off) else ({}, off, {}); r = c % TUPLE; j = div_exact(sub(off, r), TUPLE)
            if j is None: return None
            if r == TYPE and n == 4: return s.T(j)
            if r == VALUE and ptr:
                if st2 is None: return None
                for t, f in ((ARR, s.lists), (SUB, s.subs)):
                    d = st2.decide(eq(s.T(j), t)) if f else False
                    if d is None: raise Fork(eq(s.T(j), t))
                    if d: return f.at(j)
                raise Unsupported('pointer value of a string')
            return None
        s.items = st.new(Obj(name + '.items', add(scale(TUPLE, s.mx), 1), 'heap'), Base(name + '.items', 'uf', dyn=dyn))
        s.vec = struct(st, name, 32, {0: (8, TUPLE), 8: (8, s.mx), 16: (8, s.n), 24: (8, s.items)}, 'heap', ptrs=(24,))
    fams = property(lambda s: [f for f in (s.lists, s.subs) if f])
    def schema(s, ctx, vk):
        out = []
        for x in View(ctx.E, None, None, ctx.variants[vk][0], {}, ctx).ints():
            for f in s.fams:
                out.append(('%s before %s is released' % (f.name, x), lambda v, f=f, x=x: f.gone(v.st, 0, v.ints()[x])))
                out.append(('%s from %s on is untouched' % (f.name, x), lambda v, f=f, x=x: s.kept(v.st, f, v.ints()[x])))
        return out
    def kept(s, st, f, lo):
        n = st.node(f.live); return All(lambda k: eq(rd(None, n, k, 1), ite(f.null(k), 0, 1)), trig((n, 0)), lo, s.n)
    def post(s, st): return [('everything in %s is released' % f.name, f.gone(st, 0, s.n)) for f in s.fams]
def release_whole(E, st, p, kinds, what, inst):
    """a call that releases a folded context or list: exactly once, and nothing is read from it afterwards"""
    if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'family' or p.obj.meta['fam'].name.split('.')[-1] != kinds:
        raise Unsupported(what + ' of something else')
    MODELS['@free'](E, st, None, [p], inst)
    return [] if st.dead else [(st, None)]
class FreeContext(Spec):
    name, mod = 'gshkl_free_context', T_
    def uses(s): return {**V.CONTRACTS(), '@gshkl_free_context': FreeContext(), '@_gshkl_free_arr': FreeArr()}
    def __init__(s): s.schemas = (lambda ctx, vk: ctx.E.case.O.schema(ctx, vk),)
    def cases(s, E):
        for parent in (False, True):
            st = State(); O = Owned(st, 'values', True); fv, g = V.mkvec(st, FILTER, 'filters')
            ctx = struct(st, 'ctext', 24, {0: (8, O.vec), 8: (8, fv), 16: (8, buf(st, 'parent', 24, readonly=True) if parent else NULL)}, 'heap', ptrs=(0, 8, 16))
            yield Case('with a parent' if parent else 'no parent', st, [ctx], ctx=ctx, O=O, fv=fv, fi=g['items'])
    def post(s, E, c, st, r): return c.O.post(st)
    def frees(s, E, c, st, r): return (c.ctx.obj, c.O.vec.obj, c.O.items.obj, c.fv.obj, c.fi.obj)
    def owned(s, E, c, st, r): return []
    def call(s, E, st, fr, a, inst): return release_whole(E, st, a[0], 'subcontexts', 'gshkl_free_context', inst)
class FreeArr(Spec):
    name, mod = '_gshkl_free_arr', T_
    uses = FreeContext.uses; __init__ = FreeContext.__init__
    def cases(s, E):
        st = State(); O = Owned(st, 'list', False)
        t = struct(st, 'tuple', TUPLE, {TYPE: (4, ARR), VALUE: (8, O.vec)}, ptrs=(VALUE,), readonly=True)
        yield Case('any', st, [t], O=O)
    def post(s, E, c, st, r): return c.O.post(st)
    def frees(s, E, c, st, r): return (c.O.vec.obj, c.O.items.obj)
    def owned(s, E, c, st, r): return []
    def call(s, E, st, fr, a, inst):
        if not E.access(st, a[0], TUPLE, '_gshkl_free_arr: item', inst): return []
        E.oblige(st, 'only a list is released as a list', eq(st.rdn(a[0], TYPE, 4), ARR), inst.line)
        if st.dead: return []
        return release_whole(E, st, st.rdn(a[0], VALUE, 8, True), 'lists', '_gshkl_free_arr', inst)

SPECS = {'M21': [AddString, AddStringToLoop, AddInt, AddIntToLoop, AddSub, AddSubToLoop, AddFilter, AddArray, Init, InitChild, FindNeedle], 'M29': [FreeContext, FreeArr]}
