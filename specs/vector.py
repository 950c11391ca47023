"""Contracts for src/vector.c (M01, M02)."""
from irv.spec import *

ISZ, MAX, CNT, ITEMS = 0, 8, 16, 24
MOD = 'src/vector.c'

def mkvec(st, isz=None, name='vec', count=None):
    """an arbitrary valid vector"""
    isz = nat(st, 'isz', 1 << 40) if isz is None else isz
    mx = nat(st, 'max', 1 << 40); cnt = nat(st, 'count', 1 << 40) if count is None else count
    st.assume(le(cnt, mx), lt(mul(add(mx, mx), isz), 1 << 60), ge(mul(cnt, isz), 0))
    items = buf(st, name + '.items', add(mul(mx, isz), 1), 'heap')
    v = struct(st, name, 32, {ISZ: (8, isz), MAX: (8, mx), CNT: (8, cnt), ITEMS: (8, items)}, 'heap', ptrs=(ITEMS,))
    st.allocs += []
    st.term(isz, mx, cnt, mul(cnt, isz))
    return v, dict(isz=isz, mx=mx, cnt=cnt, items=items)
def valid(st, v, isz):
    """the vector invariant, for the current state"""
    mx, cnt = st.rdn(v, MAX, 8), st.rdn(v, CNT, 8); it = st.rdn(v, ITEMS, 8, True)
    if isnull(it) or not isinstance(it, Ptr): return [('items is allocated', False)]
    return [('count <= capacity', le(cnt, mx)), ('element size is unchanged', eq(st.rdn(v, ISZ, 8), isz)),
            ('storage is live and starts at its allocation', band(st.alive(it.obj), eq(it.off, 0))),
            ('storage holds capacity elements', le(add(mul(mx, isz), 1), it.obj.size))]

def storage(st, it):
    """(points to the start of its allocation, size of the allocation, is live)"""
    if it.obj.kind == 'family':
        from irv.family import split
        f = it.obj.meta['fam']; i, r = split(it.off)
        return band(eq(r, 0), le(0, i), lt(i, f.count)), f.size(i), f.alive(st, i)
    return eq(it.off, 0), it.obj.size, st.alive(it.obj)
def pre_valid(E, st, v, inst, what):
    """obligations at a call: the vector invariant holds"""
    if not E.access(st, v, 32, what + ' read', inst): return False
    it = st.rdn(v, ITEMS, 8, True)
    if not isinstance(it, Ptr) or it.obj is None: E.oblige(st, what + ': the vector has storage', False, inst.line); st.dead = True; return False
    isz_ = st.rdn(v, ISZ, 8); mx = st.rdn(v, MAX, 8); cnt = st.rdn(v, CNT, 8)
    start, size, live = storage(st, it)
    E.oblige(st, what + ': valid vector', band(le(cnt, mx), start, le(add(mul(mx, isz_), 1), size), live), inst.line)
    return not st.dead

class New(Spec):
    name, mod, alloc_fail = 'vector_new', MOD, True
    def cases(s, E):
        st = State(); isz = nat(st, 'isz', 1 << 40); n = nat(st, 'n', 1 << 40)
        st.assume(lt(mul(n, isz), 1 << 60)); st.term(isz, n)
        yield Case('any', st, [isz, n], isz=isz, n=n)
    def post(s, E, c, st, r):
        if isnull(r):
            return [('failure only when out of memory', E.failed(c, st))]
        out = [('result starts at its allocation', eq(r.off, 0)), ('count is zero', eq(st.rdn(r, CNT, 8), 0)), ('capacity', eq(st.rdn(r, MAX, 8), c.n))]
        return out + valid(st, r, c.isz)
    def owned(s, E, c, st, r):
        if isnull(r): return []
        return [r.obj, st.rdn(r, ITEMS, 8, True).obj]
    def call(s, E, st, fr, a, inst):
        z, n = a; out = []
        E.oblige(st, 'vector_new: size representable', lt(mul(z, n), 1 << 60), inst.line)
        if st.dead: return []
        if E.alloc_fail: s0 = st.copy(); s0.log['oom'] = True; out.append((s0, NULL))
        it = Obj('items', add(mul(n, z), 1), 'heap', line=inst.line); q = st.new(it, Base('items', 'zero')); st.allocs.append(it)
        o = Obj('vector', 32, 'heap', line=inst.line, ptrs=(ITEMS,)); v = st.new(o, Base('vector', 'uf', cells={ISZ: (8, z), MAX: (8, n), CNT: (8, 0), ITEMS: (8, q)})); st.allocs.append(o)
        return [(st, v)] + out

class Append(Spec):
    name, mod, alloc_fail = 'vector_append', MOD, True
    def cases(s, E):
        st = State(); yield Case('missing vector', st, [NULL, NULL, nat(st, 'n')], vec=None, item=None)
        for it in ('item', 'null'):
            st = State(); v, g = mkvec(st); n = nat(st, 'n')
            item = NULL
            if it == 'item':
                item = buf(st, 'item', readonly=True); st.assume(le(n, item.obj.size))
            st.term(n)
            yield Case('valid vector, ' + it, st, [v, item, n], vec=v, item=item, n=n, **g)
    def post(s, E, c, st, r):
        if c.vec is None: return [('refused', eq(r, 0))]
        return append_post(E, c.pre, st, c.vec, c.item, c.n, c.isz, r, c)
    def modifies(s, E, c, st, r):
        if c.vec is None: return {}
        return {c.vec.obj: lambda k: (MAX <= k < ISZ + 32) if not isz(k) else ge(k, MAX), c.items.obj: True}
    def frees(s, E, c, st, r):
        if c.vec is None: return ()
        return () if st.alive(c.items.obj) is True else (c.items.obj,)
    def owned(s, E, c, st, r): return [] if c.vec is None else [st.rdn(c.vec, ITEMS, 8, True).obj]
    def call(s, E, st, fr, a, inst):
        """in place or in grown storage: the elements before are kept, the item is stored behind them, the rest of the storage is arbitrary"""
        v, item, n = a
        if isnull(v): return [(st, 0)]
        if not pre_valid(E, st, v, inst, 'vector_append'): return []
        z = st.rdn(v, ISZ, 8); cnt = st.rdn(v, CNT, 8); mx = st.rdn(v, MAX, 8); it = st.rdn(v, ITEMS, 8, True)
        out = []; s0 = st.copy(); s0.assume(bor(gt(n, z), E.alloc_fail)); s0.log['oom'] = s0.log.get('oom', False) or E.alloc_fail
        if not s0.dead: out.append((s0, 0))
        st.assume(le(n, z))
        if st.dead: return out
        if isnull(item): raise Unsupported('vector_append without an item')
        E.range_ok(st, item, n, 'vector_append: item', inst)
        if st.dead: return out
        if not st.quick(gt(n, 0)): raise Unsupported('vector_append of a possibly empty item')
        at = mul(cnt, z); st.term(at)
        def put(s_, base, o):
            s_.mem[o] = (Cp(Cp(base, 0, at, s_.node(it.obj), it.off), at, n, s_.node(item.obj), item.off), True)
            s_.wr(v.obj, add(v.off, CNT), 8, add(cnt, 1))
        s1 = st.copy(); s1.assume(lt(cnt, mx))
        if not s1.dead and not s1.quick(z3.BoolVal(False)): put(s1, Base('items', 'undef'), it.obj); out.append((s1, 1))
        m2 = fresh('max'); st.assume(eq(cnt, mx), gt(m2, cnt), lt(mul(m2, z), 1 << 62)); st.term(m2, mul(m2, z))
        if not st.dead and not st.quick(z3.BoolVal(False)):
            no = Obj('items', add(mul(m2, z), 1), 'heap', line=inst.line); st.allocs.append(no); put(st, Base('items', 'undef'), no)
            release(E, st, it.obj); st.wr(v.obj, add(v.off, MAX), 8, m2); st.wr(v.obj, add(v.off, ITEMS), 8, Ptr(no, 0)); out.append((st, 1))
        return out

def append_post(E, pre, st, v, item, n, isz, r, c):
    cnt = pre.rdn(v, CNT, 8); it0 = pre.rdn(v, ITEMS, 8, True)
    it1 = st.rdn(v, ITEMS, 8, True)
    used = mul(cnt, isz)
    out = valid(st, v, isz)
    out.append(('earlier elements keep their bytes', bytes_all(st.node(it1.obj), 0, pre.node(it0.obj), 0, used)))
    ok = st.decide(ne(r, 0))
    if ok is None: return [('result is definite', False)]
    if ok:
        out.append(('result is 1', eq(r, 1)))
        out.append(('an item larger than an element is refused', le(n, isz)))
        out.append(('count grows by one', eq(st.rdn(v, CNT, 8), add(cnt, 1))))
        if isnull(item): out.append(('a missing item is stored as zeroes', All(lambda k: eq(st.rdb(it1, add(used, k)), 0), trig((st.node(it1.obj), used)), 0, isz)))
        else:
            d = st.decide(eq(n, 0))
            if d is None: out.append(('definite item', False))
            elif d: out.append(('an empty item is stored as zeroes', All(lambda k: eq(st.rdb(it1, add(used, k)), 0), trig((st.node(it1.obj), used)), 0, isz)))
            else: out.append(('the item is stored', bytes_all(st.node(it1.obj), used, pre.node(item.obj), item.off, n)))
    else:
        out.append(('count unchanged on refusal', eq(st.rdn(v, CNT, 8), cnt)))
        out.append(('refused only if too large or out of memory', bor(gt(n, isz), E.failed(c, st))))
    return out

class AppendPtr(Spec):
    name, mod, alloc_fail = 'vector_append_ptr', MOD, True
    def cases(s, E):
        st = State(); yield Case('missing vector', st, [NULL, NULL], vec=None)
        for which in ('8', 'other'):
            st = State(); z = 8 if which == '8' else nat(st, 'isz', 1 << 40)
            if which != '8': st.assume(ne(z, 8))
            v, g = mkvec(st, z); p = buf(st, 'thing')
            yield Case('element size ' + which, st, [v, p], vec=v, item=p, which=which, **g)
    def post(s, E, c, st, r):
        if c.vec is None: return [('refused', eq(r, 0))]
        pre = c.pre; v = c.vec; it1 = st.rdn(v, ITEMS, 8, True)
        out = valid(st, v, c.isz)
        out.append(('earlier elements keep their bytes', bytes_all(st.node(it1.obj), 0, pre.node(c.items.obj), 0, mul(c.cnt, c.isz))))
        ok = st.decide(ne(r, 0))
        if ok is None: return [('result is definite', False)]
        if ok:
            out.append(('count grows by one', eq(st.rdn(v, CNT, 8), add(c.cnt, 1)))); out.append(('result is 1', eq(r, 1)))
            try: x = st.rdn(it1, mul(c.cnt, 8), 8, True)
            except Unsupported: x = None
            out.append(('the pointer is stored', samev(x, c.item)))
            out.append(('element size is that of a pointer', c.which == '8'))
        else:
            out.append(('count unchanged on refusal', eq(st.rdn(v, CNT, 8), c.cnt)))
            out.append(('refused only for a wrong size or out of memory', bor(c.which != '8', E.failed(c, st))))
        return out
    modifies, frees, owned = Append.modifies, Append.frees, Append.owned
    def call(s, E, st, fr, a, inst):
        v, item = a
        if isnull(v): return [(st, 0)]
        if not pre_valid(E, st, v, inst, 'vector_append_ptr'): return []
        z = st.rdn(v, ISZ, 8); cnt = st.rdn(v, CNT, 8); mx = st.rdn(v, MAX, 8); it = st.rdn(v, ITEMS, 8, True)
        s0 = st.copy(); out = []
        s0.assume(bor(ne(z, 8), E.alloc_fail)); s0.log['oom'] = s0.log.get('oom', False) or E.alloc_fail
        if not s0.dead: out.append((s0, 0))
        st.assume(eq(z, 8))
        if st.dead: return out
        at = scale(8, cnt)
        s1 = st.copy(); s1.assume(lt(cnt, mx))           # room in place
        s1.wr(it.obj, at, 8, item); s1.wr(v.obj, add(v.off, CNT), 8, add(cnt, 1)); out.append((s1, 1))
        m2 = fresh('max'); st.assume(gt(m2, cnt), ge(m2, mx), lt(m2, 1 << 41))   # grown
        no = Obj('items', add(scale(8, m2), 1), 'heap', line=inst.line); st.allocs.append(no)
        st.mem[no] = (Cp(Base('items', 'undef'), 0, at, st.node(it.obj), 0), True)
        release(E, st, it.obj)
        st.wr(no, at, 8, item); st.wr(v.obj, add(v.off, CNT), 8, add(cnt, 1)); st.wr(v.obj, add(v.off, MAX), 8, m2); st.wr(v.obj, add(v.off, ITEMS), 8, Ptr(no, 0))
        out.append((st, 1))
        return out

class Get(Spec):
    name, mod = 'vector_get', MOD
    def cases(s, E):
        st = State(); yield Case('missing vector', st, [NULL, nat(st, 'i', 1 << 32)], vec=None)
        st = State(); v, g = mkvec(st); i = nat(st, 'i', 1 << 32); st.term(i)
        yield Case('valid vector', st, [v, i], vec=v, i=i, **g)
    def post(s, E, c, st, r):
        if c.vec is None: return [('nothing', isnull(r))]
        if isnull(r): return [('nothing only at or past the count', ge(c.i, c.cnt))]
        return [('points into the storage', isinstance(r, Ptr) and r.obj is c.items.obj), ('index is below the count', lt(c.i, c.cnt)),
                ('at the element', eq(r.off, mul(c.i, c.isz)))]
    def owned(s, E, c, st, r): return []
    def call(s, E, st, fr, a, inst):
        v, i = a
        if isnull(v): return [(st, NULL)]
        if not pre_valid(E, st, v, inst, 'vector_get'): return []
        z = st.rdn(v, ISZ, 8); cnt = st.rdn(v, CNT, 8); it = st.rdn(v, ITEMS, 8, True)
        s0 = st.copy(); s0.assume(ge(i, cnt)); st.assume(lt(i, cnt)); st.log['got'] = Ptr(it.obj, add(it.off, mul(i, z)))
        return [(x, r) for x, r in ((s0, NULL), (st, Ptr(it.obj, add(it.off, mul(i, z))))) if not x.dead and not x.quick(z3.BoolVal(False))]

class Free(Spec):
    name, mod = 'vector_free', MOD
    def cases(s, E):
        st = State(); yield Case('missing vector', st, [NULL], vec=None)
        st = State(); v, g = mkvec(st); yield Case('valid vector', st, [v], vec=v, **g)
    def post(s, E, c, st, r): return []
    def frees(s, E, c, st, r): return () if c.vec is None else (c.vec.obj, c.items.obj)
    def owned(s, E, c, st, r): return []
    def call(s, E, st, fr, a, inst):
        v = a[0]
        if isnull(v): return [(st, None)]
        if not E.access(st, v, 32, 'vector_free read', inst): return []
        it = st.rdn(v, ITEMS, 8, True)
        for p in (it, v):
            if not isinstance(p, Ptr): E.oblige(st, 'vector_free: valid vector', False, inst.line); st.dead = True; return []
            MODELS['@free'](E, st, fr, [p], inst)
        return [(st, None)]

class Reverse(Spec):
    name, mod, alloc_fail = 'vector_reverse', MOD, True
    def cases(s, E):
        st = State(); yield Case('missing vector', st, [NULL], vec=None)
        st = State(); v, g = mkvec(st); st.assume(lt(g['cnt'], 1 << 32))
        j = fresh('elem'); st.assume(between(0, j, g['cnt'])); k = fresh('byte'); st.assume(between(0, k, g['isz']))
        yield Case('valid vector', st, [v], vec=v, j=j, k=k, m=sub(sub(g['cnt'], 1), j), **g)
    @staticmethod
    def schema(ctx, vk):
        """the arbitrary element j and its mirror: swapped if outside the part still to be done, untouched inside"""
        c = ctx.E.case; out = []
        if c.vec is None: return out
        old = ctx.st0.node(c.items.obj) if ctx.st0.node(c.items.obj) is c.pre.node(c.items.obj) else None
        if old is None: return out
        for x in ctx.variants[vk][0]:
            for form in range(4):
                def mk(v, x=x, form=form):
                    i = v.ints()[x]
                    lo = (i, add(i, 1), sub(c.cnt, i), sub(sub(c.cnt, 1), i))[form]
                    hi = sub(sub(c.cnt, 1), lo)
                    fs = []
                    for p, q in ((c.j, c.m), (c.m, c.j)):
                        new = rd(None, v.st.node(c.items.obj), add(mul(p, c.isz), c.k), 1)
                        fs.append(eq(new, ite(band(le(lo, p), le(p, hi)), rd(None, old, add(mul(p, c.isz), c.k), 1), rd(None, old, add(mul(q, c.isz), c.k), 1))))
                    return band(*fs)
                out.append(('mirror %s %d' % (x, form), mk))
        return out
    def __init__(s): s.schemas = (Reverse.schema,)
    def post(s, E, c, st, r):
        if c.vec is None: return [('refused', eq(r, 0))]
        pre, v = c.pre, c.vec; it1 = st.rdn(v, ITEMS, 8, True)
        out = valid(st, v, c.isz) + [('count unchanged', eq(st.rdn(v, CNT, 8), c.cnt)), ('capacity unchanged', eq(st.rdn(v, MAX, 8), c.mx))]
        ok = st.decide(ne(r, 0))
        if ok is None: return [('result is definite', False)]
        old, new = pre.node(c.items.obj), st.node(it1.obj)
        if not ok:
            return out + [('fails only when out of memory', E.failed(c, st)),
                          ('nothing changes on failure', bytes_all(new, 0, old, 0, c.items.obj.size))]
        return out + [('element i is the old element count-1-i',
                       eq(rd(None, new, add(mul(c.j, c.isz), c.k), 1), rd(None, old, add(mul(c.m, c.isz), c.k), 1)))]
    def modifies(s, E, c, st, r): return {} if c.vec is None else {c.items.obj: True}
    def owned(s, E, c, st, r): return []

CONTRACTS = lambda: {'@vector_new': New(), '@vector_append': Append(), '@vector_append_ptr': AppendPtr(), '@vector_get': Get(), '@vector_free': Free()}
SPECS = {'M01': [New, Append, AppendPtr, Get, Free], 'M02': [Reverse, Get]}
