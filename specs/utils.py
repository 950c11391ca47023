"""Contracts for src/utils.c and the small pure functions of src/parse.c (M05, M09, M10, M12, M13)."""
from irv.spec import *
U, P_ = 'src/utils.c', 'src/parse.c'

# ---------------------------------------------------------------- ghost definitions
_F = {}
def ghost(key, mk):
    if key not in _F: _F[key] = mk()
    return _F[key]
def nmf(n): return '%s!%d' % (n, _ctr_())
from irv.libc import _ctr_

FNV_PRIME, FNV_BIAS = 1099511628211, 14695981039346656037
def FNV(node, signed=False):
    """FNV-1a over the bytes of a content: FNV(off, n)"""
    def mk():
        f = Function(nmf('FNV'), I, I, I)
        def ax(x):
            a, n = x.arg(0), x.arg(1); out = [And(x >= 0, x < (1 << 64)), implies(eq(n, 0), eq(x, FNV_BIAS))]
            m = sub(n, 1) ; p = keep(f(Z(a), Z(m)))
            b = rd(None, node, add(a, m), 1)
            if signed: b = ite(ge(b, 128), add(b, (1 << 64) - 256), b)
            xo = State.E.ufop('XOR64', p, b, 64)
            out.append(implies(ge(n, 1), eq(x, mod(scale(FNV_PRIME, xo), 1 << 64))))
            return out
        axiom(f, ax, 1); return f, node
    f, _ = ghost(('fnv', id(node), signed), mk)
    return lambda a, n: keep(f(Z(a), Z(n)))

class Hash(Spec):
    """M05: outbuf is the upper-case hexadecimal text of FNV-1a(key[0..siz))"""
    name, mod = 'hash_string_fnv1a', U
    def __init__(s): s.schemas = (Hash.schema,)
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; out = []; F = FNV(c.pre.node(c.key.obj)); iv = View(ctx.E, None, None, ctx.variants[vk][0], {}, ctx).ints()
        for h in iv:
            if h[0] in ('off', 'size') or ctx.width(h) != 64: continue
            for x in iv:
                if x is h: continue
                out.append(('hash of the first %s bytes' % (x,), lambda v, h=h, x=x: eq(v.ints()[h], F(c.key.off, v.ints()[x]))))
                if x[0] == 'phi':
                    out.append(('hash, counting down %s' % (x,), lambda v, h=h, x=x: eq(v.ints()[h], F(c.key.off, sub(c.siz, v.ints()[x])))))
        return out
    def cases(s, E):
        st = State(); siz = nat(st, 'siz', 1 << 60); key = buf(st, 'key', readonly=True); st.assume(le(siz, key.obj.size))
        out = buf(st, 'outbuf', 65); st.term(siz)
        yield Case('any', st, [key, siz, out], key=key, siz=siz, out=out)
    def post(s, E, c, st, r):
        v = FNV(c.pre.node(c.key.obj))(c.key.off, c.siz)
        n, txt = inttext('X', v, 64)
        st.assume(le(n, 16))
        return [('the digits are the hash in upper-case hexadecimal', bytes_all(st.node(c.out.obj), 0, txt, 0, n)),
                ('terminated', eq(rd(st, st.node(c.out.obj), n, 1), 0)), ('reports success', eq(r, 1))]
    def modifies(s, E, c, st, r): return {c.out.obj: True}

# ---------------------------------------------------------------- M13
class Strnstr(Spec):
    name, mod = 'strnstr', U
    def cases(s, E):
        for t in ('string', 'bounded'):
            st = State(); n = nat(st, 'len', 1 << 60)
            if t == 'string': h, hl = cstring(st, 'haystack', readonly=True)
            else: h = buf(st, 'haystack', readonly=True); st.assume(le(n, h.obj.size))
            nd, nl = cstring(st, 'needle', readonly=True)
            st.term(n)
            yield Case(t, st, [h, nd, n], h=h, nd=nd, nl=nl, n=n)
    def post(s, E, c, st, r): return strnstr_post(E, st, c.h, c.nd, c.n, c.nl, r, FakeInst)
    def owned(s, E, c, st, r): return []
    def call(s, E, st, fr, a, inst):
        h, nd, n = a
        nl = str_end(st, nd, 'strnstr needle', inst)
        if h.obj is None: E.oblige(st, 'strnstr in a null pointer', eq(nl, 0), inst.line); st.dead = True; return []
        L = str_end(st, h, 'strnstr', inst, n)
        if st.dead: return []
        res = []
        p = fresh('found'); s2 = st.copy(); s2.term(p)
        for st2, r in ((s2, Ptr(h.obj, p)), (st, NULL)):
            for nm_, f in strnstr_post(E, st2, h, nd, n, nl, r, inst): assume_c(st2, f)
            res.append((st2, r))
        return res
class FakeInst: line = None; name = None
def strnstr_post(E, st, h, nd, n, nl, r, inst):
    L = str_end(st, h, 'the searched part', inst, n)
    H, N = st.node(h.obj), st.node(nd.obj)
    if isz(nl) or nl > 12:
        f = EQ(H, N); at = lambda p: keep(f(Z(p), Z(nd.off), Z(nl))); tr = {f.name(): [(0, 0)]}
    else:
        at = lambda p: eqb(H, p, N, nd.off, nl); tr = {}
        for j in range(nl): tr = merge(tr, trig((H, j)))
    if isnull(r):
        return [('no position matches', All(lambda p: bnot(at(p)), tr, h.off, add(add(h.off, sub(L, nl)), 1))), ('an empty needle is always found', ne(nl, 0))]
    if not isinstance(r, Ptr) or r.obj is not h.obj: return [('result points into the text', False)]
    return [('result is within the searched part', bor(band(le(h.off, r.off), le(add(r.off, nl), add(h.off, L))), band(eq(nl, 0), eq(r.off, h.off)))),
            ('the needle is there', bor(at(r.off), eq(nl, 0))), ('an empty needle matches at once', bor(ne(nl, 0), eq(r.off, h.off))),
            ('no earlier position matches', All(lambda p: bor(bnot(at(p)), eq(nl, 0)), tr, h.off, r.off))]

class EndsWith(Spec):
    name, mod = 'endswith', U
    def cases(s, E):
        st = State(); a, al = cstring(st, 'string', readonly=True); b, bl = cstring(st, 'suffix', readonly=True)
        st.assume(lt(bl, 1 << 32))
        yield Case('any', st, [a, b], a=a, b=b, al=al, bl=bl)
    def post(s, E, c, st, r):
        m = keep(EQ(c.pre.node(c.a.obj), c.pre.node(c.b.obj))(Z(add(c.a.off, sub(c.al, c.bl))), Z(c.b.off), Z(c.bl)))
        yes = band(ge(c.al, c.bl), m)
        d = st.decide(ne(r, 0))
        if d is None: return [('true exactly when the string ends with the suffix', eq(ne(r, 0), yes) if isz(yes) else False)]
        return [('true only when the string ends with the suffix', yes)] if d else [('false only when it does not', bnot(yes))]

# ---------------------------------------------------------------- M12
def sepb(b): return bor(eq(b, 59), eq(b, 32))
def PAIREND(node, L):
    """PE(p): first separator at or after p, or the end"""
    def mk():
        f = Function(nmf('PAIREND'), I, I)
        def ax(x):
            p = x.arg(0); dom = band(le(0, p), le(p, L))
            return [implies(dom, band(le(p, x), le(x, L), bor(eq(x, L), sepb(rd(None, node, x, 1))))),
                    Q(lambda k: implies(band(dom, le(p, k), lt(k, x)), bnot(sepb(rd(None, node, k, 1)))), trig((node, 0)), 2, 'pairend')]
        axiom(f, ax, 1); return f, node, L
    return ghost(('pe', id(node), L.get_id() if isz(L) else L), mk)[0]
class Cookie(Spec):
    name, mod = 'm38_get_cookie_value', U
    def __init__(s): s.schemas = (Cookie.schema,)
    def cases(s, E):
        st = State(); nd, nl = cstring(st, 'needle', readonly=True); n = nat(st, 'siz', 1 << 60)
        yield Case('missing string', st, [NULL, n, nd], h=None)
        for t in ('string', 'bounded'):
            st = State(); nd, nl = cstring(st, 'needle', readonly=True); n = nat(st, 'siz', 1 << 60)
            if t == 'string': h, hl = cstring(st, 'cookies', readonly=True)
            else: h = buf(st, 'cookies', readonly=True); st.assume(le(n, h.obj.size))
            st.term(n, nl)
            L = str_end(st, h, 'cookie string', FakeInst, n)
            yield Case(t, st, [h, n, nd], h=h, n=n, nd=nd, nl=nl, L=L)
    @staticmethod
    def match(c):
        H, N = c.pre.node(c.h.obj), c.pre.node(c.nd.obj); pe = PAIREND(H, c.L); f = EQ(H, N)
        by = lambda p: rd(None, H, p, 1)
        start = lambda p: band(le(0, p), lt(p, c.L), bnot(sepb(by(p))), bor(eq(p, 0), sepb(by(sub(p, 1)))))
        m = lambda p: band(start(p), gt(keep(pe(Z(p))), add(p, c.nl)), f(Z(p), Z(0), Z(c.nl)), eq(by(add(p, c.nl)), 61))
        return H, pe, f, start, m
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; out = []
        if c.h is None: return out
        H, pe, f, start, m = Cookie.match(c); iv = View(ctx.E, None, None, ctx.variants[vk][0], {}, ctx).ints()
        by = lambda p: rd(None, H, p, 1)
        for x in iv:
            out.append(('no pair before %s matches' % (x,), lambda v, x=x: All(lambda p: bnot(m(p)), {pe.name(): [(0, 0)]}, 0, v.ints()[x])))
            out.append(('%s is not inside a pair' % (x,), lambda v, x=x: bor(eq(v.ints()[x], 0), ge(v.ints()[x], c.L), sepb(by(v.ints()[x])), sepb(by(sub(v.ints()[x], 1))))))
        return out
    def post(s, E, c, st, r):
        if c.h is None: return [('nothing', isnull(r))]
        H, pe, f, start, m = Cookie.match(c)
        if isnull(r):
            return [('no pair has that name', All(lambda p: bnot(m(p)), {pe.name(): [(0, 0)]}, 0, c.L))]
        # the matching pair: its value is what was copied
        src = source_of(st, r)
        if src is None: return [('result is a copy of a part of the cookie string', False)]
        node, soff, n = src
        p = sub(sub(soff, c.nl), 1); e = keep(pe(Z(p))) 
        return [('result is a copy of a part of the cookie string', node is H), ('a fresh string', eq(r.off, 0)),
                ('it is the value of a pair with that name', m(p)), ('the value reaches to the end of the pair', eq(add(soff, n), e)),
                ('terminated', eq(rd(st, st.node(r.obj), n, 1), 0)), ('no earlier pair matches', All(lambda q: bnot(m(q)), {pe.name(): [(0, 0)]}, 0, p))]
def source_of(st, r):
    """(content, offset, length) the fresh object was filled from"""
    node = st.node(r.obj); best = None
    while not isinstance(node, Base):
        if isinstance(node, Cp) and not isz(node.off) and node.off == 0: best = (node.src, node.soff, node.n); break
        node = node.prev
    return best

# ---------------------------------------------------------------- M10
def UPOS(node):
    """UPOS(s0, o): input position of output byte o"""
    def mk():
        f = Function(nmf('UPOS'), I, I, I)
        def ax(x):
            a, o = x.arg(0), x.arg(1); p = keep(f(a, Z(sub(o, 1))))
            return [implies(eq(o, 0), eq(x, a)), implies(ge(o, 1), eq(x, add(p, ite(eq(rd(None, node, p, 1), 37), 3, 1)))), implies(ge(o, 0), ge(x, add(a, o)))]
        axiom(f, ax, 1); return f, node
    return ghost(('upos', id(node)), mk)[0]
class UrlDecode(Spec):
    name, mod = 'm38_url_decode', U
    def __init__(s): s.schemas = (UrlDecode.schema,)
    def cases(s, E):
        for t in ('measure', 'decode'):
            st = State(); h, L = cstring(st, 's', readonly=True); d = NULL
            st.assume(lt(L, (1 << 31) - 2))
            if t == 'decode': d = buf(st, 'dec'); st.assume(gt(d.obj.size, L))
            yield Case(t, st, [h, d], h=h, L=L, d=d)
    @staticmethod
    def defs(c):
        return url_defs(c.pre.node(c.h.obj), c.h.off)
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; out = []; pos, by, good, D, f = UrlDecode.defs(c)
        vals = ctx.variants[vk][0]; iv = View(ctx.E, None, None, vals, {}, ctx).ints()
        for x in iv:
            for y in iv:
                if x is y: continue
                out.append(('%s is the input position of output %s' % (y, x), lambda v, x=x, y=y: eq(v.ints()[y], pos(v.ints()[x]))))
            out.append(('escapes before output %s are well formed' % (x,), lambda v, x=x: All(lambda k: good(pos(k)), {f.name(): [(1, 0)]}, 0, v.ints()[x])))
            if c.d.obj is not None:
                out.append(('outputs before %s are decoded' % (x,), lambda v, x=x: All(lambda k: eq(rd(None, v.st.node(c.d.obj), k, 1), D(pos(k))), trig((v.st.node(c.d.obj), 0)), 0, v.ints()[x])))
        return out
    def post(s, E, c, st, r):
        pos, by, good, D, f = UrlDecode.defs(c)
        neg = st.decide(ge(r, 1 << 31))
        if neg:
            # the position at which decoding stopped
            o = fresh('o')
            w = s.witness(E, c, st)
            return [('-1 is the only failure value', eq(r, (1 << 32) - 1)), ('fails only at a malformed escape', w)]
        out = [('all of the input is consumed', eq(pos(r), add(c.L, 1))), ('every escape is well formed', All(lambda k: good(pos(k)), {f.name(): [(1, 0)]}, 0, r)),
               ('never more than the input including its terminator', le(r, add(c.L, 1))), ('something is written', ge(r, 1))]
        if c.d.obj is not None:
            out.append(('every output byte is decoded exactly', All(lambda k: eq(rd(None, st.node(c.d.obj), k, 1), D(pos(k))), merge(trig((st.node(c.d.obj), 0)), {f.name(): [(1, 0)]}), 0, r)))
        return out
    def witness(s, E, c, st):
        pos, by, good, D, f = UrlDecode.defs(c)
        # some loop variable is the number of outputs produced so far
        cand = [t for t in st.terms] + [0]
        fs = []
        for t in cand: fs.append(band(ge(t, 0), le(pos(t), c.L), eq(by(pos(t)), 37), bnot(good(pos(t)))))
        return bor(*fs)
    def modifies(s, E, c, st, r): return {c.d.obj: True} if c.d.obj is not None else {}
def url_defs(node, s0):
    f = UPOS(node); pos = lambda o: keep(f(Z(s0), Z(o))); by = lambda p: rd(None, node, p, 1)
    good = lambda p: bor(ne(by(p), 37), band(ishex(by(add(p, 1))), ishex(by(add(p, 2)))))
    D = lambda p: ite(eq(by(p), 43), 32, ite(eq(by(p), 37), add(scale(16, hexval(by(add(p, 1)))), hexval(by(add(p, 2)))), by(p)))
    return pos, by, good, D, f

# ---------------------------------------------------------------- M09
class Range(Spec):
    name, mod = 'm38_parse_range_header', P_
    def cases(s, E):
        st = State(); h, L = cstring(st, 'query', readonly=True); yield Case('any', st, [h], h=h, L=L)
    def post(s, E, c, st, r):
        lim, off = r['agg']; H = c.pre.node(c.h.obj); by = lambda k: rd(None, H, k, 1)
        A = keep(STRTOL(H)(Z(6))); out = []
        pre = band(*[eq(by(i), b) for i, b in enumerate(b'bytes=')])
        d = fresh('dash')    # an arbitrary first '-'
        st.assume(ge(d, 0))
        B = keep(STRTOL(H)(Z(add(d, 1))))
        M = (1 << 63) - 1
        s1 = band(pre, le(6, d), lt(d, c.L), eq(by(d), 45))
        inr = lambda x: band(ge(x, 0), lt(x, M))
        out.append(('no bytes= prefix: everything', implies(bnot(pre), band(eq(off, 0), eq(lim, 0)))))
        q = Q(lambda k: implies(band(le(6, k), lt(k, d)), ne(by(k), 45)), trig((H, 0)), 2, 'first dash')
        st.assume(q)
        out.append(('the offset is the first number', implies(band(s1, inr(A)), eq(off, A))))
        out.append(('nothing after the dash: no limit', implies(band(s1, inr(A), eq(add(d, 1), c.L)), eq(lim, 0))))
        out.append(('the limit is the second number', implies(band(s1, inr(A), inr(B), lt(add(d, 1), c.L), le(A, B)), eq(lim, B))))
        out.append(('an inverted range has no limit', implies(band(s1, inr(A), inr(B), lt(add(d, 1), c.L), lt(B, A)), eq(lim, 0))))
        # no dash at all (in a state where the dash constant is unconstrained)
        s2 = c.st
        return out
class RangeNoDash(Range):
    def cases(s, E):
        st = State(); h, L = cstring(st, 'query', readonly=True); node = st.node(h.obj)
        st.assume(Q(lambda k: implies(band(le(6, k), lt(k, L)), ne(rd(None, node, k, 1), 45)), trig((node, 0)), 2, 'no dash'))
        yield Case('no dash', st, [h], h=h, L=L)
    def post(s, E, c, st, r):
        lim, off = r['agg']
        return [('without a dash: everything', band(eq(off, 0), eq(lim, 0)))]

SPECS = {'M05': [Hash], 'M13': [Strnstr, EndsWith], 'M12': [Cookie], 'M10': [UrlDecode], 'M09': [Range, RangeNoDash]}
