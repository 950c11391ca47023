"""Contracts for src/parse.c (M06, M07, M08)."""
from irv.spec import *
from specs.utils import Strnstr, FakeInst, source_of
P_ = 'src/parse.c'
VERB, RES, MATCH, FULLH, HLEN, FULLB, BLEN, FORM, REQSZ = 0, 16, 528, 560, 568, 576, 584, 592, 600

class ParseRequest(Spec):
    """M06"""
    name, mod, alloc_fail = 'm38_parse_request', P_, True
    def uses(s): return {'@strnstr': Strnstr()}
    def __init__(s): s.schemas = (ParseRequest.schema,)
    def cases(s, E):
        st = State(); n = nat(st, 'num_read', 1 << 60); raw = buf(st, 'to_read', readonly=True)
        st.assume(lt(n, raw.obj.size), eq(rd(None, st.node(raw.obj), n, 1), 0)); hint(st, raw.obj, n); st.term(n)
        o = Obj('request', REQSZ, 'param'); out = st.new(o, Base('request', 'zero'))
        yield Case('any', st, [raw, n, out], raw=raw, n=n, out=out)
    @staticmethod
    def defs(E, c, st):
        H = c.pre.node(c.raw.obj); by = lambda p: rd(None, H, p, 1)
        return H, by, (lambda p: band(le(0, p), le(add(p, 4), c.n), eq(by(p), 13), eq(by(add(p, 1)), 10), eq(by(add(p, 2)), 13), eq(by(add(p, 3)), 10)))
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; out = []; H, by, blank = ParseRequest.defs(ctx.E, c, None)
        for x in View(ctx.E, None, None, ctx.variants[vk][0], {}, ctx).ints():
            out.append(('no blank line starts before %s' % (x,), lambda v, x=x: All(lambda p: bnot(blank(p)), trig((H, 0)), 0, v.ints()[x])))
        return out
    def post(s, E, c, st, r):
        H, by, blank = ParseRequest.defs(E, c, st)
        ok = st.decide(eq(r, 0))
        if ok is None: return [('result is definite', False)]
        # the first space within 1024 bytes, the second within 512 after it, before any zero byte
        z1 = str_end(st, c.raw, 'x', FakeInst, 1024)
        sp = fresh('verbend'); s2 = fresh('resend'); bl = fresh('blank')
        st.assume(ge(sp, 0)); st.assume(Q(lambda k: implies(between(0, k, sp), ne(by(k), 32)), trig((H, 0)), 2))
        st.assume(gt(s2, sp)); st.assume(Q(lambda k: implies(between(add(sp, 1), k, s2), ne(by(k), 32)), trig((H, 0)), 2))
        st.assume(ge(bl, 0)); st.assume(Q(lambda k: implies(between(0, k, bl), bnot(blank(k))), trig((H, 0)), 1))
        nz = lambda lo, hi: Q(lambda k: implies(between(lo, k, hi), ne(by(k), 0)), trig((H, 0)), 2)
        if not ok:
            # were the three marks all there, that would be a contradiction: assume them
            t = st.copy()
            t.assume(lt(sp, 1024), eq(by(sp), 32), nz(0, sp), lt(s2, add(add(sp, 1), 512)), eq(by(s2), 32), nz(add(sp, 1), s2), blank(bl))
            E.oblige(t, 'rejected only if a space, the second space or the blank line is missing [any]', E.failed(c, st))
            return [('failure value', eq(r, (1 << 32) - 1))]
        out = []
        R = st.node(c.out.obj)
        # exactness: define the marks as the first ones
        t = st
        t.assume(bor(ge(sp, z1), eq(by(sp), 32)))      # sp is the first space (or past the searched part)
        t.assume(le(sp, z1))
        v = Ptr(c.raw.obj, add(sp, 1)); 
        out.append(('accepted only with a space within 1024 bytes', band(lt(sp, z1), eq(by(sp), 32))))
        for it in out: prove_item(E, st, it, ' [any]')
        z2 = str_end(st, v, 'x', FakeInst, 512)
        t.assume(le(s2, add(add(sp, 1), z2)), bor(eq(s2, add(add(sp, 1), z2)), eq(by(s2), 32)))
        t.assume(bor(ge(bl, c.n), blank(bl)))
        out = [('accepted only with a second space within 512 bytes', band(lt(s2, add(add(sp, 1), z2)), eq(by(s2), 32))),
               ('accepted only with a blank line in what was received', blank(bl))]
        m = smin(sp, 15)
        out.append(('the method is the bytes before the first space', All(lambda k: eq(rd(None, R, k, 1), ite(lt(k, sp), by(k), 0)), trig((R, 0), (H, 0)), 0, 15)))
        out.append(('the method is terminated', eq(rd(st, R, 15, 1), 0)))
        n = sub(sub(s2, sp), 1)
        out.append(('the resource is the bytes between the spaces', All(lambda k: eq(rd(None, R, add(16, k), 1), ite(lt(k, n), by(add(add(sp, 1), k)), 0)), merge(trig((R, 16), (H, add(sp, 1)))), 0, 512)))
        out.append(('the resource is terminated', lt(n, 512)))
        fh = st.rdn(c.out, FULLH, 8, True)
        if isnull(fh) or not isinstance(fh, Ptr): return out + [('a header block is stored', False)]
        out += [('header length', eq(st.rdn(c.out, HLEN, 8), add(bl, 4))), ('the header block is exactly the received bytes', bytes_all(st.node(fh.obj), fh.off, H, 0, add(bl, 4))),
                ('the header block is terminated', eq(rd(st, st.node(fh.obj), add(fh.off, add(bl, 4)), 1), 0)), ('the header block is a fresh copy', band(fh.obj is not c.raw.obj, eq(fh.off, 0), st.alive(fh.obj)))]
        return out
    def modifies(s, E, c, st, r): return {c.out.obj: lambda k: (k < MATCH or FULLH <= k < FULLB) if not isz(k) else bor(lt(k, MATCH), band(le(FULLH, k), lt(k, FULLB)))}
    def owned(s, E, c, st, r):
        p = st.rdn(c.out, FULLH, 8, True)
        return [p.obj] if isinstance(p, Ptr) and p.obj is not None and st.decide(eq(r, 0)) else []

class ParseBody(Spec):
    """M07"""
    name, mod, alloc_fail = 'm38_parse_body', P_, True
    def cases(s, E):
        st = State(); rec = nat(st, 'received', 1 << 60); cl = nat(st, 'content_length'); hl = nat(st, 'header_len', 1 << 60)
        raw = buf(st, 'raw', readonly=True); st.assume(le(add(hl, rec), raw.obj.size)); st.term(rec, cl, hl)
        h = buf(st, 'full_header', kind='heap')
        req = struct(st, 'request', REQSZ, {FULLH: (8, h), HLEN: (8, hl), FULLB: (8, NULL), BLEN: (8, 0), FORM: (8, NULL)}, ptrs=(FULLH, FULLB, FORM))
        yield Case('any', st, [rec, cl, raw, req], rec=rec, cl=cl, hl=hl, raw=raw, req=req)
    def post(s, E, c, st, r):
        ok = st.decide(eq(r, 0))
        if ok is None: return [('result is definite', False)]
        b = st.rdn(c.req, FULLB, 8, True)
        if not ok:
            return [('rejected only for a body without a positive length', bor(E.failed(c, st), band(eq(c.cl, 0), gt(c.rec, 0)))), ('no body is left behind', isnull(b)), ('failure value', eq(r, (1 << 32) - 1))]
        if isnull(b) or not isinstance(b, Ptr): return [('a body is stored', False)]
        n = smin(c.rec, c.cl)
        return [('not accepted without a positive length', bor(gt(c.cl, 0), eq(c.rec, 0))), ('recorded length', eq(st.rdn(c.req, BLEN, 8), n)),
                ('exactly the received bytes', bytes_all(st.node(b.obj), b.off, c.pre.node(c.raw.obj), c.hl, n)), ('one zero byte follows', eq(rd(st, st.node(b.obj), add(b.off, n), 1), 0)),
                ('a fresh copy', band(eq(b.off, 0), b.obj is not c.raw.obj, lt(n, b.obj.size)))]
    def modifies(s, E, c, st, r): return {c.req.obj: lambda k: (FULLB <= k < FORM) if not isz(k) else band(le(FULLB, k), lt(k, FORM))}
    def owned(s, E, c, st, r):
        p = st.rdn(c.req, FULLB, 8, True)
        return [p.obj] if isinstance(p, Ptr) and p.obj is not None else []

def header_defs(H, N, hl, L):
    by = lambda p: rd(None, H, p, 1); f = EQ(H, N)
    start = lambda p: bor(eq(p, 0), eq(by(sub(p, 1)), 10))
    m = lambda p: band(le(0, p), lt(add(p, hl), L), start(p), f(Z(p), Z(0), Z(hl)), eq(by(add(p, hl)), 58))
    return by, f, start, m
class HeaderRaw(Spec):
    """M08"""
    name, mod = 'm38_get_header_value_raw', P_
    def uses(s): return {'@strnstr': Strnstr()}
    def __init__(s): s.schemas = (HeaderRaw.schema,)
    def cases(s, E):
        for t in ('string', 'bounded'):
            st = State(); nd, nl = cstring(st, 'header', readonly=True); n = nat(st, 'siz', 1 << 60); st.assume(ge(nl, 1))
            if t == 'string': h, hl = cstring(st, 'request', readonly=True)
            else: h = buf(st, 'request', readonly=True); st.assume(le(n, h.obj.size))
            st.term(n, nl); L = str_end(st, h, 'request', FakeInst, n)
            yield Case(t, st, [h, n, nd], h=h, n=n, nd=nd, nl=nl, L=L)
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; out = []; H = c.pre.node(c.h.obj)
        by, f, start, m = header_defs(H, c.pre.node(c.nd.obj), c.nl, c.L)
        vals = ctx.variants[vk][0]
        for k, v in vals.items():
            if not isinstance(v, Ptr): continue
            if v.obj is None:
                out.append(('no line matches', lambda v: All(lambda p: bnot(m(p)), {f.name(): [(0, 0)]}, 0, c.L)))
            elif v.obj is c.h.obj:
                x = ('off',) + k
                out.append(('no line before %s matches' % (x,), lambda v, x=x: All(lambda p: bnot(m(p)), {f.name(): [(0, 0)]}, 0, v.ints()[x])))
                out.append(('%s is an occurrence' % (x,), lambda v, x=x: band(f(Z(v.ints()[x]), Z(0), Z(c.nl)), le(add(v.ints()[x], c.nl), c.L), ge(v.ints()[x], 0))))
        return out
    def post(s, E, c, st, r):
        H = c.pre.node(c.h.obj); by, f, start, m = header_defs(H, c.pre.node(c.nd.obj), c.nl, c.L)
        blank = lambda b: bor(eq(b, 32), eq(b, 9))
        crlf = lambda p: band(eq(by(p), 13), eq(by(add(p, 1)), 10), le(add(p, 2), c.L))
        if isnull(r):
            # suppose there is a first matching line whose value ends with CR LF
            t = st.copy(); p = fresh('line'); vs = fresh('value'); ve = fresh('end')
            t.assume(m(p)); t.assume(Q(lambda k: implies(between(0, k, p), bnot(m(k))), {f.name(): [(0, 0)]}, 2))
            t.assume(le(add(add(p, c.nl), 1), vs), le(vs, ve), crlf(ve))
            E.oblige(t, 'nothing only if no line starts with the name and ends with CR LF [%s]' % c.label, False)
            return []
        src = source_of(st, r)
        if src is None: return [('result is a copy of a part of the request', False)]
        node, vs, n = src; ve = add(vs, n)
        # the line: its colon is the last one before blanks; take the first matching line
        out = [('result is a copy of a part of the request', node is H), ('a fresh string', eq(r.off, 0)), ('terminated', eq(rd(st, st.node(r.obj), n, 1), 0)),
               ('the value ends at CR LF', crlf(ve)), ('at the first CR LF', All(lambda k: bnot(crlf(k)), trig((H, 0)), vs, ve)),
               ('the value does not start with a blank', bor(bnot(blank(by(vs))), eq(vs, c.L)))]
        for it in out: prove_item(E, st, it, ' [%s]' % c.label)
        # some loop position is the matching line
        cand = [t for t in st.terms if isz(t)] + [0]
        fs = []
        good = None
        for p in cand:
            if st.quick(band(m(p), le(add(add(p, c.nl), 1), vs))): good = p; break
        if good is None:
            for p in cand:
                if E.prove(st, band(m(p), le(add(add(p, c.nl), 1), vs))): good = p; break
        if good is None: return [('the value belongs to a line that starts with the name', False)]
        p = good
        return [('the value belongs to a line that starts with the name', m(p)), ('and to no later one', All(lambda k: bnot(m(k)), {f.name(): [(0, 0)]}, 0, p)),
                ('only blanks between the colon and the value', All(lambda k: blank(by(k)), trig((H, 0)), add(add(p, c.nl), 1), vs))]

SPECS = {'M06': [ParseRequest], 'M07': [ParseBody], 'M08': [HeaderRaw]}
