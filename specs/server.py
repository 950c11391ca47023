"""Contracts for src/server.c and src/grengine.c (M14 - M20, M27, M28)."""
from irv.spec import *
from irv.family import *
from irv.libc import World, release
from irv import libc
from specs import vector as V
S_, G_ = 'src/server.c', 'src/grengine.c'

# ---------------------------------------------------------------- M28
R404, ROUTE = 32, dict(verb=(0, 16), name=(16, 64), match=(80, 256), expected=336, handler=344, cleanup=352, size=360)
def mkapp(st, route):
    """an arbitrary application; route: an own 404 route exists"""
    cells = {0: (8, buf(st, 'main_sock_fd')), 8: (4, nat(st, 'port', 1 << 32)), 12: (4, nat(st, 'threads', 1 << 32)),
             16: (8, buf(st, 'routes', readonly=True)), 24: (4, nat(st, 'num_routes', 1 << 32)), 40: (8, NULL)}
    r = NULL
    if route: r = struct(st, 'route404', ROUTE['size'], {ROUTE['handler']: (8, Fn('?oldhandler')), ROUTE['cleanup']: (8, Fn('?oldcleanup'))}, 'heap', ptrs=(344, 352))
    cells[R404] = (8, r)
    return struct(st, 'app', 48, cells, 'param', ptrs=(0, 16, 32, 40)), r
class Setter(Spec):
    mod = S_
    def cases(s, E):
        for label in ('no route yet', 'route exists', 'nothing set'):
            st = State(); app, r = mkapp(st, label != 'no route yet')
            if label == 'nothing set': 
                st.mem[r.obj] = (St(st.node(r.obj), s.other, 8, NULL), True)
            f = Fn('?new')
            yield Case(label, st, [app, f], app=app, route=r, f=f)
    def post(s, E, c, st, r):
        n = st.rdn(c.app, R404, 8, True)
        if isnull(n) or not isinstance(n, Ptr): return [('the application has a 404 route', False)]
        out = [('reports success', eq(r, 0)), ('the route is alive', st.alive(n.obj)), ('at its start', eq(n.off, 0)), ('a whole route', ge(n.obj.size, ROUTE['size'])),
               ('the last one set is stored', samev(st.rdn(n, s.mine, 8, True), c.f))]
        old = NULL if isnull(c.route) else c.pre.rdn(c.route, s.other, 8, True)
        out.append(('the other one is unchanged', samev(st.rdn(n, s.other, 8, True), old)))
        if not isnull(c.route): out.append(('the same route', n.obj is c.route.obj))
        else: out.append(('a route of its own', n.obj not in c.pre.mem))
        return out
    def modifies(s, E, c, st, r):
        m = {c.app.obj: lambda k: (R404 <= k < R404 + 8) if not isz(k) else between(R404, k, R404 + 8)}
        if not isnull(c.route): m[c.route.obj] = lambda k: (s.mine <= k < s.mine + 8) if not isz(k) else between(s.mine, k, s.mine + 8)
        return m
    def owned(s, E, c, st, r): return [st.rdn(c.app, R404, 8, True).obj]
class SetHandler(Setter): name, mine, other = 'm38_set_404_handler', 344, 352
class SetCleanup(Setter): name, mine, other = 'm38_set_404_cleanup', 352, 344

# ---------------------------------------------------------------- responses and their extra headers
OUT, OUTSZ, MIME, EXTRA, XHDR, RESPSZ = 0, 8, 16, 48, 56, 64
class Headers:
    """an arbitrary vector of header pairs with private strings"""
    def __init__(s, st):
        s.cnt = nat(st, 'nheaders', (1 << 32) - 1); cnt = s.cnt
        hl, vl = Function(freshname('HLEN'), I, I), Function(freshname('VLEN'), I, I)
        for f in (hl, vl): axiom(f, lambda x: [And(x >= 0, x < (1 << 30))])
        s.hl, s.vl = lambda i: keep(hl(Z(i))), lambda i: keep(vl(Z(i)))
        s.h = Family(st, 'hname', cnt, lambda i: add(s.hl(i), 1), strlen=s.hl); s.v = Family(st, 'hvalue', cnt, lambda i: add(s.vl(i), 1), strlen=s.vl)
        def dyn(st2, off, n, ptr):
            i, r = split(off)
            if isz(r) or n != 8: return None
            return {0: s.h.at(i), 8: s.hl(i), 16: s.v.at(i), 24: s.vl(i)}.get(r)
        s.p = Family(st, 'pair', cnt, lambda i: 32, Base('pair', 'uf', dyn=dyn))
        mx = nat(st, 'maxheaders', 1 << 40); st.assume(le(cnt, mx)); s.mx = mx
        it = Obj('items', add(scale(8, mx), 1), 'heap'); s.items = st.new(it, ptr_array('headers', s.p, cnt))
        s.vec = struct(st, 'extra_headers', 32, {0: (8, 8), 8: (8, mx), 16: (8, cnt), 24: (8, s.items)}, 'heap', ptrs=(24,))
        st.term(cnt, mx)
    fams = property(lambda s: (s.p, s.h, s.v))

# ---------------------------------------------------------------- M20
class InsertHeader(Spec):
    name, mod, alloc_fail = 'm38_insert_custom_header', G_, True
    def uses(s): return V.CONTRACTS()
    def cases(s, E):
        for label in ('any', 'no response', 'no header', 'no value'):
            st = State(); H = Headers(st)
            hn, vn = nat(st, 'header_len', 1 << 40), nat(st, 'value_len', 1 << 40)
            h, v = buf(st, 'header', readonly=True), buf(st, 'value', readonly=True)
            for p, n in ((h, hn), (v, vn)):
                b = st.node(p.obj); st.assume(le(n, p.obj.size), Q(lambda k, b=b, n=n: implies(between(0, k, n), ne(rd(None, b, k, 1), 0)), trig((b, 0)), 2))
            st.term(hn, vn)
            resp = struct(st, 'response', RESPSZ, {OUT: (8, NULL), OUTSZ: (8, 0), EXTRA: (8, NULL), XHDR: (8, H.vec)}, ptrs=(OUT, EXTRA, XHDR))
            args = [resp, h, hn, v, vn]
            if label == 'no response': args[0] = NULL
            if label == 'no header': args[1] = NULL
            if label == 'no value': args[3] = NULL
            yield Case(label, st, args, H=H, h=h, v=v, hn=hn, vn=vn, resp=resp)
    def post(s, E, c, st, r):
        H = c.H; cnt1 = st.rdn(H.vec, V.CNT, 8); it = st.rdn(H.vec, V.ITEMS, 8, True); out = V.valid(st, H.vec, 8)
        out.append(('earlier entries are kept', All(lambda k: eq(rd(None, st.node(it.obj), k, 1), rd(None, c.pre.node(H.items.obj), k, 1)), trig((st.node(it.obj), 0)), 0, scale(8, H.cnt))))
        ok = st.decide(ne(r, 0))
        if ok is None: return [('result is definite', False)]
        if not ok: return out + [('fails only for a missing argument or out of memory', bor(c.label != 'any', E.failed(c, st))), ('nothing is appended', eq(cnt1, H.cnt))]
        out += [('result is 1', eq(r, 1)), ('no argument is missing', c.label == 'any'), ('one entry is appended', eq(cnt1, add(H.cnt, 1)))]
        p = st.rdn(it, scale(8, H.cnt), 8, True)
        if not isinstance(p, Ptr) or p.obj is None or p.obj in c.pre.mem: return out + [('the entry is a fresh pair', False)]
        hp, vp = st.rdn(p, 0, 8, True), st.rdn(p, 16, 8, True)
        out += [('the pair is alive', st.alive(p.obj)), ('name length', eq(st.rdn(p, 8, 8), c.hn)), ('value length', eq(st.rdn(p, 24, 8), c.vn))]
        for w, q, src, n in (('name', hp, c.h, c.hn), ('value', vp, c.v, c.vn)):
            if not isinstance(q, Ptr) or q.obj is None: out.append(('the %s is stored' % w, False)); continue
            out += [('the %s is a private copy' % w, q.obj not in c.pre.mem and q.obj is not p.obj), ('the %s is alive' % w, st.alive(q.obj)), ('the %s can be released' % w, band(q.obj.kind == 'heap', eq(q.off, 0))),
                    ('the %s is exact' % w, bytes_all(st.node(q.obj), q.off, c.pre.node(src.obj), 0, n)), ('the %s is terminated' % w, eq(rd(st, st.node(q.obj), add(q.off, n), 1), 0))]
        if isinstance(hp, Ptr) and isinstance(vp, Ptr): out.append(('separate copies', hp.obj is not vp.obj))
        return out
    def modifies(s, E, c, st, r): return {c.H.vec.obj: lambda k: (k >= 8) if not isz(k) else ge(k, 8), c.H.items.obj: True}
    def frees(s, E, c, st, r): return () if st.alive(c.H.items.obj) is True else (c.H.items.obj,)
    def owned(s, E, c, st, r):
        it = st.rdn(c.H.vec, V.ITEMS, 8, True); l = [it.obj]
        if st.decide(ne(r, 0)):
            try: p = st.rdn(it, scale(8, c.H.cnt), 8, True)
            except Unsupported: return l
            if isinstance(p, Ptr) and p.obj is not None:
                l.append(p.obj)
                for f in (0, 16):
                    q = st.rdn(p, f, 8, True)
                    if isinstance(q, Ptr): l.append(q.obj)
        return l

# ---------------------------------------------------------------- M18
MAXREAD = 1024
def stream_is(w, node, n, base=0):
    return bytes_all(node, 0, w.stream, base, n)
class ReadMax(Spec):
    """*buf holds the n bytes received, room for one more receive, all of it zero"""
    name, mod = 'read_max_bytes_from_socket', G_
    def __init__(s): s.schemas = (ReadMax.schema,)
    def cases(s, E):
        st = State(); fd = nat(st, 'fd', 1 << 31); s.world = w = World(st, fd)
        b = Obj('to_read', MAXREAD, 'heap'); p = st.new(b, Base('to_read', 'zero'))
        pp = struct(st, 'pp', 8, {0: (8, p)}, 'stack', ptrs=(0,)); nn = struct(st, 'num_read', 8, {0: (8, 0)}, 'stack')
        yield Case('fresh buffer', st, [fd, pp, nn], w=w, fd=fd, pp=pp, nn=nn, b=p)
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; w = c.w; out = []
        vals = ctx.variants[vk][0]; iv = View(ctx.E, None, None, vals, ctx.variants[vk][1], ctx).ints()
        for k, v in vals.items():
            if not isinstance(v, Ptr) or v.obj is None or v.obj.kind != 'heap': continue
            for x in iv:
                if x[0] in ('off', 'size'): continue
                out.append(('%s holds the first %s bytes' % (k, x), lambda v, k=k, x=x: bytes_all(v.st.node(v.vals[k].obj), 0, w.stream, 0, v.ints()[x])))
                out.append(('%s is zero from %s' % (k, x), lambda v, k=k, x=x: All(lambda q: eq(rd(None, v.st.node(v.vals[k].obj), q, 1), 0), trig((v.st.node(v.vals[k].obj), 0)), v.ints()[x], v.vals[k].obj.size)))
                for d in (MAXREAD,):
                    out.append(('%s has room for %s + %s' % (k, x, d), lambda v, k=k, x=x, d=d: le(add(v.ints()[x], d), v.vals[k].obj.size)))
        return out
    def post(s, E, c, st, r):
        w = c.w; ok = st.decide(eq(r, 0))
        if ok is None: return [('result is definite', False)]
        failed = st.log.get('recv_failed', False)
        if not ok: return [('failure value', eq(r, (1 << 32) - 1)), ('fails only if a receive fails', failed)]
        p = st.rdn(c.pp, 0, 8, True); n = st.rdn(c.nn, 0, 8)
        if not isinstance(p, Ptr) or p.obj is None: return [('there is a buffer', False)]
        return [('a failed receive is reported', not failed), ('the count is the number of bytes received', eq(n, w.get(st, 0))),
                ('the buffer is alive', st.alive(p.obj)), ('the bytes are those received', bytes_all(st.node(p.obj), p.off, w.stream, 0, n)),
                ('room for a zero byte', lt(add(p.off, n), p.obj.size)), ('a zero byte follows', eq(rd(st, st.node(p.obj), add(p.off, n), 1), 0)), ('starts at its allocation', eq(p.off, 0))]
    def modifies(s, E, c, st, r): return {c.pp.obj: True, c.nn.obj: True, c.b.obj: True}
    def frees(s, E, c, st, r): return () if st.alive(c.b.obj) is True else (c.b.obj,)
    def owned(s, E, c, st, r):
        p = st.rdn(c.pp, 0, 8, True); return [p.obj] if isinstance(p, Ptr) else []
    def call(s, E, st, fr, a, inst):
        w = libc.world(E, st); fd, pp, nn = a; p = rd(st, st.node(pp.obj), pp.off, 8, True); n0 = rd(st, st.node(nn.obj), nn.off, 8)
        if not isinstance(p, Ptr) or p.obj is None: E.oblige(st, 'read: there is a buffer', False, inst.line); st.dead = True; return []
        pos = w.get(st, 0)
        E.oblige(st, 'read: nothing counted yet', eq(n0, 0), inst.line); E.oblige(st, 'read: the connection', eq(fd, w.fd), inst.line)
        E.oblige(st, 'read: a live buffer of %d bytes' % MAXREAD, band(st.alive(p.obj), eq(p.off, 0), le(MAXREAD, p.obj.size)), inst.line)
        E.oblige_q(st, 'read: the buffer is zeroed', lambda k: eq(rd(None, st.node(p.obj), k, 1), 0), 0, MAXREAD, inst.line)
        out = []
        for ok in (True, False):
            s2 = st.copy(); n = nat(s2, 'num_read', 1 << 60); o = Obj('received', nat(s2, 'received.size', 1 << 61), 'heap', line=inst.line); s2.allocs.append(o)
            q = s2.new(o, Base('received')); libc.release(E, s2, p.obj)
            s2.wr(pp.obj, pp.off, 8, q); s2.wr(nn.obj, nn.off, 8, n); s2.term(n)
            if ok:
                w.put(s2, 0, add(pos, n)); s2.assume(lt(n, o.size), le(add(pos, n), w.streamlen), eq(rd(None, s2.node(o), n, 1), 0)); libc.hint(s2, o, n)
                assume_c(s2, bytes_all(s2.node(o), 0, w.stream, pos, n))
            else: s2.log['recv_failed'] = True
            out.append((s2, 0 if ok else (1 << 32) - 1))
        return out

class Reread(Spec):
    name, mod = 'attempt_reread_from_socket', G_
    def uses(s): return {'@read_max_bytes_from_socket': ReadMax()}
    def cases(s, E):
        st = State(); fd = nat(st, 'fd', 1 << 31); s.world = w = World(st, fd); cl = nat(st, 'clength'); bl = nat(st, 'body_len'); pos = nat(st, 'pos', 1 << 50)
        w.put(st, 0, pos); st.term(cl, bl)
        req = struct(st, 'request', 600, {576: (8, NULL), 584: (8, 0)}, ptrs=(576,))
        yield Case('any', st, [fd, cl, bl, req], w=w, cl=cl, bl=bl, pos=pos, req=req)
    def post(s, E, c, st, r):
        w = c.w; ok = st.decide(eq(r, 0)); more = lt(c.bl, c.cl)
        if ok is None: return [('result is definite', False)]
        failed = st.log.get('recv_failed', False)
        b = st.rdn(c.req, 576, 8, True); n = st.rdn(c.req, 584, 8)
        if not ok: return [('failure value', eq(r, (1 << 32) - 1)), ('fails only if a receive fails', failed), ('no body', isnull(b))]
        if isnull(b): return [('nothing is read only if nothing is missing', bnot(more)), ('length zero', eq(n, 0)), ('nothing received', eq(w.get(st, 0), c.pos))]
        return [('a failed receive is reported', not failed), ('read only if something is missing', more), ('the count is the number of bytes received', eq(add(c.pos, n), w.get(st, 0))), ('a live buffer', band(st.alive(b.obj), eq(b.off, 0))),
                ('the body is the bytes received', bytes_all(st.node(b.obj), 0, w.stream, c.pos, n)), ('a zero byte follows', band(lt(n, b.obj.size), eq(rd(st, st.node(b.obj), n, 1), 0)))]
    def modifies(s, E, c, st, r): return {c.req.obj: lambda k: (576 <= k < 592) if not isz(k) else between(576, k, 592)}
    def owned(s, E, c, st, r):
        b = st.rdn(c.req, 576, 8, True); return [b.obj] if isinstance(b, Ptr) and b.obj is not None else []

# ---------------------------------------------------------------- M16
class CleanHeaders(Spec):
    """every pair, name and value is released exactly once, then the vector"""
    name, mod = '_clean_up_extra_headers', G_
    def uses(s): return V.CONTRACTS()
    def __init__(s): s.schemas = (CleanHeaders.schema,)
    def cases(s, E):
        st = State(); H = Headers(st)
        resp = struct(st, 'response', RESPSZ, {OUT: (8, NULL), OUTSZ: (8, 0), EXTRA: (8, NULL), XHDR: (8, H.vec)}, ptrs=(OUT, EXTRA, XHDR))
        yield Case('any', st, [resp], H=H, resp=resp)
    @staticmethod
    def schema(ctx, vk):
        H = ctx.E.case.H; out = []
        for x in View(ctx.E, None, None, ctx.variants[vk][0], {}, ctx).ints():
            for f in H.fams:
                out.append(('%s before %s is released' % (f.name, x), lambda v, f=f, x=x: f.gone(v.st, 0, v.ints()[x])))
                out.append(('%s from %s on is alive' % (f.name, x), lambda v, f=f, x=x: f.untouched(v.st, v.ints()[x], H.cnt)))
        return out
    def post(s, E, c, st, r):
        return [('every %s is released' % f.name, f.gone(st, 0, c.H.cnt)) for f in c.H.fams]
    def frees(s, E, c, st, r): return (c.H.vec.obj, c.H.items.obj)
    def call(s, E, st, fr, a, inst):
        H = E.case.H; r = a[0]
        if not E.access(st, r, RESPSZ, 'read of the response', inst): return []
        v = st.rdn(r, XHDR, 8, True)
        E.oblige(st, 'the extra headers are those of the response', samev(v, H.vec), inst.line)
        if st.dead: return []
        E.oblige(st, 'the extra headers have not been released yet', band(st.alive(H.vec.obj), st.alive(H.items.obj)), inst.line)
        for f in H.fams:
            n = st.node(f.live); E.oblige_q(st, '%s not released yet' % f.name, lambda k: eq(rd(None, n, k, 1), 1), 0, H.cnt, inst.line)
            st.ms(f.live, 0, H.cnt, 0)
        if st.dead: return []
        release(E, st, H.items.obj); release(E, st, H.vec.obj)
        return [(st, None)]

HR = dict(bytes=0, len=8, fd=16, code=20, sent=24, route=32, resp=40, size=104)
def mkroute(st, cleanup, handler=True):
    return struct(st, 'route', ROUTE['size'], {ROUTE['handler']: (8, Fn('?handler') if handler else NULL), ROUTE['cleanup']: (8, Fn('?cleanup') if cleanup else NULL)}, 'param', ptrs=(344, 352), readonly=True)
def cleanup_model(E, st, fr, name, a, inst):
    """assumed of a clean-up function: it may release what out and extra_data point to and change the response, nothing else"""
    w = libc.world(E, st); code, resp = a
    if name != '?cleanup': E.oblige(st, 'only the clean-up of the route is called', False, inst.line); st.dead = True; return []
    if not E.access(st, resp, RESPSZ, 'clean-up: response', inst, True): return []
    v = st.rdn(resp, XHDR, 8, True)
    E.oblige(st, 'clean-up runs before the headers are released', isinstance(v, Ptr) and v.obj is not None and st.alive(v.obj), inst.line)
    w.inc(st, 24); w.put(st, 32, code)
    o = st.rdn(resp, OUT, 8, True)
    if isinstance(o, Ptr) and o.obj is not None and o.obj.kind == 'heap': release(E, st, o.obj)
    for f in (OUT, EXTRA): st.wr(resp.obj, add(resp.off, f), 8, UNDEF)
    x = fresh('outsize'); st.assume(ge(x, 0), lt(x, 1 << 64)); st.wr(resp.obj, add(resp.off, OUTSZ), 8, x)
    return [(st, None)]
class SendResponse(Spec):
    name, mod = 'm38_send_response', G_
    def uses(s): return {'@_clean_up_extra_headers': CleanHeaders(), **V.CONTRACTS()}
    def cases(s, E):
        E.fnmodel = cleanup_model
        for cl in (True, False):
            st = State(); H = Headers(st); fd = nat(st, 'fd', 1 << 31); s.world = w = World(st, fd)
            ln = nat(st, 'response_len', 1 << 60); sent = nat(st, 'sent', 1 << 60); st.assume(le(sent, ln)); code = nat(st, 'code', 1 << 32)
            b = buf(st, 'response_bytes', add(ln, 1), 'heap'); out = buf(st, 'out', kind='heap'); route = mkroute(st, cl); st.term(ln, sent)
            h = struct(st, 'hreq', HR['size'], {HR['bytes']: (8, b), HR['len']: (8, ln), HR['fd']: (4, fd), HR['code']: (4, code), HR['sent']: (8, sent), HR['route']: (8, route),
                HR['resp'] + OUT: (8, out), HR['resp'] + OUTSZ: (8, nat(st, 'outsize')), HR['resp'] + EXTRA: (8, NULL), HR['resp'] + XHDR: (8, H.vec)}, 'heap',
                ptrs=(HR['bytes'], HR['route'], HR['resp'], HR['resp'] + EXTRA, HR['resp'] + XHDR))
            yield Case('with a clean-up' if cl else 'without a clean-up', st, [h], H=H, h=h, w=w, ln=ln, sent=sent, code=code, b=b, cl=cl, out=out)
    def post(s, E, c, st, r):
        w, H = c.w, c.H; n = w.get(st, 8); S0 = st.node(w.sent)
        out = [('the bytes passed on are the next ones of the response', All(lambda k: eq(rd(None, S0, k, 1), rd(None, c.pre.node(c.b.obj), add(c.sent, k), 1)), merge(trig((S0, 0)), trig((c.pre.node(c.b.obj), c.sent))), 0, n)),
               ('never past the end', le(add(c.sent, n), c.ln))]
        if not isnull(r):
            if not isinstance(r, Ptr) or r.obj is not c.h.obj: return out + [('the same request', False)]
            return out + [('unfinished only if bytes are left', lt(add(c.sent, n), c.ln)), ('something was passed on', ge(n, 1)), ('what was sent is recorded', eq(st.rdn(r, HR['sent'], 8), add(c.sent, n))), ('at its start', eq(r.off, 0)),
                ('no clean-up before the end', eq(w.get(st, 24), 0)), ('not closed before the end', eq(w.get(st, 16), 0))] + [('%s still there' % f.name, f.untouched(st, 0, H.cnt)) for f in H.fams] + \
                [('nothing is released', band(*[st.alive(o) for o in (c.h.obj, c.b.obj, H.vec.obj, H.items.obj)]))]
        return out + [('finished only at the last byte or after a failure', bor(eq(add(c.sent, n), c.ln), eq(n, 0))), ('clean-up runs once', eq(w.get(st, 24), 1 if c.cl else 0)), ('with the status of the response', eq(w.get(st, 32), c.code) if c.cl else True),
            ('closed once', eq(w.get(st, 16), 1))] + [('every %s is released' % f.name, f.gone(st, 0, H.cnt)) for f in H.fams]
    def modifies(s, E, c, st, r): return {c.h.obj: lambda k: (HR['sent'] <= k < HR['sent'] + 8) if not isz(k) else between(HR['sent'], k, HR['sent'] + 8)}
    def frees(s, E, c, st, r):
        if isinstance(r, Ptr) and r.obj is not None: return ()
        return (c.h.obj, c.b.obj, c.H.vec.obj, c.H.items.obj) + ((c.out.obj,) if c.cl else ())
    def owned(s, E, c, st, r): return []

SPECS = {'M16': [SendResponse, CleanHeaders], 'M18': [ReadMax, Reread], 'M28': [SetHandler, SetCleanup], 'M20': [InsertHeader]}
