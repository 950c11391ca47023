"""Contracts for the file serving functions of src/grengine.c (M19)."""
from irv.spec import *
from irv.libc import World, release, eqi
from irv import libc
from specs.server import G_, OUT, OUTSZ, MIME, EXTRA, XHDR, RESPSZ
TYPES = {'.css': 'text/css', '.jpg': 'image/jpeg', '.txt': 'text/plain', '.html': 'text/html', '.svg': 'image/svg+xml', '.ico': 'image/x-icon',
         '.webm': 'video/webm', '.gif': 'image/gif', '.json': 'application/json', '.js': 'text/javascript'}
MIMESZ, MAXEXT = 32, 15
def lit(s): return Base('lit', 'data', data=s.encode() + b'\0')
def mkresp(st, cells=None, mime=None):
    """an arbitrary response; mime: the handler chose a type / did not / either"""
    c = {OUT: (8, NULL), OUTSZ: (8, nat(st, 'outsize')), EXTRA: (8, NULL), XHDR: (8, buf(st, 'headers', readonly=True))}; c.update(cells or {})
    r = struct(st, 'response', RESPSZ, c, ptrs=(OUT, EXTRA, XHDR))
    n = nat(st, 'mimelen', MIMESZ); st.assume(eq(st.rdn(r, add(MIME, n), 1), 0)); hint(st, r.obj, add(MIME, n)); st.term(n)
    if mime is not None:
        b = st.rdn(r, MIME, 1); st.assume(ne(b, 0) if mime else eq(b, 0))
    return r
def mime_is(st, resp, t):
    n = st.node(resp.obj)
    return band(*[eq(rd(st, n, MIME + i, 1), ch) for i, ch in enumerate(t.encode() + b'\0')])
def range_mod(o, *rs): return {o: lambda k: bor(*[(a <= k < b) if not isz(k) else between(a, k, b) for a, b in rs])}
FILEPART = [(OUT, OUT + 8), (OUTSZ, OUTSZ + 8), (EXTRA, EXTRA + 8)]
def error_page(st, p, n):
    """out is a constant page of exactly outsize bytes"""
    if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'const': return False
    b = st.node(p.obj)
    return b.kind == 'data' and not isz(p.off) and not isz(n) and n > 0 and b.data.find(b'\0', p.off) == p.off + n
class MmapFile(Spec):
    name, mod, alloc_fail = 'm38_mmap_file', G_, True
    def __init__(s): s.schemas = (MmapFile.schema,)
    def cases(s, E):
        for label, mime in (('type chosen', True), ('no type yet', False)):
            st = State(); s.world = w = World(st); p, n = cstring(st, 'path', readonly=True); st.assume(lt(n, 1 << 32))
            resp = mkresp(st, mime=mime)
            yield Case(label, st, [p, resp], w=w, p=p, n=n, resp=resp, mime=mime)
    @staticmethod
    def schema(ctx, vk):
        c = ctx.E.case; node = c.pre.node(c.p.obj); out = []
        for x in View(ctx.E, None, None, ctx.variants[vk][0], {}, ctx).ints():
            out.append(('no dot after %s' % (x,), lambda v, x=x: All(lambda k: ne(rd(None, node, k, 1), 46), trig((node, 0)), add(v.ints()[x], 1), add(c.n, 1))))
            out.append(('%s is in the last bytes' % (x,), lambda v, x=x: gt(add(v.ints()[x], MAXEXT + 1), c.n)))
        return out
    def post(s, E, c, st, r):
        w = c.w; ok = st.decide(eq(r, 200))
        out = [('the descriptor is closed', eq(w.get(st, 40), 0))]
        o, n, x = st.rdn(c.resp, OUT, 8, True), st.rdn(c.resp, OUTSZ, 8), st.rdn(c.resp, EXTRA, 8, True)
        mime0, mime1 = c.pre.node(c.resp.obj), st.node(c.resp.obj)
        kept = All(lambda k: eq(rd(None, mime1, add(MIME, k), 1), rd(None, mime0, add(MIME, k), 1)), merge(trig((mime1, MIME)), trig((mime0, MIME))), 0, MIMESZ)
        if not ok:
            return out + [('answered 404', eq(r, 404)), ('only when the file cannot be read', bool(st.log.get('io_failed') or st.log.get('fd0') or E.failed(c, st))), ('an error page of that size', error_page(st, o, n)), ('nothing is mapped', eq(w.get(st, 48), 0)),
                          ('nothing is left to clean up', isnull(x)), ('the type is unchanged', kept)]
        out += [('not answered 200 when the file cannot be read', not st.log.get('io_failed')), ('exactly one mapping', eq(w.get(st, 48), 1)), ('the size is that of the file', eq(n, w.fsize)), ('the mapping is the body', isinstance(o, Ptr) and o.obj is not None and o.obj.kind == 'mapping'),
                ('bookkeeping that the clean-up releases', isinstance(x, Ptr) and x.obj is not None and band(x.obj.kind == 'heap', eq(x.off, 0), st.alive(x.obj)))]
        if isinstance(o, Ptr) and o.obj is not None:
            out += [('the mapping is alive', st.alive(o.obj)), ('the whole mapping', band(eq(o.off, 0), eq(o.obj.size, n))), ('the body is the file', bytes_all(st.node(o.obj), 0, w.file, 0, n))]
        if c.mime: return out + [('the chosen type is kept', kept)]
        # no type yet: by the extension
        pn = c.pre.node(c.p.obj); s2 = st.copy(); lo = fresh('lo'); s2.assume(ge(lo, 0), lt(sub(c.n, MAXEXT + 1), lo), bor(eq(lo, 0), eq(lo, sub(c.n, MAXEXT))))
        s2.assume(Q(lambda k: implies(between(lo, k, c.n), ne(rd(None, pn, k, 1), 46)), trig((pn, 0)), 2)); s2.term(lo)
        E.oblige(s2, 'no extension: text/html [%s]' % c.label, mime_is(s2, c.resp, 'text/html'))
        d = fresh('dot'); s3 = st.copy(); s3.assume(between(0, d, c.n), ge(add(d, MAXEXT), c.n), eq(rd(s3, pn, d, 1), 46)); s3.term(d)
        s3.assume(Q(lambda k: implies(between(add(d, 1), k, c.n), ne(rd(None, pn, k, 1), 46)), trig((pn, 0)), 2))
        none = []
        for e, t in TYPES.items():
            g = eqi(pn, d, lit(e), 0, len(e) + 1); none.append(bnot(g))
            s4 = s3.copy(); s4.assume(g); E.oblige(s4, 'extension %s: %s [%s]' % (e, t, c.label), mime_is(s4, c.resp, t))
        s3.assume(*none); E.oblige(s3, 'another extension: application/octet-stream [%s]' % c.label, mime_is(s3, c.resp, 'application/octet-stream'))
        return out
    def modifies(s, E, c, st, r): return range_mod(c.resp.obj, *FILEPART, *([] if c.mime else [(MIME, MIME + MIMESZ)]))
    def owned(s, E, c, st, r):
        x = st.rdn(c.resp, EXTRA, 8, True); return [x.obj] if isinstance(x, Ptr) and x.obj is not None else []

    def call(s, E, st, fr, a, inst):
        """(used where another function serves a file)"""
        w = libc.world(E, st); p, resp = a; libc.str_end(st, p, 'path', inst)
        if not E.access(st, resp, RESPSZ, 'response', inst, True): return []
        E.oblige(st, 'nothing mapped yet', band(eq(w.get(st, 48), 0), eq(w.get(st, 40), 0)), inst.line)
        if st.dead: return []
        out = []
        for ok in (True, False):
            s2 = st.copy(); b = Base('response'); o = resp.obj
            s2.cp(o, add(resp.off, MIME), MIMESZ, b, 0)
            if ok:
                m = Obj('mapping', w.fsize, 'mapping', readonly=True, line=inst.line); s2.assume(ge(w.fsize, 1)); q = s2.new(m, Cp(Base('mapping'), 0, w.fsize, w.file, 0)); w.inc(s2, 48)
                x = Obj('bookkeeping', STATSZ, 'heap', line=inst.line); s2.allocs.append(x); px = s2.new(x, Base('stat')); s2.log['mapped'] = (m, x)
                for f, v in ((OUT, q), (OUTSZ, w.fsize), (EXTRA, px)): s2.wr(o, add(resp.off, f), 8, v)
            else:
                pg = s2.new(Obj('page', 47, 'const'), Base('page', 'data', data=b'x' * 46 + b'\0'))
                for f, v in ((OUT, pg), (OUTSZ, 46), (EXTRA, NULL)): s2.wr(o, add(resp.off, f), 8, v)
            out.append((s2, 200 if ok else 404))
        return out
STATSZ = 144
def served(st, w):
    """a response that holds a served file"""
    m = Obj('mapping', w.fsize, 'mapping', readonly=True); st.assume(ge(w.fsize, 1)); q = st.new(m, Cp(Base('mapping'), 0, w.fsize, w.file, 0)); w.put(st, 48, 1)
    x = buf(st, 'bookkeeping', STATSZ, 'heap')
    return mkresp(st, {OUT: (8, q), OUTSZ: (8, w.fsize), EXTRA: (8, x)}), q, x
class MmapCleanup(Spec):
    name, mod = 'm38_mmap_cleanup', G_
    def cases(s, E):
        st = State(); s.world = w = World(st); resp, q, x = served(st, w); code = nat(st, 'status', 1 << 32)
        yield Case('any status', st, [code, resp], w=w, q=q, x=x, code=code, resp=resp)
        st = State(); s.world = w = World(st); resp = mkresp(st, {OUT: (8, buf(st, 'page', kind='const'))}); code = nat(st, 'status', 1 << 31); st.assume(bor(lt(code, 200), ge(code, 400)))
        yield Case('error page', st, [code, resp], w=w, q=None, x=None, code=code, resp=resp)
    def ok(s, c): return band(ge(c.code, 200), lt(c.code, 400))
    def post(s, E, c, st, r):
        if c.q is None: return []
        d = st.decide(s.ok(c))
        if d is None: return [('definite', False)]
        return [('released exactly for a successful status', (st.alive(c.q.obj) is not d) and (st.alive(c.x.obj) is not d))]
    def frees(s, E, c, st, r): return () if c.q is None or not st.decide(s.ok(c)) else (c.q.obj, c.x.obj)
    def modifies(s, E, c, st, r): return range_mod(c.resp.obj, *FILEPART)
class HeapCleanup(Spec):
    name, mod, check = 'm38_heap_cleanup', G_, True
    def cases(s, E):
        for label in ('a heap body', 'no body'):
            st = State(); b = buf(st, 'body', kind='heap') if label == 'a heap body' else NULL; resp = mkresp(st, {OUT: (8, b)}); code = nat(st, 'status', 1 << 32)
            yield Case(label, st, [code, resp], b=b, code=code, resp=resp)
    def frees(s, E, c, st, r):
        d = st.decide(band(ge(c.code, 200), lt(c.code, 400))) if s.check else True
        return (c.b.obj,) if c.b.obj is not None and d else ()
    def post(s, E, c, st, r): return []
    def modifies(s, E, c, st, r): return range_mod(c.resp.obj, *FILEPART)
class HeapCleanupAlways(HeapCleanup): name, check = 'm38_heap_cleanup_no_check', False
class RawBuffer(Spec):
    name, mod = 'm38_return_raw_buffer', G_
    def cases(s, E):
        st = State(); b = buf(st, 'buf', readonly=True); n = nat(st, 'n'); resp = mkresp(st)
        yield Case('any', st, [b, n, resp], b=b, n=n, resp=resp)
    def post(s, E, c, st, r): return [('status 200', eq(r, 200)), ('the buffer is the body', samev(st.rdn(c.resp, OUT, 8, True), c.b)), ('the size is the size given', eq(st.rdn(c.resp, OUTSZ, 8), c.n))]
    def modifies(s, E, c, st, r): return range_mod(c.resp.obj, (OUT, OUT + 8), (OUTSZ, OUTSZ + 8))
class Render(Spec):
    """assumed of gshkl_render (bounded evidence only: M22 - M26): a terminated heap string and its size, the context and the template unchanged"""
    name = 'gshkl_render'
    def call(s, E, st, fr, a, inst):
        c = E.case; ctx, t, n, out = a
        E.oblige(st, 'rendered with the given context', samev(ctx, c.ctx), inst.line)
        if isinstance(ctx, Ptr) and ctx.obj is not None: E.oblige(st, 'the context has not been released', st.alive(ctx.obj), inst.line)
        E.range_ok(st, t, add(n, 1), 'template', inst)
        if not E.access(st, out, 8, 'size', inst, True) or st.dead: return []
        E.oblige(st, 'the template is terminated', eq(rd(st, st.node(t.obj), add(t.off, n), 1), 0), inst.line)
        E.oblige(st, 'the template has the size of the file', eq(n, c.w.fsize), inst.line); k = st.node(t.obj); fl = c.w.file; to = t.off
        E.oblige_q(st, 'the template is the file', lambda i: eq(rd(None, k, add(to, i), 1), rd(None, fl, i, 1)), 0, n, inst.line)
        m = nat(st, 'rendered_len', 1 << 60); o = Obj('rendered', add(m, 1), 'heap', line=inst.line); st.allocs.append(o); p = st.new(o, Base('rendered')); st.wr(out.obj, out.off, 8, m)
        st.log['rendered'] = (o, m)
        return [(st, p)]
class FreeCtx(Spec):
    """contract of gshkl_free_context at its call sites (M29)"""
    name = 'gshkl_free_context'
    def call(s, E, st, fr, a, inst):
        E.oblige(st, 'the context that was given is released', samev(a[0], E.case.ctx), inst.line)
        E.oblige(st, 'the context is released once', st.alive(E.case.ctx.obj), inst.line)
        if st.dead: return []
        release(E, st, E.case.ctx.obj)
        return [(st, 0)]
class RenderFile(Spec):
    name, mod = 'm38_render_file', G_
    def uses(s): return {'@m38_mmap_file': MmapFile(), '@gshkl_render': Render(), '@gshkl_free_context': FreeCtx()}
    def cases(s, E):
        st = State(); s.world = w = World(st); p, n = cstring(st, 'path', readonly=True); ctx = buf(st, 'context', kind='heap'); resp = mkresp(st)
        yield Case('any', st, [ctx, p, resp], w=w, ctx=ctx, resp=resp)
    def post(s, E, c, st, r):
        w = c.w; out = [('the context is released', st.alive(c.ctx.obj) is False), ('nothing stays mapped', eq(w.get(st, 48), 0)), ('nothing stays open', eq(w.get(st, 40), 0))]
        m = st.log.get('mapped')
        if m is None: return out + [('answered 404', eq(r, 404)), ('the page is the body', error_page(st, st.rdn(c.resp, OUT, 8, True), st.rdn(c.resp, OUTSZ, 8)))]
        o, n = st.rdn(c.resp, OUT, 8, True), st.rdn(c.resp, OUTSZ, 8); g = st.log.get('rendered')
        out += [('answered 200', eq(r, 200)), ('the file is released', band(st.alive(m[0]) is False, st.alive(m[1]) is False)), ('rendered', g is not None)]
        if g: out += [('the body is what was rendered', isinstance(o, Ptr) and o.obj is g[0] and band(eq(o.off, 0), st.alive(g[0]))), ('the size is its size', eq(n, g[1]))]
        return out
    def frees(s, E, c, st, r): return (c.ctx.obj,)
    def modifies(s, E, c, st, r): return range_mod(c.resp.obj, *FILEPART, (MIME, MIME + MIMESZ))
    def owned(s, E, c, st, r):
        o = st.rdn(c.resp, OUT, 8, True); return [o.obj] if isinstance(o, Ptr) and o.obj is not None else []

SPECS = {'M19': [MmapFile, MmapCleanup, HeapCleanup, HeapCleanupAlways, RawBuffer, RenderFile]}
