"""Assumed contracts of the C library (the trusted base).  Every model checks the precondition of the function
(valid ranges, terminated strings) as an obligation and returns what the standard guarantees, nothing more."""
import z3
from .terms import *
from .core import *
from .engine import *

MODELS = {}
def model(name):
    def d(f): MODELS['@' + name if not name.startswith('@') else name] = f; return f
    return d
def to_signed(st, x, w=32):
    return State.E.signed(st, x, w)
INTMASK = 1 << 32
LIM = 1 << 62

# ---------------------------------------------------------------- ghost functions over contents
_EQ = {}
def EQ(na, nb):
    """EQ(a, b, m): the m bytes at a of content na equal those at b of nb"""
    key = (id(na), id(nb))
    if key not in _EQ:
        n = _ctr_()
        f = Function('EQ!%d' % n, I, I, I, B); d = Function('DIFF!%d' % n, I, I, I, I)
        def ax(app, na=na, nb=nb, d=d):
            a, b, m = app.arg(0), app.arg(1), app.arg(2)
            w = d(a, b, m); keep(w)
            tr = {}
            for nm, l in trig((na, a)).items(): tr.setdefault(nm, []).extend(l)
            for nm, l in trig((nb, b)).items(): tr.setdefault(nm, []).extend(l)
            q = Q(lambda k: implies(band(app, le(0, k), lt(k, m)), eq(rd(None, na, add(a, k), 1), rd(None, nb, add(b, k), 1))), tr, 1, 'eq')
            return [q, bor(app, band(le(0, w), lt(w, m), ne(rd(None, na, add(a, w), 1), rd(None, nb, add(b, w), 1))))]
        axiom(f, ax, 1)
        _EQ[key] = (f, d, na, nb)
    return _EQ[key][0]
def eqb(na, a, nb, b, m):
    """bytes equal (as a term)"""
    if na is nb and cdiff(a, b) == 0: return True
    if not isz(m) and m <= 0: return True
    if isinstance(m, int) and m <= 12:
        return band(*[eq(rd(None, na, add(a, k), 1), rd(None, nb, add(b, k), 1)) for k in range(m)])
    return keep(EQ(na, nb)(Z(a), Z(b), Z(m)))
import irv.terms as _t
def _ctr_():
    _t._cnt[0] += 1
    return _t._cnt[0]

def hint(st, o, off):
    l = st.log.get(('nul', o), ())
    if not any(cdiff(x, off) == 0 for x in l): st.log[('nul', o)] = l + (off,)

def nul_hints(st, p):
    o = p.obj; out = list(st.log.get(('nul', o), ()))
    node = st.node(o); sh = 0; n = 0
    def walk(node, sh, depth):
        # a content offset t of node is offset t + sh of the object
        cnt = 0
        while cnt < 60:
            cnt += 1
            if isinstance(node, Base):
                for h in node.nuls: out.append(add(h, sh))
                if node.kind == 'data':
                    z = [i for i, c in enumerate(node.data) if c == 0]
                    if not isz(p.off):
                        z = [i for i in z if i >= p.off][:1] or z[-1:]
                    out.extend(add(i, sh) for i in z[:4] + z[-1:])
                return
            if isinstance(node, St):
                if not isz(node.val) and not isinstance(node.val, (Ptr, Fn, Undef)) and node.val % 256 == 0: out.append(add(node.off, sh))
            elif isinstance(node, Ms):
                if not isz(node.val) and node.val == 0: out.append(add(node.off, sh)); out.append(add(add(node.off, add(node.n, -1)), sh))
            elif isinstance(node, Cp):
                if depth < 3: walk(node.src, add(sh, sub(node.off, node.soff)), depth + 1)
            node = node.prev
    walk(node, 0, 0)
    if not isz(o.size): out.append(o.size - 1)
    else: out.append(add(o.size, -1))
    r = []
    for h in out:
        if not any(cdiff(h, x) == 0 for x in r): r.append(h)
    return r

_LEN = {}
def off0(p): return p.off
def str_end(st, p, what, inst, limit=None):
    """(n): offset of the first zero byte at or after p, relative to p; checks that there is one in bounds.
    With limit: position of the first zero byte below limit, or limit."""
    E = State.E
    if p.obj is None:
        E.oblige(st, what + ' of a null pointer', False if limit is None else eq(limit, 0), inst.line)
        if st.dead: return 0
        return 0
    o = p.obj
    if o.kind == 'opaque': raise Unsupported('string in opaque object')
    if o.kind == 'family': return fam_end(E, st, p, what, inst, limit)
    al = st.alive(o)
    if al is not True: E.oblige(st, what + ' of released memory', al, inst.line)
    node = st.node(o)
    if o.kind == 'const' and isinstance(node, Base) and node.kind == 'data' and not isz(p.off):
        i = node.data.find(b'\0', p.off) if 0 <= p.off <= len(node.data) else -1
        if i >= 0 and limit is None: return i - p.off
        if i >= 0 and not isz(limit): return min(i - p.off, limit)
    key = (id(node), p.off.get_id() if isz(p.off) else ('c', p.off), limit.get_id() if isz(limit) else ('c', limit))
    # a string already measured that contains this position
    for e0, e1 in st.log.get(('ends', node), ()):
        if ('len', key) in st.log: break
        if cdiff(off0(p), e0) == 0: inside = True
        else:
            inside = band(le(e0, p.off), le(p.off, e1))
            inside = st.quick(inside) if isz(inside) else inside
        if inside:
            if limit is None or st.quick(le(sub(e1, p.off), limit)):
                if not E.quiet: E.oblige(st, what + ': terminated within the object', True, inst.line)
                return sub(e1, p.off)
    # safety
    good = None
    goals = []
    if limit is not None:
        goals.append(band(le(0, p.off), le(add(p.off, limit), o.size)))
        goals.append(eq(limit, 0))
    for h in nul_hints(st, p):
        g = band(le(p.off, h), le(0, p.off), lt(h, o.size), eq(rd(st, node, h, 1), 0))
        goals.append(g)
    ok = False
    for g in goals:
        if (not isz(g) and g) or (isz(g) and st.quick(g)): ok = True; good = g; break
    if not E.quiet and not ok:
        E.oblige(st, what + ': no terminating zero byte within the object', bor(*goals), inst.line)
    elif not E.quiet:
        E.oblige(st, what + ': terminated within the object', good, inst.line)
    if key not in _LEN:
        n = fresh('len'); _LEN[key] = (n, node, p.off, limit)
        LEN_KEEP.append(node)
    n = _LEN[key][0]
    off = p.off
    st.assume(le(0, n))
    bnd = None
    if limit is not None:
        st.assume(le(n, limit))
        st.assume(bor(eq(n, limit), eq(rd(None, node, add(off, n), 1), 0)))
    else:
        st.assume(eq(rd(None, node, add(off, n), 1), 0))
        st.assume(lt(add(off, n), o.size))
    st.assume(bor(eq(n, limit) if limit is not None else False, lt(add(off, n), o.size)))
    if ('len', key) not in st.log:
        st.log[('len', key)] = 1
        st.assume(Q(lambda k: implies(band(le(off, k), lt(k, add(off, n))), ne(rd(None, node, k, 1), 0)), trig((node, 0)), 2, 'strlen'))
        for h in nul_hints(st, p):
            # n cannot lie beyond a known zero byte
            st.assume(bor(lt(h, off), ne(rd(None, node, h, 1), 0), le(add(off, n), h)))
    if limit is None:
        hint(st, o, add(off, n))
        l = st.log.get(('ends', node), ())
        st.log[('ends', node)] = l + ((off, add(off, n)),)
    st.term(n)
    return n
LEN_KEEP = []
def fam_end(E, st, p, what, inst, limit):
    f = p.obj.meta['fam']
    i, r = _split(p.off)
    if getattr(f, 'strat', None): n = f.strat(st, i, r)          # several strings in one member
    elif f.strlen is None: n = None
    else: n = sub(f.strlen(i), r)
    if n is None: raise Unsupported('string in %s' % p.obj)
    E.oblige(st, what + ': terminated within the object', band(le(0, i), lt(i, f.count), f.alive(st, i), le(0, r), le(0, n)), inst.line)
    st.term(n)
    if limit is None: return n
    return n if st.quick(le(n, limit)) else smin(n, limit)
def _split(off):
    from .family import split
    return split(off)

# ---------------------------------------------------------------- allocation
def alloc(E, st, size, inst, node, name):
    ok = []
    if E.alloc_fail:
        s0 = st.copy(); s0.log["oom"] = True; ok.append((s0, NULL))
    o = Obj(name, size, 'heap', line=inst.line)
    st.assume(ge(size, 0), lt(size, LIM))
    p = st.new(o, node); st.allocs.append(o)
    return [(st, p)] + ok
def asize(E, st, n, inst):
    if isz(n): E.oblige(st, 'allocation size representable', lt(n, LIM), inst.line)
    return n

@model('malloc')
def m_malloc(E, st, fr, a, inst):
    return alloc(E, st, asize(E, st, a[0], inst), inst, Base('malloc', 'undef'), 'malloc')
@model('calloc')
def m_calloc(E, st, fr, a, inst):
    n = mul(a[0], a[1])
    return alloc(E, st, asize(E, st, n, inst), inst, Base('calloc', 'zero'), 'calloc')
@model('realloc')
def m_realloc(E, st, fr, a, inst):
    p, n = a
    asize(E, st, n, inst)
    if isnull(p): return m_malloc(E, st, fr, [n], inst)
    if not isinstance(p, Ptr) or p.obj.kind not in ('heap',): E.oblige(st, 'realloc of memory that was not allocated', False, inst.line); st.dead = True; return []
    o = p.obj
    E.oblige(st, 'realloc of a pointer inside an object', eq(p.off, 0), inst.line)
    al = st.alive(o)
    if al is not True: E.oblige(st, 'realloc of released memory', al, inst.line)
    r = []
    d = st.decide(eq(n, 0)) if isz(n) else n == 0
    if d is not False:                         # glibc: released, and no memory is returned
        sz = st.copy(); sz.assume(eq(n, 0)); release(E, sz, o); r.append((sz, NULL))
        if d: return r
        st.assume(ne(n, 0))
    if E.alloc_fail:
        s0 = st.copy(); s0.log["oom"] = True; r.append((s0, NULL))
    no = Obj('realloc', n, 'heap', line=inst.line)
    st.assume(ge(n, 0), lt(n, LIM))
    old = st.node(o)
    q = st.new(no, Base('realloc', 'undef')); st.allocs.append(no)
    m = smin(o.size, n) if st.decide(le(o.size, n)) is None else (o.size if st.decide(le(o.size, n)) else n)
    st.mem[no] = (Cp(st.mem[no][0], 0, m, old, 0), True)
    for k in ('ptrs', 'ptrstride'):
        if k in o.meta: no.meta[k] = o.meta[k]
    release(E, st, o)
    r.insert(0, (st, q))
    return r
def release(E, st, o):
    st.mem[o] = (st.mem[o][0], False); st.freed.append(o)
@model('free')
def m_free(E, st, fr, a, inst):
    p = a[0]
    if isnull(p): return None
    if p is UNDEF: E.oblige(st, 'free of an undefined pointer', False, inst.line); st.dead = True; return None
    if isinstance(p, Fn) or p.obj is None or p.obj.kind not in ('heap', 'family'):
        if isinstance(p, Ptr) and p.obj is not None and p.obj.meta.get('freeable'): pass
        else: E.oblige(st, 'free of memory that was not allocated', False, inst.line); st.dead = True; return None
    o = p.obj
    if o.kind == 'family' or 'free' in o.meta: return o.meta['free'](E, st, p, inst)
    E.oblige(st, 'free of a pointer inside an object', eq(p.off, 0), inst.line)
    al = st.alive(o)
    if al is not True: E.oblige(st, 'double free', al, inst.line)
    if st.dead: return None
    release(E, st, o)
    return None

# ---------------------------------------------------------------- memory
def copy(E, st, d, s_, n, inst, what):
    n = n if not isinstance(n, Ptr) else 0
    E.range_ok(st, d, n, what + ' write', inst, True); E.range_ok(st, s_, n, what + ' read', inst)
    if st.dead: return
    if not isz(n) and n == 0: return
    if d.obj is None or s_.obj is None: return
    if what == 'memcpy' and d.obj is s_.obj and cdiff(d.off, s_.off) != 0:
        E.oblige(st, 'memcpy of overlapping ranges', bor(le(add(d.off, n), s_.off), le(add(s_.off, n), d.off), eq(n, 0)), inst.line)
    # small typed copies of pointer cells
    st.cp(d.obj, d.off, n, st.node(s_.obj), s_.off)
@model('memcpy')
def m_memcpy(E, st, fr, a, inst): copy(E, st, a[0], a[1], a[2], inst, 'memcpy'); return a[0]
@model('memmove')
def m_memmove(E, st, fr, a, inst): copy(E, st, a[0], a[1], a[2], inst, 'memmove'); return a[0]
@model('llvm.memcpy')
def m_lmemcpy(E, st, fr, a, inst): copy(E, st, a[0], a[1], a[2], inst, 'memcpy')
@model('llvm.memmove')
def m_lmemmove(E, st, fr, a, inst): copy(E, st, a[0], a[1], a[2], inst, 'memmove')
@model('memset')
def m_memset(E, st, fr, a, inst):
    p, v, n = a[0], a[1], a[2]
    E.range_ok(st, p, n, 'memset', inst, True)
    if st.dead or p.obj is None or (not isz(n) and n == 0): return p
    if p.obj.kind == 'opaque': return p
    st.ms(p.obj, p.off, n, v % 256 if not isz(v) else mod(v, 256))
    return p
@model('llvm.memset')
def m_lmemset(E, st, fr, a, inst): m_memset(E, st, fr, a, inst)
@model('llvm.lifetime')
def m_lifetime(E, st, fr, a, inst):
    """a variable of a block is indeterminate where its block is entered and left"""
    p = a[1]
    if isinstance(p, Ptr) and p.obj is not None and 'fresh' in p.obj.meta and p.obj in st.mem: st.mem[p.obj] = (p.obj.meta['fresh'], st.mem[p.obj][1])
for nm in ('llvm.dbg', 'llvm.assume', 'llvm.stackrestore', 'printf', 'puts', 'perror', 'm38_log_msg', 'putchar', 'llvm.experimental', 'llvm.va_start', 'llvm.va_end'):
    MODELS['@' + nm] = lambda E, st, fr, a, inst: (0 if inst.name else None)
@model('llvm.stacksave')
def m_ss(E, st, fr, a, inst): return Ptr(None, 1)

# ---------------------------------------------------------------- strings
@model('strlen')
def m_strlen(E, st, fr, a, inst): return str_end(st, a[0], 'strlen', inst)
@model('strnlen')
def m_strnlen(E, st, fr, a, inst): return str_end(st, a[0], 'strnlen', inst, a[1])
def read_len(E, st, p, n, what, inst):
    """bytes of p that a bounded string function may look at: min(n, len+1); obligation included"""
    return str_end(st, p, what, inst, n)
def cmp_result(E, st, e, inst):
    """zero exactly when e"""
    if isz(e):
        d = st.decide(e)
        if d is not None: e = d
    if not isz(e):
        if e: return 0
        r = fresh('cmp'); st.assume(gt(r, 0), lt(r, INTMASK)); return r
    s2 = st.copy(); s2.assume(bnot(e)); r = fresh('cmp'); s2.assume(gt(r, 0), lt(r, INTMASK))
    st.assume(e)
    return [(s2, r), (st, 0)]
def cmplen(E, st, p, q, n, what, inst):
    """number of bytes that decide a (bounded) string comparison: min(n, len(shorter known)+1)"""
    # prefer the operand whose length is constant
    for x in (q, p):
        if x.obj is not None and x.obj.kind == 'const' and not isz(x.off):
            l = str_end(st, x, what, inst)
            if not isz(l):
                y = p if x is q else q
                m = l + 1 if n is None else (min(n, l + 1) if not isz(n) else smin(n, l + 1))
                return m, y
    return None, None
def need_prefix(E, st, y, m, what, inst):
    """y must be readable up to its terminator or m bytes"""
    if E.quiet: return
    if y.obj.kind == 'family':
        f = y.obj.meta['fam']
        if f.strlen is not None or getattr(f, 'strat', None): fam_end(E, st, y, what, inst, None)      # terminated, so any bounded read ends inside
        else: E.oblige(st, what + ' reads within the object', f.valid(st, y.off, m), inst.line)
        return
    goals = [band(le(0, y.off), le(add(y.off, m), y.obj.size))]
    for h in nul_hints(st, y): goals.append(band(le(y.off, h), le(0, y.off), lt(h, y.obj.size), eq(rd(st, st.node(y.obj), h, 1), 0)))
    E.oblige(st, what + ' reads within the object', bor(*goals), inst.line)
    al = st.alive(y.obj)
    if al is not True: E.oblige(st, what + ' of released memory', al, inst.line)
def strcmp_gen(E, st, p, q, n, what, inst):
    if p.obj is None or q.obj is None:
        E.oblige(st, what + ' of a null pointer', False if n is None else eq(n, 0), inst.line); st.dead = True; return 0
    m, y = cmplen(E, st, p, q, n, what, inst)
    np_, nq = st.node(p.obj), st.node(q.obj)
    if m is None:
        # equality is decided by the first min(n, len(q)+1) bytes
        if n is None:
            l = str_end(st, q, what, inst); need_prefix(E, st, p, add(l, 1), what, inst); m = add(l, 1)
        else:
            # operands of at least n readable bytes, or terminated
            lq = str_end(st, q, what, inst, n); need_prefix(E, st, p, n if st.quick(eq(lq, n)) else smin(add(lq, 1), n), what, inst)
            m = n if st.quick(eq(lq, n)) else smin(add(lq, 1), n)
    else: need_prefix(E, st, y, m, what, inst)
    if st.dead: return 0
    return cmp_result(E, st, eqb(np_, p.off, nq, q.off, m), inst)
@model('strcmp')
def m_strcmp(E, st, fr, a, inst): return strcmp_gen(E, st, a[0], a[1], None, 'strcmp', inst)
@model('strncmp')
def m_strncmp(E, st, fr, a, inst): return strcmp_gen(E, st, a[0], a[1], a[2], 'strncmp', inst)
@model('memcmp')
def m_memcmp(E, st, fr, a, inst):
    p, q, n = a
    E.range_ok(st, p, n, 'memcmp', inst); E.range_ok(st, q, n, 'memcmp', inst)
    if st.dead: return 0
    if p.obj is None or q.obj is None: return 0
    return cmp_result(E, st, eqb(st.node(p.obj), p.off, st.node(q.obj), q.off, n), inst)
MODELS['@bcmp'] = m_memcmp
def dup(E, st, p, n, inst, name):
    """fresh terminated copy of n bytes"""
    src = st.node(p.obj)
    out = alloc(E, st, add(n, 1), inst, Base(name, 'zero'), name)
    s2, q = out[0]
    if not (not isz(n) and n == 0): s2.mem[q.obj] = (Cp(s2.mem[q.obj][0], 0, n, src, p.off), True)
    hint(s2, q.obj, n)
    return out
@model('strdup')
def m_strdup(E, st, fr, a, inst):
    n = str_end(st, a[0], 'strdup', inst)
    if st.dead: return []
    return dup(E, st, a[0], n, inst, 'strdup')
@model('strndup')
def m_strndup(E, st, fr, a, inst):
    n = str_end(st, a[0], 'strndup', inst, a[1])
    if st.dead: return []
    return dup(E, st, a[0], n, inst, 'strndup')
@model('strncpy')
def m_strncpy(E, st, fr, a, inst):
    d, s_, n = a
    l = str_end(st, s_, 'strncpy', inst, n)
    E.range_ok(st, d, n, 'strncpy write', inst, True)
    if st.dead: return d
    if not isz(n) and n == 0: return d
    src = st.node(s_.obj)
    if st.quick(eq(l, n)): st.cp(d.obj, d.off, n, src, s_.off)
    else:
        st.ms(d.obj, d.off, n, 0)
        st.cp(d.obj, d.off, l, src, s_.off)
        hint(st, d.obj, add(d.off, l))
    return d
@model('strncat')
def m_strncat(E, st, fr, a, inst):
    d, s_, n = a
    l0 = str_end(st, d, 'strncat', inst); l = str_end(st, s_, 'strncat', inst, n)
    at = Ptr(d.obj, add(d.off, l0))
    E.range_ok(st, at, add(l, 1), 'strncat write', inst, True)
    if st.dead: return d
    src = st.node(s_.obj)
    if not (not isz(l) and l == 0): st.cp(d.obj, at.off, l, src, s_.off)
    st.wr(d.obj, add(at.off, l), 1, 0); hint(st, d.obj, add(at.off, l))
    return d
@model('strcpy')
def m_strcpy(E, st, fr, a, inst):
    d, s_ = a
    l = str_end(st, s_, 'strcpy', inst)
    E.range_ok(st, d, add(l, 1), 'strcpy write', inst, True)
    if st.dead: return d
    st.cp(d.obj, d.off, add(l, 1), st.node(s_.obj), s_.off); hint(st, d.obj, add(d.off, l))
    return d
@model('strcat')
def m_strcat(E, st, fr, a, inst):
    d, s_ = a
    l0 = str_end(st, d, 'strcat', inst); l = str_end(st, s_, 'strcat', inst)
    at = Ptr(d.obj, add(d.off, l0))
    E.range_ok(st, at, add(l, 1), 'strcat write', inst, True)
    if st.dead: return d
    st.cp(d.obj, at.off, add(l, 1), st.node(s_.obj), s_.off); hint(st, d.obj, add(at.off, l))
    return d
def findchar(E, st, p, c, inst, what, limit=None):
    """[(state, offset or None)]: first c before the terminator"""
    l = str_end(st, p, what, inst, limit)
    if st.dead: return []
    node = st.node(p.obj); s0 = st.copy()
    s0.assume(Q(lambda k: implies(between(p.off, k, add(p.off, l)), ne(rd(None, node, k, 1), c)), trig((node, 0)), 2, 'nochar'))
    k = fresh('pos')
    st.assume(between(p.off, k, add(p.off, l)), eq(rd(None, node, k, 1), c))
    st.assume(Q(lambda j: implies(between(p.off, j, k), ne(rd(None, node, j, 1), c)), trig((node, 0)), 2, 'firstchar'))
    st.term(k)
    return [(st, k, l), (s0, None, l)]
@model('strchr')
def m_strchr(E, st, fr, a, inst):
    c = a[1] % 256 if not isz(a[1]) else mod(a[1], 256)
    if isz(c) or c == 0: raise Unsupported('strchr of this character')
    return [(s2, NULL if k is None else Ptr(a[0].obj, k)) for s2, k, l in findchar(E, st, a[0], c, inst, 'strchr')]
@model('memchr')
def m_memchr(E, st, fr, a, inst):
    p, c, n = a; c = c % 256 if not isz(c) else mod(c, 256)
    E.range_ok(st, p, n, 'memchr', inst)
    if st.dead: return []
    node = st.node(p.obj); s0 = st.copy()
    s0.assume(Q(lambda k: implies(between(p.off, k, add(p.off, n)), ne(rd(None, node, k, 1), c)), trig((node, 0)), 2, 'nochar'))
    k = fresh('pos')
    st.assume(between(p.off, k, add(p.off, n)), eq(rd(None, node, k, 1), c))
    st.assume(Q(lambda j: implies(between(p.off, j, k), ne(rd(None, node, j, 1), c)), trig((node, 0)), 2, 'firstchar'))
    return [(st, Ptr(p.obj, k)), (s0, NULL)]
@model('strsep')
def m_strsep(E, st, fr, a, inst):
    pp, delim = a
    if not E.access(st, pp, 8, 'read', inst): return []
    p = rd(st, st.node(pp.obj), pp.off, 8, True)
    if isnull(p): return [(st, NULL)]
    dn = st.node(delim.obj)
    if not (isinstance(dn, Base) and dn.kind == 'data' and delim.off == 0 and len(dn.data) == 2): raise Unsupported('strsep delimiters')
    c = dn.data[0]; out = []
    for s2, k, l in findchar(E, st, p, c, inst, 'strsep'):
        if k is None: s2.wr(pp.obj, pp.off, 8, NULL)
        else:
            if s2.node(p.obj) is not None and p.obj.meta.get('readonly'): E.oblige(s2, 'write to constant data', False, inst.line)
            s2.wr(p.obj, k, 1, 0); hint(s2, p.obj, k)
            s2.wr(pp.obj, pp.off, 8, Ptr(p.obj, add(k, 1)))
            hint(s2, p.obj, add(p.off, l))
        out.append((s2, p))
    return out

# ---------------------------------------------------------------- conversions
def hexval(b):
    return ite(band(le(48, b), le(b, 57)), sub(b, 48), ite(band(le(97, b), le(b, 102)), sub(b, 87), sub(b, 55)))
def ishex(b): return bor(band(le(48, b), le(b, 57)), band(le(97, b), le(b, 102)), band(le(65, b), le(b, 70)))
def strconst(st, p):
    if p.obj is None: return None
    n = st.node(p.obj)
    if isinstance(n, Base) and n.kind == 'data' and not isz(p.off):
        i = n.data.find(b'\0', p.off); return n.data[p.off:i] if i >= 0 else None
@model('__isoc99_sscanf')
def m_sscanf(E, st, fr, a, inst):
    fmt = strconst(st, a[1])
    if fmt != b'%2x': raise Unsupported('sscanf format %r' % fmt)
    p = a[0]
    b0 = rd(st, st.node(p.obj), p.off, 1); b1 = rd(st, st.node(p.obj), add(p.off, 1), 1)
    need_prefix(E, st, p, 2, 'sscanf', inst)
    both = band(ishex(b0), ishex(b1))
    E.access(st, a[2], 4, 'write', inst, True)
    d = st.decide(both)
    if d is None: raise Fork(both)
    if not d:
        r = fresh('scanned'); st.assume(bor(eq(r, 0), eq(r, 1), eq(r, INTMASK - 1)))
        v = fresh('scanval'); st.assume(ge(v, 0), lt(v, INTMASK)); st.wr(a[2].obj, a[2].off, 4, v)
        return r
    st.wr(a[2].obj, a[2].off, 4, add(scale(16, hexval(b0)), hexval(b1)))
    return 1
_STRTOL = {}
def STRTOL(node):
    if id(node) not in _STRTOL:
        f = Function('STRTOL!%d' % _ctr_(), I, I); axiom(f, lambda x: [And(x >= -(1 << 63), x < (1 << 63))]); _STRTOL[id(node)] = (f, node)
    return _STRTOL[id(node)][0]
@model('strtol')
def m_strtol(E, st, fr, a, inst):
    str_end(st, a[0], 'strtol', inst)
    if not isnull(a[1]): raise Unsupported('strtol end pointer')
    if a[2] != 10: raise Unsupported('strtol base')
    if st.dead: return 0
    v = keep(STRTOL(st.node(a[0].obj))(Z(a[0].off)))
    eo = errno_obj(E, st); e = fresh('errno'); st.assume(ge(e, 0), lt(e, INTMASK))
    st.mem[eo] = (St(st.mem[eo][0], 0, 4, e), True)
    # errno is ERANGE exactly when the value is out of range, else unchanged (may be stale)
    d = st.decide(ge(v, 0))
    if d is None: raise Fork(ge(v, 0))
    return v if d else add(v, 1 << 64)
for nm in ('strtoll', '__isoc23_strtol', '__isoc23_strtoll'): MODELS['@' + nm] = m_strtol
MODELS['@__isoc23_sscanf'] = m_sscanf
@model('atoi')
def m_atoi(E, st, fr, a, inst):
    str_end(st, a[0], 'atoi', inst)
    if st.dead: return 0
    v = keep(Function('ATOI_OF', I, I)(STRTOL(st.node(a[0].obj))(Z(a[0].off))))
    st.assume(ge(v, 0), lt(v, INTMASK))
    return v
def errno_obj(E, st):
    if not hasattr(E, '_errno'): E._errno = Obj('errno', 4, 'global')
    if E._errno not in st.mem:
        e = fresh('errno'); st.assume(ge(e, 0), lt(e, INTMASK)); st.mem[E._errno] = (Base('errno', 'uf', cells={0: (4, e)}), True)
    return E._errno
@model('__errno_location')
def m_errno(E, st, fr, a, inst): return Ptr(errno_obj(E, st), 0)
@model('__assert_fail')
def m_assert(E, st, fr, a, inst):
    h = getattr(E.cur, 'aborted', None)        # a contract may say when the process is to be ended
    if h: h(E, st, inst)
    else: E.oblige(st, 'assertion in the code', False, inst.line)
    st.dead = True
    return []

# ---------------------------------------------------------------- formatted output
_TXT = {}
def inttext(conv, v, w):
    """text of an integer under a printf conversion: (length term, content)"""
    if not isz(v):
        if conv in 'di': v2 = v - (1 << w) if v >= 1 << (w - 1) else v; s_ = b'%d' % v2
        else: s_ = {'u': b'%d', 'X': b'%X', 'x': b'%x', 'o': b'%o'}[conv] % v
        return len(s_), Base('num', 'data', data=s_ + b'\0')
    if conv == 'i': conv = 'd'
    key = (conv, w, v.get_id())
    if key not in _TXT:
        L = Function('NLEN_%s%d' % (conv, w), I, I); D = Function('NDIG_%s%d' % (conv, w), I, I, I)
        if L.name() not in AXIOMS:
            axiom(L, lambda x: [And(x >= 1, x <= 21)])
            axiom(D, lambda x: [And(x >= 33, x <= 126)])
        b = Base('num', 'dyn', dyn=lambda st, off, n, ptr, v=v, D=D: keep(D(v, Z(off))) if n == 1 and not ptr else None)
        _TXT[key] = (keep(L(v)), b, v)
    return _TXT[key][0], _TXT[key][1]
def fmt_pieces(E, st, fmt, args, inst):
    """[(length, content node, offset)]"""
    import re
    out = []; i = 0; ai = 0; lit = b''
    for m in re.finditer(rb'%(%|(l{0,2}|z|h{0,2}|j)([diuxXsc]))|([^%]+)', fmt):
        if m.start() != i: raise Unsupported('printf format %r' % fmt)
        i = m.end()
        if m.group(4) is not None: lit += m.group(4); continue
        if m.group(1) == b'%': lit += b'%'; continue
        if lit: out.append((len(lit), Base('lit', 'data', data=lit + b'\0'), 0)); lit = b''
        c = m.group(3).decode()
        if ai >= len(args): E.oblige(st, 'printf: missing argument', False, inst.line); st.dead = True; return []
        a = args[ai]; ai += 1
        if c == 's':
            if not isinstance(a, Ptr): raise Unsupported('%s argument')
            n = str_end(st, a, 'printf %s', inst)
            if st.dead: return []
            out.append((n, st.node(a.obj), a.off))
        elif c == 'c': raise Unsupported('%c')
        else:
            w = 64 if m.group(2) in (b'l', b'll', b'z', b'j') else 32
            if isinstance(a, (Ptr, PInt, Fn)) or a is UNDEF: raise Unsupported('integer conversion of a pointer')
            n, node = inttext(c, a, w); out.append((n, node, 0))
    if i != len(fmt): raise Unsupported('printf format %r' % fmt)
    if lit: out.append((len(lit), Base('lit', 'data', data=lit + b'\0'), 0))
    return out
def put_pieces(st, d, pieces):
    at = d.off
    for n, node, off in pieces:
        if not (not isz(n) and n == 0): st.cp(d.obj, at, n, node, off)
        at = add(at, n)
    st.wr(d.obj, at, 1, 0); hint(st, d.obj, at)
    return at
@model('sprintf')
def m_sprintf(E, st, fr, a, inst):
    fmt = strconst(st, a[1])
    if fmt is None: raise Unsupported('sprintf format')
    ps = fmt_pieces(E, st, fmt, a[2:], inst)
    if st.dead: return 0
    tot = 0
    for n, _, _ in ps: tot = add(tot, n)
    E.range_ok(st, a[0], add(tot, 1), 'sprintf write', inst, True)
    if st.dead: return 0
    put_pieces(st, a[0], ps)
    return tot
@model('snprintf')
def m_snprintf(E, st, fr, a, inst):
    fmt = strconst(st, a[2]); n = a[1]
    if fmt is None: raise Unsupported('snprintf format')
    ps = fmt_pieces(E, st, fmt, a[3:], inst)
    if st.dead: return 0
    tot = 0
    for l, _, _ in ps: tot = add(tot, l)
    st.assume(lt(tot, 1 << 31))
    d = st.decide(lt(tot, n))
    if d is None: raise Fork(lt(tot, n))
    if d:
        E.range_ok(st, a[0], add(tot, 1), 'snprintf write', inst, True)
        if st.dead: return 0
        put_pieces(st, a[0], ps)
    else:
        if not isz(n) and n == 0: return tot
        E.range_ok(st, a[0], n, 'snprintf write', inst, True)
        if st.dead or a[0].obj is None: return tot
        # truncated: the first n-1 bytes of the whole text
        o = Obj('text', add(tot, 1), 'stack'); p = st.new(o, Base('text'))
        put_pieces(st, p, ps)
        st.cp(a[0].obj, a[0].off, sub(n, 1), st.node(o), 0)
        st.wr(a[0].obj, add(a[0].off, sub(n, 1)), 1, 0); hint(st, a[0].obj, add(a[0].off, sub(n, 1)))
    return tot

# ---------------------------------------------------------------- the world outside: sockets, descriptors, files (ghost state)
# cells of the ghost object 'world': 0 bytes received so far, 8 bytes sent so far, 16 closes of the connection, 24 clean-up calls,
# 32 status given to the clean-up, 40 open file descriptors, 48 live mappings, 56 handler calls
class World:
    def __init__(s, st, fd=None):
        s.obj = Obj('world', 64, 'ghost'); s.fd = fd
        s.ptr = st.new(s.obj, Base('world', 'zero', cells={i: (8, 0) for i in range(0, 64, 8)}))
        s.stream = Base('stream'); s.streamlen = fresh('streamlen'); st.assume(ge(s.streamlen, 0), lt(s.streamlen, 1 << 60))
        s.file = Base('file'); s.fsize = fresh('fsize'); st.assume(ge(s.fsize, 0), lt(s.fsize, 1 << 60)); st.term(s.fsize)
        s.sent = Obj('sent', 1 << 62, 'ghost', buffer=True); s.sent0 = Base('sent'); st.mem[s.sent] = (s.sent0, True)
    def get(s, st, i): return rd(st, st.node(s.obj), i, 8)
    def put(s, st, i, v): st.wr(s.obj, i, 8, v)
    def inc(s, st, i, d=1): s.put(st, i, add(s.get(st, i), d))
def world(E, st):
    w = getattr(E.cur, 'world', None)
    if w is None or w.obj not in st.mem: raise Unsupported('system call outside a contract that has a world')
    return w
MINUS1 = (1 << 64) - 1
class Files:
    """stdio files: one is read at a time; read errors are excluded"""
    def __init__(s, st):
        s.obj = Obj('files', 16, 'ghost'); st.new(s.obj, Base('files', 'zero', cells={0: (8, 0), 8: (8, 0)}))
    def pos(s, st): return rd(st, st.node(s.obj), 0, 8)
    def open(s, st): return rd(st, st.node(s.obj), 8, 8)
    def put(s, st, i, v): st.wr(s.obj, i, 8, v)
def files(E, st):
    F = getattr(E.cur, 'files', None)
    if F is None or F.obj not in st.mem: raise Unsupported('file access outside a contract that has files')
    return F
@model('fopen')
def m_fopen(E, st, fr, a, inst):
    F = files(E, st); mode = strconst(st, a[1])
    if mode is None or bytes(mode) not in (b'r', b'rb'): raise Unsupported('fopen mode')
    E.oblige(st, 'one file at a time', eq(F.open(st), 0), inst.line)
    E.cur.opened(E, st, a[0], inst)
    if st.dead: return []
    s0 = st.copy(); s0.log['fopen_failed'] = True
    n = fresh('filesize'); st.assume(ge(n, 0), lt(n, 1 << 60)); st.term(n)
    st.log['file'] = dict(node=Base('file'), size=n); F.put(st, 0, 0); F.put(st, 8, 1)
    return [(st, Ptr(FILEOBJ(st), 0)), (s0, NULL)]
def FILEOBJ(st):
    for o in st.mem:
        if o.name.startswith('FILE#') or o.name == 'FILE': return o
    o = Obj('FILE', 216, 'opaque'); st.mem[o] = (Base('FILE'), True); return o
@model('fread')
def m_fread(E, st, fr, a, inst):
    F = files(E, st); p, z, n, fp = a; f = st.log.get('file')
    if isz(z) or z != 1: raise Unsupported('fread of records')
    E.oblige(st, 'fread from an open file', f is not None and isinstance(fp, Ptr) and fp.obj is FILEOBJ(st) and eq(F.open(st), 1), inst.line)
    E.range_ok(st, p, n, 'fread', inst, True)
    if st.dead: return []
    r = fresh('read'); pos = F.pos(st)
    st.assume(ge(r, 0), le(r, n), le(add(pos, r), f['size']), implies(lt(r, n), eq(add(pos, r), f['size'])))
    st.cp(p.obj, p.off, r, f['node'], pos); F.put(st, 0, add(pos, r)); st.term(r)
    return [(st, r)]
@model('fclose')
def m_fclose(E, st, fr, a, inst):
    F = files(E, st); fp = a[0]
    E.oblige(st, 'fclose of an open file', isinstance(fp, Ptr) and fp.obj is FILEOBJ(st) and eq(F.open(st), 1), inst.line)
    if st.dead: return []
    F.put(st, 8, 0)
    return [(st, 0)]
@model('recv')
def m_recv(E, st, fr, a, inst):
    """any number of the next bytes of the stream up to the length, 0 at its end, or -1"""
    w = world(E, st); fd, p, n, fl = a
    E.oblige(st, 'recv on the connection', eq(fd, w.fd), inst.line)
    E.range_ok(st, p, n, 'recv', inst, True)
    if st.dead: return []
    s0 = st.copy(); s1 = st.copy()
    r = fresh('received'); pos = w.get(st, 0)
    st.assume(ge(r, 1), le(r, n), le(add(pos, r), w.streamlen))
    st.cp(p.obj, p.off, r, w.stream, pos); w.put(st, 0, add(pos, r)); st.term(r)
    s1.log['recv_failed'] = True
    return [(st, r), (s0, 0), (s1, MINUS1)]
@model('send')
def m_send(E, st, fr, a, inst):
    """takes any non-empty prefix, or fails; without MSG_NOSIGNAL a failure kills the process"""
    w = world(E, st); fd, p, n, fl = a
    E.oblige(st, 'send on the connection', eq(fd, w.fd), inst.line)
    E.oblige(st, 'send cannot raise SIGPIPE (MSG_NOSIGNAL)', eq(fl, 0x4000), inst.line)
    E.oblige(st, 'send only while the connection is open', eq(w.get(st, 16), 0), inst.line)
    E.range_ok(st, p, n, 'send', inst)
    if st.dead: return []
    s0 = st.copy(); s1 = st.copy()
    r = fresh('accepted'); pos = w.get(st, 8)
    st.assume(ge(r, 1), le(r, n)); st.cp(w.sent, pos, r, st.node(p.obj), p.off); w.put(st, 8, add(pos, r)); st.term(r)
    return [(st, r), (s0, 0), (s1, MINUS1)]
@model('close')
def m_close(E, st, fr, a, inst):
    w = world(E, st); fd = a[0]
    if w.fd is not None and (cdiff(fd, w.fd) == 0 or st.quick(eq(fd, w.fd))):
        w.inc(st, 16); return 0
    if st.log.get('fd') is not None and cdiff(fd, st.log['fd']) == 0:
        E.oblige(st, 'close of an open descriptor', ge(w.get(st, 40), 1), inst.line)
        w.inc(st, 40, -1); return 0
    E.oblige(st, 'close of a descriptor that is not ours', eq(fd, INTMASK - 1), inst.line)
    return INTMASK - 1
def lower(b): return ite(band(le(65, b), le(b, 90)), add(b, 32), b)
def eqi(na, a, nb, b, m):
    """the m (constant) bytes are equal up to the case of letters"""
    return band(*[eq(lower(rd(None, na, add(a, k), 1)), lower(rd(None, nb, add(b, k), 1))) for k in range(m)])
@model('strncasecmp')
def m_strncasecmp(E, st, fr, a, inst):
    p, q, n = a
    if p.obj is None or q.obj is None: E.oblige(st, 'strncasecmp of a null pointer', False, inst.line); st.dead = True; return 0
    m, y = cmplen(E, st, p, q, n, 'strncasecmp', inst)
    if m is None or isz(m): raise Unsupported('strncasecmp of two unknown strings')
    need_prefix(E, st, y, m, 'strncasecmp', inst)
    if st.dead: return 0
    # a terminator ends both: bytes behind it do not count (it is one of the m bytes)
    return cmp_result(E, st, eqi(st.node(p.obj), p.off, st.node(q.obj), q.off, m), inst)
STATSZ, ST_SIZE = 144, 48
@model('stat')
def m_stat(E, st, fr, a, inst):
    w = world(E, st); str_end(st, a[0], 'stat', inst)
    if st.dead: return []
    s0 = st.copy(); s0.log['io_failed'] = True
    if isnull(a[1]): return [(s0, INTMASK - 1)]          # EFAULT
    E.range_ok(st, a[1], STATSZ, 'stat', inst, True)
    if st.dead: return []
    o = Obj('st', STATSZ, 'stack'); st.new(o, Base('st')); st.cp(a[1].obj, a[1].off, STATSZ, st.node(o), 0); st.wr(a[1].obj, add(a[1].off, ST_SIZE), 8, w.fsize)
    return [(st, 0), (s0, INTMASK - 1)]
@model('open')
def m_open(E, st, fr, a, inst):
    w = world(E, st); str_end(st, a[0], 'open', inst)
    E.oblige(st, 'opened for reading only', eq(a[1], 0), inst.line)
    E.oblige(st, 'one file at a time', eq(w.get(st, 40), 0), inst.line)
    if st.dead: return []
    s0 = st.copy(); s0.log['io_failed'] = True
    fd = fresh('filefd'); st.assume(ge(fd, 0), lt(fd, 1 << 31)); w.inc(st, 40); st.log['fd'] = fd
    d = st.copy(); d.assume(eq(fd, 0)); st.assume(ge(fd, 1))
    d.log['fd0'] = True
    return [(st, fd), (d, fd), (s0, INTMASK - 1)]
MAPFAIL = Ptr(None, MINUS1)
@model('mmap')
def m_mmap(E, st, fr, a, inst):
    """the bytes of the file at the offset, or MAP_FAILED; a length of zero always fails"""
    w = world(E, st); addr, n, prot, flags, fd, off = a
    E.oblige(st, 'mmap of the opened file', band(st.log.get('fd') is not None and eq(fd, st.log['fd']), ge(w.get(st, 40), 1)), inst.line)
    E.oblige(st, 'mmap: private and readable', band(isnull(addr), eq(prot, 1), eq(flags, 2)), inst.line)
    if st.dead: return []
    s0 = st.copy(); s0.log['io_failed'] = True
    st.assume(ge(n, 1))
    o = Obj('mapping', n, 'mapping', readonly=True, line=inst.line)
    k = smin(n, sub(w.fsize, off)); k = n if st.decide(le(n, sub(w.fsize, off))) else k
    p = st.new(o, Cp(Base('mapping'), 0, k, w.file, off)); w.inc(st, 48)
    return [(st, p), (s0, MAPFAIL)]
@model('madvise')
def m_madvise(E, st, fr, a, inst): return 0
@model('munmap')
def m_munmap(E, st, fr, a, inst):
    w = world(E, st); p, n = a
    if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'mapping': E.oblige(st, 'munmap of something that was not mapped', False, inst.line); st.dead = True; return []
    E.oblige(st, 'munmap of the whole mapping', band(eq(p.off, 0), eq(n, p.obj.size)), inst.line)
    E.oblige(st, 'munmap of a live mapping', st.alive(p.obj), inst.line)
    if st.dead: return []
    release(E, st, p.obj); w.inc(st, 48, -1)
    return 0
