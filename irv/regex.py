"""Assumed contract of regcomp/regexec/regfree (POSIX extended, no alternation) and of strstr.  What a match says about the
bytes is derived from the text of the pattern; that a pattern does not match is a ghost fact of the string."""
from .terms import *
from .core import *
from .engine import *
from .libc import model, str_end, MODELS, _ctr_
import re as _re

class Pattern:
    """a sequence of elements: ('bol',) ('lit', bytes) ('cls', frozenset, min) ('any',) ('open', i) ('close', i)"""
    def __init__(s, text):
        s.text = text; s.els = []; i = 0; g = 0; opened = []
        def lit(b):
            if s.els and s.els[-1][0] == 'lit': s.els[-1] = ('lit', s.els[-1][1] + b)
            else: s.els.append(('lit', b))
        n = len(text)
        while i < n:
            c = text[i:i+1]; rep = None
            if c == b'^' and i == 0: s.els.append(('bol',)); i += 1; continue
            if c == b'(': g += 1; opened.append(g); s.els.append(('open', g)); i += 1; continue
            if c == b')':
                if not opened: raise Unsupported('regex %r' % text)
                s.els.append(('close', opened.pop())); i += 1
                if text[i:i+1] in (b'*', b'+', b'?', b'{', b'|'): raise Unsupported('regex %r' % text)
                continue
            if c in b'|{}?*+$' : raise Unsupported('regex %r' % text)
            if c == b'[':
                j = text.index(b']', i + 2); body = text[i+1:j]; i = j + 1
                if body[:1] == b'^' or b'[' in body: raise Unsupported('regex %r' % text)
                k = 0; cl = set()
                while k < len(body):
                    if k + 2 < len(body) and body[k+1] == 45: cl |= set(range(body[k], body[k+2] + 1)); k += 3
                    else: cl.add(body[k]); k += 1
            elif c == b'\\':
                d = text[i+1:i+2]; i += 2
                if d == b's': cl = set(b' \t\n\v\f\r')
                elif d in b'.*+?()[]\\|^$': cl = set(d)
                else: raise Unsupported('regex %r' % text)
            elif c == b'.': cl = set(range(1, 256)); i += 1
            else: cl = set(c); i += 1
            q = text[i:i+1]
            if q and q in b'*+': i += 1; s.els.append(('cls', frozenset(cl), 0 if q == b'*' else 1))
            elif q and q in b'?{|': raise Unsupported('regex %r' % text)
            elif len(cl) == 1: lit(bytes(cl))
            else: s.els.append(('cls1', frozenset(cl)))
        s.ngroups = g
_pat = {}
def pattern(text):
    if text not in _pat: _pat[text] = Pattern(text)
    return _pat[text]
def ranges(cl):
    out = []; l = sorted(cl)
    for x in l:
        if out and out[-1][1] == x - 1: out[-1][1] = x
        else: out.append([x, x])
    return out
def inclass(b, cl):
    if cl >= frozenset(range(1, 256)): return ne(b, 0)
    return bor(*[eq(b, x) if x == y else band(le(x, b), le(b, y)) for x, y in ranges(cl)])

_OCC = {}
def OCC(node, lit):
    """OCC(k): the text occurs at k"""
    key = (id(node), lit)
    if key not in _OCC:
        f = Function('OCC!%d' % _ctr_(), I, B)
        def ax(app, node=node, lit=lit):
            k = app.arg(0); b = band(*[eq(rd(None, node, add(k, i), 1), c) for i, c in enumerate(lit)])
            return [implies(app, b), implies(b, app)]
        axiom(f, ax, 1); _OCC[key] = (f, node)
    f = _OCC[key][0]
    return lambda k: keep(f(Z(k)))
def occname(node, lit): OCC(node, lit); return _OCC[(id(node), lit)][0].name()

_G = {}
def ghost(node, text):
    """ghost functions of the offset in a string: does the pattern match, where are the match and its groups"""
    key = (id(node), text)
    if key not in _G:
        n = _ctr_(); p = pattern(text)
        hit = Function('MATCH!%d' % n, I, B); at = Function('AT!%d' % n, I, I, I)
        _G[key] = (lambda o: keep(hit(Z(o))), lambda o, i: keep(at(Z(o), Z(i))), node)
    return _G[key][:2]
def match_facts(st, node, off, text, n):
    """facts of a match; returns [(start, end)] of the match and of its groups, relative to the string"""
    p = pattern(text); hit, at = ghost(node, text); idx = 0; G = {}
    so = at(off, 0); eo = at(off, 1); pos = so
    st.assume(hit(off), le(0, so), le(so, eo), le(eo, n))
    for e in p.els:
        if e[0] == 'bol': st.assume(eq(so, 0))
        elif e[0] == 'open': G[e[1]] = [pos, None]
        elif e[0] == 'close': G[e[1]][1] = pos
        elif e[0] == 'lit':
            a = add(off, pos)
            if len(e[1]) >= 3: st.assume(OCC(node, e[1])(a))
            for i, c in enumerate(e[1]): st.assume(eq(rd(None, node, add(a, i), 1), c))
            pos = add(pos, len(e[1]))
        elif e[0] == 'cls1': st.assume(inclass(rd(None, node, add(off, pos), 1), e[1])); pos = add(pos, 1)
        elif e[0] == 'cls':
            idx += 1; end = at(off, 1 + idx); st.assume(le(add(pos, e[2]), end), le(end, n)); st.term(end)
            a, b = add(off, pos), add(off, end)
            st.assume(Q(lambda k, a=a, b=b, c=e[1]: implies(between(a, k, b), inclass(rd(None, node, k, 1), c)), trig((node, 0)), 1, 'class'))
            pos = end
    st.assume(eq(pos, eo)); st.term(so, eo)
    return [(so, eo)] + [tuple(G[i]) for i in sorted(G)]
class Rx:
    """which pattern each compiled expression holds: {(object, offset): text}"""
@model('regexec')
def m_regexec(E, st, fr, a, inst):
    preg, s_, nm, pm, fl = a
    text = st.log.get(('regex', preg.obj, preg.off)) if isinstance(preg, Ptr) else None
    if text is None: raise Unsupported('regexec of an unknown expression')
    if isz(nm) or isz(fl) or fl != 0: raise Unsupported('regexec flags')
    n = str_end(st, s_, 'regexec', inst)
    E.range_ok(st, pm, 8 * nm, 'regexec', inst, True)
    if st.dead: return []
    st.assume(lt(n, 1 << 31))
    node = st.node(s_.obj); hit, at = ghost(node, text); s0 = st.copy(); s0.assume(bnot(hit(s_.off)))
    s0.log['nomatch'] = s0.log.get('nomatch', ()) + ((node, s_.off, text),)
    out = []
    st.assume(hit(s_.off))
    if not st.dead and not st.quick(z3.BoolVal(False)):
        gs = match_facts(st, node, s_.off, text, n)
        for i in range(nm):
            x, y = gs[i] if i < len(gs) else ((1 << 32) - 1, (1 << 32) - 1)
            st.wr(pm.obj, add(pm.off, 8 * i), 4, x); st.wr(pm.obj, add(pm.off, 8 * i + 4), 4, y)
        st.log['match'] = st.log.get('match', ()) + ((node, s_.off, text, tuple(gs), n),)
        h = getattr(E.cur, 'onmatch', None)
        if h: h(E, st, text, node, s_, gs, n)
        out.append((st, 0))
    if not s0.dead: out.append((s0, 1))
    return out
@model('regcomp')
def m_regcomp(E, st, fr, a, inst):
    preg, p, fl = a
    from .libc import strconst
    text = strconst(st, p)
    if text is None: raise Unsupported('regcomp of a computed pattern')
    E.range_ok(st, preg, 64, 'regcomp', inst, True)
    if st.dead: return []
    E.oblige(st, 'regcomp of an expression in use', ('regex', preg.obj, preg.off) not in st.log, inst.line)
    if isz(fl) or fl != 1: raise Unsupported('regcomp flags')
    st.log[('regex', preg.obj, preg.off)] = bytes(text)
    return [(st, 0)]
@model('regfree')
def m_regfree(E, st, fr, a, inst):
    k = ('regex', a[0].obj, a[0].off) if isinstance(a[0], Ptr) else None
    E.oblige(st, 'regfree of a compiled expression', k in st.log, inst.line)
    if st.dead: return []
    del st.log[k]
    return [(st, None)]
@model('strstr')
def m_strstr(E, st, fr, a, inst):
    from .libc import strconst
    h, nd = a; lit = strconst(st, nd)
    if lit is None or not 1 <= len(lit) <= 20: raise Unsupported('strstr of a computed text')
    lit = bytes(lit); n = str_end(st, h, 'strstr', inst)
    if st.dead: return []
    node = st.node(h.obj); f = OCC(node, lit); nm = occname(node, lit); end = add(h.off, n)
    s0 = st.copy(); s0.assume(Q(lambda k: implies(between(h.off, k, end), bnot(f(k))), {nm: [(0, 0)]}, 2, 'strstr'))
    at = keep(FIRST(node, lit)(Z(h.off))); st.assume(le(h.off, at), le(add(at, len(lit)), end), f(at), Q(lambda k: implies(between(h.off, k, at), bnot(f(k))), {nm: [(0, 0)]}, 2, 'strstr'))
    st.term(at)
    return [(x, r) for x, r in ((st, Ptr(h.obj, at)), (s0, NULL)) if not x.dead and not x.quick(z3.BoolVal(False))]
_FIRST = {}
def FIRST(node, lit):
    """offset of the first occurrence at or behind a place"""
    key = (id(node), lit)
    if key not in _FIRST: _FIRST[key] = (Function('FIRSTOCC!%d' % _ctr_(), I, I), node)
    return _FIRST[key][0]

# ---------------------------------------------------------------- equivalence of patterns
def nfa(text):
    """(transitions {state: [(symbols, state)]}, epsilon, start, accept) over bytes 1..255 and the group marks"""
    p = pattern(text); T = {}; e = {}; cur = 0; n = 1
    def step(sym, to): T.setdefault(cur, []).append((sym, to))
    for x in p.els:
        if x[0] == 'bol': step(frozenset(['^']), n); cur = n; n += 1
        elif x[0] in ('open', 'close'): step(frozenset([(x[0], x[1])]), n); cur = n; n += 1
        elif x[0] == 'lit':
            for c in x[1]: step(frozenset([c]), n); cur = n; n += 1
        elif x[0] == 'cls1': step(x[1], n); cur = n; n += 1
        else:
            if x[2] == 1: step(x[1], n); cur = n; n += 1
            e.setdefault(cur, []).append(n); T.setdefault(n, []).append((x[1], n)); cur = n; n += 1
    return T, e, 0, cur
def same_pattern(a, b):
    """do two patterns denote the same marked language (same matches with the same groups)?"""
    if a == b: return True
    A, Bn = nfa(a), nfa(b)
    def close(m, S):
        S = set(S); todo = list(S)
        while todo:
            for y in m[1].get(todo.pop(), ()):
                if y not in S: S.add(y); todo.append(y)
        return frozenset(S)
    def move(m, S, c): return close(m, [y for x in S for sy, y in m[0].get(x, ()) if c in sy])
    syms = set()
    for m in (A, Bn):
        for l in m[0].values():
            for sy, _ in l: syms |= sy
    s0 = (close(A, [0]), close(Bn, [0])); seen = {s0}; todo = [s0]
    while todo:
        x, y = todo.pop()
        if (A[3] in x) != (Bn[3] in y): return False
        for c in syms:
            t = (move(A, x, c), move(Bn, y, c))
            if t not in seen: seen.add(t); todo.append(t)
    return True
