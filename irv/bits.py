"""Exact bit operations on sums of known 0/1 variables (bitmaps): x & m, x >> s and x | m are evaluated field by field
when the fields of the sum provably do not carry into each other; anything else is left to the caller."""
from .terms import *

BITS = set()           # ids of variables known to be 0 or 1
def newbit(st, name='bit'):
    b = fresh(name); BITS.add(b.get_id()); st.assume(ge(b, 0), le(b, 1)); return b
def parts(x):
    """[(weight, atom or 1)] of a sum of bits, or None"""
    if not isz(x): d, c, a = {}, x, {}
    else: d, c, a = lin(x)
    if c < 0 or any(v < 0 or k not in BITS for k, v in d.items()): return None
    r = [(1 << j, a[i]) for i, v in d.items() for j in range(v.bit_length()) if (v >> j) & 1]; k = 0
    while c >> k:
        if (c >> k) & 1: r.append((1 << k, 1))
        k += 1
    return r
def isbits(x): return isz(x) and parts(x) is not None
def top(x):
    p = parts(x); return None if p is None else sum(w for w, _ in p)
def extract(ps, lo, hi):
    L, H = 1 << lo, 1 << hi; low = mid = 0; r = 0
    for w, a in ps:
        if w < L: low += w; continue
        if w % L: return None
        if w < H: mid += w; r = add(r, scale(w // L, a) if isz(a) else w // L)
        elif w % H: return None
    return r if low < L and low + mid < H else None
def and_const(x, m, w):
    ps = parts(x)
    if ps is None: return None
    r = 0; k = 0
    while m >> k:
        if not (m >> k) & 1: k += 1; continue
        j = k
        while (m >> j) & 1: j += 1
        e = extract(ps, k, j)
        if e is None: return None
        r = add(r, scale(1 << k, e)); k = j
    return r
def shr_const(x, n, w):
    ps = parts(x); return None if ps is None else extract(ps, n, w)
def or_const(x, m, w):
    ps = parts(x)
    if ps is None or len({v for v, _ in ps}) != len(ps) or any(v & (v - 1) for v, _ in ps): return None
    r = m
    for v, a in ps:
        if not v & m: r = add(r, scale(v, a) if isz(a) else v)
    return r
ALIAS = {}
def alias(st, x, e):
    """write e for the sum of bits x in products (e is defined as x)"""
    if isz(x): ALIAS[keep(x).get_id()] = e; st.assume(eq(e, x))
def named(st, x):
    """a short expression equal to a sum of several bits (keeps products small)"""
    if not isz(x): return x
    d, c, a = lin(x)
    if c < 0 or not d or not all(k in BITS for k in d): return x
    i = unlin(d, 0, a); r = ALIAS.get(i.get_id())
    if r is None:
        if len(d) < 2: return x
        r = ALIAS[keep(i).get_id()] = fresh('rank')
    st.assume(eq(r, i)); return add(r, c)
