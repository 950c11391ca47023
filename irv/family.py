"""Object families: an unbounded array of separately allocated members.  Member i of a family is addressed by the offsets
[i*BIG, i*BIG+size(i)) of one object; whether member i is alive is byte i of a ghost object."""
from .spec import *

def split(off):
    """(index, offset inside the member)"""
    if not isz(off): return off // BIG, off % BIG
    d, c, a = lin(off); i = {k: v // BIG for k, v in d.items() if v % BIG == 0}; r = {k: v for k, v in d.items() if v % BIG}
    return unlin(i, c // BIG, a), unlin(r, c % BIG, a)
def div_exact(off, n):
    """off / n when that is evident, else None"""
    if not isz(off): return off // n if off % n == 0 else None
    d, c, a = lin(off)
    if c % n or any(v % n for v in d.values()): return None
    return unlin({k: v // n for k, v in d.items()}, c // n, a)

class Family:
    """size(i): bytes of member i; content: Base of the member bytes; heap: members can be freed"""
    def __init__(s, st, name, count, size, content=None, heap=True, strlen=None, readonly=False, null=None):
        s.null = null              # null(i): entry i is a null pointer
        s.name, s.count, s.size, s.strlen = name, count, size, strlen
        s.live = Obj(name + '.live', count, 'ghost', buffer=True)
        s.live0 = Base(name + '.live'); st.mem[s.live] = (s.live0, True)
        st.assume(Q(lambda k: implies(between(0, k, count), eq(rd(None, s.live0, k, 1), 1 if null is None else ite(null(k), 0, 1))), trig((s.live0, 0)), 1))
        s.node = content if content is not None else Base(name)
        m = dict(valid=s.valid, fam=s)
        if null: m['nullif'] = lambda off: null(split(off)[0])
        if readonly: m['readonly'] = True
        if heap: m['free'] = s.free
        s.obj = Obj(name, 1 << 100, 'family', **m); st.mem[s.obj] = (s.node, True)
    def at(s, i, off=0): return Ptr(s.obj, add(scale(BIG, i), off))
    def alive(s, st, i): return eq(rd(st, st.node(s.live), i, 1), 1)
    def valid(s, st, off, n):
        i, r = split(off)
        return band(le(0, i), lt(i, s.count), s.alive(st, i), le(0, r), le(add(r, n), s.size(i)))
    def free(s, E, st, p, inst):
        i, r = split(p.off)
        E.oblige(st, 'free of a pointer inside an object', eq(r, 0), inst.line)
        E.oblige(st, 'double free (%s)' % s.name, band(le(0, i), lt(i, s.count), s.alive(st, i) if s.null is None else bor(s.null(i), s.alive(st, i))), inst.line)
        if not st.dead: st.wr(s.live, i, 1, 0)
    def untouched(s, st, lo, hi):
        n = st.node(s.live); return All(lambda k: eq(rd(None, n, k, 1), 1), trig((n, 0)), lo, hi)
    def gone(s, st, lo, hi):
        n = st.node(s.live); return All(lambda k: eq(rd(None, n, k, 1), 0), trig((n, 0)), lo, hi)

def ptr_array(name, fam, count, stride=8):
    """content of an array whose entry i points to member i"""
    def dyn(st, off, n, ptr):
        if n != stride: return None
        i = div_exact(off, stride)
        if i is None:
            if ptr: raise Unsupported('entry of %s at an odd offset' % name)
            return None
        if st is not None and isz(i) and not st.quick(band(le(0, i), lt(i, count))): raise Unsupported('entry of %s that was never set' % name)
        return fam.at(i)
    return Base(name, 'uf', dyn=dyn)
