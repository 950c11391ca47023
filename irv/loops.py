"""Loops: exact unrolling when every iteration has a concretely decided exit, otherwise inferred invariants."""
import z3, re, time
from .terms import *
from .core import *
from .engine import *

MAXUNROLL = 90

class Cand:
    """candidate: make(view) -> formula | Q-spec (('all', lo, hi, body, triggers)) | None"""
    __slots__ = ('name', 'make', 'variant')
    def __init__(s, name, make, variant=None): s.name, s.make, s.variant = name, make, variant

class All:
    """forall k, lo <= k < hi: body(k)"""
    def __init__(s, body, triggers, lo=None, hi=None, maxgen=1): s.body, s.triggers, s.lo, s.hi, s.maxgen = body, triggers, lo, hi, maxgen
    def guard(s, k):
        g = True
        if s.lo is not None: g = band(g, le(s.lo, k))
        if s.hi is not None: g = band(g, lt(k, s.hi))
        return g
    def q(s): return Q(lambda k: implies(s.guard(k), s.body(k)), s.triggers, s.maxgen)
    def sk(s):
        k = fresh('sk')
        return implies(s.guard(k), s.body(k))
class Many:
    """several formulas that stand or fall together"""
    def __init__(s, fs): s.fs = fs

def assume_c(st, f):
    if isinstance(f, All): st.assume(f.q())
    elif isinstance(f, Many):
        for x in f.fs: assume_c(st, x)
    elif f is not None: st.assume(f)
def goal_c(f):
    if isinstance(f, All): return f.sk()
    if isinstance(f, Many): return band(*[goal_c(x) for x in f.fs])
    return f

def set_(l):
    out = []
    for x in l:
        if not any(x[0] == y[0] and cdiff(x[1], y[1]) == 0 for y in out): out.append(x)
    return out
def consts_of(e):
    """names of uninterpreted constants and functions"""
    out = set(); seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        st.extend(x.children())
    return out
def age(name):
    i = name.rfind('!')
    return int(name[i+1:]) if i >= 0 and name[i+1:].isdigit() else 0

def plain(n): return re.sub(r'[!#$]\d+', '', n)
class LoopMixin:
    innerkey = None
    def loop(s, fr, st, h, prev):
        entry = s.phi_vals(fr, st, h, prev)
        st.env.update(entry)
        region = fr.loops[h]
        s.nolog += 1
        try: r = s.unroll(fr, st, h, region)
        finally: s.nolog -= 1
        if r is not None: return r
        return s.infer(fr, st, h, region, entry)
    # ------------------------------------------------------------ unrolling
    def unroll(s, fr, st, h, region):
        mark = len(s.obl); steps = s.npaths
        cur = [st.copy()]; outs = []
        table = any(i.op == 'gep' and i.a[1][0].k == 'glob' for b in region for i in fr.f.blocks[b].ins)      # walks a global table: pointers in it count as data
        if not table and not s.deciding(fr, region): return None
        for it in range(MAXUNROLL):
            nxt = []
            for c in cur:
                s.track.append((fr, region, [], table))
                try:
                    r = s.run(fr, [(c, h, None, -1)], region, h)
                except (Unsupported, TooMuch):
                    if it == 0: 
                        s.track.pop(); del s.obl[mark:]
                        raise
                    s.track.pop(); del s.obl[mark:]; return None
                tr = s.track.pop()[2]
                if tr.count(True) == 0 or (it == 0 and not tr):
                    del s.obl[mark:]; s.npaths = steps; return None
                for o in r:
                    if o.k == 'back':
                        try: o.st.env.update(s.phi_vals(fr, o.st, h, o.a))
                        except Fork: del s.obl[mark:]; return None
                        nxt.append(o.st)
                    else: outs.append(o)
            if not nxt: return outs
            if len(nxt) > 24: del s.obl[mark:]; return None
            cur = nxt
        del s.obl[mark:]
        return None
    # ------------------------------------------------------------ inference
    def infer(s, fr, st0, h, region, entry):
        key = (fr.f.name, h)
        ord0 = Base.n; cnt0 = fresh('mark'); mark0 = age(cnt0.decl().name())
        prealloc = set(st0.mem)
        ctx = LoopCtx(s, fr, st0, h, region, entry, mark0)
        # discover slots and variants
        ctx.discover()
        # an inner loop met again in the next round of the search for the outer invariants: start from what survived
        # (heuristic: whatever is left out is only not used, whatever is used is checked)
        key = s.innerkey and (s.innerkey, fr.f.name, h, plain(str(ctx.v0)))
        if key and key not in s.loopcache: key2 = None
        else: key2 = key
        ctx.only = s.loopcache[key2] if key2 else None
        ik = s.innerkey
        try:
            ctx.candidates()
            ctx.houdini()
            if key: s.loopcache[key] = {plain(c.name) for c in ctx.cands}
            return ctx.final()
        finally: s.innerkey = ik

class LoopCtx:
    def __init__(s, E, fr, st0, h, region, entry, mark0):
        s.E, s.fr, s.st0, s.h, s.region, s.entry, s.mark0 = E, fr, st0, h, region, entry, mark0
        s.pre = set(st0.mem)
        s.cells = {}      # (obj, off) -> n
        s.bufs = {}       # objects with havoced content (pre-existing)
        s.carcells = {}
        s.variants = {}
        s.cands = []
        s.nullvar = set(); s.arith = False; s.only = None
    # -------- slots
    def slotkeys(s):
        ks = [('phi', n) for n in s.entry]
        ks += [('cell', o, off) for (o, off) in sorted(s.cells, key=lambda x: (x[0].id, x[1])) if o not in s.bufs]
        return ks
    def slotvals(s, st, phis):
        d = {}
        for k in s.slotkeys():
            if k[0] == 'phi': d[k] = phis[k[1]]
            else:
                o, off = k[1], k[2]; n = s.cells[(o, off)]
                try: d[k] = rd(st, st.node(o), off, n, s.cellptr.get((o, off), False))
                except Unsupported: 
                    d[k] = rd(st, st.node(o), off, n, True)
        return d
    def classify(s, st, vals, cars):
        """variant key of a state: class of every pointer slot; and the map slot -> carried object"""
        carmap = {}; key = []; inv = {}
        for k, v in vals.items():
            if isinstance(v, Ptr):
                if v.obj is None:
                    key.append((k, 'null', v.off if not isz(v.off) and k not in s.nullvar else None))
                elif v.obj in s.pre:
                    if v.obj.kind == 'family':         # the member is arbitrary, the place inside it is not
                        from .family import split
                        r = split(v.off)[1]
                        if isz(r): raise Unsupported('loop carried pointer into a member of a family')
                        key.append((k, 'obj', v.obj, r))
                    else:
                        if v.obj.kind == 'stack' or v.obj.meta.get('ptrs'): s.fixedoff(k, v)
                        key.append((k, 'obj', v.obj))
                else:
                    if v.obj in inv: key.append((k, 'car', inv[v.obj]))
                    else:
                        inv[v.obj] = k; carmap[k] = v.obj; key.append((k, 'car', k))
            elif isinstance(v, Fn): key.append((k, 'fn', v.name))
            elif v is UNDEF: key.append((k, 'undef'))
            elif isinstance(v, (Dbl, PInt)): raise Unsupported('loop carried %r' % (v,))
            elif isinstance(v, bool) or (isz(v) and z3.is_bool(v)): key.append((k, 'bool'))
            else: key.append((k, 'int'))
        # ownership of pre-existing and carried heap objects
        al = []
        for o in s.pre:
            a = st.mem[o][1]
            if a is not s.st0.mem[o][1]: al.append((o, a))
        for k, o in carmap.items():
            if st.mem[o][1] is not True: al.append((k, st.mem[o][1]))
        al.sort(key=lambda x: str(x[0]))
        # typed content of carried objects is not modelled
        return (tuple(key), tuple(al), ()), carmap
    def fixedoff(s, k, v):
        """pointers to local variables whose offset never changes"""
        c = s.offconst.get((k, v.obj), s)
        if c is s and not isz(v.off) and s.discovering: s.offconst[(k, v.obj)] = v.off
        elif c is not None and (isz(v.off) or c != v.off):
            if c is s and not s.discovering: return
            if not s.discovering: raise Unsupported('new loop variant late')
            s.offconst[(k, v.obj)] = None; s.offchanged = c is not s
    def havoc(s, vkey):
        """an arbitrary state at the loop head of the given variant"""
        st = s.st0.copy(); cars = {}; vals = {}
        st.writes = []
        key, al, lg = vkey
        for k, c, *a in key:
            nm = k[1] if k[0] == 'phi' else 'cell'
            nm = str(nm).strip('%')
            if c == 'null': v = Ptr(None, a[0] if a[0] is not None else fresh(nm))
            elif c == 'obj':
                ov = s.offconst.get((k, a[0]))
                if len(a) > 1: v = Ptr(a[0], add(scale(BIG, fresh(nm + '.idx')), a[1]))
                else: v = Ptr(a[0], fresh(nm + '.off') if ov is None else ov)
            elif c == 'car':
                if a[0] == k:
                    o = Obj('carried.' + nm, fresh(nm + '.size'), 'heap'); cars[k] = o
                    st.mem[o] = (Base('car.' + nm), True); st.allocs.append(o)
                    st.assume(ge(o.size, 0), lt(o.size, 1 << 62))
                    v = Ptr(o, 0 if s.offzero.get(k, True) else fresh(nm + '.off'))
                else: v = Ptr(cars[a[0]], 0 if s.offzero.get(k, True) else fresh(nm + '.off'))
            elif c == 'fn': v = Fn(a[0])
            elif c == 'undef': v = UNDEF
            elif c == 'bool': v = freshb(nm)
            else:
                if k in s.constslots: v = s.constslots[k]
                else:
                    v = fresh(nm); w = s.width(k); st.assume(ge(v, 0), lt(v, 1 << w))
            vals[k] = v
        for o, a in al:
            if isinstance(o, tuple): o = cars[o]
            st.mem[o] = (st.mem[o][0], a)
        for o in s.bufs:
            st.mem[o] = (Base('hv.' + o.name.split('#')[0]), st.mem[o][1])
        for k, v in vals.items():
            if k[0] == 'phi': st.env[k[1]] = v
            else:
                st.mem[k[1]] = (store(st, st.mem[k[1]][0], k[2], s.cells[(k[1], k[2])], v), st.mem[k[1]][1])
        for k, o in cars.items():          # a length next to the pointer may be the place of the terminator
            if k[0] == 'cell': st.mem[o][0].nuls += [v for k2, v in vals.items() if k2[0] == 'cell' and k2[1] is k[1] and isz(v) and z3.is_int(v)]
            if k[0] == 'cell' and hasattr(s.E.cur, 'ends'): st.mem[o][0].nuls += [x for v in list(st.mem[o][0].nuls) for x in s.E.cur.ends(st.mem[o][0], v)]
        st.writes = []
        for gk in s.ghosts:
            st.log[gk] = s.ghosts[gk](st, vals)
        return st, vals, cars
    def width(s, k):
        if k[0] == 'phi':
            for i in s.fr.f.blocks[s.h].ins:
                if i.op == 'phi' and i.name == k[1]: return i.t.w
        return 8 * s.cells[(k[1], k[2])]
    def iterate(s, st):
        E = s.E
        E.track.append((s.fr, s.region, []))
        try: return E.run(s.fr, [(st, s.h, None, -1)], s.region, s.h)
        finally: E.track.pop()
    def discover(s):
        E = s.E; E.quiet += 1
        s.cellptr = {}; s.offconst = {}; s.discovering = True; s.offchanged = False; s.offzero = {}; s.constslots = {}; s.ghosts = {}
        try:
            for attempt in range(12):
                vals0 = s.slotvals(s.st0, s.entry)
                v0, cm0 = s.classify(s.st0, vals0, {})
                todo = [v0]; seen = {}; changed = False
                # provisional constants: slots assumed unchanged until seen otherwise
                if attempt == 0:
                    pass
                while todo and not changed:
                    vk = todo.pop()
                    if vk in seen: continue
                    if len(seen) > 10: raise Unsupported('too many loop variants')
                    st, vals, cars = s.havoc(vk)
                    seen[vk] = (vals, cars)
                    base_facts = len(st.facts)
                    outs = s.iterate(st)
                    backs = []
                    for o in outs:
                        for (ob, off, n, kd) in o.st.writes or []:
                            if ob in s.pre:
                                if ob in s.bufs: continue
                                if kd == 's' and not isz(off) and not isz(n) and ob.kind != 'family' and not ob.meta.get('buffer'):
                                    if (ob, off) not in s.cells:
                                        # overlapping cells of another width: treat as a buffer
                                        for (o2, f2), n2 in s.cells.items():
                                            if o2 is ob and not (off + n <= f2 or f2 + n2 <= off): s.bufs[ob] = 1
                                        s.cells[(ob, off)] = n; changed = True
                                        try: v = rd(s.st0, s.st0.node(ob), off, n, False)
                                        except Unsupported: v = NULL
                                        isp = isinstance(v, (Ptr, Fn)) or s.wrote_ptr(o.st, ob, off, n)
                                        s.cellptr[(ob, off)] = isp
                                elif kd in ('m', 'c') and not isz(off) and not isz(n) and n <= 256 and s.fieldwise(ob, off, n):
                                    for (fo, fn_) in s.fieldwise(ob, off, n):
                                        if (ob, fo) not in s.cells:
                                            s.cells[(ob, fo)] = fn_; changed = True
                                            s.cellptr[(ob, fo)] = s.isptrcell(s.st0, ob, fo, fn_)
                                else:
                                    s.bufs[ob] = 1; changed = True
                    if changed: break
                    for o in outs:
                        if o.k != 'back': continue
                        phis = E.phi_vals(s.fr, o.st, s.h, o.a)
                        nv = s.slotvals(o.st, phis)
                        vk2, cm = s.classify(o.st, nv, cars)
                        for k, c, *a in vk2[0]:
                            v = nv[k]
                            if c == 'car' and isz(v.off) or (c == 'car' and v.off != 0):
                                if s.offzero.get(k, True): s.offzero[k] = False; changed = True
                        for (k, c, *a), (k1, c1, *a1) in zip(vk2[0], vk[0]):
                            if c == 'null' and c1 == 'null' and a != a1 and k not in s.nullvar: s.nullvar.add(k); changed = True
                        if s.offchanged: s.offchanged = False; changed = True
                        if vk2 not in seen: todo.append(vk2)
                        backs.append((o.st, phis, nv, vk2, cm, base_facts, vals))
                    seen[vk] = (vals, cars, backs)
                if not changed: break
            else: raise Unsupported('loop state does not stabilise')
        finally: E.quiet -= 1; s.discovering = False
        s.variants = seen; s.v0 = v0; s.vals0 = vals0; s.cm0 = cm0
    def note_objs(s, vk, cm): pass
    def isptrcell(s, st, ob, off, n):
        if n != 8: return False
        try: v = rd(st, st.node(ob), off, n, True)
        except Unsupported: return False
        except Fork: return False
        return isinstance(v, (Ptr, Fn)) and not isnull(v) or v is NULL and s.typed(ob, off)
    def typed(s, ob, off): return off in ob.meta.get('ptrs', ())
    def wrote_ptr(s, st, ob, off, n):
        try: v = rd(st, st.node(ob), off, n, True)
        except (Unsupported, Fork): return False
        return isinstance(v, (Ptr, Fn)) and not isnull(v)
    def fieldwise(s, ob, off, n):
        """struct-like objects written by memset/memcpy: split along their known cells"""
        return None
    # -------- candidates
    def candidates(s):
        E = s.E; C = []
        # per variant: generic candidates over integer loop variables
        for vk, ent in s.variants.items():
            vals, cars = ent[0], ent[1]
            view = View(E, None, None, vals, cars, s)
            ks = list(view.ints())
            v0 = View(E, s.st0, None, s.vals0, {k: o for k, o in s.cm0.items()}, s)
            i0 = v0.ints()
            terms = s.terms()
            for k in ks:
                def rel(name, f, k=k, vk=vk):
                    C.append(Cand('%s %s' % (s.kn(k), name), lambda v, f=f, k=k: f(v, v.ints().get(k)) , vk))
                if k in i0:
                    e = i0[k]
                    rel('== entry', lambda v, x, e=e: eq(x, e))
                    rel('>= entry', lambda v, x, e=e: ge(x, e))
                    rel('<= entry', lambda v, x, e=e: le(x, e))
                for t in terms:
                    rel('<= %s' % str(t)[:30], lambda v, x, t=t: le(x, t))
                    rel('< %s' % str(t)[:30], lambda v, x, t=t: lt(x, t))
                    rel('>= %s' % str(t)[:30], lambda v, x, t=t: ge(x, t))
                # object bounds
                if k[0] == 'off':
                    rel('<= size', lambda v, x, k=k: le(x, v.vals[k[1:]].obj.size))
                    rel('< size', lambda v, x, k=k: lt(x, v.vals[k[1:]].obj.size))
            for i, k in enumerate(ks):
                for k2 in ks[i+1:]:
                    if k in i0 and k2 in i0:
                        d = sub(i0[k], i0[k2])
                        C.append(Cand('%s-%s const' % (s.kn(k), s.kn(k2)), lambda v, k=k, k2=k2, d=d: eq(sub(v.ints()[k], v.ints()[k2]), d), vk))
                        d2 = add(i0[k], i0[k2])
                        C.append(Cand('%s+%s const' % (s.kn(k), s.kn(k2)), lambda v, k=k, k2=k2, d=d2: eq(add(v.ints()[k], v.ints()[k2]), d), vk))
                    C.append(Cand('%s<=%s' % (s.kn(k), s.kn(k2)), lambda v, k=k, k2=k2: le(v.ints()[k], v.ints()[k2]), vk))
                    C.append(Cand('%s<=%s' % (s.kn(k2), s.kn(k)), lambda v, k=k, k2=k2: le(v.ints()[k2], v.ints()[k]), vk))
                    C.append(Cand('%s<%s' % (s.kn(k), s.kn(k2)), lambda v, k=k, k2=k2: lt(v.ints()[k], v.ints()[k2]), vk))
                    C.append(Cand('%s<%s' % (s.kn(k2), s.kn(k)), lambda v, k=k, k2=k2: lt(v.ints()[k2], v.ints()[k]), vk))
            for k, v in vals.items():
                if k[0] == 'phi' and isz(v) and z3.is_int(v):
                    cs = s.constset(k[1])
                    if cs and len(cs) <= 6: C.append(Cand('%s in constants' % s.kn(k), lambda v, k=k, cs=cs: bor(*[eq(v.vals[k], x) for x in sorted(cs)]), vk))
                if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                    C.append(Cand('%s true' % s.kn(k), lambda v, k=k: v.vals[k], vk))
                    C.append(Cand('%s false' % s.kn(k), lambda v, k=k: bnot(v.vals[k]), vk))
            # buffers: unchanged ranges
            for o in s.bufs:
                old = s.st0.node(o)
                for k in ks:
                    for nm, g in (('>=', lambda q, x: ge(q, x)), ('<', lambda q, x: lt(q, x))):
                        C.append(Cand('%s unchanged %s %s' % (o, nm, s.kn(k)), lambda v, o=o, k=k, g=g, old=old: s.unch(v, o, old, lambda q, x=v.ints()[k]: g(q, x)), vk))
                for t in s.entry_terms():
                    C.append(Cand('%s unchanged < %s' % (o, t), lambda v, o=o, t=t, old=old: s.unch(v, o, old, lambda q: lt(q, t)), vk))
                C.append(Cand('%s unchanged' % o, lambda v, o=o, old=old: s.unch(v, o, old, lambda q: True), vk))
        if s.only is not None: C = [c for c in C if plain(c.name) in s.only]
        s.refine(C)
        for vk, ent in s.variants.items(): C += s.history(vk, s.backs2.get(vk, ent))
        # contract supplied schemas
        for sch in E.schemas:
            for vk, ent in s.variants.items():
                C += [Cand(n, f, vk) for n, f in sch(s, vk)]
        if s.only is not None: C = [c for c in C if plain(c.name) in s.only]
        s.cands = C
    def refine(s, C):
        """a first round with the arithmetic candidates only: the path conditions of an iteration come out simpler
        (heuristic: everything proposed from it is checked later like any other candidate)"""
        s.backs2 = {}; E = s.E
        s.cands = [c for c in C if 'unchanged' not in c.name]
        s.arith = True
        try:
            if s.only is None: s.houdini()
            elif not any('history' in n for n in s.only): return
        except (Unsupported, TooMuch): s.arith = False; return
        finally: s.arith = False
        E.quiet += 1
        try:
            for vk, ent in s.variants.items():
                st, vals, cars = s.havoc(vk)
                v = s.mkview(st, vals, cars)
                for c, f in s.forms(vk, v):
                    if f is not None: assume_c(st, f)
                if not s.sat(st): continue
                nb = len(st.facts); backs = []
                for o in s.iterate(st):
                    if o.k != 'back' or o.st.dead: continue
                    phis = E.phi_vals(s.fr, o.st, s.h, o.a); nv = s.slotvals(o.st, phis)
                    vk2, cm = s.classify(o.st, nv, cars)
                    backs.append((o.st, phis, nv, vk2, cm, nb, vals))
                s.backs2[vk] = (vals, cars, backs)
        finally: E.quiet -= 1
    def constset(s, name):
        """the constants a phi can take, if it takes nothing else"""
        d = {i.name: i for b in s.fr.f.blocks.values() for i in b.ins if i.name and i.op in ('phi', 'select')}
        cs = set(); seen = set(); todo = [name]
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n); i = d.get(n)
            if i is None: return None
            for v in ([x for x, p in i.a] if i.op == 'phi' else i.a[1:]):
                if v.k == 'int': cs.add(s2u(v.v, v.t.w))
                elif v.k == 'loc': todo.append(v.v)
                else: return None
        return cs
    def entry_terms(s):
        out = []
        for k, v in View(s.E, s.st0, None, s.vals0, {}, s).ints().items():
            if isz(v): out.append(v)
        return out[:6]
    def kn(s, k):
        if k[0] in ('off', 'size', 'idx'): return k[0] + '(' + s.kn(k[1:]) + ')'
        return k[1] if k[0] == 'phi' else '%s+%s' % (k[1], k[2])
    def unch(s, v, o, old, g):
        new = v.st.node(o)
        return All(lambda q: implies(g(q), eq(rd(None, new, q, 1), rd(None, old, q, 1))), trig((new, 0), (old, 0)))
    def terms(s):
        """terms in scope that loop variables may be compared with"""
        out = [0]; seen = {0}
        def addt(t):
            if not isz(t) or hasite(t): return
            if t.get_id() in seen: return
            seen.add(t.get_id()); out.append(t)
        for t in s.st0.terms: addt(t)
        for n, v in s.st0.env.items():
            if isz(v) and v.sort() == I and z3.is_const(v): addt(v)
        for o in s.st0.mem:
            if isz(o.size): addt(o.size)
            b = s.st0.mem[o][0]
            while not isinstance(b, Base): b = b.prev
            for off, (n, v) in b.cells.items():
                if isz(v) and n >= 4: addt(v)
        extra = []
        for t in list(out): 
            pass
        # values that the loop compares its variables with (loop invariant operands of icmp)
        for b in s.region:
            for i in s.fr.f.blocks[b].ins:
                if i.op == 'icmp':
                    for v in i.a[1:]:
                        if v.k == 'loc' and v.v in s.st0.env:
                            x = s.st0.env[v.v]
                            if isz(x) and z3.is_int(x): addt(x); addt(add(x, 1))
                            if isinstance(x, Ptr) and isz(x.off): addt(x.off); addt(add(x.off, 1))
                        if v.k == 'int' and v.t.w > 1 and v.v > 0 and v.v not in seen:
                            seen.add(v.v); out.append(v.v)
        return out[:40]
    def history(s, vk, ent):
        """for all earlier positions the loop's continue condition held"""
        C = []
        if len(ent) < 3 or getattr(s.E.cur, 'nohistory', False): return C
        vals, cars, backs = ent
        v = View(s.E, None, None, vals, cars, s); iv = v.ints()
        mine = [b for b in backs]
        if not mine or len(mine) > 8: return C
        for k, X in iv.items():
            if not isz(X) or not z3.is_const(X): continue
            step = None
            for (bst, phis, nv, vk2, cm, nb, _) in mine:
                if vk2 != vk: step = 'x'; break
                y = View(s.E, bst, None, nv, {}, s).ints().get(k)
                if y is None: step = 'x'; break
                d = cdiff(y, X)
                if d is None:
                    for c in (1, -1):
                        if s.E.prove(bst, eq(y, add(X, c)), True): d = c
                if d not in (1, -1) or (step is not None and step != d): step = 'x'; break
                step = d
            if step not in (1, -1): continue
            # lockstep partners
            partner = {}
            for k2, Y in iv.items():
                if k2 == k or not isz(Y) or not z3.is_const(Y): continue
                ok = True; st2 = None
                for (bst, phis, nv, vk2, cm, nb, _) in mine:
                    y = View(s.E, bst, None, nv, {}, s).ints().get(k2)
                    if y is None: ok = False; break
                    d = cdiff(y, Y)
                    if d is None:
                        for c in (1, -1):
                            if s.E.prove(bst, eq(y, add(Y, c)), True): d = c
                    if d not in (1, -1) or (st2 is not None and st2 != d): ok = False; break
                    st2 = d
                if ok: partner[k2] = (Y, st2)
            xname = X.decl().name()
            pn = {Y.decl().name(): (k2, Y, q) for k2, (Y, q) in partner.items()}
            paths = []
            for (bst, phis, nv, vk2, cm, nb, _) in mine:
                P_ = []
                for f in bst.facts[nb:]:
                    cs = consts_of(f)
                    bad = [c for c in cs if age(c) >= s.mark0 and c != xname and c not in pn]
                    if bad: continue
                    if xname in cs or any(c in pn for c in cs): P_.append(f)
                paths.append(P_)
            if any(not p for p in paths): continue
            i0 = View(s.E, s.st0, None, s.vals0, s.cm0, s).ints()
            if k not in i0: continue
            x0 = i0[k]
            form = keep(z3.Or(*[z3.And(*p) for p in paths])) if len(paths) > 1 else keep(z3.And(*paths[0]))
            trigs = {}
            for a in apps(form):
                ap = byid(a)
                for ai in range(ap.num_args()):
                    d = sub(ap.arg(ai), X)
                    ld, c, la = lin(d) if isz(d) else ({}, d, {})
                    names = set()
                    for q in la.values(): names |= consts_of(q)
                    if X.get_id() in ld: 
                        # maybe a partner: arg = +-Y + rest
                        for nm, (k2, Y, q) in pn.items():
                            if Y.get_id() in ld and ld[Y.get_id()] == 1:
                                # Y = Y0 + (q/step)*(k - x0)  => k = x0 + (step/q)*(arg - rest - Y0)
                                if k2 in i0 and q == step:
                                    rest = sub(ap.arg(ai), Y)
                                    if not any(nm in consts_of(z) for z in (lin(rest)[2].values() if isz(rest) else [])):
                                        trigs.setdefault(ap.decl().name(), []).append((ai, sub(x0, add(rest, i0[k2]))))
                        continue
                    if any(age(n) >= s.mark0 for n in names): continue
                    trigs.setdefault(ap.decl().name(), []).append((ai, scale(-1, d)))
            for nm_ in trigs: trigs[nm_] = sorted(set_(trigs[nm_]), key=lambda t: (isz(t[1]), abs(t[1]) if not isz(t[1]) else 0))
            def mk(view, form=form, X=X, k=k, x0=x0, step=step, trigs=trigs, partner=partner, i0=i0):
                cur = view.ints()[k]
                def body(q):
                    sb = [(X, Z(q))]
                    for k2, (Y, sy) in partner.items():
                        if k2 in i0:
                            e = add(i0[k2], scale(sy * step, sub(q, x0)))
                            sb.append((Y, Z(e)))
                    return norm(z3.substitute(form, *sb))
                lo, hi = (x0, cur) if step == 1 else (add(cur, 1), add(x0, 1))
                return All(body, trigs, lo, hi)
            C.append(Cand('history over %s' % s.kn(k), mk, vk))
        return C
    # -------- houdini
    def mkview(s, st, vals, cars): return View(s.E, st, None, vals, cars, s)
    def forms(s, vk, view):
        out = []
        for c in s.cands:
            if c.variant != vk: continue
            try: f = c.make(view)
            except (KeyError, Unsupported, TypeError, AttributeError): f = None
            out.append((c, f))
        return out
    def drop(s, st, pairs):
        """candidates (with formulas) that are not implied by st"""
        bad = set(); live = []
        for c, f in pairs:
            if f is None: bad.add(c); continue
            g = goal_c(f)
            if isinstance(g, bool):
                if not g: bad.add(c)
                continue
            live.append((c, g))
        if st.dead: return bad
        ar = [(c, g) for c, g in live if not apps(g)]
        if ar: bad |= s.drop1(st, ar)
        for x in live:
            if apps(x[1]): bad |= s.drop1(st, [x])
        return bad
    def drop1(s, st, live):
        E = s.E; bad = set()
        for rnd in range(60):
            if not live: break
            conj = band(*[g for c, g in live])
            r, m = E.check(st, [bnot(conj)], FULL_RL // 3, want_model=True)
            if r == z3.unsat: break
            nb = []
            if m is not None:
                for c, g in live:
                    try: v = m.eval(g, model_completion=True)
                    except z3.Z3Exception: v = None
                    if v is None or not z3.is_true(v): nb.append((c, g))
            if not nb:
                # undecided: one by one
                keep_ = []
                for c, g in live:
                    if E.prove(st, g, quick=True): keep_.append((c, g))
                    else: bad.add(c)
                # the surviving ones hold individually
                live = keep_; break
            for c, g in nb: bad.add(c)
            ids = {id(c) for c, g in nb}
            live = [(c, g) for c, g in live if id(c) not in ids]
        else:
            for c, g in live:
                if not E.prove(st, g, quick=True): bad.add(c)
        return bad
    def houdini(s):
        E = s.E; E.quiet += 1
        try:
            # initial
            view = s.mkview(s.st0, s.vals0, s.cm0)
            bad = s.drop(s.st0, s.forms(s.v0, view))
            s.cands = [c for c in s.cands if c not in bad]
            for rnd in range(40):
                anybad = set()
                for n, vk in enumerate(s.variants):
                    st, vals, cars = s.havoc(vk)
                    v = s.mkview(st, vals, cars)
                    for c, f in s.forms(vk, v):
                        if f is not None: assume_c(st, f)
                    if not s.sat(st): continue
                    E.innerkey = (id(s), s.arith, n)
                    outs = s.iterate(st)
                    for o in outs:
                        if o.k != 'back' or o.st.dead: continue
                        phis = E.phi_vals(s.fr, o.st, s.h, o.a)
                        nv = s.slotvals(o.st, phis); vk2, cm = s.classify(o.st, nv, cars)
                        if vk2 not in s.variants: raise Unsupported('new loop variant late')
                        bad = s.drop(o.st, [x for x in s.forms(vk2, s.mkview(o.st, nv, cm)) if x[0] not in anybad])
                        anybad |= bad
                s.cands = [c for c in s.cands if c not in anybad]
                if not anybad: break
            else: raise Unsupported('invariant inference does not converge')
        finally: E.quiet -= 1
    def sat(s, st):
        return not s.E.prove(st, False and True or z3.BoolVal(False), True) if not st.dead else False
    def final(s):
        """execute an arbitrary iteration from the inferred invariant with obligations on"""
        E = s.E; outs = []
        E.loopinfo.append((s.fr.f.name, s.h, len(s.cands), [c.name for c in s.cands]))
        for n, vk in enumerate(s.variants):
            st, vals, cars = s.havoc(vk)
            v = s.mkview(st, vals, cars)
            for c, f in s.forms(vk, v):
                if f is not None: assume_c(st, f)
            if not s.sat(st): continue
            E.innerkey = (id(s), False, n)
            for t in v.ints().values(): st.term(t)
            r = s.iterate(st)
            backs = []
            for o in r:
                if o.k == 'back':
                    if o.st.dead: continue
                    backs.append(o); s.leaks(o, vk, cars)
                else:
                    outs.append(o)
            backs = [o for o in backs if s.cyclic(vk, s.backkey(o, cars))]
            if backs and not E.quiet: s.termination(vk, vals, cars, backs)
        for o in outs:
            if s.st0.writes is None: o.st.writes = None
            else: o.st.writes = s.st0.writes + o.st.writes + [(ob, 0, ob.size, 'm') for ob in s.bufs] + \
                  [(ob, off, n, 's') for (ob, off), n in s.cells.items()]
        return outs
    def backkey(s, o, cars):
        phis = s.E.phi_vals(s.fr, o.st, s.h, o.a)
        return s.classify(o.st, s.slotvals(o.st, phis), cars)[0]
    def cyclic(s, vk, vk2):
        """can a loop state of kind vk2 come back to kind vk?"""
        seen = set(); todo = [vk2]
        while todo:
            x = todo.pop()
            if x == vk: return True
            if x in seen or x not in s.variants: continue
            seen.add(x)
            for b in s.variants[x][2]: todo.append(b[3])
        return False
    def leaks(s, o, vk, cars):
        E = s.E
        if E.quiet: return
        phis = E.phi_vals(s.fr, o.st, s.h, o.a); nv = s.slotvals(o.st, phis); vk2, cm = s.classify(o.st, nv, cars)
        held = set(cm.values())
        for ob in o.st.allocs:
            if ob in s.pre or ob in held or ob.kind != 'heap': continue
            if o.st.alive(ob) is not False and not s.escaped(o.st, ob):
                E.oblige(o.st.copy(), 'memory allocated in a loop iteration is lost (%s)' % ob.name.split('#')[0], False, E.line_of(s.fr, s.h))
    def escaped(s, st, ob): return ob in st.log.get('escaped', ())
    def termination(s, vk, vals, cars, backs):
        E = s.E
        if E.cur is not None and s.fr.f.name in getattr(E.cur, 'noterm', ()): return
        v = s.mkview(None, vals, cars); iv = v.ints()
        terms = s.terms()
        def try_(f):
            for o in backs:
                phis = E.phi_vals(s.fr, o.st, s.h, o.a); nv = s.slotvals(o.st, phis)
                vk2, cm = s.classify(o.st, nv, cars)
                n = s.mkview(o.st, nv, cm).ints()
                try: g = f(iv, n)
                except KeyError: return False
                if g is None or not E.prove(o.st, g, True): return False
            return True
        for k in iv:
            if try_(lambda a, b, k=k: band(lt(b[k], a[k]), ge(a[k], 0))): return
            for t in terms + [(1 << 62)]:
                if isinstance(t, int) and t == 0: continue
                if try_(lambda a, b, k=k, t=t: band(gt(b[k], a[k]), le(a[k], t))): return
            if k[0] == 'off':
                if try_(lambda a, b, k=k: band(gt(b[k], a[k]), le(a[k], vals[k[1:]].obj.size))): return
            for k2 in iv:
                if k2 != k and try_(lambda a, b, k=k, k2=k2: band(lt(sub(b[k], b[k2]), sub(a[k], a[k2])), ge(sub(a[k], a[k2]), 0))): return
        E.oblige(backs[0].st.copy(), 'loop terminates (no variant found)', False, E.line_of(s.fr, s.h))
