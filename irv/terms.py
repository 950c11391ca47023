"""Integer / boolean terms on top of z3 (python ints and bools stand for constants)."""
import z3
from z3 import IntVal, Int, Function, IntSort, BoolSort, And, Or, Not, If, BoolVal, is_int_value

I, B = IntSort(), BoolSort()
def _nocheck():
    """no error polling after the z3 calls that cannot fail"""
    from z3 import z3core as zc
    nop = lambda c: None
    for n in ('Z3_get_sort', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_ast_id', 'Z3_get_ast_kind', 'Z3_get_sort_kind', 'Z3_is_finite_set_sort',
              'Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_is_app', 'Z3_is_eq_ast', 'Z3_is_numeral_ast', 'Z3_get_decl_name'):
        f = getattr(zc, n, None)
        if f is not None and f.__defaults__: f.__defaults__[-1].Check = nop
_nocheck()
_keep = {}
def keep(e):
    _keep[e.get_id()] = e
    return e
def isz(x): return isinstance(x, z3.ExprRef)
def Z(x): return x if isz(x) else (BoolVal(x) if isinstance(x, bool) else IntVal(x))
_cnt = [0]
def fresh(name):
    _cnt[0] += 1
    return keep(Int('%s!%d' % (name, _cnt[0])))
def freshb(name):
    _cnt[0] += 1
    return keep(z3.Bool('%s!%d' % (name, _cnt[0])))
def freshname(name):
    _cnt[0] += 1
    return '%s!%d' % (name, _cnt[0])

_simp = {}
def simp(e):
    if not isz(e): return e
    i = e.get_id()
    r = _simp.get(i)
    if r is not None: return r[1]
    s = z3.simplify(e, som=False, arith_lhs=False)
    if z3.is_int_value(s): v = s.as_long()
    elif z3.is_true(s): v = True
    elif z3.is_false(s): v = False
    else: v = keep(s)
    _simp[i] = (e, v)
    return v

MUL = Function('MUL', I, I, I)
_lin = {}
def lin(e):
    """linear form: ({id: coeff}, const, {id: ast})"""
    if not isz(e): return ({}, int(e), {})
    i = e.get_id()
    r = _lin.get(i)
    if r is not None: return r[1]
    if z3.is_int_value(e): r = ({}, e.as_long(), {})
    elif z3.is_add(e):
        d, c, a = {}, 0, {}
        for ch in e.children():
            d2, c2, a2 = lin(ch); c += c2; a.update(a2)
            for k, v in d2.items(): d[k] = d.get(k, 0) + v
        r = (clean(d), c, a)
    elif z3.is_sub(e):
        ch = e.children(); d, c, a = lin(ch[0]); d = dict(d); a = dict(a)
        for x in ch[1:]:
            d2, c2, a2 = lin(x); c -= c2; a.update(a2)
            for k, v in d2.items(): d[k] = d.get(k, 0) - v
        r = (clean(d), c, a)
    elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
        d2, c2, a2 = lin(e.arg(0)); r = ({k: -v for k, v in d2.items()}, -c2, a2)
    elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        q = e.arg(0).as_long(); d2, c2, a2 = lin(e.arg(1)); r = (clean({k: q*v for k, v in d2.items()}), q*c2, a2)
    elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
        q = e.arg(1).as_long(); d2, c2, a2 = lin(e.arg(0)); r = (clean({k: q*v for k, v in d2.items()}), q*c2, a2)
    else:
        keep(e); r = ({i: 1}, 0, {i: e})
    _lin[i] = (e, r)
    return r
def clean(d): return {k: v for k, v in d.items() if v}
_unl = {}
def unlin(d, c, a):
    d = clean(d)
    if not d: return c
    key = (tuple(sorted(d.items())), c)
    r = _unl.get(key)
    if r is not None: return r
    ts = []
    for k in sorted(d):
        v = d[k]; ts.append(a[k] if v == 1 else IntVal(v) * a[k])
    if c: ts.append(IntVal(c))
    for k in d: keep(a[k])
    r = _unl[key] = keep(ts[0] if len(ts) == 1 else z3.Sum(ts) if len(ts) > 2 else ts[0] + ts[1])
    if r.get_id() not in _lin: _lin[r.get_id()] = (r, (d, c, {k: a[k] for k in d}))
    return r

def add(x, y):
    if not isz(x) and not isz(y): return x + y
    if not isz(x) and x == 0: return y
    if not isz(y) and y == 0: return x
    d1, c1, a1 = lin(x); d2, c2, a2 = lin(y)
    d = dict(d1)
    for k, v in d2.items(): d[k] = d.get(k, 0) + v
    a = dict(a1); a.update(a2)
    return unlin(d, c1 + c2, a)
def scale(q, x):
    if not isz(x): return q * x
    if q == 1: return x
    d, c, a = lin(x)
    return unlin({k: q*v for k, v in d.items()}, q*c, a)
def sub(x, y): return add(x, scale(-1, y))
def mul(x, y):
    if not isz(x): return scale(x, y)
    if not isz(y): return scale(y, x)
    d1, c1, a1 = lin(x); d2, c2, a2 = lin(y)
    r = c1 * c2
    for k, v in d1.items():
        r = add(r, scale(v * c2, a1[k]))
    for k, v in d2.items():
        r = add(r, scale(v * c1, a2[k]))
    for k, v in d1.items():
        for k2, v2 in d2.items():
            p, q = (a1[k], a2[k2]) if k <= k2 else (a2[k2], a1[k])
            r = add(r, scale(v * v2, keep(MUL(p, q))))
    return r
def cdiff(x, y):
    """x - y as a python int if constant, else None"""
    if not isz(x) and not isz(y): return x - y
    d = sub(x, y)
    return None if isz(d) else d

def band(*xs):
    o = []
    for x in xs:
        if isz(x):
            x = simp(x) if False else x
            o.append(x)
        elif not x: return False
    if not o: return True
    return o[0] if len(o) == 1 else keep(And(*o))
def bor(*xs):
    o = []
    for x in xs:
        if isz(x): o.append(x)
        elif x: return True
    if not o: return False
    return o[0] if len(o) == 1 else keep(Or(*o))
def bnot(x):
    if not isz(x): return not x
    if z3.is_not(x): return x.arg(0)
    return keep(Not(x))
def implies(a, b): return bor(bnot(a), b)
def ite(c, a, b):
    if not isz(c): return a if c else b
    if not isz(a) and not isz(b) and a == b and type(a) == type(b): return a
    if isz(a) and isz(b) and a.get_id() == b.get_id(): return a
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        if a is True and b is False: return c
        if a is False and b is True: return bnot(c)
    return keep(If(c, Z(a), Z(b)))
def cmp0(op, x, y):
    """comparison via the difference so that constants fold and forms are canonical"""
    d = sub(x, y)
    if not isz(d):
        return {'==': d == 0, '<': d < 0, '<=': d <= 0}[op]
    ld, c, a = lin(d)
    # canonical sides: positive coefficients left, negative right
    l = unlin({k: v for k, v in ld.items() if v > 0}, c if c > 0 else 0, a)
    r = unlin({k: -v for k, v in ld.items() if v < 0}, -c if c < 0 else 0, a)
    l, r = Z(l), Z(r)
    return keep(l == r if op == '==' else l < r if op == '<' else l <= r)
def eq(x, y):
    if isinstance(x, bool) or isinstance(y, bool) or (isz(x) and z3.is_bool(x)):
        if not isz(x) and not isz(y): return x == y
        if not isz(x): x, y = y, x
        if y is True: return x
        if y is False: return bnot(x)
        return keep(x == y)
    return cmp0('==', x, y)
def ne(x, y): return bnot(eq(x, y))
def lt(x, y): return cmp0('<', x, y)
def le(x, y): return cmp0('<=', x, y)
def gt(x, y): return lt(y, x)
def ge(x, y): return le(y, x)
def between(lo, x, hi): return band(le(lo, x), lt(x, hi))
def _multiples(x, c):
    """x = c*q + r with the evident multiples of c in q (c > 0)"""
    d, k, a = lin(x)
    q = {i: v // c for i, v in d.items() if v % c == 0}; r = {i: v for i, v in d.items() if v % c}
    if not q: return 0, x
    return unlin(q, 0, a), unlin(r, k, a)
def div(x, c):
    if not isz(x): return x // c
    q, r = _multiples(x, c) if c > 0 else (0, x)
    return add(q, r // c if not isz(r) else keep(r / IntVal(c)))
def mod(x, c):
    if not isz(x): return x % c
    q, r = _multiples(x, c) if c > 0 else (0, x)
    return r % c if not isz(r) else keep(r % IntVal(c))
def smin(a, b): return ite(le(a, b), a, b)
def smax(a, b): return ite(le(a, b), b, a)

_apps = {}
from z3 import z3core as _zc
from z3.z3 import _to_expr_ref
_C = z3.main_ctx(); _cr = _C.ref()
_getid, _nargs, _arg, _kindf, _decl, _dkind = [getattr(_zc, 'Z3_' + n).__defaults__[-1].f for n in
    ('get_ast_id', 'get_app_num_args', 'get_app_arg', 'get_ast_kind', 'get_app_decl', 'get_decl_kind')]
_AK, _UK = z3.Z3_APP_AST, z3.Z3_OP_UNINTERPRETED
def apps(e):
    """uninterpreted applications (arity > 0) in e"""
    i = e.get_id()
    r = _apps.get(i)
    if r is not None: return r
    keep(e)
    _walk(e.as_ast(), i)
    return _apps[i]
def _walk(ast, i):
    if _kindf(_cr, ast) != _AK:
        _apps[i] = EMPTY; return
    n = _nargs(_cr, ast)
    if n == 0:
        _apps[i] = EMPTY; return
    o = None; many = False
    for k in range(n):
        c = _arg(_cr, ast, k); ci = _getid(_cr, c)
        r = _apps.get(ci)
        if r is None:
            _walk(c, ci); r = _apps[ci]
        if r:
            if o is None: o = r
            elif o is not r: o = o | r
    if _dkind(_cr, _decl(_cr, ast)) == _UK:
        if i not in _keep: _keep[i] = _to_expr_ref(ast, _C)
        o = frozenset((i,)) if o is None else o | {i}
    _apps[i] = o if o else EMPTY
EMPTY = frozenset()
def byid(i): return _keep[i]

_cmps = {}
def atoms_cmp(e):
    """arithmetic comparison atoms in e"""
    i = e.get_id()
    if i in _cmps: return _cmps[i][1]
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 2 and (z3.is_lt(x) or z3.is_le(x) or z3.is_gt(x) or z3.is_ge(x) or
                                                 (z3.is_eq(x) and x.arg(0).sort() == I)):
            out.append(x)
        st.extend(x.children())
    _cmps[i] = (e, out)
    return out

_norm = {}
def norm(e):
    """rebuild e with every integer subterm in the canonical linear form"""
    if not isz(e): return e
    i = e.get_id()
    r = _norm.get(i)
    if r is not None: return r[1]
    if e.num_args() == 0: r = lift_(e)
    else:
        ch = [norm(c) for c in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = 0
            for c in ch: r = add(r, c)
        elif k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]: r = sub(r, c)
        elif k == z3.Z3_OP_UMINUS: r = scale(-1, ch[0])
        elif k == z3.Z3_OP_MUL and len(ch) == 2 and not isz(ch[0]): r = scale(ch[0], ch[1])
        elif k == z3.Z3_OP_MUL and len(ch) == 2 and not isz(ch[1]): r = scale(ch[1], ch[0])
        elif k == z3.Z3_OP_EQ and z3.is_int(e.arg(0)): r = eq(*ch)
        elif k == z3.Z3_OP_LE: r = le(*ch)
        elif k == z3.Z3_OP_LT: r = lt(*ch)
        elif k == z3.Z3_OP_GE: r = ge(*ch)
        elif k == z3.Z3_OP_GT: r = gt(*ch)
        elif k == z3.Z3_OP_AND: r = band(*ch)
        elif k == z3.Z3_OP_OR: r = bor(*ch)
        elif k == z3.Z3_OP_NOT: r = bnot(ch[0])
        elif k == z3.Z3_OP_ITE: r = ite(*ch)
        elif k == z3.Z3_OP_IDIV and not isz(ch[1]): r = div(*ch)
        elif k == z3.Z3_OP_MOD and not isz(ch[1]): r = mod(*ch)
        elif k == z3.Z3_OP_UNINTERPRETED and e.decl().name() == 'MUL': r = mul(*ch)
        else: r = keep(e.decl()(*[Z(c) for c in ch]))
    keep(e)
    if isz(r): keep(r)
    _norm[i] = (e, r)
    return r
def lift_(e):
    if z3.is_int_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def hasite(e):
    """an if-then-else below an integer term"""
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return True
        st.extend(x.children())
    return False
