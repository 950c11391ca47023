"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that the checks use.

The IR is produced mechanically from /repo's sources on every run:
    clang -O0 -gline-tables-only -Xclang -disable-O0-optnone -fno-discard-value-names -S -emit-llvm
    opt -passes=mem2reg,loop-simplify
Nothing is dropped from a function's body; an unknown construct raises Unsupported.
"""
import re, subprocess, os, tempfile, hashlib

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'w', 'n', 'e', 'f', 'name')
    def __init__(s, k, w=0, n=0, e=None, f=None, name=None):
        s.k, s.w, s.n, s.e, s.f, s.name = k, w, n, e, f, name
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.w
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.e)
        if s.k == 'struct': return s.name or '{%s}' % ', '.join(map(repr, s.f))
        return s.k

PTR = T('ptr'); VOID = T('void'); DBL = T('double'); FLT = T('float'); META = T('metadata')
_ints = {}
def INT(w):
    if w not in _ints: _ints[w] = T('int', w=w)
    return _ints[w]

def alignof(t):
    if t.k == 'int': return max(1, min(8, t.w // 8))
    if t.k == 'ptr' or t.k == 'double': return 8
    if t.k == 'float': return 4
    if t.k == 'arr': return alignof(t.e)
    if t.k == 'struct': return max([alignof(x) for x in t.f] or [1])
    raise Unsupported('alignof ' + repr(t))

def sizeof(t):
    if t.k == 'int': return max(1, t.w // 8)
    if t.k == 'ptr' or t.k == 'double': return 8
    if t.k == 'float': return 4
    if t.k == 'arr': return t.n * sizeof(t.e)
    if t.k == 'struct':
        o = 0
        for x in t.f:
            a = alignof(x); o = (o + a - 1) // a * a + sizeof(x)
        a = alignof(t)
        return (o + a - 1) // a * a
    raise Unsupported('sizeof ' + repr(t))

def fieldoff(t, i):
    o = 0
    for j, x in enumerate(t.f):
        a = alignof(x); o = (o + a - 1) // a * a
        if j == i: return o
        o += sizeof(x)
    raise Unsupported('fieldoff')

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''\s*(?:
   (?P<cstr>c"[^"]*")|(?P<str>"[^"]*")|
   (?P<glob>@(?:"[^"]+"|[-\w.$]+))|(?P<loc>%(?:"[^"]+"|[-\w.$]+))|
   (?P<meta>![-\w.]*)|(?P<attr>\#\d+)|
   (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)|
   (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|
   (?P<id>[A-Za-z_][\w.]*)|
   (?P<p>\.\.\.|[()\[\]{}<>,=*|:])
)''', re.X)

def tokenize(s):
    out = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise Unsupported('token: ' + s[i:i+40])
        if m.end() == i: break
        k = m.lastgroup; out.append((k, m.group(k))); i = m.end()
    return out

ATTRS = {'noundef','nonnull','noalias','nocapture','readonly','writeonly','signext','zeroext','returned','writable',
         'dead_on_unwind','immarg','inbounds','nuw','nsw','exact','dso_local','local_unnamed_addr','unnamed_addr','tail','notail',
         'musttail','volatile','nofree','inreg','nneg','disjoint','fast','nnan','ninf'}

class V:
    """operand: kind in loc/glob/int/null/undef/zero/cstr/agg/fp/cexpr/true.."""
    __slots__ = ('k', 'v', 't')
    def __init__(s, k, v, t): s.k, s.v, s.t = k, v, t
    def __repr__(s): return '%s:%r' % (s.k, s.v)

class P:
    def __init__(s, mod, toks): s.m, s.t, s.i = mod, toks, 0
    def peek(s, d=0): return s.t[s.i+d] if s.i+d < len(s.t) else (None, None)
    def next(s): x = s.peek(); s.i += 1; return x
    def acc(s, v):
        if s.peek()[1] == v and s.peek()[0] in ('p', 'id'): s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v): raise Unsupported('expected %s at %r' % (v, s.t[s.i:s.i+6]))
    def attrs(s):
        """skip parameter / return attributes, return dict of the interesting ones"""
        d = {}
        while True:
            k, v = s.peek()
            if k == 'id' and v in ATTRS: s.i += 1
            elif k == 'id' and v in ('align',):
                s.i += 1
                if s.acc('('): s.next(); s.exp(')')
                else: s.next()
            elif k == 'id' and v in ('byval', 'sret', 'dereferenceable', 'dereferenceable_or_null', 'range', 'captures', 'memory'):
                s.i += 1; s.exp('(')
                if v in ('byval', 'sret'): d[v] = s.type(); s.exp(')')
                else:
                    dep = 1
                    while dep:
                        q = s.next()[1]
                        dep += (q == '(') - (q == ')')
            else: return d
    def type(s):
        k, v = s.next()
        if k == 'id':
            if v == 'ptr': t = PTR
            elif v == 'void': t = VOID
            elif v == 'double': t = DBL
            elif v == 'float': t = FLT
            elif v == 'metadata': t = META
            elif v == 'label': t = T('label')
            elif re.fullmatch(r'i\d+', v): t = INT(int(v[1:]))
            else: raise Unsupported('type ' + v)
        elif k == 'loc': t = s.m.named(v)
        elif v == '[':
            n = int(s.next()[1]); s.exp('x'); e = s.type(); s.exp(']'); t = T('arr', n=n, e=e)
        elif v == '{':
            f = []
            if not s.acc('}'):
                while True:
                    f.append(s.type())
                    if s.acc('}'): break
                    s.exp(',')
            t = T('struct', f=f)
        else: raise Unsupported('type %r' % (v,))
        # function type suffix:  i32 (ptr, ...)
        if s.peek()[1] == '(' and s.peek()[0] == 'p' and t.k in ('int', 'void', 'ptr', 'struct', 'double') :
            j = s.i; d = 0
            while True:
                q = s.t[j][1]; d += (q == '(') - (q == ')'); j += 1
                if d == 0: break
            # only a function type if followed by a callee
            if j < len(s.t) and s.t[j][0] in ('glob', 'loc'):
                s.i = j
        return t
    def value(s, t):
        k, v = s.next()
        if k == 'loc': return V('loc', v, t)
        if k == 'glob': return V('glob', v, t)
        if k == 'num':
            if t.k in ('double', 'float'): return V('fp', float(v), t)
            return V('int', int(v), t)
        if k == 'hex':
            if t.k in ('double', 'float'):
                import struct
                return V('fp', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0], t)
            raise Unsupported('hex const')
        if k == 'cstr': return V('cstr', cunescape(v[2:-1]), t)
        if k == 'id':
            if v == 'null': return V('null', None, t)
            if v in ('undef', 'poison'): return V('undef', None, t)
            if v == 'zeroinitializer': return V('zero', None, t)
            if v == 'true': return V('int', 1, t)
            if v == 'false': return V('int', 0, t)
            if v == 'getelementptr':
                s.attrs(); s.exp('('); bt = s.type(); s.exp(','); ops = []
                while True:
                    ops.append(s.tval())
                    if s.acc(')'): break
                    s.exp(',')
                return V('cexpr', ('gep', bt, ops), t)
            if v == 'inttoptr':
                s.exp('('); a = s.tval(); s.exp('to'); s.type(); s.exp(')')
                return V('cexpr', ('inttoptr', a), t)
            raise Unsupported('const ' + v)
        if v == '[' or v == '{':
            end = ']' if v == '[' else '}'; el = []
            if not s.acc(end):
                while True:
                    el.append(s.tval())
                    if s.acc(end): break
                    s.exp(',')
            return V('agg', el, t)
        raise Unsupported('value %r' % (v,))
    def tval(s):
        t = s.type(); s.attrs(); return s.value(t)

def cunescape(x):
    out = bytearray(); i = 0
    while i < len(x):
        if x[i] == '\\' and x[i+1] == '\\': out.append(92); i += 2
        elif x[i] == '\\': out.append(int(x[i+1:i+3], 16)); i += 3
        else: out.append(ord(x[i])); i += 1
    return bytes(out)

class Inst:
    __slots__ = ('op', 'name', 't', 'a', 'line', 'blk', 'idx')
    def __init__(s, op, name, t, a): s.op, s.name, s.t, s.a, s.line, s.blk, s.idx = op, name, t, a, None, None, None
    def __repr__(s): return '%s = %s %r %r' % (s.name, s.op, s.t, s.a)

class Block:
    def __init__(s, name): s.name, s.ins, s.succ, s.pred = name, [], [], []

class Func:
    def __init__(s, name): s.name, s.params, s.ret, s.blocks, s.order, s.internal, s.src = name, [], None, {}, [], False, None

class Module:
    def __init__(s): s.types, s.globals, s.funcs, s.decls, s.lines = {}, {}, {}, {}, {}
    def named(s, n):
        if n not in s.types: s.types[n] = T('struct', f=[], name=n)
        return s.types[n]

PRED = {'eq', 'ne', 'ugt', 'uge', 'ult', 'ule', 'sgt', 'sge', 'slt', 'sle'}

def parse_inst(m, text):
    dbg = None
    mm = re.search(r', !dbg !(\d+)', text)
    if mm: dbg = int(mm.group(1))
    text = re.sub(r'(, )?!(dbg|tbaa|llvm\.loop|srcloc|nosanitize) ![\w.]+', '', text)
    toks = tokenize(text); p = P(m, toks); name = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        name = p.next()[1]; p.next()
    k, op = p.next()
    while op in ('tail', 'notail', 'musttail'): k, op = p.next()
    I = None
    if op == 'alloca':
        t = p.type(); n = None
        while p.acc(','):
            if p.peek()[1] == 'align': p.next(); p.next()
            else: n = p.tval()
        I = Inst('alloca', name, PTR, (t, n))
    elif op == 'load':
        p.attrs(); t = p.type(); p.exp(','); a = p.tval(); I = Inst('load', name, t, (a,))
    elif op == 'store':
        p.attrs(); v = p.tval(); p.exp(','); a = p.tval(); I = Inst('store', None, VOID, (v, a))
    elif op == 'getelementptr':
        p.attrs(); t = p.type(); ops = []
        while p.acc(','): ops.append(p.tval())
        I = Inst('gep', name, PTR, (t, ops))
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.next(); I = Inst('br', None, VOID, (p.next()[1],))
        else:
            c = p.tval(); p.exp(','); p.exp('label'); a = p.next()[1]; p.exp(','); p.exp('label'); b = p.next()[1]
            I = Inst('cbr', None, VOID, (c, a, b))
    elif op == 'switch':
        v = p.tval(); p.exp(','); p.exp('label'); d = p.next()[1]; p.exp('['); cs = []
        while not p.acc(']'):
            c = p.tval(); p.exp(','); p.exp('label'); cs.append((c.v, p.next()[1]))
        I = Inst('switch', None, VOID, (v, d, cs))
    elif op == 'ret':
        t = p.type()
        I = Inst('ret', None, VOID, (None if t.k == 'void' else p.value(t),))
    elif op == 'unreachable': I = Inst('unreachable', None, VOID, ())
    elif op == 'phi':
        p.attrs(); t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); inc.append((v, p.next()[1])); p.exp(']')
            if not p.acc(','): break
        I = Inst('phi', name, t, inc)
    elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv'):
        flags = set()
        while p.peek()[1] in ATTRS: flags.add(p.next()[1])
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t); I = Inst(op, name, t, (a, b, frozenset(flags)))
    elif op in ('icmp', 'fcmp'):
        pr = p.next()[1]
        while p.peek()[1] in ATTRS: p.next()
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t); I = Inst(op, name, INT(1), (pr, a, b))
    elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
        p.attrs(); v = p.tval(); p.exp('to'); t = p.type(); I = Inst(op, name, t, (v,))
    elif op == 'select':
        c = p.tval(); p.exp(','); a = p.tval(); p.exp(','); b = p.tval(); I = Inst('select', name, a.t, (c, a, b))
    elif op == 'freeze':
        v = p.tval(); I = Inst('freeze', name, v.t, (v,))
    elif op == 'extractvalue':
        v = p.tval(); ix = []
        while p.acc(','): ix.append(int(p.next()[1]))
        I = Inst('extractvalue', name, None, (v, ix))
    elif op == 'insertvalue':
        v = p.tval(); p.exp(','); w = p.tval(); ix = []
        while p.acc(','): ix.append(int(p.next()[1]))
        I = Inst('insertvalue', name, v.t, (v, w, ix))
    elif op == 'call':
        p.attrs(); t = p.type(); p.attrs()
        k, callee = p.next()
        if k not in ('glob', 'loc'): raise Unsupported('callee ' + str(callee))
        p.exp('('); args = []
        if not p.acc(')'):
            while True:
                at = p.type(); ad = p.attrs()
                if at.k == 'metadata': raise Unsupported('metadata arg')
                v = p.value(at); args.append((v, ad))
                if p.acc(')'): break
                p.exp(',')
        I = Inst('call', name, t, (V(k, callee, PTR), args))
    else: raise Unsupported('opcode ' + str(op))
    I.line = dbg
    return I

def parse(text):
    m = Module(); lines = text.split('\n'); i = 0; defs = []
    while i < len(lines):
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            n, body = l.split(' = type ', 1); t = m.named(n)
            if body.strip() != 'opaque':
                p = P(m, tokenize(body)); q = p.type(); t.f = q.f
        elif l.startswith('@'):
            n, rest = l.split(' = ', 1); m.globals[n] = rest
        elif l.startswith('declare'):
            mm = re.search(r'@([-\w.$]+)\(', l); m.decls['@' + mm.group(1)] = l
        elif l.startswith('define'):
            j = i + 1
            while lines[j] != '}': j += 1
            defs.append((l, lines[i+1:j])); i = j
        else:
            mm = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
            if mm: m.lines[int(mm.group(1))] = int(mm.group(2))
        i += 1
    for n, rest in list(m.globals.items()):
        if rest.startswith('external') or ' external ' in (' ' + rest.split('global')[0]):
            m.globals[n] = (None, None, False); continue
        mm = re.match(r'(?:(?:private|internal|dso_local|unnamed_addr|local_unnamed_addr|constant|global|common|weak|linkonce_odr)\s+)*', rest)
        const = ' constant ' in ' ' + mm.group(0)
        p = P(m, tokenize(rest[mm.end():].split(', align')[0]))
        t = p.type(); v = p.value(t)
        m.globals[n] = (t, v, const)
    for l, body in defs:
        mm = re.match(r'define (.*?)@("[^"]+"|[-\w.$]+)\((.*)$', l)
        f = Func('@' + mm.group(2)); f.internal = ' internal ' in l
        p = P(m, tokenize(mm.group(1)))
        while p.peek()[0] == 'id' and p.peek()[1] in ('dso_local', 'internal', 'hidden', 'linkonce_odr', 'available_externally'): p.next()
        p.attrs(); f.ret = p.type()
        rest = mm.group(3); d = 1; j = 0
        while d:
            d += (rest[j] == '(') - (rest[j] == ')'); j += 1
        p = P(m, tokenize(rest[:j-1])); f.params = []
        while p.peek()[0]:
            if p.acc('...'): break
            t = p.type(); ad = p.attrs(); f.params.append((p.next()[1], t, ad)); p.acc(',')
        cur = None; buf = ''
        k = 0
        while k < len(body):
            s = body[k]; k += 1
            if not s.strip(): continue
            mm = re.match(r'("[^"]+"|[-\w.$]+):', s)
            if mm:
                cur = Block('%' + mm.group(1)); f.blocks[cur.name] = cur; f.order.append(cur.name); continue
            if cur is None:
                cur = Block('%0'); f.blocks[cur.name] = cur; f.order.append(cur.name)
            if s.rstrip().endswith('['):       # switch over several lines
                while ']' not in body[k]: s += ' ' + body[k]; k += 1
                s += ' ' + body[k]; k += 1
            s = re.split(r'\s+;(?![^"]*")', s)[0] if ';' in s and 'c"' not in s else s
            I = parse_inst(m, s.strip()); I.blk = cur.name; I.idx = len(cur.ins)
            cur.ins.append(I)
        for b in f.blocks.values():
            last = b.ins[-1]
            if last.op == 'br': b.succ = [last.a[0]]
            elif last.op == 'cbr': b.succ = [last.a[1], last.a[2]]
            elif last.op == 'switch': b.succ = [last.a[1]] + [x[1] for x in last.a[2]]
            for x in b.ins:
                if x.line is not None: x.line = m.lines.get(x.line, x.line)
        for b in f.blocks.values():
            for x in b.succ: f.blocks[x].pred.append(b.name)
        m.funcs[f.name] = f
    return m

def analyse_loops(f):
    """natural loops: returns {header: set(blocks)}, dominators by iteration"""
    entry = f.order[0]; allb = set(f.order)
    # reachable
    seen = {entry}; st = [entry]
    while st:
        for x in f.blocks[st.pop()].succ:
            if x not in seen: seen.add(x); st.append(x)
    dom = {b: set(seen) for b in seen}; dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b not in seen or b == entry: continue
            ps = [dom[p] for p in f.blocks[b].pred if p in seen]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]: dom[b] = n; ch = True
    loops = {}
    for b in seen:
        for h in f.blocks[b].succ:
            if h in dom[b]:
                L = loops.setdefault(h, {h}); st = [b]
                while st:
                    x = st.pop()
                    if x in L: continue
                    L.add(x); st.extend(p for p in f.blocks[x].pred if p in seen)
    # irreducible?  every retreating edge must be a back edge to a dominator
    return loops, dom, seen

def compile_ir(repo, files, outdir, extra=()):
    """clang + opt each source of the current working tree; returns {file: Module}"""
    out = {}
    procs = []
    for f in files:
        b = os.path.join(outdir, os.path.basename(f))
        cmd = ['clang', '-O1', '-gline-tables-only', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-S', '-emit-llvm', '-w',
               '-I' + os.path.join(repo, 'include'), *extra, os.path.join(repo, f), '-o', b + '.0.ll']
        cmd2 = ['opt', '-S', '-passes=mem2reg,loop-simplify', b + '.0.ll', '-o', b + '.ll']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise Unsupported('clang failed on %s: %s' % (f, r.stderr[:400]))
        r = subprocess.run(cmd2, capture_output=True, text=True)
        if r.returncode: raise Unsupported('opt failed on %s: %s' % (f, r.stderr[:400]))
        out[f] = parse(open(b + '.ll').read())
    return out
