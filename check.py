#!/usr/bin/env python3-vt
"""check.py <property> quick|thorough

Decides one property for the current working tree of the repository: compiles the real sources to LLVM IR, discharges
every obligation of the contracts the property consists of (specs/, verifier in irv/), and runs the executable form
of the same contracts (native/) to replay and search concrete failing inputs. Exit 0: held. Exit 1: VIOLATION line."""
import sys, os, time, json, tempfile, shutil, subprocess, pickle, signal, traceback, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('REPO', '/repo')
SRC = ['src/' + f for f in ('vector.c', 'utils.c', 'parse.c', 'simple_sparsehash.c', 'grengine.c', 'greshunkel.c', 'server.c', 'cookie.c')]
from registry import REG

def job_main(w, mods, spec, idx, deadline):
    from irv.spec import Eng, Unsupported, TooMuch
    from irv import libc
    r = dict(spec=spec.__name__, fn=spec.name, idx=idx, obl=[], exits=0, status='ok', why='', inlined=[], contracts=[], models=[], nq=0, tq=0.0, loops=[], label='')
    t = time.time()
    E = Eng(mods); E.models = dict(libc.MODELS); E.deadline = deadline; E.failed = lambda c, st: st.log.get('oom', False)
    try:
        S = spec(); E.contracts = S.uses() if hasattr(S, 'uses') else {}
        r['exits'] = S.verify(E, idx)
    except Unsupported as e: r['status'], r['why'] = 'unsupported', str(e)
    except TooMuch as e: r['status'], r['why'] = 'limit', str(e)
    except RecursionError as e: r['status'], r['why'] = 'limit', 'recursion'
    except Exception as e: r['status'], r['why'] = 'error', traceback.format_exc()[-1500:]
    r['label'] = getattr(getattr(E, 'case', None), 'label', '')
    r['obl'] = [(o.name, bool(o.ok), o.why, o.line, o.fn, o.ms, o.model) for o in E.obl]
    r['inlined'] = sorted(E.inlined); r['contracts'] = sorted(E.used_contracts); r['models'] = sorted(E.used_models)
    r['nq'], r['tq'], r['loops'] = E.nq, E.tq, len(E.loopinfo); r['wall'] = time.time() - t
    r['checks'] = getattr(E, 'cross', None)
    w.write(pickle.dumps(r)); w.close()

class Jobs:
    """forked workers, at most n at a time"""
    def __init__(s, n): s.n, s.todo, s.run, s.res = n, [], {}, []
    def add(s, mods, spec, idx, limit): s.todo.append((mods, spec, idx, limit))
    def step(s):
        while s.todo and len(s.run) < s.n:
            mods, spec, idx, limit = s.todo.pop(0)
            f = tempfile.TemporaryFile(); dl = time.time() + limit; pid = os.fork()
            if pid == 0:
                try: signal.alarm(int(limit + 40)); job_main(f, mods, spec, idx, dl)
                except BaseException: pass
                finally: os._exit(0)
            s.run[pid] = (f, spec, idx, dl + 30)
        for pid in list(s.run):
            f, spec, idx, dl = s.run[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            if not p and time.time() > dl: os.kill(pid, 9); p, st = os.waitpid(pid, 0)
            if p:
                del s.run[pid]; f.seek(0); b = f.read()
                try: s.res.append(pickle.loads(b))
                except Exception: s.res.append(dict(spec=spec.__name__, fn=spec.name, idx=idx, obl=[], exits=0, status='limit', why='no answer within the time limit', inlined=[], contracts=[], models=[], nq=0, tq=0.0, loops=0, label='', wall=0))
    def busy(s): return bool(s.todo or s.run)

class Native:
    """runs of the executable contracts"""
    def __init__(s, prop, harness, tmp, seed): s.prop, s.h, s.tmp, s.seed = prop, harness, tmp, seed; s.p = []; s.err = None; s.cases = 0; s.secs = 0.0; s.wit = None; s.samples = []
    def build(s):
        r = subprocess.run([os.path.join(HERE, 'native/build.sh'), s.h, s.tmp, REPO], capture_output=True, text=True)
        if r.returncode: s.err = 'does not build: ' + r.stderr[-600:]
        return not s.err
    def start(s, secs, k):
        for i in range(k):
            d = os.path.join(s.tmp, 'w%d' % (s.seed + i)); os.makedirs(d, exist_ok=True)
            s.p.append((subprocess.Popen([os.path.join(s.tmp, s.h), s.prop, str(secs), str(s.seed + i)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL), time.time() + secs + 60))
        s.seed += k
    def wait(s):
        for p, dl in s.p:
            try: out, _ = p.communicate(timeout=max(1, dl - time.time()))
            except subprocess.TimeoutExpired: p.kill(); out, _ = p.communicate()
            out = out.decode('utf-8', 'replace')
            if 'WITNESS' in out: s.wit = s.wit or out[out.index('WITNESS'):]
            elif 'CLEAN' in out:
                m = re.search(r'cases=(\d+) seconds=([\d.]+)', out); s.cases += int(m.group(1)); s.secs += float(m.group(2))
            else: s.err = s.err or 'the run ended without an answer (%s): %s' % (p.returncode, out[-300:])
        s.p = []

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time(); thorough = tier == 'thorough'
    tmp = tempfile.mkdtemp(prefix='v38-'); ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    try: rc = decide(prop, tier, thorough, seed, t0, tmp, ev)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return rc

def decide(prop, tier, thorough, seed, t0, tmp, ev):
    R = REG[prop]; specs = R.get('specs', [])
    if callable(specs): specs = specs()
    nat = Native(prop, R['native'], tmp, seed * 1000) if R.get('native') else None
    if nat and nat.build(): nat.start(R.get('quick_s', 20) if not thorough else 150, 2)
    limit = 420 if not thorough else 780
    jobs = Jobs(8); irerr = None
    if specs:
        from irv.llparse import compile_ir
        from irv.core import Unsupported
        from irv.spec import Eng
        ir = os.path.join(tmp, 'ir'); os.makedirs(ir)
        try: mods = compile_ir(REPO, SRC, ir)
        except Exception as e: irerr = str(e)
        else:
            if thorough: os.environ['IRV_CROSS'] = '1'
            for S in specs:
                try:
                    E = Eng(mods); s = S(); E.cur = s; E.contracts = {}; E.only = -1; n = len(list(s.cases(E)))
                except Exception: n = 1
                for i in range(n): jobs.add(mods, S, i, limit)
            jobs.todo.sort(key=lambda j: -getattr(j[1], 'cost', 1))
            while jobs.busy(): jobs.step(); time.sleep(0.02)
    res = jobs.res
    bad = [(r, o) for r in res for o in r['obl'] if not o[1]]
    stuck = [r for r in res if r['status'] != 'ok']
    novac = [r for r in res if r['status'] == 'ok' and not r['exits']]
    if nat:
        nat.wait()
        if not nat.wit and not nat.err and (bad or stuck or irerr): nat.start(60 if not thorough else 150, 8); nat.wait()
    nobl = sum(len(r['obl']) for r in res); ndis = sum(1 for r in res for o in r['obl'] if o[1])
    proved = bool(specs) and not bad and not stuck and not irerr and not novac
    # ------------------------------------------------ verdict
    viol = []; replay = os.path.join(ev, 'replay-%s.txt' % prop)
    if os.path.exists(replay): os.unlink(replay)
    txt = []
    if nat and nat.wit:
        txt.append('failing input, run against the real code (native/%s.c):\n%s' % (nat.h, nat.wit)); viol.append('replay=%s' % replay)
    if bad:
        for r, o in bad[:60]:
            txt.append('obligation not discharged: function %s, contract %s [%s]: %s%s\n  solver: %s' % (r['fn'], r['spec'], r['label'], o[0], ' (line %s)' % o[3] if o[3] else '', o[2]))
            if o[6]: txt.append('  counter-model of the obligation: ' + ', '.join('%s=%s' % kv for kv in o[6][:30]))
        if not viol: viol.append('replay=%s no-failing-input-found' % replay)
    for r in stuck: txt.append('function %s, contract %s [%s]: %s %s' % (r['fn'], r['spec'], r['label'], r['status'], r['why']))
    for r in novac: txt.append('function %s, contract %s [%s]: no path returns' % (r['fn'], r['spec'], r['label']))
    if irerr: txt.append('the sources could not be compiled to IR: ' + irerr)
    if txt:
        with open(replay, 'w') as f: f.write('property %s, tier %s, seed %d\nreproduce: cd %s && VERIF_SEED=%d python3-vt -O check.py %s %s\n\n' % (prop, tier, seed, HERE, seed, prop, tier) + '\n'.join(txt) + '\n')
    # ------------------------------------------------ evidence
    fns = {}
    for r in res:
        d = fns.setdefault(r['fn'], dict(function=r['fn'], contracts=[], cases=0, paths=0, obligations=0, discharged=0, loops_with_invariants=0, solver_s=0.0, inlined_callees=[]))
        if r['spec'] not in d['contracts']: d['contracts'].append(r['spec'])
        d['cases'] += 1; d['paths'] += r['exits']; d['obligations'] += len(r['obl']); d['discharged'] += sum(1 for o in r['obl'] if o[1]); d['loops_with_invariants'] += r['loops'] if isinstance(r['loops'], int) else 0
        d['solver_s'] = round(d['solver_s'] + r['tq'], 1); d['inlined_callees'] = sorted(set(d['inlined_callees']) | set(r['inlined']))
    models = sorted({m for r in res for m in r['models']}); cons = sorted({m for r in res for m in r['contracts']})
    trusted = ['the IR verifier in /verif/irv (symbolic execution, memory model, invariant checking)', 'clang 18 -O0 and opt mem2reg,loop-simplify as the meaning of the C source; gcc -O2 is assumed to implement the same C',
               'z3 %s' % z3v()] + ['libc contract assumed: ' + m.lstrip('@') for m in models] + ['contract of a callee used at its call sites: ' + m.lstrip('@') for m in cons] + list(R.get('trusted', []))
    level = 'proof' if R.get('level') == 'proof' else 'other'
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd='python3-vt -O check.py %s %s' % (prop, tier), trusted_base=trusted,
               functions_under_contract=list(fns.values()), solver_queries=sum(r['nq'] for r in res), solver_seconds=round(sum(r['tq'] for r in res), 1), back_end='z3 (rlimit-bounded; linear integer arithmetic and uninterpreted functions, quantifiers instantiated by the verifier)',
               all_obligations_discharged=proved, functions_proved=[f for f, d in fns.items() if d['obligations'] == d['discharged'] and not any(r['fn'] == f for r in stuck)],
               undecided=[dict(function=r['fn'], contract=r['spec'], status=r['status'], why=r['why'][:300]) for r in stuck])
    cr = [r['checks'] for r in res if r.get('checks')]
    if cr: cov['cross_checked_by_cvc5'] = {k: sum(c[k] for c in cr) for k in cr[0]}
    if nat:
        cov['bounded_search'] = dict(label='bounded, never counted as proved', harness='native/%s.c' % nat.h, executions=nat.cases, cpu_seconds=round(nat.secs, 1), sanitizers='address, undefined', error=nat.err)
        if level == 'other': cov.update(evaluations=nat.cases)
    if R.get('bounded'): cov['bounded_functions'] = R['bounded']
    if level == 'other':
        cov['explanation'] = R.get('note', '') or 'executable contracts run against the real code on enumerated and random inputs (bounded)'
    e = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 1),
             assumptions=R.get('assumptions', []) + BASE_ASSUME, violations=len(viol))
    with open(os.path.join(ev, prop + '.json'), 'w') as f: json.dump(e, f, indent=1)
    for l in known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, l))
    print('%s %s: %d functions under contract, %d/%d obligations discharged%s%s, %.0f s' % (prop, tier, len(fns), ndis, nobl, '' if proved else ' (not all: %s)' % ('; '.join('%s %s: %s' % (r['fn'], r['status'], r['why'][:150]) for r in stuck) or irerr or ('no contracts yet' if not specs else 'see replay')),
          ', %d native executions' % nat.cases + (' [%s]' % nat.err if nat.err else '') if nat else '', time.time() - t0))
    for v in viol: print('VIOLATION property=%s %s' % (prop, v))
    return 1 if viol else 0

BASE_ASSUME = ['x86-64 Linux, two\'s complement; objects are smaller than 2^60 bytes', 'functions are called by one thread at a time on the objects they are given',
               'integers are modelled as mathematical integers with every wrap-around made explicit modulo 2^width', 'stack use is not bounded']
def known(prop):
    try: return [l.split(' ', 2)[2] for l in open(os.path.join(HERE, 'known-findings.txt')).read().splitlines() if l.startswith('finding: property=%s ' % prop)]
    except OSError: return []
def z3v():
    import z3; return z3.get_version_string()
if __name__ == '__main__': sys.exit(main())
