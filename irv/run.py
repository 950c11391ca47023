"""driver for development: python3-vt -m irv.run specmodule Class"""
import sys, importlib, time, os
sys.path.insert(0, '/verif')
from irv.spec import *
from irv.llparse import compile_ir
from irv import libc
def failed(E, c, st):
    """an allocation failed on this path"""
    return st.log.get('oom', False)
Eng.failed = failed
if __name__ == '__main__':
    m = importlib.import_module('specs.' + sys.argv[1]); names = sys.argv[2:]
    mods = compile_ir(os.environ.get('REPO','/repo'), ['src/'+f for f in ('vector.c', 'utils.c', 'parse.c', 'simple_sparsehash.c', 'grengine.c', 'greshunkel.c', 'server.c')], os.environ.get('IRDIR','/tmp/ir'))
    done = set()
    for p, l in m.SPECS.items():
        for S in l:
            if S in done or (names and S.__name__ not in names): continue
            done.add(S)
            E = Eng(mods); E.models = dict(libc.MODELS); E.contracts = S().uses() if hasattr(S, 'uses') else {}; E.log = print
            t = time.time()
            try:
                n = S().verify(E); why = ''
            except Unsupported as e: n = 0; why = 'UNSUPPORTED ' + str(e)
            except TooMuch as e: n = 0; why = 'TOOMUCH ' + str(e)
            bad = [o for o in E.obl if not o.ok]
            print('%-20s %s exits=%d obl=%d failed=%d %.1fs q=%d/%.1fs %s' % (S.__name__, S.name, n, len(E.obl), len(bad), time.time() - t, E.nq, E.tq, why))
            for o in bad: print('     FAILED', o.name, 'line', o.line, o.why)
