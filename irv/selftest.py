"""setup: the tools the checks need are there and the verifier can tell right from wrong"""
import sys, tempfile, os, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from irv.llparse import parse
from irv.spec import *
from irv import libc
SRC = '''
int sum(const unsigned char *a, unsigned long n) { int s = 0; for (unsigned long i = 0; i < n; i++) if (a[i]) s = 1; return s; }
int bad(const unsigned char *a, unsigned long n) { int s = 0; for (unsigned long i = 0; i <= n; i++) if (a[i]) s = 1; return s; }
'''
class Any(Spec):
    mod = 't.c'
    def cases(s, E):
        st = State(); n = nat(st, 'n', 1 << 60); a = buf(st, 'a', n, readonly=True); yield Case('any', st, [a, n], a=a, n=n)
    def post(s, E, c, st, r): return [('boolean', bor(eq(r, 0), eq(r, 1)))]
class Sum(Any): name = 'sum'
class Bad(Any): name = 'bad'
def main():
    d = tempfile.mkdtemp(prefix='v38-')
    try:
        open(d + '/t.c', 'w').write(SRC)
        from irv.llparse import compile_ir
        mods = compile_ir(d, ['t.c'], d)
        for S, good in ((Sum, True), (Bad, False)):
            E = Eng(mods); E.models = dict(libc.MODELS); E.contracts = {}; n = S().verify(E)
            ok = all(o.ok for o in E.obl) and n > 0
            if ok != good: print('selftest: %s gives %s' % (S.name, ok)); return 1
    finally: shutil.rmtree(d, ignore_errors=True)
    print('selftest: z3 %s, verifier accepts the correct and refuses the wrong function' % z3.get_version_string()); return 0
if __name__ == '__main__': sys.exit(main())
