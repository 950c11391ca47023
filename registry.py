"""Which contracts and which executable contracts decide each property."""
def S(mod, *names):
    def f():
        import importlib
        m = importlib.import_module('specs.' + mod); return [getattr(m, n) for n in names]
    return f
def both(*fs): return lambda: [x for f in fs for x in f()]
REG = {}
def P(pid, specs=None, native=None, level='proof', **k):
    REG[pid] = dict(specs=specs or [], native=native, level=level if specs else 'other', **k)
def auto(mod, pid):
    def f():
        import importlib
        return importlib.import_module('specs.' + mod).SPECS[pid]
    return f
P('M01', auto('vector', 'M01'), 't_vector')
P('M02', auto('vector', 'M02'), 't_vector')
P('M03', auto('sparse', 'M03'), 't_sparse')
P('M04', None, 't_sparse')
P('M05', auto('utils', 'M05'), 't_utils')
P('M06', auto('parse', 'M06'), 't_parse')
P('M07', auto('parse', 'M07'), 't_parse')
P('M08', auto('parse', 'M08'), 't_parse')
P('M09', auto('utils', 'M09'), 't_parse')
P('M10', auto('utils', 'M10'), 't_utils')
P('M11', None, 't_parse')
P('M12', auto('utils', 'M12'), 't_utils')
P('M13', auto('utils', 'M13'), 't_utils')
for _p in ('M14','M15','M17','M27'): P(_p, None, 't_server')
for _p in ('M16','M18','M20'): P(_p, auto('server', _p), 't_server')
for _p in ('M22','M23','M24','M25','M26'): P(_p, auto('render', _p), 't_grsh')
for _p in ('M21','M29'): P(_p, auto('grsh', _p), 't_grsh')
P('M19', auto('files', 'M19'), 't_server', trusted=['contract of gshkl_render assumed at its call in m38_render_file (bounded evidence: M22-M26)', 'contract of gshkl_free_context assumed at its calls in m38_render_file (bounded evidence: M29)'])
P('M28', auto('server', 'M28'), 't_srv')
NA = {
 'M30': 'liveness over all thread schedules and queue states: function contracts in reach are sequential and say nothing about eventual progress (and the code is known to violate it: a worker blocks while the responder queue is full, see DESIGN.md)',
 'M31': 'data-race freedom of the pthread start-up code: no concurrent separation-logic verifier for C is available here, and sequential contracts cannot express it (handler_arg is a known dangling stack object, see DESIGN.md)',
}
