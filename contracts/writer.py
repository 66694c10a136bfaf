"""CSV results (C33)."""
from dv.contract import *
from dv.lib import *
from dv.libx import fexists
from dv.libw import text_int, text_double
from dv import terms as T
from contracts.misc import V
WS = ('main.cc',)
W = V + 'SimilarityResultsWriter::'
def written(p):
    w = [v for v in p.st.vars.values() if isinstance(v, SV) and v.type == 'ofstream']
    if len(w) != 1: raise Unsupported('one output file')
    return w[0].f
COLS = (('fvnsim', ',fvnsim', 1), ('fvnsim10', ',fvnsim10_', 1), ('fstdnsim', ',fstdnsim', 2), ('fvdegenergy', ',fvdegenergy', 3))
def table(msg, on, exists):
    """the header (for a new file) and the row of this result"""
    h = T.scat(S('reference,degraded'), ite(on[0], S(',moslqo'), S('')))
    for nm, name, g in COLS:
        h = ite(on[g], fold1(msg[nm].n, h, lambda k, a: T.scat(a, S(name), text_int(k))), h)
    t = ite(exists, S(''), T.scat(h, S('\n')))
    t = T.scat(t, msg['reference_filepath'], S(','), msg['degraded_filepath'])
    t = ite(on[0], T.scat(t, S(','), text_double(msg['moslqo'], I(9))), t)
    for nm, name, g in COLS:
        t = ite(on[g], fold1(msg[nm].n, t, lambda k, a, nm=nm: T.scat(a, S(','), text_double(at(msg[nm], k), I(9)))), t)
    return T.scat(t, S('\n'))
@contract(W + 'WriteResultsToCSV', sources=WS)
def _(c):
    path, msg = c.arg(0).f['path_'], c.arg(1).f
    on = [c.arg(i) for i in range(2, 6)]
    for nm, _, _ in COLS: c.req('a protobuf repeated field', and_(le(ZERO, msg[nm].n), lt(msg[nm].n, I(1 << 31))))
    c.ens('to the file given', lambda p: and_(written(p)['used'], eq(written(p)['path'], path)))
    c.ens('earlier content is kept', lambda p: written(p)['keep'])
    c.ens('a header for a new file, then one complete row', lambda p: eq(written(p)['text'], table(msg, on, fexists(path))))
from contracts.registry import prop, ENGINE
prop('C33', [W + 'WriteResultsToCSV'], harness=dict(file='C33.cc', sources=['proto']), sources=WS,
     assumptions=['the file can be opened and written; what is inserted into an output stream opened in append mode ends up behind the earlier content of that file', 'numbers are formatted by the standard library with the precision in force',
                  'the existence of a file does not change between the test and the opening', 'a repeated protobuf field has fewer than 2^31 elements'])
