"""The lattice mapper (C35)."""
from dv.contract import *
from dv.lib import *
from dv.libx import tfl_score, tfl_bands
from dv import terms as T
from contracts.misc import V
TF = V + 'TFLiteQualityMapper::'
TFS = ('tflite_quality_mapper.cc',)
def interp(c): return c.st.vars[c.t('interpreter_').lv.cell].f['id']
@contract(TF + 'PredictQuality', sources=TFS)
def _(c):
    nb = c.t('num_frequency_bands_')
    c.req('initialised', not_(c.t('interpreter_').null))
    i = T.app('tflite.predict', (interp(c),), 'O')
    c.req('the model takes this number of bands', eq(tfl_bands(i), nb)); c.req('a number of bands', and_(le(ZERO, nb), le(nb, I(1 << 20))))
    fams = [c.arg(k) for k in range(4)]
    for f in fams: c.req('a value per band', eq(f.n, nb))
    c.result(tfl_score(i, [mkseq(nb, lambda k, f=f: fop('fround32', at(f, k))) for f in fams], Fl(0.5)))
@contract(TF + 'Init', sources=TFS)
def _(c):
    path = c.t('model_path_')
    bad = T.app('tflite.unloadable', (path,), 'B')
    c.ens('invalid argument when the model file cannot be loaded', lambda p: implies(bad, eq(p.res.f['code'], I(3))))
    i = T.app('tflite.interpreter', (T.app('tflite.model', (path,), 'O'),), 'O')
    c.ens('initialised with an interpreter of that model', lambda p: implies(eq(p.res.f['code'], ZERO), and_(not_(bad), not_(p['interpreter_'].null), eq(p.st.vars[p['interpreter_'].lv.cell].f['id'], i))))
    for k in ('model_', 'interpreter_', 'delegate_'): c.havoc(k)
@contract(TF + 'TFLiteQualityMapper', sources=TFS)
def _(c):
    c.set('model_path_', c.arg(0)); c.set('num_frequency_bands_', c.arg(1))
    for k in ('model_', 'interpreter_', 'delegate_'): c.havoc(k)
from contracts.registry import prop
prop('C35', [TF + 'PredictQuality', TF + 'Init', TF + 'TFLiteQualityMapper'], harness=dict(file='C35.cc', sources=list(TFS) + ['shim:tflite_stub.cc'], san=True), sources=TFS,
     assumptions=['TensorFlow Lite is not installed here: declarations come from /verif/shim; its contract is that tensors are addressed by name, each holds one float, and the output is a function of the model and the inputs at Invoke',
                  'the loaded model takes as many bands as the mapper was built for'])
