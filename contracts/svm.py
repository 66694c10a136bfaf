"""The support-vector bridge (C34)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
from contracts.misc import V
SVM = ('support_vector_regression_model.cc', 'libsvm_target_observation_convertor.cc', 'svr_similarity_to_quality_mapper.cc')
CONV = V + 'LibSvmTargetObservationConvertor::'
MODEL = V + 'SupportVectorRegressionModel::'
def node(obs, i, last): return SV('svm_node', {'index': ite(lt(i, obs.n), add(i, ONE), I(-1)), 'value': ite(lt(i, obs.n), at(obs, i), last)})
def live(p): return [k for k, v in p.st.vars.items() if k.startswith('heap') and not (isinstance(v, SV) and v.type == 'freed')]
@contract(CONV + 'ConvertObservation', sources=SVM)
def _(c):
    obs = c.arg(0)
    c.req('fewer than 2^31 - 1 features', lt(obs.n, I((1 << 31) - 1)))
    if c.mode == 'call':
        last = T.var(c.e.new('undef!'), 'F')
        c.result(It(c.e.alloc(c.st, mkseq(add(obs.n, ONE), lambda i: node(obs, i, last)), 'heap'), ZERO))
    i = bv('I', 'i')
    c.ens('memory for every node', lambda p: and_(TRUE if isinstance(p.res, It) else FALSE, eq(p.res.pos, ZERO), eq(p.e.load(p.st, p.res.lv).n, add(obs.n, ONE))))
    def nodes(p):
        q = p.e.load(p.st, p.res.lv)
        return and_(eq(at(q, obs.n).f['index'], I(-1)), forall([i], implies(and_(le(ZERO, i), lt(i, obs.n)), and_(eq(at(q, i).f['index'], add(i, ONE)), eq(at(q, i).f['value'], at(obs, i))))))
    c.ens('the features in order, numbered from 1, then -1', nodes)
    if c.mode == 'body': c.ens('nothing else stays allocated', lambda p: TRUE if live(p) == [p.res.lv.cell] else FALSE)
def predicted(c, model, obs):
    """the library's prediction for the features in order"""
    return svm_value(model, obs.n, lambda k: add(k, ONE), lambda k: at(obs, k))
def model_of(c, v):
    p = v.f['model_']
    return c.st.vars[p.lv.cell].f['id']
@contract(MODEL + 'Predict', sources=SVM)
def _(c):
    obs = c.arg(0)
    c.req('fewer than 2^31 - 1 features', lt(obs.n, I((1 << 31) - 1)))
    c.result(predicted(c, model_of(c, c.this0), obs))
    if c.mode == 'body': c.ens('the nodes are released', lambda p: TRUE if live(p) == [] else FALSE)
@contract(MODEL + 'SupportVectorRegressionModel', sources=SVM)
def _(c):
    c.set('model_', Ptr(None, TRUE)); c.set('observations_ptr_', Ptr(None, TRUE)); c.set('num_observations_', ZERO)     # no model, no observations
@contract(MODEL + 'Init', 'const FilePath', sources=SVM)
def _(c):
    path = c.arg(0).f['path_']
    bad = T.app('svm.unloadable', (path,), 'B')
    c.ens('invalid argument when the library cannot load the file', lambda p: eq(p.res.f['code'], ite(bad, I(3), ZERO)))
    c.ens('the loaded model', lambda p: and_(eq(p['model_'].null, bad), eq(p.st.vars[p['model_'].lv.cell].f['id'], T.app('svm.model', (path,), 'O'))))
    c.havoc('model_')
@contract(MODEL + '~SupportVectorRegressionModel', sources=SVM)
def _(c):
    m = c.t('model_')
    c.req('not trained in this process', eq(c.t('num_observations_'), ZERO))
    for k in ('model_',): c.havoc(k)
    c.ens('no model is left', lambda p: p['model_'].null)
    if c.mode == 'body':
        i0 = c.st.vars[m.lv.cell].f['id']
        c.ghost[m.lv.cell] = SV('opaque:svm_model', {'id': ite(m.null, i0, T.app('svm.released', (i0,), 'O'))})     # released exactly when there is one
def untrained(e, st, tv):
    tv.f['observations_ptr_'] = Ptr(None, TRUE)     # only the training entry point sets it (out of reach: see gaps)
    return tv
REG[MODEL + '~SupportVectorRegressionModel'][0].this_setup = untrained
@contract(V + 'SvrSimilarityToQualityMapper::Init', sources=SVM)
def _(c):
    path = c.t('model_path_').f['path_']
    bad = T.app('svm.unloadable', (path,), 'B')
    c.ens('the status of loading the configured model', lambda p: eq(p.res.f['code'], ite(bad, I(3), ZERO)))
    c.havoc('model_.model_')
from contracts.registry import prop, COMPARE
prop('C34', [CONV + 'ConvertObservation', MODEL + 'Predict', MODEL + 'SupportVectorRegressionModel', MODEL + 'Init|const FilePath', MODEL + '~SupportVectorRegressionModel', V + 'SvrSimilarityToQualityMapper::Init'], harness=dict(file='C34.cc', sources=list(SVM)+['amatrix.cc'], san=True, leaks=True),
     assumptions=['libsvm: a prediction is a function of the model and of the nodes up to the terminator; svm_load_model returns null exactly when it cannot load the file and may not be entered twice at once; the layout of svm_node is that of svm.h'],
     gaps=['the training path (ConvertObservations, Init from observations, the release of the training rows in the destructor) builds an array of pointers, outside the verifier; the replay harness covers it with bounded inputs only'])
