"""Similarity-to-quality mappers and the final score (C09)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
V = 'Visqol::'
MP = ('speech_similarity_to_quality_mapper.cc', 'svr_similarity_to_quality_mapper.cc', 'misc_math.cc')
def clampq(x): return fmin2(Fl(5.0), fmax2(Fl(1.0), x))
def mean(v): return fop('fdiv', fsum(v.n, lambda k: at(v, k)), i2f(v.n))
A_, B_, X0_, SC_ = -262.847869, 0.0154302525, -361.063949, 1.245063
def expmap(v, scaled):
    x = fop('fadd', Fl(A_), T.fn('exp', fop('fmul', Fl(B_), fop('fsub', mean(v), Fl(X0_)))))
    return fop('fmul', x, ite(scaled, fop('fround32', Fl(SC_)), Fl(1.0)))
@contract(V + 'SpeechSimilarityToQualityMapper::SpeechSimilarityToQualityMapper', 'void (bool)', sources=MP)
def _(c): c.set('scale_to_max_mos_', c.arg(0))
@contract(V + 'SpeechSimilarityToQualityMapper::Init', sources=MP)
def _(c): c.result(status(I(0), S('')))
@contract(V + 'SpeechSimilarityToQualityMapper::PredictQuality', sources=MP)
def _(c):
    v = c.arg(0)
    x = expmap(v, c.t('scale_to_max_mos_'))
    c.ens('clamped exponential of the mean similarity', lambda p: implies(not_(T.isnan(x)), eq(p.res, clampq(x))))
    c.ens('within 1..5', lambda p: implies(not_(T.isnan(x)), and_(fcmp('le', Fl(1.0), p.res), fcmp('le', p.res, Fl(5.0)))))
from contracts.svm import predicted, model_of
@contract(V + 'SvrSimilarityToQualityMapper::PredictQuality', sources=MP)
def _(c):
    c.req('fewer than 2^31 - 1 bands', lt(c.arg(0).n, I((1 << 31) - 1)))
    x = predicted(c, model_of(c, c.t('model_')), c.arg(0))
    c.ens('clamped model prediction for the similarity vector', lambda p: implies(not_(T.isnan(x)), eq(p.res, clampq(x))))
    c.ens('within 1..5', lambda p: and_(fcmp('le', Fl(1.0), p.res), fcmp('le', p.res, Fl(5.0))))
@contract(V + 'Visqol::AlterForSimilarityExtremes', sources=('visqol.cc',))
def _(c): c.result(ite(fcmp('lt', c.arg(0), Fl(0.15)), Fl(1.0), c.arg(1)))
from contracts.registry import prop, COMPARE
prop('C09', [V + 'SpeechSimilarityToQualityMapper::PredictQuality', V + 'SpeechSimilarityToQualityMapper::SpeechSimilarityToQualityMapper|void (bool)', V + 'SpeechSimilarityToQualityMapper::Init', V + 'SvrSimilarityToQualityMapper::PredictQuality', V + 'Visqol::AlterForSimilarityExtremes'],
     sources=('amatrix.cc',), harness=dict(file='C09.cc', sources=['speech_similarity_to_quality_mapper.cc', 'svr_similarity_to_quality_mapper.cc', 'support_vector_regression_model.cc', 'libsvm_target_observation_convertor.cc'] + COMPARE))
