"""The engine (VisqolManager): guards, mode selection, comparison of a pair (C07, C08)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
from contracts.misc import *
VM = V + 'VisqolManager::'
MG = ('visqol_manager.cc', 'libsvm_target_observation_convertor.cc', 'amatrix.cc', 'speech_similarity_to_quality_mapper.cc', 'svr_similarity_to_quality_mapper.cc', 'support_vector_regression_model.cc', 'tflite_quality_mapper.cc', 'gammatone_spectrogram_builder.cc',
      'gammatone_filterbank.cc', 'image_patch_creator.cc', 'vad_patch_creator.cc', 'comparison_patches_selector.cc', 'neurogram_similiarity_index_measure.cc', 'alignment.cc', 'misc_audio.cc', 'visqol.cc', 'analysis_window.cc')
@contract(VM + 'ErrorIfNotInitialized', sources=MG)
def _(c): c.ens('aborted unless initialised', lambda p: eq(p.res.f['code'], ite(c.t('is_initialized_'), ZERO, I(10))))
def refuse(ref, deg): return or_(eq(numel(sig(ref)), ZERO), eq(numel(sig(deg)), ZERO), not_(eq(rate(ref), rate(deg))))
@contract(VM + 'ValidateInputAudio', sources=MG)
def _(c): c.ens('empty signals and different rates are refused as invalid argument', lambda p: eq(p.res.f['code'], ite(refuse(c.arg(0), c.arg(1)), I(3), ZERO)))
OPT = ('use_speech_mode_', 'use_unscaled_speech_mos_mapping_', 'search_window_', 'use_lattice_model_', 'disable_global_alignment_', 'disable_realignment_')
def owned(p, nm):
    v = p[nm]
    return p.e.load(p.st, v.lv)
def is_(o, ty, **f):
    """the object is a ty with these field values"""
    if not isinstance(o, SV) or o.type != V + ty: return FALSE
    return and_(*[eq(o.f[k], v) for k, v in f.items()])
@contract(VM + 'Init', 'const FilePath', sources=MG, cases=(1, 4))
def _(c): initialised(c, c.arg(0).f['path_'])
@contract(VM + 'Init', 'string_view', sources=MG, cases=(1, 4))
def _(c): initialised(c, c.arg(0))
def initialised(c, mp):
    path, speech, unscaled, radius, lattice, coarse, nofine = [c.arg(i) for i in range(7)]
    for nm, v in zip(OPT, (speech, unscaled, radius, lattice, coarse, nofine)): c.set(nm, v)
    for k in ('is_initialized_', 'patch_creator_', 'patch_selector_', 'spectrogram_builder_', 'sim_to_qual_'): c.havoc(k)
    c.ens('usable exactly when the mapper was initialised', lambda p: iff(p['is_initialized_'], eq(p.res.f['code'], ZERO)))
    if c.mode == 'call': return
    s, l = c.con.case[1] is TRUE, c.con.case[4] is TRUE
    c.ens('patch creator', lambda p: is_(owned(p, 'patch_creator_'), 'VadPatchCreator' if s else 'ImagePatchCreator', patch_size_=I(20 if s else 30)))
    b = lambda p: owned(p, 'spectrogram_builder_')
    c.ens('spectrogram builder', lambda p: and_(is_(b(p), 'GammatoneSpectrogramBuilder', speech_mode_=TRUE if s else FALSE),
                                                is_(b(p).f['filter_bank_'], 'GammatoneFilterBank', num_bands_=I(21 if s else 32), min_freq_=Fl(50.0))))
    sel = lambda p: owned(p, 'patch_selector_')
    c.ens('patches are compared by the neurogram measure', lambda p: and_(is_(sel(p), 'ComparisonPatchesSelector'), is_(p.e.load(p.st, sel(p).f['sim_comparator_'].lv), 'NeurogramSimiliarityIndexMeasure')))
    m = lambda p: owned(p, 'sim_to_qual_')
    if not s:
        bad = T.app('svm.unloadable', (mp,), 'B')
        c.ens('support-vector mapper of the given model', lambda p: and_(is_(m(p), 'SvrSimilarityToQualityMapper'), eq(m(p).f['model_path_'].f['path_'], mp), eq(p.res.f['code'], ite(bad, I(3), ZERO))))
    elif l:
        bad = T.app('tflite.unloadable', (mp,), 'B')
        c.ens('lattice mapper of the given model, 21 bands', lambda p: and_(is_(m(p), 'TFLiteQualityMapper', model_path_=mp, num_frequency_bands_=I(21)), implies(bad, eq(p.res.f['code'], I(3)))))
    else: c.ens('exponential mapper, scaled unless unscaled mapping is requested', lambda p: and_(is_(m(p), 'SpeechSimilarityToQualityMapper'), iff(m(p).f['scale_to_max_mos_'], not_(unscaled)), eq(p.res.f['code'], ZERO)))
VECS = ('fvnsim', 'fvnsim10', 'fstdnsim', 'fvdegenergy', 'center_freq_bands')
PATCH = ('similarity', 'ref_patch_start_time', 'ref_patch_end_time', 'deg_patch_start_time', 'deg_patch_end_time')
PATCHMSG = 'SimilarityResultMsg_PatchSimilarityMsg'
def message(c, r, lag=Fl(0.0), ref=S(''), deg=S('')):
    """the message that reports result r"""
    d = {k: r.f[k] for k in VECS + ('moslqo', 'vnsim')}
    ps = r.f['debug_info'].f['patch_sims']
    def patch(i):
        q = at(ps, i)
        f = {k: q.f[k] for k in PATCH}
        m = q.f['freq_band_means']
        f['freq_band_means'] = mkseq(mul(m.r, m.c), lambda j: el(m, j))
        return SV(PATCHMSG, f)
    d['patch_sims'] = mkseq(ps.n, patch)
    d['reference_filepath'], d['degraded_filepath'], d['alignment_lag_s'] = ref, deg, lag
    return SV('SimilarityResultMsg', d)
@contract(VM + 'PopulateSimResultMsg', sources=MG)
def _(c):
    r = c.arg(0)
    ps = r.f['debug_info'].f['patch_sims']
    i = bv('I', 'i')
    c.req('band similarities are columns', forall([i], implies(and_(le(ZERO, i), lt(i, ps.n)), and_(le(ZERO, at(ps, i).f['freq_band_means'].r), lt(at(ps, i).f['freq_band_means'].r, I(1 << 31)), eq(at(ps, i).f['freq_band_means'].c, ONE)))))
    c.result(message(c, r))
from contracts.align import detected, shifted, lag_time
from contracts.patches import SMALL
from contracts.pipeline import CALC
from contracts.registry import OPTS
OPTS[VM + 'Init|string_view'] = dict(inline=[VM + 'Init|const FilePath'])
GA, WIN = V + 'Alignment::GloballyAlign', V + 'AnalysisWindow::AnalysisWindow|void (const size_t, const double, double)'
def window(sr): return SV(V + 'AnalysisWindow', {'window_duration': Fl(0.08), 'size': fop('f2i', T.fn('round', fop('fmul', i2f(sr), Fl(0.08)))), 'overlap': Fl(0.25)})
def comparison(c, ref, deg):
    """what one comparison computes: (status of the guards or TRUE, the aligned degraded signal, lag, result of CalculateSimilarity)"""
    this = c.this0
    off = this.f['disable_global_alignment_']
    L = detected(sig(ref), sig(deg))
    d = vite(off, deg, audio(shifted(sig(deg), L), rate(deg)))
    lag = ite(off, Fl(0.0), lag_time(L, rate(deg)))
    own = lambda nm: handle(c.e.load(c.st, this.f[nm].lv))
    hs = [handle(SV(V + 'Visqol', {})), handle(ref), handle(d), own('spectrogram_builder_'), handle(window(rate(ref))), own('patch_creator_'), own('patch_selector_'), own('sim_to_qual_'), this.f['search_window_'], this.f['disable_realignment_']]
    sim = c.e.uf_value(c.st, 'absl::StatusOr<Visqol::SimilarityResult>', 'fn:' + CALC, hs)
    return d, lag, sim
@contract(VM + 'Run', 'const AudioSignal', sources=MG)
def _(c):
    ref, deg = c.arg(0), c.arg(1)
    usable, bad = c.t('is_initialized_'), refuse(ref, deg)
    go = and_(usable, not_(bad))
    c.req('mono signals', implies(go, and_(eq(sig(ref).c, ONE), eq(sig(deg).c, ONE), *[and_(le(ZERO, sig(x).r), lt(sig(x).r, I(1 << 29))) for x in (ref, deg)])))
    c.req('a sample rate', implies(go, and_(lt(ZERO, rate(ref)), lt(rate(ref), SMALL))))
    c.req('an initialised engine owns its parts', implies(usable, and_(*[not_(c.t(k).null) for k in ('patch_creator_', 'patch_selector_', 'spectrogram_builder_', 'sim_to_qual_')])))
    code = lambda p: p.res.f['status'].f['code']
    c.havoc('#1')
    c.ens('aborted unless initialised', lambda p: implies(not_(usable), eq(code(p), I(10))))
    c.ens('unusable pair refused', lambda p: implies(and_(usable, bad), eq(code(p), I(3))))
    d, lag, sim = comparison(c, ref, deg)
    sok = eq(sim.f['status'].f['code'], ZERO)
    c.ens('the status of the comparison', lambda p: implies(go, eq(code(p), sim.f['status'].f['code'])))
    c.ens('the message of the comparison of the aligned pair', lambda p: implies(and_(go, sok), veq_goal(message(c, sim.f['val'], lag), p.res.f['val'])))
OPTS[VM + 'Run|const AudioSignal'] = dict(assume_pre=[CALC, GA, WIN, VM + 'PopulateSimResultMsg'], skip_ens=[CALC])

from contracts.registry import prop, ENGINE
RUN = VM + 'Run|const AudioSignal'
INITS = [VM + 'Init|const FilePath', VM + 'Init|string_view']
H = lambda f: dict(file=f, sources=ENGINE)
COMPONENTS = ['the four components are any functions of their arguments; what each does is C09, C10, C14, C17, C18, C19, C34 and C35']
prop('C07', INITS + [RUN, VM + 'ErrorIfNotInitialized', VM + 'ValidateInputAudio'], harness=H('C07.cc'), sources=('amatrix.cc',), assumptions=COMPONENTS + ['whether a model file can be loaded is libsvm\'s and TensorFlow Lite\'s answer'])
prop('C08', INITS + [RUN, V + 'AnalysisWindow::AnalysisWindow|void (const size_t, const double, double)'], harness=H('C08.cc'), sources=('amatrix.cc',), assumptions=COMPONENTS)
prop('C32', [VM + 'PopulateSimResultMsg', RUN], harness=H('C32.cc'), sources=('amatrix.cc',), assumptions=COMPONENTS + ['the messages are records of the fields in the .proto files; accessors read and write exactly their field'])
PURE = [V + 'GammatoneSpectrogramBuilder::Build', V + 'GammatoneFilterBank::ResetFilterConditions', V + 'GammatoneFilterBank::SetFilterCoefficients', V + 'GammatoneFilterBank::ApplyFilter',
        V + 'ImagePatchCreator::CreateRefPatchIndices|const AudioSignal', V + 'VadPatchCreator::CreateRefPatchIndices|const AudioSignal', V + 'VadPatchCreator::GetVoiceActivity', V + 'NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity',
        V + 'SpeechSimilarityToQualityMapper::PredictQuality', V + 'SvrSimilarityToQualityMapper::PredictQuality', V + 'TFLiteQualityMapper::PredictQuality', V + 'ComparisonPatchesSelector::FindMostOptimalDegPatches', V + 'ComparisonPatchesSelector::FinelyAlignAndRecreatePatches',
        V + 'Alignment::GloballyAlign', CALC, RUN]
# The message is a function of the two signals, the options and the components (postcondition of Run, whose frame says that no field of the engine changes); each component's answer is a function of its
# arguments and its configuration (its own contract, whatever its filter states or buffers held before), and no component changes its configuration. Hence equal inputs give equal messages after any history.
prop('C37', PURE, harness=H('C37.cc'), sources=('amatrix.cc',), assumptions=['the signals are taken by value: the comparison of the engine aligns the degraded signal object of its caller in place', 'a TensorFlow Lite interpreter\'s output is a function of its model and inputs', 'verified sequentially; engines share no mutable state (static variables other than constants are rejected)'])
