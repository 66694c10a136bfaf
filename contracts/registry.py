"""Which contracts and lemmas decide which property."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMPARE = ['visqol.cc', 'comparison_patches_selector.cc', 'alignment.cc', 'xcorr.cc', 'envelope.cc', 'fast_fourier_transform.cc', 'fft_manager.cc', 'misc_audio.cc', 'misc_math.cc',
           'misc_vector.cc', 'analysis_window.cc', 'amatrix.cc', 'spectrogram.cc', 'wav_reader.cc', 'image_patch_creator.cc', 'shim:pffft_shim.cc']   # sources the comparison pipeline links against
OPTS = {}                     # contract key -> engine options
LEMMAS = {}                   # name -> function(list of obligations)
PROPS = {}
_known = os.path.join(HERE, 'known_findings.json')
KNOWN = [k for k in json.load(open(_known)) if k.get('status') == 'open'] if os.path.exists(_known) else []
MODULES = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))) if f.endswith('.py') and f not in ('__init__.py', 'registry.py')]
_loaded = False
def load_all():
    global _loaded
    if _loaded: return
    _loaded = True
    for m in MODULES: importlib.import_module('contracts.' + m)
def load(pid):
    load_all()
    if pid not in PROPS: raise SystemExit('unknown property ' + pid)
    return PROPS[pid]
def prop(pid, functions, harness=None, lemmas=(), **kw):
    PROPS[pid] = dict(functions=functions, harness=harness, lemmas=list(lemmas), **kw)
def contract_by_key(key):
    from dv import contract as C
    q, _, typ = key.partition('|')
    for c in C.REG.get(q, ()):
        if c.key == key: return c
    raise KeyError(key)
def sources(P):
    s = set(P.get('sources', ()))
    for k in P['functions']: s |= set(contract_by_key(k).sources)
    return sorted(s)
def lemma(name):
    def d(f): LEMMAS[name] = f; return f
    return d
def run_lemma(name, deadline):
    import time
    from dv import prover
    t0 = time.time()
    pr = prover.Prover(deadline)
    obs = []
    for ob in LEMMAS[name]():
        r = pr.discharge(ob)
        obs.append(dict(cat='lemma', fn=name, where='', msg=ob.msg, status=r.status, theory=r.theory, backend=r.backend, info=(r.info or '')[:3000] if r.status != 'proved' else '', goal=repr(ob.goal)[:2000] if r.status != 'proved' else ''))
    return dict(name=name, obligs=obs, time=time.time() - t0)
# everything the engine links against
ENGINE = COMPARE + ['visqol_manager.cc', 'visqol_api.cc', 'commandline_parser.cc', 'tflite_quality_mapper.cc', 'svr_similarity_to_quality_mapper.cc', 'speech_similarity_to_quality_mapper.cc', 'support_vector_regression_model.cc', 'libsvm_target_observation_convertor.cc',
                    'gammatone_spectrogram_builder.cc', 'gammatone_filterbank.cc', 'signal_filter.cc', 'equivalent_rectangular_bandwidth.cc', 'complex_valarray.cc', 'neurogram_similiarity_index_measure.cc', 'convolution_2d.cc', 'vad_patch_creator.cc', 'rms_vad.cc', 'shim:tflite_stub.cc', 'proto']
