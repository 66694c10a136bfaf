"""Command line, batch files (C04, C05) and the API's configuration (C06)."""
from dv.contract import *
from dv.lib import *
from dv.libx import fexists, flag, CWD
from dv import terms as T
from dv.libw import pieces, piece
from contracts.misc import V
CL = V + 'VisqolCommandLineParser::'
CLS = ('commandline_parser.cc',)
AUDIO_MODEL = '/model/libsvm_nu_svr_model.txt'
SPEECH_MODEL = '/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite'
def default_model(speech): return ite(speech, T.scat(CWD, S(SPEECH_MODEL)), T.scat(CWD, S(AUDIO_MODEL)))
def fp(s): return SV(V + 'FilePath', {'path_': s})
@contract(CL + 'FileExists', sources=CLS)
def _(c): c.result(fexists(c.arg(0).f['path_']))
@contract(CL + 'Parse', sources=CLS)
def _(c):
    F = lambda n, s='S': flag(c.e, n, s)
    batch, ref, deg, model = F('batch_input_csv'), F('reference_file'), F('degraded_file'), F('similarity_to_quality_model')
    isb = not_(eq(batch, S('')))
    speech = F('use_speech_mode', 'B')
    files = ite(isb, fexists(batch), and_(fexists(ref), fexists(deg)))
    given = not_(eq(model, S('')))
    used = ite(given, model, default_model(speech))
    okm = or_(and_(given, or_(speech, fexists(model))), and_(not_(given), fexists(used)))
    ok = and_(files, okm)
    code = lambda p: p.res.f['status'].f['code']
    c.ens('accepted exactly when the files and the model exist, else invalid argument', lambda p: eq(code(p), ite(ok, ZERO, I(3))))
    v = lambda p: p.res.f['val'].f
    def paths(p):
        w = dict(reference_signal_path=ite(isb, S(''), ref), degraded_signal_path=ite(isb, S(''), deg), similarity_to_quality_mapper_model=used, results_output_csv=F('results_csv'), batch_input_csv=batch, debug_output_path=F('output_debug'))
        return and_(*[eq(v(p)[k].f['path_'], x) for k, x in w.items()])
    c.ens('paths as given', lambda p: implies(ok, paths(p)))
    c.ens('options as given', lambda p: implies(ok, and_(*[iff(v(p)[k], F(f, 'B')) for k, f in (('verbose', 'verbose'), ('use_speech_mode', 'use_speech_mode'), ('use_unscaled_speech_mos_mapping', 'use_unscaled_speech_mos_mapping'), ('use_lattice_model', 'use_lattice_model'),
        ('disable_global_alignment', 'disable_global_alignment'), ('disable_realignment', 'disable_realignment'))], eq(v(p)['search_window_radius'], F('search_window_radius', 'I')))))


# ---- batch files (C04)
from contracts.vad_patches import filtered
def stripped(l): return ite(and_(not_(eq(l, S(''))), eq(T.app('str.back', (l,), 'I'), I(13))), T.app('str.pop_back', (l,), 'S'), l)
def pair(a, b): return SV(V + 'ReferenceDegradedPathPair', {'reference': fp(a), 'degraded': fp(b)})
def row(path, i): return stripped(piece(T.app('file.text', (path,), 'S'), 10, i))
def pairs_of(path):
    lines = pieces(T.app('file.text', (path,), 'S'), 10)
    some = and_(T.app('file.readable', (path,), 'B'), le(ONE, lines)); n = sub(lines, ONE)
    fields = lambda k: pieces(row(path, add(k, ONE)), 44)
    keep = lambda k: le(I(2), fields(k))
    f = [filtered(n, keep, lambda k, j=j: piece(row(path, add(k, ONE)), 44, I(j))) for j in (0, 1)]
    return vite(some, mkseq(f[0].n, lambda i: pair(at(f[0], i), at(f[1], i))), mkseq(ZERO, lambda i: pair(S(''), S(''))))
@contract(CL + 'ReadFilesToCompare', sources=CLS)
def _(c): c.result(pairs_of(c.arg(0).f['path_']))
@contract(CL + 'BuildFilePairPaths', sources=CLS)
def _(c):
    a = c.arg(0).f
    b, r, d = [a[k].f['path_'] for k in ('batch_input_csv', 'reference_signal_path', 'degraded_signal_path')]
    both = and_(fexists(r), fexists(d))
    c.result(vite(not_(eq(b, S(''))), pairs_of(b), mkseq(ite(both, ONE, ZERO), lambda i: pair(r, d))))

from contracts.registry import prop, ENGINE
prop('C05', [CL + 'Parse', CL + 'FileExists'], harness=dict(file='C05.cc', sources=ENGINE), sources=CLS,
     assumptions=['flag values are those absl::ParseCommandLine parsed; a flag is read only after it', 'the set of existing files and the working directory do not change during parsing'])
prop('C04', [CL + 'ReadFilesToCompare', CL + 'BuildFilePairPaths'], harness=dict(file='C04.cc', sources=ENGINE, san=True), sources=CLS,
     assumptions=['std::getline yields the pieces of a text between delimiters, a last piece only if not empty; files do not change during a call and are finite', 'a text stream is read with one delimiter (anything else is rejected)', 'std::filesystem::path(s).string() is s'])
