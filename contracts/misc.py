"""Small numeric helpers (MiscMath, MiscVector) and level matching (C30)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
V = 'Visqol::'
AUDIO = ('misc_audio.cc', 'amatrix.cc')
MM = ('misc_math.cc', 'amatrix.cc')
def numel(m): return mul(m.r, m.c)
def el(m, k): return mat(m, lin_r(m.r, m.c, k), lin_c(m.r, m.c, k))
def spl(m):
    """sound pressure level of all samples: 20*log10(RMS / 20 uPa)"""
    ms = fop('fdiv', fsum(numel(m), lambda k: fpow(el(m, k), Fl(2.0))), i2f(numel(m)))
    return fop('fmul', Fl(20.0), T.fn('log10', fop('fdiv', fop('fsqrt', ms), Fl(0.00002))))
def gain(ref, deg): return fpow(Fl(10.0), fop('fdiv', fop('fsub', spl(ref), spl(deg)), Fl(20.0)))
def scaled(m, g): return mkmat(m.r, m.c, lambda r, c: fop('fmul', mat(m, r, c), g))
def audio(m, sr): return SV(V + 'AudioSignal', {'data_matrix': m, 'sample_rate': sr})
def sig(a): return a.f['data_matrix']
def rate(a): return a.f['sample_rate']

@contract(V + 'MiscAudio::CalcSoundPressureLevel', sources=AUDIO)
def _(c): c.result(spl(sig(c.arg(0))))
@contract(V + 'MiscAudio::ScaleToMatchSoundPressureLevel', sources=AUDIO)
def _(c):
    a, b = c.arg(0), c.arg(1)
    c.result(audio(scaled(sig(b), gain(sig(a), sig(b))), rate(b)))

@contract(V + 'MiscVector::Sum', sources=('misc_vector.cc', 'amatrix.cc'))
def _(c): m = c.arg(0); c.result(fsum(numel(m), lambda k: el(m, k)))
@contract(V + 'MiscVector::Mean', sources=('misc_vector.cc', 'amatrix.cc'))
def _(c): m = c.arg(0); c.result(fop('fdiv', fsum(numel(m), lambda k: el(m, k)), i2f(numel(m))))
def mat_max(m): return el(m, argbest(numel(m), lambda i, j: fcmp('lt', el(m, j), el(m, i))))
@contract(V + 'MiscMath::Normalize', sources=MM)
def _(c):
    m = c.arg(0)
    c.req('not empty', lt(ZERO, numel(m)))
    c.result(mkmat(m.r, m.c, lambda r, k: fop('fdiv', mat(m, r, k), mat_max(m))))
@contract(V + 'MiscMath::ExponentialFromFit', sources=MM)
def _(c):
    x, a, b, x0 = [c.arg(i) for i in range(4)]
    c.result(fop('fadd', a, T.fn('exp', fop('fmul', b, fop('fsub', x, x0)))))
@contract(V + 'MiscMath::NormalizeInt16ToDouble', sources=MM)
def _(c):
    v = c.arg(0)
    c.result(mkseq(v.n, lambda i: fop('fdiv', i2f(at(v, i)), Fl(32768.0))))

from contracts.registry import prop
prop('C30', [V + 'MiscAudio::ScaleToMatchSoundPressureLevel', V + 'MiscAudio::CalcSoundPressureLevel'],
     harness=dict(file='C30.cc', sources=['misc_audio.cc', 'amatrix.cc', 'misc_math.cc', 'wav_reader.cc', 'spectrogram.cc']))
