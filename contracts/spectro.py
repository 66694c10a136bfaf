"""Spectrogram values and their preparation for comparison (C13), 2-D convolution (C12)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
SRC = ('spectrogram.cc',)
V = 'Visqol::'
EPS = Fl(2.220446049250313e-16)

def to_db(x):
    a = fop('fabs', x)
    return fop('fmul', Fl(10.0), T.fn('log10', ite(fcmp('eq', a, Fl(0.0)), EPS, a)))
def colmax(m, c):
    """largest value of column c (the first one among equals)"""
    return mat(m, argbest(m.r, lambda i, j: fcmp('lt', mat(m, j, c), mat(m, i, c))), c)
def best_ix(n, val, low=True):
    f = (lambda i, j: fcmp('lt', val(i), val(j))) if low else (lambda i, j: fcmp('lt', val(j), val(i)))
    return argbest(n, f)
def mat_min(m):
    n = mul(m.r, m.c)
    el = lambda i: mat(m, lin_r(m.r, m.c, i), lin_c(m.r, m.c, i))
    return el(best_ix(n, el))
def raised(m, fl): return mkmat(m.r, m.c, lambda r, c: fmax2(fl, mat(m, r, c)))
def db_mat(m): return mkmat(m.r, m.c, lambda r, c: to_db(mat(m, r, c)))
def floored(m, fl): return mkmat(m.r, m.c, lambda r, c: fop('fsub', mat(m, r, c), fl))
def frame_floor(a, b, thr, c): return fop('fsub', fmax2(colmax(a, c), colmax(b, c)), thr)
def per_frame(a, b, thr):
    """a and b raised per common frame to thr below the louder peak"""
    k = imin(a.c, b.c)
    g = lambda m: mkmat(m.r, m.c, lambda r, c: ite(lt(c, k), fmax2(frame_floor(a, b, thr, c), mat(m, r, c)), mat(m, r, c)))
    return g(a), g(b)
nonempty = lambda m: and_(lt(ZERO, m.r), lt(ZERO, m.c))

@contract(V + 'Spectrogram::Spectrogram', 'void (AMatrix<double> &&)', sources=SRC)
def _(c):
    c.set('data_', c.arg(0)); c.havoc('#0')
@contract(V + 'Spectrogram::Data', sources=SRC)
def _(c): c.result_ref(c.place('data_'))
@contract(V + 'Spectrogram::SetCenterFreqBands', sources=SRC)
def _(c): c.set('center_freq_bands_', c.arg(0))
@contract(V + 'Spectrogram::GetCenterFreqBands', sources=SRC)
def _(c): c.result(c.t('center_freq_bands_'))
@contract(V + 'Spectrogram::ConvertSampleToDb', sources=SRC)
def _(c): c.result(to_db(c.arg(0)))
@contract(V + 'Spectrogram::ConvertToDb', sources=SRC)
def _(c): c.set('data_', db_mat(c.t('data_')))
@contract(V + 'Spectrogram::Minimum', sources=SRC)
def _(c):
    c.req('non-empty', nonempty(c.t('data_')))
    c.result(mat_min(c.t('data_')))
@contract(V + 'Spectrogram::SubtractFloor', sources=SRC)
def _(c): c.set('data_', floored(c.t('data_'), c.arg(0)))
@contract(V + 'Spectrogram::RaiseFloor', sources=SRC)
def _(c): c.set('data_', raised(c.t('data_'), c.arg(0)))
@contract(V + 'Spectrogram::RaiseFloorPerFrame', sources=SRC)
def _(c):
    a, b = c.t('data_'), c.arg(1).f['data_']
    c.req('frames are not empty', and_(lt(ZERO, a.r), lt(ZERO, b.r)))
    x, y = per_frame(a, b, c.arg(0))
    c.set('data_', x); c.set('#1.data_', y)

def prepared(ref, deg):
    F = Fl(-45.0)
    a, b = per_frame(raised(db_mat(ref), F), raised(db_mat(deg), F), Fl(45.0))
    lo = fmin2(mat_min(a), mat_min(b))
    return floored(a, lo), floored(b, lo)
@contract(V + 'MiscAudio::PrepareSpectrogramsForComparison', sources=('misc_audio.cc',), opaque=True)
def _(c):
    a, b = c.arg(0).f['data_'], c.arg(1).f['data_']
    c.req('both spectrograms have values', and_(nonempty(a), nonempty(b)))
    x, y = prepared(a, b)
    c.set('#0.data_', x); c.set('#1.data_', y)

from contracts.registry import prop
S_ = [V + 'Spectrogram::' + n for n in ('ConvertSampleToDb', 'ConvertToDb', 'Minimum', 'SubtractFloor', 'RaiseFloor', 'RaiseFloorPerFrame')]
prop('C13', [V + 'MiscAudio::PrepareSpectrogramsForComparison', V + 'Spectrogram::Data'] + S_, sources=('amatrix.cc',),
     harness=dict(file='C13.cc', sources=['misc_audio.cc', 'spectrogram.cc', 'amatrix.cc', 'misc_math.cc', 'wav_reader.cc']))

# ---------------------------------------------------------------- C12
CV = V + 'Convolution2D<double>::'
CS = ('convolution_2d.cc', 'amatrix.cc')
def clampix(i, n): return imax(ZERO, imin(i, sub(n, ONE)))
def conv2d(f, m):
    """'same' convolution with replicated borders for a 3x3 filter: sum in the code's order (columns outer)"""
    def el(r, c):
        s = Fl(0.0)
        for fc in range(3):
            for fr in range(3):
                s = fop('fadd', s, fop('fmul', mat(m, clampix(add(r, I(fr - 1)), m.r), clampix(add(c, I(fc - 1)), m.c)), mat(f, I(2 - fr), I(2 - fc))))
        return s
    return mkmat(m.r, m.c, el)
def smallm(m): return and_(lt(ZERO, m.r), lt(ZERO, m.c), lt(m.r, I(1 << 14)), lt(m.c, I(1 << 16)))
@contract(CV + 'CopyMatrixWithinPadding', sources=CS)
def _(c):
    m = c.arg(0); a, b, d, e = [c.arg(i) for i in range(1, 5)]
    c.req('small padding', and_(*[lt(x, I(1 << 16)) for x in (a, b, d, e)]))
    c.req('size', smallm(m))
    inn = lambda r, q: and_(le(a, r), lt(r, add(a, m.r)), le(d, q), lt(q, add(d, m.c)))
    c.result(mkmat(add(m.r, a, b), add(m.c, d, e), lambda r, q: ite(inn(r, q), mat(m, sub(r, a), sub(q, d)), Fl(0.0))))
@contract(CV + 'AddMatrixBoundary', sources=CS)
def _(c):
    m = c.arg(0)
    c.req('not empty', smallm(m))
    c.havoc('#0')
    c.result(mkmat(add(m.r, I(2)), add(m.c, I(2)), lambda r, q: mat(m, clampix(sub(r, ONE), m.r), clampix(sub(q, ONE), m.c))))
@contract(CV + 'Valid2DConvWithBoundary', sources=CS, opaque=True)
def _(c):
    f, m = c.arg(0), c.arg(1)
    c.fix('3 filter rows', f.r, I(3)); c.fix('3 filter columns', f.c, I(3))
    c.req('not empty', smallm(m))
    c.result(conv2d(f, m))
prop('C12', [CV + n for n in ('Valid2DConvWithBoundary', 'AddMatrixBoundary', 'CopyMatrixWithinPadding')],
     harness=dict(file='C12.cc', sources=['convolution_2d.cc', 'amatrix.cc']),
     assumptions=['smoothed matrices have fewer than 2^14 rows and 2^16 columns (patches are 21 or 32 bands by 20 or 30 frames)'])
