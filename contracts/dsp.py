"""Filtering, filter bank, ERB bands, Hann window, spectrogram framing (C14, C15, C16)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
from contracts.misc import *

# ---------------------------------------------------------------- C15
def df2t(b, a, x, z0):
    """direct form II transposed: y[m] and state z_j before sample m, as functions of m (and j)"""
    n = a.n
    kv, j = bv('I', 'k'), bv('I', 'j')
    def step():
        acc = lambda i: accref(kv, 0, (i,), 'F')
        xk = at(x, kv)
        y = fop('fadd', fop('fmul', at(b, ZERO), xk), acc(ZERO))
        j1 = add(j, ONE)
        new = fop('fsub', fop('fadd', fop('fmul', at(b, j1), xk), acc(j1)), fop('fmul', at(a, j1), y))
        return ite(and_(le(ZERO, j), lt(j1, n)), new, acc(j))
    init = ite(and_(le(ZERO, j), lt(j, z0.n)), at(z0, j), Fl(0.0))
    st = step()
    z = lambda m, i: T.mkfold(0, m, (i,), (1,), ('F',), [init], [st], kv, [[j]])
    y = lambda m: fop('fadd', fop('fmul', at(b, ZERO), at(x, m)), z(m, ZERO))
    return y, z
FLT = ('signal_filter.cc',)
@contract(V + 'SignalFilter::Filter', sources=FLT)
def _(c):
    b, a, x, z0 = [c.arg(i) for i in range(4)]
    c.req('at least one coefficient', lt(ZERO, a.n))
    c.req('as many numerator as denominator coefficients', le(a.n, b.n))
    c.req('one initial condition per delay', eq(z0.n, sub(a.n, ONE)))
    y, z = df2t(b, a, x, z0)
    c.result(SV(V + 'FilterResults', {'filteredSignal': mkseq(x.n, y), 'finalConditions': mkseq(sub(a.n, ONE), lambda j: z(x.n, j))}))

# ---------------------------------------------------------------- filter bank
GF = V + 'GammatoneFilterBank::'
GS = ('gammatone_filterbank.cc', 'signal_filter.cc', 'amatrix.cc')
CONDS = ['fltr_cond_%d_' % k for k in (1, 2, 3, 4)]
COEF = ['fltr_coeff_%s_' % k for k in ('A0', 'A11', 'A12', 'A13', 'A14', 'A2', 'B0', 'B1', 'B2', 'gain')]
def zerocond(n): return mkseq(n, lambda b: mkseq(I(2), lambda i: Fl(0.0)))
def condinv(n, f, v=None):
    b = bv('I', 'b')
    return and_(*[and_(eq(f(x).n, n), forall([b], implies(and_(le(ZERO, b), lt(b, n)), eq(at(f(x), b).n, I(2))))) for x in CONDS])
@contract(GF + 'GammatoneFilterBank', 'void (const size_t, const double)', sources=GS)
def _(c):
    n = c.arg(0)
    c.set('num_bands_', n); c.set('min_freq_', c.arg(1))
    for x in CONDS: c.set(x, zerocond(n))
@contract(GF + 'GetNumBands', sources=GS)
def _(c): c.result(c.t('num_bands_'))
@contract(GF + 'GetMinFreq', sources=GS)
def _(c): c.result(c.t('min_freq_'))
@contract(GF + 'ResetFilterConditions', sources=GS)
def _(c):
    for x in CONDS: c.set(x, zerocond(c.t('num_bands_')))
@contract(GF + 'SetFilterCoefficients', sources=GS)
def _(c):
    m = c.arg(0)
    c.req('ten columns', le(I(10), m.c))
    for k, x in enumerate(COEF):
        c.set(x, mkseq(m.r, lambda b, k=k: mat(m, b, I(k))))
def seq3(a, b, d): return mkseq(I(3), lambda i: ite(eq(i, ZERO), a, ite(eq(i, ONE), b, d)))
def cascade(co, cond, x, b):
    """four second order sections in series for band b: output sequence and the four final states"""
    g = lambda k: at(co('fltr_coeff_%s_' % k), b)
    den = seq3(g('B0'), g('B1'), g('B2'))
    finals = []
    for k in range(4):
        q = (lambda t: fop('fdiv', t, g('gain'))) if k == 0 else (lambda t: t)      # the first section carries the gain
        num = seq3(q(g('A0')), q(g('A1%d' % (k + 1))), q(g('A2')))
        y, z = df2t(num, den, x, at(cond(CONDS[k]), b))
        finals.append(mkseq(I(2), lambda j, z=z, n=x.n: z(n, j)))
        x = mkseq(x.n, y)
    return x, finals
@contract(GF + 'ApplyFilter', sources=GS, opaque=True)
def _(c):
    x, n = c.arg(0), c.t('num_bands_')
    c.req('state of every band', condinv(n, c.t))
    c.req('coefficients of every band', and_(*[le(n, c.t(k).n) for k in COEF]))
    c.result(mkmat(n, x.n, lambda b, m: at(cascade(c.t, c.t, x, b)[0], m)))
    for k in range(4): c.set(CONDS[k], mkseq(n, lambda b, k=k: cascade(c.t, c.t, x, b)[1][k]))
from contracts.registry import prop, lemma
prop('C15', [V + 'SignalFilter::Filter', GF + 'ApplyFilter', GF + 'SetFilterCoefficients', GF + 'ResetFilterConditions', GF + 'GammatoneFilterBank|void (const size_t, const double)', GF + 'GetNumBands', GF + 'GetMinFreq'],
     harness=dict(file='C15.cc', sources=['gammatone_filterbank.cc', 'signal_filter.cc', 'amatrix.cc']))

# ---------------------------------------------------------------- C14
WS = ('analysis_window.cc',)
def hann(i, n): return fop('fsub', Fl(0.5), fop('fmul', Fl(0.5), T.fn('cos', fop('fdiv', fop('fmul', Fl(2 * 3.141592653589793), i2f(i)), i2f(sub(n, ONE))))))
@contract(V + 'AnalysisWindow::AnalysisWindow', 'void (const size_t, const double, double)', sources=WS)
def _(c):
    w = T.fn('round', fop('fmul', i2f(c.arg(0)), c.arg(2)))
    c.req('a representable window length', and_(fcmp('lt', Fl(-1.0), w), fcmp('lt', w, Fl(18446744073709551616.0))))
    c.set('window_duration', c.arg(2)); c.set('overlap', c.arg(1)); c.set('size', fop('f2i', w))
    c.ens('size is a size', lambda p: and_(le(ZERO, p['size']), lt(p['size'], I(1 << 64))))
@contract(V + 'AnalysisWindow::ApplyHannWindow', sources=WS)
def _(c):
    x, n = c.arg(0), c.t('size')
    c.req('signal of the window size', eq(x.n, n))
    c.req('int window size', lt(n, I(1 << 31)))
    c.result(mkseq(n, lambda i: fop('fmul', hann(i, n), at(x, i))))

GB = V + 'GammatoneSpectrogramBuilder::'
BS = ('gammatone_spectrogram_builder.cc', 'gammatone_filterbank.cc', 'signal_filter.cc', 'amatrix.cc', 'analysis_window.cc', 'equivalent_rectangular_bandwidth.cc', 'complex_valarray.cc', 'spectrogram.cc')
from contracts import erb as _erb
from contracts.spectro import SRC as _S

def frames(sig, n, W, H): return add(ONE, idiv(sub(n, W), H))
@contract(GB + 'Build', sources=BS)
def _(c):
    sg, win = c.arg(0), c.arg(1)
    m, sr = sig(sg), rate(sg)
    W = win.f['size']; ov = win.f['overlap']
    fb = c.t('filter_bank_'); nb = fb.f['num_bands_']
    c.req('at least one channel', lt(ZERO, m.c))
    c.req('at least one band', lt(ZERO, nb))
    c.req('int window size', lt(W, I(1 << 31)))
    h = fop('fmul', i2f(W), ov)
    c.req('a representable hop', and_(fcmp('lt', Fl(-1.0), h), fcmp('lt', h, Fl(18446744073709551616.0))))
    H = fop('f2i', h)
    badhop = eq(H, ZERO)
    mx = ite(c.t('speech_mode_'), Fl(8000.0), fop('fdiv', i2f(sr), Fl(2.0)))
    fl = _erb.filters_of(sr, nb, fb.f['min_freq_'], mx)
    co = fl.f['filterCoeffs']
    bank = dict(fb.f)
    for k, x in enumerate(COEF): bank[x] = mkseq(nb, lambda b, k=k: at(at(co, I(k)), sub(sub(nb, ONE), b)))
    for x in CONDS: bank[x] = zerocond(nb)
    bank = SV(fb.type, bank)
    def power(b, i):
        fr = mkseq(W, lambda j: fop('fmul', hann(j, W), mat(m, add(mul(i, H), j), ZERO)))
        out = call_of(GF + 'ApplyFilter', (bank, fr), mkmat(nb, W, lambda r, q: Fl(0.0)))
        return fop('fdiv', fsum(W, lambda j: fop('fmul', mat(out, b, j), mat(out, b, j))), i2f(W))
    N = frames(m, m.r, W, H)
    spec = SV(V + 'Spectrogram', {'data_': mkmat(nb, N, lambda b, i: fop('fsqrt', power(b, i))), 'center_freq_bands_': mkseq(nb, lambda b: at(fl.f['centerFreqs'], sub(sub(nb, ONE), b)))})
    short_ = or_(badhop, le(m.r, W))
    c.ens('a signal of at most one window, or a window without hop, is refused with invalid-argument', lambda p: implies(short_, eq(p.res.f['status'].f['code'], I(3))))
    c.ens('a longer one is accepted', lambda p: implies(not_(short_), eq(p.res.f['status'].f['code'], ZERO)))
    c.ens('spectrogram as specified', lambda p: implies(not_(short_), veq_goal(spec, p.res.f['val'])))
    c.havoc('filter_bank_')
    c.ens('the configuration of the bank is kept', lambda p: and_(eq(p['filter_bank_.num_bands_'], nb), eq(p['filter_bank_.min_freq_'], fb.f['min_freq_'])))
prop('C14', [GB + 'Build', V + 'AnalysisWindow::AnalysisWindow|void (const size_t, const double, double)', V + 'AnalysisWindow::ApplyHannWindow', GF + 'ResetFilterConditions', GF + 'SetFilterCoefficients', V + 'SignalFilter::Filter', GF + 'ApplyFilter'],
     harness=dict(file='C14.cc', sources=['gammatone_spectrogram_builder.cc', 'gammatone_filterbank.cc', 'signal_filter.cc', 'amatrix.cc', 'analysis_window.cc', 'equivalent_rectangular_bandwidth.cc', 'complex_valarray.cc', 'spectrogram.cc']))
