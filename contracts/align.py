"""Global alignment (C25, C26), lag search (C27), Fourier wrapper (C28), envelope (C29)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
from contracts.misc import *
from contracts.fft import *
AS = ('alignment.cc', 'amatrix.cc', 'envelope.cc', 'xcorr.cc')
SMALL = I(1 << 30)
def tup(*v): return SV('tuple', {str(i): x for i, x in enumerate(v)})
def colvec(m): return and_(eq(m.c, ONE), lt(ZERO, m.r), lt(m.r, I(1 << 29)))
def env_of(m): return call_of(V + 'Envelope::CalcUpperEnv', (m,), mkmat(m.r, ONE, lambda r, c: Fl(0.0)))
def lag_of(a, b): return call_of(V + 'XCorr::FindLowestLagIndex', (a, b), bv('I', 'lag'))
FT = AS + ('fast_fourier_transform.cc', 'fft_manager.cc', 'misc_math.cc', 'misc_vector.cc')
def hilbert_scale(n, M, j):
    """0 Hz kept, bins below the middle doubled, the rest dropped (as written for the parity of n)"""
    odd = eq(imod(n, TWO), ONE)
    upto = ite(odd, idiv(add(M, ONE), TWO), idiv(M, TWO))
    return ite(and_(le(ONE, j), lt(j, upto)), Fl(2.0), ite(and_(eq(j, idiv(n, TWO))), ite(odd, Fl(2.0), Fl(1.0)), ite(eq(j, ZERO), Fl(1.0), Fl(0.0))))
def fft_len(n): return imax(call_of(V + 'MiscMath::NextPowTwo', (n,), bv('I', 'p')), I(32))
def hilbert(x, n):
    """(real) inverse transform of the one-sided spectrum of x(0..n-1)"""
    M = fft_len(n)
    X = spectrum(x, n, M)
    sc = lambda v, k: cplx(fop('fmul', v.f['re'], k), fop('fmul', v.f['im'], k))
    return inverse(lambda b: sc(mat(X, b, ZERO), hilbert_scale(n, M, b)), n, M)
@contract(V + 'Envelope::Hilbert', sources=FT, opaque=True)
def _(c):
    x = c.arg(0)
    c.req('a non-empty column', colvec(x))
    f = hilbert(lambda i: mat(x, i, ZERO), x.r)
    c.result(mkmat(x.r, ONE, lambda r, k: cplx(f(r), Fl(0.0))))
def hilbert_of(m): return call_of(V + 'Envelope::Hilbert', (m,), mkmat(m.r, ONE, lambda r, k: cplx(Fl(0.0), Fl(0.0))))
@contract(V + 'Envelope::CalcUpperEnv', sources=FT, opaque=True)
def _(c):
    m = c.arg(0)
    c.req('a non-empty column', colvec(m))
    mu = fop('fdiv', fsum(numel(m), lambda k: el(m, k)), i2f(numel(m)))
    h = hilbert_of(mkmat(m.r, ONE, lambda r, k: nsub(mat(m, r, ZERO), mu)))
    c.result(mkmat(m.r, ONE, lambda r, k: nadd(nabs(mat(h, r, ZERO)), mu)))
def corr_len(n):
    """transform size: the power of two above 2n - 1 (so that no lag wraps around), at least 32"""
    return imax(T.app('pow2', (T.app('blen', (sub(mul(TWO, n), ONE),), 'I'),), 'I'), I(32))
def zeroed(x, n): return lambda i: ite(lt(i, n), x(i), Fl(0.0))
def xspec(x, n, y, m, N):
    """spectrum of x times the conjugated spectrum of y"""
    X, Y = spectrum(zeroed(x, n), N, N), spectrum(zeroed(y, m), N, N)
    return mkmat(N, ONE, lambda b, k: nmul(mat(X, b, ZERO), conj(mat(Y, b, ZERO))))
def conj(z): return cplx(z.f['re'], fop('fneg', z.f['im']))
def col(m): return lambda i: mat(m, i, ZERO)
def xcorr(a, b, N):
    P = xspec(col(a), a.r, col(b), b.r, N)
    return mkseq(N, inverse(lambda k: mat(P, k, ZERO), N, N))
def xcorr_of(a, b):
    N = corr_len(imax(a.r, b.r))
    return call_of(V + 'XCorr::InverseFFTPointwiseProduct', (a, b), mkseq(N, lambda i: Fl(0.0)))
@contract(V + 'XCorr::FFTPointwiseProduct', sources=FT + ('xcorr.cc',))
def _(c):
    x, y, m, n = c.arg(0), c.arg(1), mgr(c, 2), c.arg(3)
    c.req('a transform manager', manager_ok(c, m))
    c.req('one channel that holds the zero-padded signals', and_(eq(n, chan(m)), eq(n, size_of(m)), lt(n, I(1 << 40)), le(x.n, n), le(y.n, n), le(ONE, x.n), le(ONE, y.n)))
    buffers(c, 2)
    c.result(xspec(lambda i: at(x, i), x.n, lambda i: at(y, i), y.n, size_of(m)))
@contract(V + 'XCorr::InverseFFTPointwiseProduct', sources=FT + ('xcorr.cc',), opaque=True)
def _(c):
    a, b = c.arg(0), c.arg(1)
    c.req('non-empty columns', and_(colvec(a), colvec(b)))
    N = corr_len(imax(a.r, b.r))
    c.result(xcorr(a, b, N))
    c.ens('no lag wraps around', lambda p: lt(sub(mul(TWO, imax(a.r, b.r)), ONE), p.res.n))
@contract(V + 'XCorr::FindLowestLagIndex', sources=FT + ('xcorr.cc',), opaque=True)
def _(c):
    a, b = c.arg(0), c.arg(1)
    c.req('non-empty columns', and_(colvec(a), colvec(b)))
    top = sub(imax(a.r, b.r), ONE)
    q = xcorr_of(a, b)
    corr = lambda L: at(q, ite(lt(L, ZERO), add(q.n, L), L))
    c.result(sub(argbest(add(mul(TWO, top), ONE), lambda i, j: fcmp('lt', corr(sub(j, top)), corr(sub(i, top)))), top))
    c.ens('a lag below the longer length', lambda p: and_(lt(neg(imax(a.r, b.r)), p.res), lt(p.res, imax(a.r, b.r))))
def detected(ref, deg):
    """the lag GloballyAlign acts on: zero if it does not"""
    L = lag_of(env_of(ref), env_of(deg))
    mag = ite(le(ZERO, L), L, neg(L))
    return ite(or_(eq(L, ZERO), fcmp('lt', fop('fdiv', i2f(ref.r), Fl(2.0)), i2f(mag)), le(deg.r, neg(L))), ZERO, L)
def shifted(deg, L):
    """deg with L zeros in front, or without its first -L samples"""
    return mkmat(add(deg.r, L), ONE, lambda r, k: ite(lt(r, L), Fl(0.0), mat(deg, sub(r, L), ZERO)))
def lag_time(L, sr): return fop('fdiv', i2f(L), i2f(sr))           # exactly 0 for L = 0
@contract(V + 'Alignment::GloballyAlign', sources=AS)
def _(c):
    ref, deg = c.arg(0), c.arg(1)
    c.req('non-empty mono signals', and_(colvec(sig(ref)), colvec(sig(deg))))
    c.req('a sample rate', and_(lt(ZERO, rate(deg)), lt(rate(deg), SMALL)))
    L = detected(sig(ref), sig(deg))
    c.result(tup(audio(shifted(sig(deg), L), rate(deg)), lag_time(L, rate(deg))))
    c.ens('a lag below the lengths', lambda p: and_(lt(neg(SMALL), L), lt(L, SMALL)))
def part(m, s, n): return mkmat(n, ONE, lambda r, k: mat(m, add(s, r), ZERO))
def truncated(ref, deg):
    """(reference, degraded, lag): both from the first common to the last common instant"""
    n, L = ref.r, detected(ref, deg)
    d = shifted(deg, L)
    s = ite(lt(n, d.r), imax(ZERO, L), ZERO)
    e = imin(n, d.r)
    return part(ref, s, sub(e, s)), part(d, s, sub(e, s)), L
@contract(V + 'Alignment::AlignAndTruncate', sources=AS, opaque='sizes')
def _(c):
    ref, deg = c.arg(0), c.arg(1)
    c.req('non-empty mono signals', and_(colvec(sig(ref)), colvec(sig(deg))))
    c.req('a sample rate', and_(lt(ZERO, rate(deg)), lt(rate(deg), SMALL)))
    a, b, L = truncated(sig(ref), sig(deg))
    c.result(tup(audio(a, rate(ref)), audio(b, rate(deg)), lag_time(L, rate(deg))))
    c.ens('equal, non-zero length', lambda p: and_(eq(sig(p.res.f['0']).r, sig(p.res.f['1']).r), lt(ZERO, sig(p.res.f['0']).r), eq(sig(p.res.f['0']).c, ONE), eq(sig(p.res.f['1']).c, ONE), eq(rate(p.res.f['0']), rate(ref)), eq(rate(p.res.f['1']), rate(deg))))
from contracts.registry import prop, lemma, COMPARE
from dv.exec import Oblig
@lemma('C26.roundtrip')
def _():
    """the fact dv/smt.py uses for s * (L / s): both operations are correctly rounded, so the result is L(1+d1)(1+d2) with |d1|, |d2| <= 2^-53"""
    L, d1, d2 = T.var('L', 'F'), T.var('d1', 'F'), T.var('d2', 'F')
    o = Fl(1.0); u = Fl(2.0 ** -53); z = Fl(0.0); B = Fl(2.0 ** 30)
    le_ = lambda a, b: fcmp('le', a, b); lt_ = lambda a, b: fcmp('lt', a, b)
    rng = lambda x, b: and_(le_(fop('fneg', b), x), le_(x, b))
    q = fop('fmul', L, fop('fadd', o, d1)); e1 = fop('fmul', L, d1); e2 = fop('fmul', q, d2)
    base = [rng(L, B), rng(d1, u), rng(d2, u)]
    lem = lambda facts, goal, msg: Oblig('lemma', (), tuple(facts), goal, '', msg, 'C26.roundtrip')
    return [lem(base, rng(e1, Fl(2.0 ** -22)), 'the rounding of L / s moves s (L / s) by at most 2^-22'),
            lem(base + [rng(e1, Fl(2.0 ** -22)), eq(q, fop('fadd', L, e1))], rng(e2, Fl(2.0 ** -22)), 'the rounding of the product moves it by at most 2^-22'),
            lem([rng(e1, Fl(2.0 ** -22)), rng(e2, Fl(2.0 ** -22))], and_(lt_(fop('fadd', e1, e2), Fl(0.5)), lt_(Fl(-0.5), fop('fadd', e1, e2))), 'so the nearest integer is L'),
            lem(base + [lt_(z, L)], lt_(z, q), 'a positive lag stays positive'), lem(base + [lt_(L, z)], lt_(q, z), 'a negative lag stays negative')]
LAGS = ['the envelope and the lag search are taken at their contracts (C27, C29); lengths are below 2^29 samples and the sample rate below 2^30']
prop('C25', [V + 'Alignment::GloballyAlign'], sources=FT + ('xcorr.cc',), harness=dict(file='C25.cc', sources=COMPARE), assumptions=LAGS)
prop('C26', [V + 'Alignment::AlignAndTruncate', V + 'Alignment::GloballyAlign'], sources=FT + ('xcorr.cc',), harness=dict(file='C26.cc', sources=COMPARE), lemmas=['C26.roundtrip'], assumptions=LAGS)
PFFFT = ["pffft's transforms are the discrete Fourier transform and its inverse of the array they are given (uninterpreted functions of size and contents); its allocations succeed"]
prop('C27', [V + 'XCorr::' + k for k in ('FindLowestLagIndex', 'InverseFFTPointwiseProduct', 'FFTPointwiseProduct')], harness=dict(file='C27.cc', sources=COMPARE),
     assumptions=PFFFT + ['the circular cross-correlation is the inverse transform of one spectrum times the conjugate of the other (cross-correlation theorem)', 'signals are shorter than 2^29 samples'])
prop('C28', [V + 'MiscMath::NextPowTwo', FM + '::SimdScalarMultiply'] + [c.key for n in ('Forward1d', 'Inverse1d', 'Inverse1dConjSym') for c in REG[FFT + n]], harness=dict(file='C28.cc', sources=COMPARE),
     assumptions=PFFFT + ['a transform manager in use satisfies the invariant its constructor establishes (proved where this code base constructs one: C27, C29)'])
prop('C29', [V + 'Envelope::CalcUpperEnv', V + 'Envelope::Hilbert'], harness=dict(file='C29.cc', sources=COMPARE), assumptions=PFFFT)
