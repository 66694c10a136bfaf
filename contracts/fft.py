"""Fourier wrapper (C28): FftManager, AudioChannel and FastFourierTransform around pffft, whose
transforms are uninterpreted functions of (size, input array, output index)."""
from dv.contract import *
from dv.lib import *
from dv.exec import INVARIANT
from dv import terms as T
from contracts.misc import *
FS = ('fast_fourier_transform.cc', 'fft_manager.cc', 'amatrix.cc', 'misc_math.cc')
FM = V + 'FftManager'
FFT = V + 'FastFourierTransform::'
TWO = I(2)
def _channel(e, st, path, f, size=None):
    n = size if size is not None else f('#n', path + '.n', (), 'I')
    iv = bv('I', 'i')
    c = 'h:' + path
    st.vars[c] = Seq(n, iv, T.app(path + '[]', (iv,), 'F'))
    return SV(V + 'AudioChannel', {'alligned_buffer_': It(LV(c), ZERO), 'begin_itr_': It(LV(c), ZERO), 'size_': n})
INVARIANT[V + 'AudioChannel'] = _channel
def _manager(e, st, path, f):
    """what the constructor establishes: an even transform size of at least 32 that holds the channel, buffers of the right sizes"""
    h = T.var(path + '.half', 'I'); n = T.var(path + '.samples', 'I')
    N = mul(TWO, h)
    e.gfact(and_(le(I(16), h), le(h, I(1 << 30)), le(ZERO, n), le(n, N)))
    st.vars['h:' + path + '.fft_'] = SV('PFFFT_Setup', {'N': N})
    iv = bv('I', 'i'); st.vars['h:' + path + '.work'] = Seq(mul(TWO, N), iv, T.app(path + '.work[]', (iv,), 'F'))
    return SV(FM, {'fft_size_': N, 'samples_per_channel_': n, 'inverse_fft_scale_': scale(N), 'fft_': Ptr(LV('h:' + path + '.fft_'), FALSE),
                   'time_channel_': _channel(e, st, path + '.time', f, n), 'freq_channel_': _channel(e, st, path + '.freq', f, N),
                   'pffft_workspace_': It(LV('h:' + path + '.work'), ZERO, False, le(N, I(16384)))})
INVARIANT[FM] = _manager
def r32(x): return fop('fround32', x)
def scale(N): return r32(fop('fdiv', Fl(1.0), r32(i2f(N))))
def size_of(m): return m.f['fft_size_']
def chan(m): return m.f['samples_per_channel_']
def padded(x, n, N): return mkseq(N, lambda i: ite(lt(i, n), r32(x(i)), Fl(0.0)))
def fwd(N, q, i): return T.app('pffft.ordered0', (N, handle(q), i), 'F')
def np2(n): return T.app('nextpow2', (n,), 'I')
@contract(V + 'MiscMath::NextPowTwo', sources=('misc_math.cc',), opaque=True)
def _(c):
    n = c.arg(0)
    c.req('1 <= n <= 2^31', and_(le(ONE, n), le(n, I(1 << 31))))
    c.ens('at least n', lambda p: le(n, p.res))
    c.ens('below 2 n', lambda p: lt(p.res, mul(TWO, n)))
    c.ens('a power of two', lambda p: ispow2(p.res))
    c.ens('a power of two is kept', lambda p: implies(ispow2(n), eq(p.res, n)))
    c.ens('a multiple of 32 above 31', lambda p: implies(le(I(32), p.res), eq(imod(p.res, I(32)), ZERO)))
    c.ens('even above 1', lambda p: implies(lt(ONE, n), eq(imod(p.res, TWO), ZERO)))
for m in ('FreqFromTimeDomain', 'TimeFromFreqDomain', 'ApplyReverseFftScaling', 'GetPffftFormatFreqBuffer', 'FftManager', 'GetFftSize', 'GetSamplesPerChannel', 'GetTimeChannel', 'GetFreqChannel'):
    contract(FM + '::' + m, inline=True)(lambda c: None)
def spectrum(x, n, N):
    """all N bins of the transform of n samples: bins above Nyquist are those below, conjugated"""
    X = padded(x, n, N); H = idiv(N, TWO)
    F = lambda i: fwd(N, X, i)
    def el(j, k):
        up = lt(H, j); b = ite(up, sub(N, j), j)
        im = F(add(mul(TWO, b), ONE))
        edge = or_(eq(j, ZERO), eq(j, H))
        return cplx(ite(eq(j, H), F(ONE), F(mul(TWO, b))), ite(edge, Fl(0.0), ite(up, fop('fmul', im, Fl(-1.0)), im)))
    return mkmat(N, ONE, el)
def manager_ok(c, m):
    """the class invariant (established by the constructor, which callers execute)"""
    N, n = size_of(m), chan(m)
    ld = lambda v: c.e.load(c.st, v.lv)
    def ch(a, k):
        b, al = a.f['begin_itr_'], a.f['alligned_buffer_']
        if not isinstance(b, It) or not isinstance(al, It) or not b.lv.same(al.lv): raise Unsupported('audio channel without its buffer')
        return and_(eq(b.pos, ZERO), not_(b.null), eq(ld(b).n, k), eq(a.f['size_'], k))
    w = m.f['pffft_workspace_']
    return and_(ch(m.f['time_channel_'], n), ch(m.f['freq_channel_'], N), eq(ld(m.f['fft_']).f['N'], N), not_(m.f['fft_'].null), eq(m.f['inverse_fft_scale_'], scale(N)),
                or_(w.null, and_(eq(w.pos, ZERO), le(N, ld(w).n))) if isinstance(w, It) else w.null,
                eq(imod(N, TWO), ZERO), le(I(32), N), le(N, I(1 << 31)), le(ZERO, n), le(n, N))
def mgr(c, i=0): return c.e.load(c.st, c.raw(i).lv)
def buffers(c, i=0):
    c.clobber('#%d.time_channel_.begin_itr_.*' % i); c.clobber('#%d.freq_channel_.begin_itr_.*' % i)
@contract(FFT + 'Forward1d', '(const std::unique_ptr<FftManager> &, const AMatrix<double> &)', sources=FS)
def _(c):
    m, x = mgr(c), c.arg(1)
    c.req('a transform manager', manager_ok(c, m))
    c.req('a column that fills the channel', and_(eq(x.c, ONE), le(chan(m), x.r)))
    buffers(c)
    c.result(spectrum(lambda i: mat(x, i, ZERO), chan(m), size_of(m)))

@contract(FFT + 'Forward1d', '(const std::unique_ptr<FftManager> &, const AMatrix<double> &, const size_t)', sources=FS)
def _(c):
    m, x, pts = mgr(c), c.arg(1), c.arg(2)
    c.req('a transform manager', manager_ok(c, m))
    c.req('a column; enough points to fill the channel', and_(eq(x.c, ONE), le(chan(m), pts), lt(x.r, I(1 << 40)), lt(pts, I(1 << 40))))
    buffers(c)
    c.result(spectrum(lambda i: ite(lt(i, x.r), mat(x, i, ZERO), Fl(0.0)), chan(m), size_of(m)))
@contract(FM + '::SimdScalarMultiply', sources=('fft_manager.cc',))
def _(c):
    n, g, i, o = c.arg(0), c.arg(1), c.raw(2), c.raw(3)
    q = c.e.load(c.st, i.lv)
    c.req('in place, whole array', and_(eq(i.pos, ZERO), eq(o.pos, ZERO), eq(q.n, n)))
    if not i.lv.same(o.lv): raise Unsupported('SimdScalarMultiply between different arrays')
    c.set('#3.*', mkseq(q.n, lambda k: r32(fop('fmul', at(q, k), g))))
def _in_place(e, st):
    n, iv = T.var('length', 'I'), bv('I', 'i')
    e.gfact(and_(le(ZERO, n), le(n, I(1 << 40))))
    lv = e.alloc(st, Seq(n, iv, T.app('samples', (iv,), 'F')), 'buffer')
    return [n, T.var('gain', 'F'), It(lv, ZERO), It(lv, ZERO)]
REG[FM + '::SimdScalarMultiply'][0].setup = _in_place
def back(N, q, i): return T.app('pffft.internal1', (N, handle(q), i), 'F')
def zre(N, q, i): return T.app('pffft.zreorder1', (N, handle(q), i), 'F')
def inverse(F, n, N):
    """n samples of the inverse transform of the bins F(0..N/2), scaled by 1/N"""
    def packed(i):
        b = idiv(i, TWO); z = F(b)
        return r32(ite(eq(i, ONE), F(idiv(N, TWO)).f['re'], ite(eq(imod(i, TWO), ZERO), z.f['re'], z.f['im'])))
    P = mkseq(N, packed)
    Z = mkseq(N, lambda i: zre(N, P, i))
    return lambda j: r32(fop('fmul', back(N, Z, j), scale(N)))
@contract(FFT + 'Inverse1d', sources=FS)
def _(c):
    m, X = mgr(c), c.arg(1)
    N = size_of(m)
    c.req('a transform manager', manager_ok(c, m))
    c.req('a column with all bins up to Nyquist', and_(eq(X.c, ONE), lt(idiv(N, TWO), X.r), le(ONE, chan(m))))
    buffers(c)
    f = inverse(lambda b: mat(X, b, ZERO), chan(m), N)
    c.result(mkmat(chan(m), ONE, lambda j, k: cplx(f(j), Fl(0.0))))
@contract(FFT + 'Inverse1dConjSym', sources=FS)
def _(c):
    m, X = mgr(c), c.arg(1)
    N = size_of(m)
    c.req('a transform manager', manager_ok(c, m))
    c.req('a column with all bins up to Nyquist', and_(eq(X.c, ONE), lt(idiv(N, TWO), X.r), le(ONE, chan(m))))
    buffers(c)
    f = inverse(lambda b: mat(X, b, ZERO), chan(m), N)
    c.result(mkmat(chan(m), ONE, lambda j, k: f(j)))
