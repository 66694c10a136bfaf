"""The comparison pipeline and its per-band statistics (C10, C31)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
V = 'Visqol::'
VS = ('visqol.cc', 'amatrix.cc')
VQ = V + 'Visqol::'
def means(v, i): return at(v, i).f['freq_band_means']
def stds(v, i): return at(v, i).f['freq_band_stddevs']
def energy(v, i): return at(v, i).f['freq_band_deg_energy']
def nbands(v): return means(v, ZERO).r
def uniform(v, get, n):
    i = bv('I', 'i')
    return and_(lt(ZERO, v.n), forall([i], implies(and_(le(ZERO, i), lt(i, v.n)), and_(eq(get(v, i).r, n), eq(get(v, i).c, ONE)))))
def mean_over(v, get, n): return mkmat(n, ONE, lambda b, c: fop('fdiv', fsum(v.n, lambda i: mat(get(v, i), b, ZERO)), i2f(v.n)))
def sorted_(s, i): return T.app('sorted', (handle(s), i), 'F')
@contract(VQ + 'CalcPerPatchMeanFreqBandMeans', sources=VS)
def _(c):
    v = c.arg(0)
    c.req('patches with equal bands', uniform(v, means, nbands(v)))
    c.result(mean_over(v, means, nbands(v)))
@contract(VQ + 'CalcPerPatchMeanFreqBandDegradedEnergy', sources=VS)
def _(c):
    v = c.arg(0); n = energy(v, ZERO).r
    c.req('patches with equal bands', uniform(v, energy, n))
    c.result(mean_over(v, energy, n))
def quantile(v, q):
    k = imax(ONE, fop('f2i', fop('fmul', i2f(v.n), q)))
    def el(b, c):
        s = mkseq(v.n, lambda i: mat(means(v, i), b, ZERO))
        return fop('fdiv', fsum(k, lambda i: sorted_(s, i)), i2f(k))
    return mkmat(nbands(v), ONE, el)
@contract(VQ + 'CalcPerPatchFreqBandQuantile', sources=VS)
def _(c):
    v, q = c.arg(0), c.arg(1)
    c.req('patches with equal bands', uniform(v, means, nbands(v)))
    c.req('int number of patches and bands', and_(lt(v.n, I(1 << 31)), lt(nbands(v), I(1 << 31))))
    c.req('quantile', and_(fcmp('lt', Fl(0.0), q), fcmp('lt', q, Fl(1.0))))
    c.result(quantile(v, q))
def frames(v, i, fd): return fop('f2i', fop('ceil', fop('fdiv', fop('fsub', at(v, i).f['ref_patch_end_time'], at(v, i).f['ref_patch_start_time']), fd)))
def pooled(v, fd):
    m = mean_over(v, means, nbands(v))
    def el(b, c):
        tot = fold1(v.n, ZERO, lambda k, a: add(a, frames(v, k, fd)))
        def step(i, acc):
            n = frames(v, i, fd); s, mu = mat(stds(v, i), b, ZERO), mat(means(v, i), b, ZERO)
            return fop('fadd', fop('fadd', acc, fop('fmul', fop('fmul', i2f(sub(n, ONE)), s), s)), fop('fmul', fop('fmul', i2f(n), mu), mu))
        con = fold1(v.n, Fl(0.0), step)
        mm = mat(m, b, ZERO)
        d = fop('fdiv', fop('fsub', con, fop('fmul', fop('fmul', mm, mm), i2f(tot))), i2f(sub(tot, ONE)))
        return ite(fcmp('lt', d, Fl(0.0)), Fl(0.0), fop('fsqrt', d))
    return mkmat(nbands(v), ONE, el)
@contract(VQ + 'CalcPerPatchMeanFreqBandStdDevs', sources=VS)
def _(c):
    v, fd = c.arg(0), c.arg(1)
    c.req('patches with equal bands', and_(uniform(v, means, nbands(v)), uniform(v, stds, nbands(v))))
    i = bv('I', 'i')
    c.req('number of patches', lt(v.n, I(1 << 16)))
    x = lambda i: fop('ceil', fop('fdiv', fop('fsub', at(v, i).f['ref_patch_end_time'], at(v, i).f['ref_patch_start_time']), fd))
    c.req('frame counts', forall([i], implies(and_(le(ZERO, i), lt(i, v.n)), and_(fcmp('lt', Fl(-1.0), x(i)), fcmp('lt', x(i), Fl(16384.0)), le(ZERO, frames(v, i, fd)), le(frames(v, i, fd), I(16384))))))
    c.result(pooled(v, fd))
from contracts.registry import OPTS
OPTS[VQ + 'CalcPerPatchMeanFreqBandStdDevs'] = dict(bounds=[16384])
@contract(VQ + 'CalcFrameDuration', sources=VS)
def _(c): c.result(fop('fdiv', i2f(c.arg(0)), i2f(c.arg(1))))
from contracts.registry import prop, COMPARE
prop('C10', [VQ + k for k in ('CalcPerPatchMeanFreqBandMeans', 'CalcPerPatchFreqBandQuantile', 'CalcPerPatchMeanFreqBandStdDevs', 'CalcPerPatchMeanFreqBandDegradedEnergy', 'CalcFrameDuration')],
     sources=('amatrix.cc',), harness=dict(file='C10.cc', sources=COMPARE))
