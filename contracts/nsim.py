"""NSIM patch similarity (C11)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
from contracts.spectro import conv2d, smallm
V = 'Visqol::'
NS = ('neurogram_similiarity_index_measure.cc', 'convolution_2d.cc', 'amatrix.cc')
CORNER, EDGE, MID = Fl(0.0113033910173052), Fl(0.0838251475442633), Fl(0.619485845753726)
def gauss():
    def el(r, c):
        e, m = eq(r, ONE), eq(c, ONE)
        return ite(and_(e, m), MID, ite(or_(e, m), EDGE, CORNER))
    return mkmat(I(3), I(3), el)
def simmap(ref, deg, L):
    c1 = fpow(fop('fmul', Fl(0.01), L), Fl(2.0))
    c3 = fop('fdiv', fpow(fop('fmul', Fl(0.03), L), Fl(2.0)), Fl(2.0))
    pt = lambda a, b: mkmat(a.r, a.c, lambda r, c: fop('fmul', mat(a, r, c), mat(b, r, c)))
    g = gauss()
    cv = lambda m: call_of(V + 'Convolution2D<double>::Valid2DConvWithBoundary', (g, m), mkmat(m.r, m.c, lambda r, c: Fl(0.0)))
    mr, md, rr, dd, rd = cv(ref), cv(deg), cv(pt(ref, ref)), cv(pt(deg, deg)), cv(pt(ref, deg))
    def el(r, c):
        a, b = mat(mr, r, c), mat(md, r, c)
        aa, bb, ab = fop('fmul', a, a), fop('fmul', b, b), fop('fmul', a, b)
        s2r, s2d, srd = fop('fsub', mat(rr, r, c), aa), fop('fsub', mat(dd, r, c), bb), fop('fsub', mat(rd, r, c), ab)
        inten = fop('fdiv', fop('fadd', fop('fmul', ab, Fl(2.0)), c1), fop('fadd', fop('fadd', aa, bb), c1))
        p = fop('fmul', s2r, s2d)
        struct = fop('fdiv', fop('fadd', srd, c3), ite(fcmp('lt', p, Fl(0.0)), c3, fop('fadd', fop('fsqrt', p), c3)))
        return fop('fmul', inten, struct)
    return mkmat(ref.r, ref.c, el)
def rowmean(m): return mkmat(m.r, ONE, lambda r, c: fop('fdiv', fsum(m.c, lambda k: mat(m, r, k)), i2f(m.c)))
def rowstd(m): return mkmat(m.r, ONE, lambda r, c: T.app('arma.stddev', (ZERO, handle(mkseq(m.c, lambda k: mat(m, r, k)))), 'F'))
def nsim(ref, deg, L):
    s = simmap(ref, deg, L); mm = rowmean(s)
    return {'freq_band_means': mm, 'freq_band_stddevs': rowstd(s), 'freq_band_deg_energy': rowmean(deg),
            'similarity': fop('fdiv', fsum(mm.r, lambda k: mat(mm, k, ZERO)), i2f(mm.r))}
@contract(V + 'NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity', sources=NS)
def _(c):
    ref, deg = c.arg(0), c.arg(1)
    c.req('not empty', smallm(ref))
    c.req('equal shapes', and_(eq(ref.r, deg.r), eq(ref.c, deg.c)))
    for k, v in nsim(ref, deg, c.t('intensity_range_')).items():
        c.ens(k, lambda p, k=k, v=v: veq_goal(v, p.res.f[k]))
from contracts.registry import prop
prop('C11', [V + 'NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity'],
     harness=dict(file='C11.cc', sources=['neurogram_similiarity_index_measure.cc', 'convolution_2d.cc', 'amatrix.cc']),
     assumptions=['patches have fewer than 2^14 rows and 2^16 columns'])
