"""One comparison (C31): the stages of Visqol::CalculateSimilarity on the right data, in the right order."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
from contracts.misc import *
from contracts.matching import PSR
from contracts.realign import build, prep, ok
from contracts.patches import CP, IP
from contracts import visqol as Q
from contracts.visqol import VQ
PS = ('visqol.cc', 'comparison_patches_selector.cc', 'image_patch_creator.cc', 'misc_audio.cc', 'amatrix.cc', 'spectrogram.cc')
MAPPER = 'virt:' + V + 'SimilarityToQualityMapper::PredictQuality'
INDICES = 'virt:' + V + 'ImagePatchCreator::CreateRefPatchIndices'
FIND, FINE = CP + 'FindMostOptimalDegPatches', CP + 'FinelyAlignAndRecreatePatches'
PATCHES = 'absl::StatusOr<std::vector<Visqol::PatchSimilarityResult>>'
CALC = VQ + 'CalculateSimilarity'
def column(m): return mkseq(m.r, lambda i: mat(m, i, ZERO))
@contract(VQ + 'PredictMos', sources=('visqol.cc', 'amatrix.cc'))
def _(c):
    c.req('column vectors', and_(*[eq(c.arg(i).c, ONE) for i in range(4)]))
    c.result(c.e.uf_value(c.st, 'double', MAPPER, [c.arg(4).f['id']] + [handle(column(c.arg(i))) for i in range(4)]))
class Comparison:
    """what one comparison computes, stage by stage (the stages are under their own contracts)"""
    def __init__(s, c):
        ref, deg0, sb, win, pc, sel, mp, radius, coarse = [c.arg(i) for i in range(9)]
        s.ref, s.win, s.coarse = ref, win, coarse
        s.deg = audio(scaled(sig(deg0), gain(sig(ref), sig(deg0))), rate(deg0))
        b = sb.f['id']
        s.R, s.D = build(c, b, ref, win), build(c, b, s.deg, win)
        s.x, s.y = prep(s.R.f['val'], s.D.f['val'])
        X, Y = s.x.f['data_'], s.y.f['data_']
        s.idx = c.e.uf_value(c.st, 'absl::StatusOr<std::vector<unsigned long>>', INDICES, [c.e.dyn(c.st, c.raw(4).lv), handle(X), handle(ref), handle(win)])
        i_, P = s.idx.f['val'], pc.f['patch_size_']
        s.P = P
        s.patches = mkseq(i_.n, lambda k: mkmat(X.r, P, lambda r, q: mat(X, r, add(at(i_, k), q))))
        s.fd = fop('fdiv', i2f(fop('f2i', fop('fmul', i2f(win.f['size']), win.f['overlap']))), i2f(rate(ref)))
        s.found = c.e.uf_value(c.st, PATCHES, 'fn:' + FIND, [handle(sel), handle(s.patches), handle(i_), handle(Y), s.fd, radius])
        s.fine = c.e.uf_value(c.st, PATCHES, 'fn:' + FINE, [handle(sel), handle(s.found.f['val']), handle(ref), handle(s.deg), handle(sb), handle(win)])
        s.sims = v = vite(s.coarse, s.found.f['val'], s.fine.f['val'])
        n = Q.nbands(v)
        s.mean, s.low, s.dev, s.energy = Q.mean_over(v, Q.means, n), Q.quantile(v, Fl(0.10)), Q.pooled(v, s.fd), Q.mean_over(v, Q.energy, Q.energy(v, ZERO).r)
        s.vnsim = fop('fdiv', fsum(n, lambda k: mat(s.mean, k, ZERO)), i2f(n))
        s.mos = c.e.uf_value(c.st, 'double', MAPPER, [mp.f['id']] + [handle(column(m)) for m in (s.mean, s.low, s.dev, s.energy)])
@contract(CALC, sources=PS)
def _(c):
    C = Comparison(c)
    c.set('#1', C.deg)
    i = bv('I', 'i')
    stages = [C.R, C.D, C.idx, C.found]
    done = and_(*map(ok, stages))
    allok = and_(done, or_(C.coarse, ok(C.fine)))
    X = C.x.f['data_']
    good = lambda s: and_(lt(ZERO, s.f['val'].f['data_'].r), lt(ZERO, s.f['val'].f['data_'].c))
    c.req('a spectrogram that was built has values', and_(implies(ok(C.R), good(C.R)), implies(ok(C.D), good(C.D))))
    c.req('patch of at least one frame', and_(lt(ZERO, C.P), lt(C.P, I(1 << 48))))
    v = C.idx.f['val']
    c.req('the patch creator cuts inside the spectrogram', implies(and_(ok(C.R), ok(C.D), ok(C.idx)), forall([i], implies(and_(le(ZERO, i), lt(i, v.n)), and_(le(ZERO, at(v, i)), le(add(at(v, i), C.P), X.c))))))
    c.req('hop below 2^53 samples', and_(fcmp('le', Fl(0.0), fop('fmul', i2f(C.win.f['size']), C.win.f['overlap'])), fcmp('lt', fop('fmul', i2f(C.win.f['size']), C.win.f['overlap']), Fl(2.0 ** 53))))
    def code(p): return p.res.f['status'].f['code']
    before = TRUE
    for nm, s in (('building the reference spectrogram', C.R), ('building the degraded spectrogram', C.D), ('choosing the reference patches', C.idx), ('matching', C.found)):
        h = and_(before, not_(ok(s)))
        c.ens(nm + ' failed: its status', lambda p, h=h, s=s: implies(h, eq(code(p), s.f['status'].f['code'])))
        before = and_(before, ok(s))
    c.ens('realignment failed: its status', lambda p: implies(and_(done, not_(C.coarse), not_(ok(C.fine))), eq(code(p), C.fine.f['status'].f['code'])))
    c.ens('all stages succeeded: accepted', lambda p: implies(allok, eq(code(p), ZERO)))
    r = lambda p: p.res.f['val'].f
    for nm, m in (('fvnsim', C.mean), ('fvnsim10', C.low), ('fstdnsim', C.dev), ('fvdegenergy', C.energy)):
        c.ens('reported ' + nm, lambda p, nm=nm, m=m: implies(allok, veq_goal(column(m), r(p)[nm])))
    c.ens('reported patches', lambda p: implies(allok, veq_goal(C.sims, r(p)['debug_info'].f['patch_sims'])))
    c.ens('reported similarity is the mean of the band similarities', lambda p: implies(allok, eq(r(p)['vnsim'], C.vnsim)))
    c.ens('reported score is the mapped score, 1 for a similarity below 0.15', lambda p: implies(allok, eq(r(p)['moslqo'], ite(fcmp('lt', C.vnsim, Fl(0.15)), Fl(1.0), C.mos))))
    c.ens('reported band frequencies are those of the reference spectrogram', lambda p: implies(allok, veq_goal(C.x.f['center_freq_bands_'], r(p)['center_freq_bands'])))
from contracts.registry import prop, OPTS, COMPARE
OPTS[CALC] = dict(assume_pre=[FIND, FINE] + [VQ + k for k in ('CalcPerPatchMeanFreqBandMeans', 'CalcPerPatchFreqBandQuantile', 'CalcPerPatchMeanFreqBandStdDevs', 'CalcPerPatchMeanFreqBandDegradedEnergy')],
                  skip_ens=[FIND, FINE])
prop('C31', [CALC, VQ + 'PredictMos', VQ + 'CalcFrameDuration'], sources=('amatrix.cc',), harness=dict(file='C31.cc', sources=COMPARE),
     assumptions=['the spectrogram builder, the patch creator, the comparator and the mapper are any functions of their arguments (C14, C17, C19, C11, C09)'])
