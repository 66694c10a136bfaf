"""Fine realignment of matched patches (C24)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
from contracts.misc import *
from contracts.patches import CP
from contracts.matching import PSR, measure, first
RS = ('comparison_patches_selector.cc', 'amatrix.cc', 'spectrogram.cc', 'misc_audio.cc')
PREP = V + 'MiscAudio::PrepareSpectrogramsForComparison'
BUILD = 'virt:' + V + 'SpectrogramBuilder::Build'
def zeromat(): return mkmat(bv('I', 'r'), ONE, lambda r, k: Fl(0.0))
def audio0(sr): return audio(zeromat(), sr)
def slice_(s, a, b): return call_of(CP + 'Slice', (s, a, b), audio0(rate(s)))
def build(c, b, s, w):
    """StatusOr<Spectrogram> of the (overridable) builder: a function of the signal and the window"""
    return c.e.uf_value(c.st, 'absl::StatusOr<Visqol::Spectrogram>', BUILD, [b, handle(s), handle(w)])
def prep(a, b):
    return [SV(x.type, {**x.f, 'data_': call_of(PREP, (a, b), x.f['data_'], at_='#%d.data_' % i)}) for i, x in enumerate((a, b))]
def ok(s): return eq(s.f['status'].f['code'], ZERO)
class Fine:
    def __init__(s, c, sims, ref, deg, b, win): s.c, s.sims, s.ref, s.deg, s.b, s.win = c, sims, ref, deg, b, win
    def unmatched(s, k):
        f = at(s.sims, k).f
        return and_(fcmp('eq', f['deg_patch_start_time'], f['deg_patch_end_time']), fcmp('eq', f['deg_patch_start_time'], Fl(0.0)))
    def slices(s, k):
        f = at(s.sims, k).f
        return slice_(s.ref, f['ref_patch_start_time'], f['ref_patch_end_time']), slice_(s.deg, f['deg_patch_start_time'], f['deg_patch_end_time'])
    def aligned(s, k):
        a, b = s.slices(k)
        t = call_of(V + 'Alignment::AlignAndTruncate', (a, b), SV('tuple', {'0': audio0(rate(a)), '1': audio0(rate(b)), '2': Fl(0.0)}))
        return t.f['0'], t.f['1'], t.f['2']
    def spectra(s, k):
        a, b, lag = s.aligned(k)
        return build(s.c, s.b, a, s.win), build(s.c, s.b, b, s.win)
    def bad(s, k):
        A, B = s.spectra(k)
        return and_(not_(s.unmatched(k)), or_(not_(ok(A)), not_(ok(B))))
    def result(s, k):
        old = at(s.sims, k); f = old.f
        a, b, lag = s.aligned(k)
        A, B = s.spectra(k)
        x, y = prep(A.f['val'], B.f['val'])
        new = measure(s.c, x.f['data_'], y.f['data_'])
        late = fcmp('lt', Fl(0.0), lag)
        r0, d0 = f['ref_patch_start_time'], f['deg_patch_start_time']
        rs, ds = ite(late, fop('fadd', r0, lag), r0), ite(late, d0, fop('fsub', d0, lag))
        dur = lambda z: fop('fdiv', i2f(sig(z).r), i2f(rate(z)))
        g = dict(new.f)
        g['ref_patch_start_time'], g['deg_patch_start_time'] = rs, ds
        g['ref_patch_end_time'], g['deg_patch_end_time'] = fop('fadd', rs, dur(a)), fop('fadd', ds, dur(b))
        keep = or_(s.unmatched(k), fcmp('lt', new.f['similarity'], f['similarity']))
        return vite(keep, old, SV(old.type, g))
@contract(CP + 'FinelyAlignAndRecreatePatches', sources=RS)
def _(c):
    sims, ref, deg, win = c.arg(0), c.arg(1), c.arg(2), c.arg(4)
    b = c.arg(3).f['id']
    F = Fine(c, sims, ref, deg, b, win)
    n, i = sims.n, bv('I', 'i')
    k = i
    lim = Fl(float(1 << 27))
    def inside(sg, t0, t1):
        m, sr = sig(sg), rate(sg)
        x, y = fop('fmul', t0, i2f(sr)), fop('fmul', t1, i2f(sr))
        over, na = fop('fsub', y, i2f(m.r)), fop('fmul', fop('fmul', Fl(-1.0), t0), i2f(sr))
        small = [and_(fcmp('lt', fop('fneg', lim), z), fcmp('lt', z, lim)) for z in (x, y, over, na)]
        return and_(*small + [lt(imax(ZERO, fop('f2i', x)), imin(m.r, fop('f2i', y)))])
    def per(f_): return forall([i], implies(and_(le(ZERO, i), lt(i, n), not_(F.unmatched(i))), f_(at(sims, i).f)))
    for nm, sg in (('reference', ref), ('degraded', deg)):
        c.req('mono ' + nm, and_(eq(sig(sg).c, ONE), lt(sig(sg).r, I(1 << 27)), lt(ZERO, rate(sg)), lt(rate(sg), I(1 << 30))))
    c.req('reference patch times inside the signal', per(lambda f: inside(ref, f['ref_patch_start_time'], f['ref_patch_end_time'])))
    c.req('degraded patch times meet the signal', per(lambda f: inside(deg, f['deg_patch_start_time'], f['deg_patch_end_time'])))
    def good(s): return implies(ok(s), and_(lt(ZERO, s.f['val'].f['data_'].r), lt(ZERO, s.f['val'].f['data_'].c)))
    c.req('a spectrogram that was built has values', forall([i], implies(and_(le(ZERO, i), lt(i, n)), and_(*map(good, F.spectra(i))))))
    N = first(n, F.bad)
    none = eq(N, n)
    c.ens('every re-analysis succeeded: accepted', lambda p: implies(none, eq(p.res.f['status'].f['code'], ZERO)))
    c.ens('results', lambda p: implies(none, veq_goal(mkseq(n, F.result), p.res.f['val'])))
    def failed(p):
        A, B = F.spectra(N)
        return implies(not_(none), eq(p.res.f['status'].f['code'], ite(ok(A), B.f['status'].f['code'], A.f['status'].f['code'])))
    c.ens('the first failed re-analysis determines the status', failed)
    c.ens('... which is an error', lambda p: implies(not_(none), not_(eq(p.res.f['status'].f['code'], ZERO))))
    def larger(p):
        v = p.res.f['val']
        x, o = at(v, i).f['similarity'], at(sims, i).f['similarity']
        return implies(none, forall([i], implies(and_(le(ZERO, i), lt(i, n), not_(T.isnan(x)), not_(T.isnan(o))), fcmp('le', o, x))))
    c.ens('no similarity is lowered', larger)
from contracts.registry import prop, COMPARE
from contracts.align import FT
prop('C24', [CP + 'FinelyAlignAndRecreatePatches', CP + 'Slice', V + 'Alignment::AlignAndTruncate', PREP], sources=FT + ('xcorr.cc',), harness=dict(file='C24.cc', sources=COMPARE),
     assumptions=['the spectrogram builder is any function of the signal and the window (C14 proves it of the builder used: no dependence on earlier calls); the comparator is any function of the two patches (C11)',
                  'a spectrogram that was built has at least one value', 'matched patches meet their signals (C20) and signals are shorter than 2^27 samples'])
