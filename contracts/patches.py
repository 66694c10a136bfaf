"""Reference patch creation (C17, C19) and patch extraction (C22, C23)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
from contracts.misc import *
IP = V + 'ImagePatchCreator::'
IS = ('image_patch_creator.cc', 'amatrix.cc')
BIG = I(1 << 48)
def img_indices(L, P):
    h = idiv(P, I(2))
    last = ite(lt(h, sub(L, P)), sub(L, P), add(h, ONE))          # exclusive bound of start + 1
    n = idiv(add(sub(last, h), sub(P, ONE)), P)
    return mkseq(n, lambda k: sub(add(h, mul(k, P)), ONE))
def img_indices_contract(c, L):
    P = c.t('patch_size_')
    c.req('patch of at least two frames', le(I(2), P))
    c.req('sizes', and_(lt(P, BIG), lt(L, BIG)))
    short_ = lt(L, add(P, idiv(P, I(2))))
    c.ens('a spectrogram shorter than a patch and a half is refused with invalid-argument', lambda p: implies(short_, eq(p.res.f['status'].f['code'], I(3))))
    c.ens('a longer one is accepted', lambda p: implies(not_(short_), eq(p.res.f['status'].f['code'], ZERO)))
    c.ens('indices', lambda p: implies(not_(short_), veq_goal(img_indices(L, P), p.res.f['val'])))
    i = bv('I', 'i')
    c.ens('every patch lies inside the spectrogram', lambda p: implies(eq(p.res.f['status'].f['code'], ZERO), and_(lt(ZERO, p.res.f['val'].n),
        forall([i], implies(and_(le(ZERO, i), lt(i, p.res.f['val'].n)), and_(le(ZERO, at(p.res.f['val'], i)), le(add(at(p.res.f['val'], i), P), L)))))))
@contract(IP + 'CreateRefPatchIndices', '(const AMatrix<double> &) const', sources=IS)
def _(c): img_indices_contract(c, c.arg(0).c)
@contract(IP + 'CreateRefPatchIndices', 'const AudioSignal', sources=IS)
def _(c): img_indices_contract(c, c.arg(0).c)
@contract(IP + 'CreatePatchesFromIndices', sources=IS)
def _(c):
    m, v, P = c.arg(0), c.arg(1), c.t('patch_size_')
    i = bv('I', 'i')
    c.req('patch of at least one frame', and_(lt(ZERO, P), lt(P, BIG)))
    c.req('patches inside the spectrogram', forall([i], implies(and_(le(ZERO, i), lt(i, v.n)), and_(le(ZERO, at(v, i)), le(add(at(v, i), P), m.c)))))
    c.result(mkseq(v.n, lambda i: mkmat(m.r, P, lambda r, k: mat(m, r, add(at(v, i), k)))))
CP = V + 'ComparisonPatchesSelector::'
CSR = ('comparison_patches_selector.cc', 'amatrix.cc')
SMALL = I(1 << 30)
def deg_patch(m, b, h, w):
    """h x w patch of the frames b, b+1, ...: the spectrogram's where they exist, else zero"""
    return mkmat(h, w, lambda r, k: ite(and_(le(ZERO, add(b, k)), lt(add(b, k), m.c)), mat(m, r, add(b, k)), Fl(0.0)))
@contract(CP + 'BuildDegradedPatch', sources=CSR, opaque=True)
def _(c):
    m, b, e, h, w = [c.arg(i) for i in range(5)]
    c.req('one row per band', eq(h, m.r))
    c.req('width of the window', and_(eq(w, add(sub(e, b), ONE)), lt(ZERO, w)))
    c.req('window touches the spectrogram', and_(lt(ZERO, m.c), lt(b, m.c), le(ZERO, e)))
    c.req('sizes', and_(lt(m.c, SMALL), lt(e, SMALL), le(neg(SMALL), b)))
    c.result(deg_patch(m, b, h, w))
@contract(CP + 'Slice', sources=CSR, opaque='sizes')
def _(c):
    sg, t0, t1 = c.arg(0), c.arg(1), c.arg(2)
    m, sr = sig(sg), rate(sg)
    a, b = fop('fmul', t0, i2f(sr)), fop('fmul', t1, i2f(sr))
    over = fop('fsub', b, i2f(m.r))
    na = fop('fmul', fop('fmul', Fl(-1.0), t0), i2f(sr))
    lim = Fl(float(1 << 30))
    i0, i1 = imax(ZERO, fop('f2i', a)), imin(m.r, fop('f2i', b))
    c.req('mono signal', eq(m.c, ONE))
    c.req('representable times', and_(*[and_(fcmp('lt', fop('fneg', lim), x), fcmp('lt', x, lim)) for x in (a, b, over, na)]))
    c.req('length', lt(m.r, SMALL))
    c.req('the interval meets the signal', lt(i0, i1))
    pre = ite(fcmp('lt', t0, Fl(0.0)), fop('f2i', na), ZERO)
    post = ite(fcmp('lt', Fl(0.0), over), fop('f2i', over), ZERO)
    mid = sub(i1, i0)
    def el(r, k):
        x = sub(r, pre)
        return ite(and_(le(ZERO, x), lt(x, mid)), mat(m, add(i0, x), ZERO), Fl(0.0))
    c.result(audio(mkmat(add(pre, mid, post), ONE, el), sr))
    c.ens('a non-empty mono signal', lambda p: and_(lt(ZERO, sig(p.res).r), eq(sig(p.res).c, ONE), eq(rate(p.res), sr)))
    few = I(1 << 27)
    c.ens('short intervals give short signals', lambda p: implies(and_(lt(m.r, few), *[and_(fcmp('lt', fop('fneg', Fl(float(1 << 27))), x), fcmp('lt', x, Fl(float(1 << 27)))) for x in (over, na)]), lt(sig(p.res).r, I(1 << 29))))
from contracts.registry import prop, COMPARE
prop('C17', [IP + 'CreateRefPatchIndices|(const AMatrix<double> &) const', IP + 'CreateRefPatchIndices|const AudioSignal', IP + 'CreatePatchesFromIndices'],
     harness=dict(file='C17.cc', sources=['image_patch_creator.cc', 'amatrix.cc', 'analysis_window.cc']),
     assumptions=['patch sizes are at least 2 frames (the library uses 20 and 30)'])
prop('C22', [CP + 'BuildDegradedPatch'], sources=('amatrix.cc',), harness=dict(file='C22.cc', sources=COMPARE),
     assumptions=['the window meets the spectrogram (every start offset handed over lies inside it)'])
prop('C23', [CP + 'Slice'], sources=('amatrix.cc',), harness=dict(file='C23.cc', sources=COMPARE),
     assumptions=['the interval meets the signal and all times in samples are below 2^30'])
