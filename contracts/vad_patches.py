"""Speech patches (C19): voice activity on the normalised reference, patches with a voiced chunk."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
from contracts.misc import *
from contracts.rms_vad import rms, decisions, THR
SMALL = I(1 << 30)
VP = V + 'VadPatchCreator::'
VS = ('vad_patch_creator.cc', 'rms_vad.cc', 'misc_math.cc', 'amatrix.cc')
def pcm(x):
    """scaled by 32768, clipped to 16 bit, truncated"""
    y = fop('fmul', x, Fl(32768.0))
    y = ite(fcmp('lt', y, Fl(32767.0)), y, Fl(32767.0))
    return fop('f2i', ite(fcmp('lt', Fl(-32768.0), y), y, Fl(-32768.0)))
def voiced(x, start, total, F):
    """voice activity decisions of the chunks of F samples that lie in x(start .. start+total-1)"""
    def ch(m): return mkseq(F, lambda i: pcm(x(add(start, add(mul(m, F), i)))))
    return decisions(mkseq(idiv(total, F), lambda m: ite(fcmp('lt', rms(ch(m)), THR), Fl(0.0), Fl(1.0))))
@contract(VP + 'GetVoiceActivity', sources=VS, opaque=True)
def _(c):
    s, st, n, F = sig(c.arg(0)), c.arg(1), c.arg(2), c.arg(3)
    c.req('mono signal', eq(s.c, ONE))
    c.req('a non-empty range inside the signal', and_(lt(ZERO, n), lt(st, SMALL), le(add(st, n), s.r), lt(s.r, SMALL)))
    c.req('frame length', and_(lt(ZERO, F), lt(F, SMALL)))
    c.result(voiced(lambda i: mat(s, i, ZERO), st, n, F))

def voiced_of(this, a, start, total, F): return call_of(VP + 'GetVoiceActivity', (this, a, start, total, F), mkseq(idiv(total, F), lambda i: Fl(0.0)))
def filtered(n, p, f):
    """f(k) for those k = 0..n-1 with p(k), in order"""
    kv, i = bv('I', 'k'), bv('I', 'i')
    cnt = lambda k: fold1(k, ZERO, lambda q, a: ite(p(q), add(a, ONE), a))
    zero = S('') if f(ZERO).sort == 'S' else ZERO
    def el_(b): return fold1(n, zero, lambda q, a: ite(and_(p(q), eq(b, cnt(q))), f(q), a))
    return mkseq(cnt(n), el_)
def normalised(s): return mkmat(s.r, s.c, lambda r, k: fop('fdiv', mat(s, r, k), mat_max(s)))
def candidates(L, P): return ite(lt(L, sub(idiv(P, I(2)), ONE)), ZERO, idiv(sub(L, sub(idiv(P, I(2)), ONE)), P))
@contract(VP + 'CreateRefPatchIndices', 'const AudioSignal', sources=VS, opaque=True)
def _(c):
    g, a, w, P = c.arg(0), c.arg(1), c.arg(2), c.t('patch_size_')
    L, s, first = g.c, sig(a), sub(idiv(P, I(2)), ONE)
    hop = fop('fmul', i2f(w.f['size']), w.f['overlap'])
    F = fop('f2i', hop)
    n = candidates(L, P)
    c.req('patch of at least two frames', and_(le(I(2), P), lt(P, I(1 << 20))))
    c.req('a non-empty mono signal', and_(eq(s.c, ONE), lt(ZERO, s.r), lt(s.r, SMALL), lt(L, SMALL)))
    c.req('a hop of at least one sample', and_(fcmp('le', Fl(1.0), hop), fcmp('lt', hop, Fl(float(1 << 30))), le(ONE, F), lt(F, SMALL)))
    c.req('the spectrogram is no longer than the signal', le(add(first, mul(n, mul(P, F))), s.r))
    v = voiced_of(c.this0, audio(normalised(s), rate(a)), first, mul(n, mul(P, F)), F)
    voiced_frames = lambda k: fsum(P, lambda j: at(v, add(mul(k, P), j)))
    idx = filtered(n, lambda k: fcmp('le', Fl(1.0), voiced_frames(k)), lambda k: add(first, mul(k, P)))
    c.result(SV('StatusOr', {'status': status(ZERO, S('')), 'val': vite(eq(n, ZERO), mkseq(ZERO, lambda i: ZERO), idx)}))
from contracts.registry import prop, lemma, COMPARE
from dv.exec import Oblig
def lem(name, facts, goal, msg): return Oblig('lemma', (), tuple(facts), goal, '', msg, name)
@lemma('arith.divmod')
def _():
    """division with remainder of successive numbers, used for counters that restart every F iterations (dv/loops.py, cycle_facts)"""
    F, k, q, r, q2, r2 = [T.var(x, 'I') for x in ('F', 'k', 'q', 'r', 'q2', 'r2')]
    base = [lt(ZERO, F), le(ZERO, k), eq(k, add(mul(q, F), r)), le(ZERO, r), lt(r, F), eq(add(k, ONE), add(mul(q2, F), r2)), le(ZERO, r2), lt(r2, F)]
    N = 'arith.divmod'
    d, p = T.var('d', 'I'), T.var('p', 'I')
    step = base + [eq(d, sub(q2, q)), eq(p, mul(d, F)), eq(mul(q2, F), add(mul(q, F), p)), eq(p, sub(add(r, ONE), r2))]
    return [lem(N, [lt(ZERO, F), eq(k, add(mul(q, F), r)), le(ZERO, k), lt(r, F), implies(lt(q, ZERO), le(mul(q, F), neg(F)))], le(ZERO, q), 'a quotient is not negative'),
            lem(N, [lt(ZERO, F), lt(q, ZERO)], le(mul(q, F), neg(F)), 'a negative multiple is at most -F'),
            lem(N, [lt(ZERO, F), le(ONE, d)], le(F, mul(d, F)), 'a positive multiple is at least F'),
            lem(N, [lt(ZERO, F), le(I(2), d)], le(mul(I(2), F), mul(d, F)), 'a multiple from 2 is at least 2F'),
            lem(N, step + [or_(eq(d, ZERO), eq(d, ONE))], implies(eq(add(r, ONE), F), and_(eq(q2, add(q, ONE)), eq(r2, ZERO))), 'the last of a cycle'),
            lem(N, step + [or_(eq(d, ZERO), eq(d, ONE))], implies(lt(add(r, ONE), F), and_(eq(q2, q), eq(r2, add(r, ONE)))), 'within a cycle'),
            lem(N, step + [implies(lt(d, ZERO), le(p, neg(F))), implies(le(I(2), d), le(mul(I(2), F), p))], or_(eq(d, ZERO), eq(d, ONE)), 'the quotient grows by 0 or 1')]
@lemma('C19.inside')
def _():
    """a spectrogram of 1 + (r - W) / F frames of W >= F samples never has patches that need more than the r samples"""
    C, r, W, F, P, h, n = [T.var(x, 'I') for x in ('C', 'r', 'W', 'F', 'P', 'first', 'n')]
    a, b = T.var('nP', 'I'), T.var('nPF', 'I')
    cf, hf, x = T.var('CF', 'I'), T.var('firstF', 'I'), T.var('dF', 'I')
    N = 'C19.inside'
    base = [le(ONE, F), le(F, W), lt(W, r), le(ZERO, h), le(h, C), le(ZERO, n)]
    return [lem(N, [le(ONE, F), le(a, sub(C, h))], le(mul(a, F), mul(sub(C, h), F)), 'more frames need more samples'),
            lem(N, [], eq(mul(sub(C, h), F), sub(mul(C, F), mul(h, F))), 'distribution'),
            lem(N, [le(ONE, F), le(ZERO, h)], le(h, mul(h, F)), 'a frame has at least one sample'),
            lem(N, base + [le(sub(cf, F), sub(r, W)), le(h, hf), eq(x, sub(cf, hf)), le(b, x)], le(add(h, b), r), 'the patches lie inside the signal')]
@lemma('C19.any')
def _():
    """the sum of decisions (0 or 1) reaches 1 exactly when one of them is 1: induction over the frames of the patch"""
    Sk, b = T.var('S', 'F'), T.var('b', 'F')
    z, o = Fl(0.0), Fl(1.0)
    dec = or_(eq(b, z), eq(b, o)); inv = or_(eq(Sk, z), fcmp('le', o, Sk)); n = fop('fadd', Sk, b)
    N = 'C19.any'
    return [lem(N, [dec, inv], or_(eq(n, z), fcmp('le', o, n)), 'partial sums are 0 or at least 1'),
            lem(N, [dec, inv], iff(fcmp('le', o, n), or_(fcmp('le', o, Sk), eq(b, o))), 'reaching 1 means an earlier or the present frame is voiced')]
prop('C19', [VP + 'CreateRefPatchIndices|const AudioSignal', VP + 'GetVoiceActivity'], sources=VS, lemmas=['arith.divmod', 'C19.inside', 'C19.any'],
     harness=dict(file='C19.cc', sources=['vad_patch_creator.cc', 'rms_vad.cc', 'misc_math.cc', 'amatrix.cc', 'analysis_window.cc', 'image_patch_creator.cc']),
     assumptions=['patch sizes are at least 2 frames (the library uses 20); the spectrogram is not longer than the one built from the signal (lemma C19.inside for the builder of C14)'])
