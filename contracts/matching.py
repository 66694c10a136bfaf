"""Patch matching (C20, C21): the dynamic programme of ComparisonPatchesSelector."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
from contracts.misc import *
from contracts.patches import CP, CSR, deg_patch
MS = ('comparison_patches_selector.cc', 'amatrix.cc')
N30 = I(1 << 30)
LOWEST = Fl(-1.7976931348623157e308)
PSR = 'PatchSimilarityResult'
MEASURE = 'virt:' + V + 'PatchSimilarityComparator::MeasurePatchSimilarity'
def comparator(c):
    v = c.this0.f['sim_comparator_']
    return c.st.vars[v.lv.cell].f['id']
def measure(c, ref, deg): return c.e.uf_value(c.st, V + PSR, MEASURE, [comparator(c), handle(ref), handle(deg)])
def first(n, cond):
    """least k in 0..n-1 with cond(k), n if there is none"""
    k = bv('I', 'k')
    return T.mkmu(n, cond(k), k)
def scoreable(idx, C, P):
    """number of reference patches left after dropping trailing ones that start over half a patch past the end"""
    half = fop('floor', i2f(idiv(P, I(2))))
    j = first(idx.n, lambda k: not_(fcmp('lt', i2f(C), fop('fsub', i2f(at(idx, sub(sub(idx.n, k), ONE))), half))))
    return sub(idx.n, j)
@contract(CP + 'CalcMaxNumPatches', sources=MS, opaque=True)
def _(c):
    idx, C, P = c.arg(0), c.arg(1), c.arg(2)
    c.result(scoreable(idx, C, P))
    c.ens('no more than there are', lambda p: and_(le(ZERO, p.res), le(p.res, idx.n)))

# one row of the matching table
def best(prev, lo, o, none):
    """(offset, value) of the largest entry of prev among lo..o-1, the highest offset among ties; (none, lowest) if no entry is above lowest"""
    n = imax(ZERO, sub(o, lo))
    x = lambda k: prev(sub(sub(o, k), ONE))
    top = lambda k: fold1(k, LOWEST, lambda q, a: ite(fcmp('lt', a, x(q)), x(q), a))
    return fold1(n, none, lambda k, a: ite(fcmp('lt', top(k), x(k)), sub(sub(o, k), ONE), a)), top(n)
def entry(first_, prev, lo, sim, o):
    """(value, offset of the previous patch) of the table at offset o"""
    b, h = best(prev, lo, o, ite(first_, I(-1), o))
    cum = fop('fadd', sim, h)
    drop = fcmp('lt', cum, prev(o))
    return ite(first_, sim, ite(drop, prev(o), cum)), ite(first_, I(-1), ite(drop, o, b))
@contract(CP + 'FindMostOptimalDegPatch', sources=MS, opaque=True)
def _(c):
    m, ref, deg, dp, bt, idx, p, w = [c.arg(i) for i in range(8)]
    C, n = m.c, idx.n
    i, j = bv('I', 'i'), bv('I', 'j')
    c.req('patch number', and_(le(ZERO, p), lt(p, n), lt(n, N30)))
    c.req('sizes', and_(lt(ZERO, C), lt(C, N30), le(ZERO, w), lt(w, N30)))
    c.req('indices', forall([i], implies(and_(le(ZERO, i), lt(i, n)), and_(le(ZERO, at(idx, i)), lt(at(idx, i), N30)))))
    c.req('indices of this patch and the previous one', and_(le(ZERO, at(idx, p)), lt(at(idx, p), N30), implies(lt(ZERO, p), and_(le(ZERO, at(idx, sub(p, ONE))), lt(at(idx, sub(p, ONE)), N30)))))
    c.req('one degraded patch per offset', eq(deg.n, C))
    c.req('tables of one row per patch, one column per offset', and_(eq(dp.n, n), eq(bt.n, n), forall([i], implies(and_(le(ZERO, i), lt(i, n)), and_(eq(at(dp, i).n, C), eq(at(bt, i).n, C))))))
    r = at(idx, p)
    lo = imax(ZERO, sub(at(idx, sub(p, ONE)), w))
    def e(o): return entry(eq(p, ZERO), lambda b: at(at(dp, sub(p, ONE)), b), lo, measure(c, ref, at(deg, o)).f['similarity'], o)
    def win(o): return and_(le(ZERO, o), lt(o, C), le(sub(r, w), o), le(o, add(r, w)))
    i, j = bv('I', 'i'), bv('I', 'j')
    def others(p_):
        out = and_(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, C), not_(and_(eq(i, p), win(j))))
        return forall([i, j], implies(out, and_(eq(at(at(p_['#3'], i), j), at(at(dp, i), j)), eq(at(at(p_['#4'], i), j), at(at(bt, i), j)))))
    c.ens('other entries keep their value', others)
    c.ens('back pointers: at or before the offset, not before the window of the previous patch', lambda p_: implies(lt(ZERO, p), forall([j], implies(win(j),
        and_(le(imin(j, lo), at(at(p_['#4'], p), j)), le(at(at(p_['#4'], p), j), j))))))
    for nm, t, q in (('#3', dp, 0), ('#4', bt, 1)):
        c.set(nm, mkseq(n, lambda a: mkseq(at(t, a).n, lambda o: ite(and_(eq(a, p), win(o)), e(o)[q], at(at(t, a), o)))))

# the whole table
class Match:
    """tables and matches, as functions of the inputs"""
    def __init__(self, c, refs, idx, m, fd, radius):
        self.refs, self.idx, self.m, self.fd, self.this = refs, idx, m, fd, c.this0
        self.P = P = ite(eq(refs.n, ZERO), ZERO, at(refs, ZERO).c)
        self.H = at(refs, ZERO).r
        self.C = m.c
        self.w = mul(radius, P)
        n1 = call_of(CP + 'CalcMaxNumPatches', (c.this0, idx, m.c, P), ZERO)
        self.n = sub(n1, first(n1, lambda k: not_(le(m.c, sub(at(idx, sub(sub(n1, k), ONE)), self.w)))))
        self.deg = mkseq(self.C, lambda o: self.patch(o, at(refs, ZERO)))
    def patch(self, o, ref):
        return call_of(CP + 'BuildDegradedPatch', (self.this, self.m, o, sub(add(o, ref.c), ONE), ref.r, ref.c), mkmat(ref.r, ref.c, lambda r, k: Fl(0.0)))
    def lo(self, k): return imax(ZERO, sub(at(self.idx, k), self.w))
    def win(self, k, o): return and_(le(ZERO, o), lt(o, self.C), le(sub(at(self.idx, k), self.w), o), le(o, add(at(self.idx, k), self.w)))
    def tables(self, K):
        """(cumulative similarity, backtrace) tables after the first K rows"""
        kv, a, b = bv('I', 'k'), bv('I', 'i'), bv('I', 'j')
        tab = lambda q, so: mkseq(self.idx.n, lambda x: mkseq(self.C, lambda y: accref(kv, q, (x, y), so)))
        args = (self.this, self.m, at(self.refs, kv), self.deg, tab(0, 'F'), tab(1, 'I'), self.idx, kv, self.w)
        st = [at(at(call_of(CP + 'FindMostOptimalDegPatch', args, tab(q, so), pl), a), b) for q, so, pl in ((0, 'F', '#3'), (1, 'I', '#4'))]
        def t(q, so): return mkseq(self.idx.n, lambda i: mkseq(self.C, lambda j: T.mkfold(q, K, (i, j), (2, 2), ('F', 'I'), [LOWEST, ZERO], st, kv, [[a, b], [a, b]])))
        return t(0, 'F'), t(1, 'I')
    def cum(self, K, i, j): return at(at(self.tables(K)[0], i), j)
    def back(self, i, j): return at(at(self.tables(self.n)[1], i), j)
    def last(self):
        L = sub(self.n, ONE); lo = self.lo(L)
        num = imax(ZERO, sub(imin(add(at(self.idx, L), self.w, ONE), self.C), lo))
        x = lambda k: self.cum(self.n, L, add(lo, k))
        top = lambda k: fold1(k, LOWEST, lambda q, a: ite(fcmp('lt', a, x(q)), x(q), a))
        return fold1(num, lo, lambda k, a: ite(fcmp('lt', top(k), x(k)), add(lo, k), a))
    def off(self, q):
        """offset after q steps back from the last patch"""
        return fold1(q, self.last(), lambda k, a: self.back(sub(sub(self.n, ONE), k), a))
    def offset(self, k): return self.off(sub(sub(self.n, ONE), k))
@contract(CP + 'FindMostOptimalDegPatches', sources=MS)
def _(c):
    refs, idx, m, fd, radius = [c.arg(i) for i in range(5)]
    i = bv('I', 'i')
    M = Match(c, refs, idx, m, fd, radius)
    c.req('as many patches as indices', and_(eq(refs.n, idx.n), lt(idx.n, N30)))
    c.req('patches of one size', and_(forall([i], implies(and_(le(ZERO, i), lt(i, refs.n)), and_(eq(at(refs, i).c, M.P), eq(at(refs, i).r, m.r)))), implies(lt(ZERO, refs.n), lt(ZERO, M.P))))
    c.req('sizes', and_(lt(ZERO, m.c), lt(m.c, I(1 << 29)), le(ZERO, radius), lt(radius, I(1 << 10)), implies(lt(ZERO, idx.n), and_(lt(ZERO, at(refs, ZERO).c), lt(at(refs, ZERO).c, I(1 << 10)), eq(at(refs, ZERO).r, m.r)))))
    c.req('indices', forall([i], implies(and_(le(ZERO, i), lt(i, idx.n)), and_(le(ZERO, at(idx, i)), lt(at(idx, i), N30)))))
    def res(k):
        o = M.offset(k)
        r = measure(c, at(refs, k), M.patch(o, at(refs, k))).f
        miss = eq(o, M.back(k, o))
        t0 = fop('fmul', i2f(o), fd); s0 = fop('fmul', i2f(at(idx, k)), fd); d = fop('fmul', fd, i2f(M.P))
        r = dict(r)
        r['similarity'] = ite(miss, Fl(0.0), r['similarity'])
        f = r['freq_band_means']
        r['freq_band_means'] = mkmat(f.r, f.c, lambda a, b: ite(miss, Fl(0.0), mat(f, a, b)))
        r['deg_patch_start_time'] = ite(miss, Fl(0.0), t0)
        r['deg_patch_end_time'] = ite(miss, Fl(0.0), fop('fadd', t0, d))
        r['ref_patch_start_time'] = s0
        r['ref_patch_end_time'] = fop('fadd', s0, d)
        return SV(V + PSR, r)
    none = eq(M.n, ZERO)
    j = bv('I', 'j')
    c.inv([('backtrace', 'II')], lambda t, k: forall([i, j], implies(and_(lt(ZERO, i), lt(i, idx.n), le(ZERO, j), lt(j, m.c)), and_(le(ZERO, at(at(t, i), j)), lt(at(at(t, i), j), m.c)))))
    c.inv([('last_offset', 'I')], lambda o, k: implies(lt(k, M.n), and_(le(ZERO, o), lt(o, m.c))))
    c.ens('no patch can be scored: cancelled', lambda p: implies(none, eq(p.res.f['status'].f['code'], ONE)))
    c.ens('some patch can be scored: accepted', lambda p: implies(not_(none), eq(p.res.f['status'].f['code'], ZERO)))
    c.ens('results', lambda p: implies(not_(none), veq_goal(mkseq(M.n, res), p.res.f['val'])))
from contracts.registry import prop, lemma, COMPARE
_H = dict(file='C20.cc', sources=COMPARE)
_A = ['the comparator is any deterministic function of the two patches (NeurogramSimiliarityIndexMeasure is under its own contract, C11)', 'similarities are added in floating point exactly as the code adds them; no order or range of the comparator is assumed']
prop('C20', [CP + 'FindMostOptimalDegPatches', CP + 'FindMostOptimalDegPatch', CP + 'CalcMaxNumPatches', CP + 'BuildDegradedPatch'], sources=('amatrix.cc',), harness=_H, assumptions=_A)
prop('C21', [CP + 'FindMostOptimalDegPatch', CP + 'FindMostOptimalDegPatches'], sources=('amatrix.cc',), harness=_H, assumptions=_A)
