"""AMatrix<double>, AMatrix<std::complex<double>>: element-exact matrix container (C36)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
SRC = ('amatrix.cc',)
KEYS = []
def inr(i, n): return and_(le(ZERO, i), lt(i, n))
def for_type(E):                     # E: element type as clang prints it in the record name
    Q = 'Visqol::AMatrix<%s>::' % E
    cx = E != 'double'
    P = 'complex<double>' if cx else 'double'
    def con(name, typ=None, inline=False):
        def d(fn):
            KEYS.append(Q + name + ('|' + typ if typ else ''))
            return contract(Q + name, typ, sources=SRC, inline=inline)(fn)
        return d
    M = lambda c: c.this0
    zero = cplx(Fl(0.0), Fl(0.0)) if cx else Fl(0.0)
    # ---- construction
    con('AMatrix', 'void (const AMatrix<%s> &)' % P)(lambda c: c.set('*', c.arg(0)))
    con('AMatrix', 'void (const arma::Mat<%s> &)' % P)(lambda c: c.set('*', c.arg(0)))
    con('AMatrix', 'void (arma::Mat<%s> &&)' % P)(lambda c: (c.set('*', c.arg(0)), c.havoc('#0')))
    def col(c):
        v = c.arg(0); c.set('*', mkmat(v.n, ONE, lambda i, j: at(v, i)))
    con('AMatrix', 'void (const std::vector<%s> &)' % P)(col)
    con('AMatrix', 'void (const absl::Span<%s> &)' % P)(col)
    con('AMatrix', 'void (const std::valarray<%s> &)' % P)(col)
    @con('AMatrix', 'void (const std::vector<std::vector<%s>> &)' % P)
    def _(c):
        v = c.arg(0); j = bv('I', 'j')
        c.req('at least one column', lt(ZERO, v.n))
        c.req('columns of equal length', forall([j], implies(inr(j, v.n), eq(at(v, j).n, at(v, ZERO).n))))
        c.set('*', mkmat(at(v, ZERO).n, v.n, lambda i, j: at(at(v, j), i)))
    con('AMatrix', 'void (size_t, size_t)')(lambda c: c.set('*', mkmat(c.arg(0), c.arg(1), lambda i, j: zero)))
    def fromdata(c):
        r, k, v = c.arg(0), c.arg(1), c.arg(2)
        c.req('enough data', and_(le(mul(r, k), v.n), lt(ZERO, v.n)))
        c.set('*', mkmat(r, k, lambda i, j: at(v, add(i, mul(r, j)))))
    @con('AMatrix', 'void (size_t, size_t, std::vector<%s> &&)' % P)
    def _(c): fromdata(c); c.havoc('#2')
    con('AMatrix', 'void (size_t, size_t, const std::vector<%s> &)' % P)(fromdata)
    con('Filled')(lambda c: c.result(mkmat(c.arg(0), c.arg(1), lambda i, j: c.arg(2))))
    @con('operator=')
    def _(c): c.set('*', c.arg(0)); c.result_ref(c.place('*'))
    # ---- element access
    def rc(c):
        m = M(c); c.req('row and column in range', and_(inr(c.arg(0), m.r), inr(c.arg(1), m.c)))
        return m
    @con('operator()', '&(size_t, size_t)')
    def _(c): m = rc(c); c.result_ref(LV(c.lv.cell, c.lv.path + (('rc', c.arg(0), c.arg(1)),)))
    @con('operator()', '(size_t, size_t) const')
    def _(c): m = rc(c); c.result(mat(m, c.arg(0), c.arg(1)))
    def li(c):
        m = M(c); c.req('element index in range', inr(c.arg(0), mul(m.r, m.c))); return m
    @con('operator()', '&(size_t)')
    def _(c): m = li(c); c.result_ref(LV(c.lv.cell, c.lv.path + (('lin', c.arg(0)),)))
    @con('operator()', '(size_t) const')
    def _(c): m = li(c); c.result(mat(m, lin_r(m.r, m.c, c.arg(0)), lin_c(m.r, m.c, c.arg(0))))
    con('NumRows')(lambda c: c.result(M(c).r))
    con('NumCols')(lambda c: c.result(M(c).c))
    con('NumElements')(lambda c: c.result(mul(M(c).r, M(c).c)))
    con('LongestDimensionLength')(lambda c: c.result(imax(M(c).r, M(c).c)))
    for nm in ('begin', 'cbegin'): con(nm)(lambda c: c.result(It(c.lv, ZERO)))
    for nm in ('end', 'cend'): con(nm)(lambda c: c.result(It(c.lv, mul(M(c).r, M(c).c))))
    for nm in ('data', 'MemPtr', 'mutData'): con(nm)(lambda c: c.result(It(c.lv, ZERO)))
    con('GetArmaMat')(lambda c: c.result_ref(c.lv))
    # ---- comparison
    @con('operator==')
    def _(c):
        a, b = M(c), c.arg(0); r, k = bv('I', 'r'), bv('I', 'c')
        x, y = mat(a, r, k), mat(b, r, k)
        same = and_(fcmp('eq', x.f['re'], y.f['re']), fcmp('eq', x.f['im'], y.f['im'])) if cx else fcmp('eq', x, y)
        k1 = bv('I', 'k')
        pa, pb = mat(a, lin_r(a.r, a.c, k1), lin_c(a.r, a.c, k1)), mat(b, lin_r(a.r, a.c, k1), lin_c(a.r, a.c, k1))
        lin = and_(fcmp('eq', pa.f['re'], pb.f['re']), fcmp('eq', pa.f['im'], pb.f['im'])) if cx else fcmp('eq', pa, pb)
        c.result(and_(eq(a.r, b.r), eq(a.c, b.c), forall([k1], implies(inr(k1, mul(a.r, a.c)), lin))))
    # ---- arithmetic
    def elementwise(name, typ, op):
        @con(name, typ)
        def _(c):
            a, b = M(c), c.arg(0)
            c.req('same shape', and_(eq(a.r, b.r), eq(a.c, b.c)))
            c.result(mkmat(a.r, a.c, lambda i, j: op(mat(a, i, j), mat(b, i, j))))
    def scalar(name, op):
        @con(name, '(%s) const' % ('std::complex<double>' if cx else 'double'))
        def _(c):
            a, v = M(c), c.arg(0)
            c.result(mkmat(a.r, a.c, lambda i, j: op(mat(a, i, j), v)))
    elementwise('operator+', '(const AMatrix', nadd); elementwise('operator-', '(const AMatrix', nsub)
    elementwise('PointWiseProduct', None, nmul); elementwise('PointWiseDivide', None, ndiv)
    scalar('operator+', nadd); scalar('operator-', nsub); scalar('operator*', nmul); scalar('operator/', ndiv)
    @con('Transpose')
    def _(c):
        m = M(c)
        def el(i, j):
            v = mat(m, j, i)
            return cplx(v.f['re'], fop('fneg', v.f['im'])) if cx else v
        c.result(mkmat(m.c, m.r, el))
    con('Abs')(lambda c: c.result(mkmat(M(c).r, M(c).c, lambda i, j: nabs(mat(M(c), i, j)))))
    # ---- ranges
    @con('RowSubset')
    def _(c):
        m, r, a, b = M(c), c.arg(0), c.arg(1), c.arg(2)
        c.req('row and columns in range', and_(inr(r, m.r), le(ZERO, a), le(a, b), lt(b, m.c)))
        c.result(mkseq(add(sub(b, a), ONE), lambda i: mat(m, r, add(a, i))))
    @con('GetRow')
    def _(c):
        m, r = M(c), c.arg(0)
        c.req('row in range', inr(r, m.r))
        c.result(mkseq(m.c, lambda i: mat(m, r, i)))
    @con('GetRows')
    def _(c):
        m, a, b = M(c), c.arg(0), c.arg(1)
        c.req('rows in range', and_(le(ZERO, a), le(a, b), lt(b, m.r)))
        c.result(mkmat(add(sub(b, a), ONE), m.c, lambda i, j: mat(m, add(a, i), j)))
    @con('GetColumn')
    def _(c):
        m, a = M(c), c.arg(0)
        c.req('column in range', inr(a, m.c))
        c.result(mkmat(m.r, ONE, lambda i, j: mat(m, i, a)))
    @con('GetColumns')
    def _(c):
        m, a, b = M(c), c.arg(0), c.arg(1)
        c.req('columns in range', and_(le(ZERO, a), le(a, b), lt(b, m.c)))
        c.result(mkmat(m.r, add(sub(b, a), ONE), lambda i, j: mat(m, i, add(a, j))))
    @con('GetSpan')
    def _(c):
        m, a, b, d, f = M(c), c.arg(0), c.arg(1), c.arg(2), c.arg(3)
        c.req('ranges inside', and_(le(ZERO, a), le(a, b), lt(b, m.r), le(ZERO, d), le(d, f), lt(f, m.c)))
        c.result(mkmat(add(sub(b, a), ONE), add(sub(f, d), ONE), lambda i, j: mat(m, add(a, i), add(d, j))))
    def setrow(c):
        m, r, v = M(c), c.arg(0), c.arg(1)
        c.req('row in range and of matching length', and_(inr(r, m.r), eq(v.n, m.c)))
        c.set('*', mkmat(m.r, m.c, lambda i, j: vite(eq(i, r), at(v, j), mat(m, i, j))))
    con('SetRow', '(size_t, const std::vector')(setrow)
    con('SetRow', '(size_t, std::valarray')(lambda c: (setrow(c), c.havoc('#1')))
    def setcol(c, get, n):
        m, k = M(c), c.arg(0)
        c.req('column in range and of matching length', and_(inr(k, m.c), n))
        c.set('*', mkmat(m.r, m.c, lambda i, j: vite(eq(j, k), get(i), mat(m, i, j))))
        c.havoc('#1')
    con('SetColumn', '(size_t, AMatrix')(lambda c: setcol(c, lambda i: mat(c.arg(1), i, ZERO), and_(eq(c.arg(1).r, M(c).r), eq(c.arg(1).c, ONE))))
    con('SetColumn', '(size_t, std::vector')(lambda c: setcol(c, lambda i: at(c.arg(1), i), eq(c.arg(1).n, M(c).r)))
    con('SetColumn', '(size_t, std::valarray')(lambda c: setcol(c, lambda i: at(c.arg(1), i), eq(c.arg(1).n, M(c).r)))
    # ---- shape
    @con('Resize')
    def _(c):
        m, r, k = M(c), c.arg(0), c.arg(1)
        c.set('*', mkmat(r, k, lambda i, j: vite(and_(lt(i, m.r), lt(j, m.c)), mat(m, i, j), zero)))
    @con('JoinVertically')
    def _(c):
        a, b = M(c), c.arg(0)
        c.req('same number of columns', eq(a.c, b.c))
        c.result(mkmat(add(a.r, b.r), a.c, lambda i, j: vite(lt(i, a.r), mat(a, i, j), mat(b, sub(i, a.r), j))))
    con('FlipUpDown')(lambda c: c.result(mkmat(M(c).r, M(c).c, lambda i, j: mat(M(c), sub(sub(M(c).r, ONE), i), j))))
    def colvec(c):
        m = M(c)
        c.req('has a column', lt(ZERO, m.c))
        c.result(mkseq(m.r, lambda i: mat(m, i, ZERO)))
    con('ToVector')(colvec); con('ToValArray')(colvec)
    # ---- statistics: dim 0 = per column, 1 = per row
    def meanel(n, f):
        if cx: return cplx(fop('fdiv', fsum(n, lambda k: f(k).f['re']), i2f(n)), fop('fdiv', fsum(n, lambda k: f(k).f['im']), i2f(n)))
        return fop('fdiv', fsum(n, f), i2f(n))
    def perdim(c, el):
        m, d = M(c), c.arg(0)
        c.req('dimension is COLUMN or ROW', and_(le(ZERO, d), le(d, ONE)))
        c.req('non-empty', and_(lt(ZERO, m.r), lt(ZERO, m.c)))
        bycol = eq(d, ZERO)
        c.result(mkmat(ite(bycol, ONE, m.r), ite(bycol, m.c, ONE), lambda i, j: vite(bycol, el(m.r, lambda k: mat(m, k, j)), el(m.c, lambda k: mat(m, i, k)))))
    con('Mean')(lambda c: perdim(c, meanel))
    con('StdDev')(lambda c: perdim(c, lambda n, f: T.app('arma.stddev', (ZERO, handle(mkseq(n, f))), 'F')))

for_type('double'); for_type('std::complex<double>')
from contracts.registry import prop
prop('C36', KEYS, harness=dict(file='C36.cc', sources=[], san=True),
     gaps=['Print and PrintSummary (console output) are not covered'])
