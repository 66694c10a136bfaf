"""Element-wise complex arrays and the ERB filter design (C16)."""
from dv.contract import *
from dv.lib import *
from dv import terms as T
V = 'Visqol::'
Q = V + 'ComplexValArray::'
CV = ('complex_valarray.cc',)
def cva(s): return SV(V + 'ComplexValArray', {'va_': s})
def va(v): return v.f['va_']
KEYS = []
def ew(name, typ, f):
    def g(c):
        a = c.t('va_')
        if c.n:
            b = c.arg(0)
            if isinstance(b, SV) and b.type == V + 'ComplexValArray': b = va(b)
            if isinstance(b, Seq):
                c.req('same length', le(a.n, b.n))
                c.result(cva(mkseq(a.n, lambda i: f(at(a, i), at(b, i))))); return
            c.result(cva(mkseq(a.n, lambda i: f(at(a, i), b))))
        else: c.result(cva(mkseq(a.n, lambda i: f(at(a, i)))))
    KEYS.append(Q + name + ('|' + typ if typ else ''))
    contract(Q + name, typ, sources=CV)(g)
def cneg(a): return cplx(fop('fneg', a.f['re']), fop('fneg', a.f['im']))
def cfn(nm):
    def f(a, b=None):
        fs = [a.f['re'], a.f['im']] + ([] if b is None else [b.f['re'], b.f['im']] if isc(b) else [b])
        return cplx(T.fn('c%s.re' % nm, *fs), T.fn('c%s.im' % nm, *fs))
    return f
def cnum(s): return mkseq(s.n, lambda i: cplx(at(s, i), Fl(0.0)))
for typ in ('(size_t)', '(const std::vector<double> &)', '(const std::valarray<double> &)'):
    KEYS.append(Q + 'ComplexValArray|void ' + typ)
@contract(Q + 'ComplexValArray', 'void (size_t)', sources=CV)
def _(c): c.set('va_', mkseq(c.arg(0), lambda i: cplx(Fl(0.0), Fl(0.0))))
@contract(Q + 'ComplexValArray', 'void (const std::vector<double> &)', sources=CV)
def _(c): c.set('va_', cnum(c.arg(0)))
@contract(Q + 'ComplexValArray', 'void (const std::valarray<double> &)', sources=CV)
def _(c): c.set('va_', cnum(c.arg(0)))
ew('operator+', '(double) const', nadd); ew('operator+', '(const ComplexValArray &) const', nadd)
ew('operator-', '() const', cneg); ew('operator-', '(double) const', nsub); ew('operator-', '(const ComplexValArray &) const', nsub)
ew('operator*', '(double) const', nmul); ew('operator*', '(const std::complex<double> &) const', nmul); ew('operator*', '(const ComplexValArray &) const', nmul)
ew('operator/', '(double) const', ndiv); ew('operator/', '(const ComplexValArray &) const', ndiv); ew('operator/', '(const std::valarray<double> &) const', ndiv)
ew('operator^', None, cfn('pow')); ew('exp', None, cfn('exp')); ew('sin', None, cfn('sin')); ew('cos', None, cfn('cos'))
def con(nm, fn, typ=None):
    KEYS.append(Q + nm + ('|' + typ if typ else '')); contract(Q + nm, typ, sources=CV)(fn)
con('size', lambda c: c.result(c.t('va_').n))
def ix(c):
    v = c.t('va_'); c.req('index in range', and_(le(ZERO, c.arg(0)), lt(c.arg(0), v.n))); return v
con('operator[]', lambda c: (ix(c), c.result_ref(c.lv.f('va_').at(c.arg(0)))))
con('at', lambda c: c.result(at(ix(c), c.arg(0))))
con('abs', lambda c: c.result(mkseq(c.t('va_').n, lambda i: nabs(at(c.t('va_'), i)))))
con('ToDoubleVector', lambda c: c.result(mkseq(c.t('va_').n, lambda i: at(c.t('va_'), i).f['re'])))
def free(typ, f):
    KEYS.append(V + 'operator' + typ[0] + '|' + typ[1])
    contract(V + 'operator' + typ[0], typ[1], sources=CV)(lambda c: c.result(cva(mkseq(va(c.arg(1)).n, lambda i: f(c.arg(0), at(va(c.arg(1)), i))))))
free(('*', '(double, const ComplexValArray &)'), nmul)
free(('+', '(double, const ComplexValArray &)'), nadd)
free(('*', '(std::complex<double>, const ComplexValArray &)'), lambda a, b: nmul(b, a))
free(('/', '(double, const ComplexValArray &)'), ndiv)

# ---------------------------------------------------------------- C16
EARQ, MINBW = 9.26449, 24.7
ERB = V + 'EquivalentRectangularBandwidth::'
ES = ('equivalent_rectangular_bandwidth.cc', 'complex_valarray.cc')
def centre(low, high, n, i):
    k = fop('fmul', Fl(EARQ), Fl(MINBW))
    d = fop('fadd', high, k)
    e = fop('fdiv', fop('fadd', fop('fneg', T.fn('log', d)), T.fn('log', fop('fadd', low, k))), i2f(n))
    return fop('fadd', fop('fneg', k), fop('fmul', T.fn('exp', fop('fmul', i2f(add(i, ONE)), e)), d))
@contract(ERB + 'CalcUniformCenterFreqs', sources=ES)
def _(c):
    lo, hi, n = c.arg(0), c.arg(1), c.arg(2)
    c.result(mkseq(n, lambda i: centre(lo, hi, n, i)))

class X:
    """number with the C++ operators (double or complex<double>)"""
    def __init__(s, v): s.v = Fl(float(v)) if isinstance(v, (int, float)) else v
    def __add__(s, o): return X(nadd(s.v, X.of(o)))
    def __radd__(s, o): return X(nadd(s.v, X.of(o)))          # ComplexValArray: d + v is v + d
    def __sub__(s, o): return X(nsub(s.v, X.of(o)))
    def __mul__(s, o): return X(nmul(s.v, X.of(o)))
    def __rmul__(s, o): return X(nmul(s.v, X.of(o)))
    def __truediv__(s, o): return X(ndiv(s.v, X.of(o)))
    def __rtruediv__(s, o): return X(ndiv(X.of(o), s.v))
    def __neg__(s): return X(cneg(s.v)) if isc(s.v) else X(fop('fneg', s.v))
    def re(s): return s.v.f['re']
    @staticmethod
    def of(o): return o.v if isinstance(o, X) else Fl(float(o))
def ex(x): return X(cfn('exp')(x.v))
def sn(x): return X(cfn('sin')(x.v))
def cs(x): return X(cfn('cos')(x.v))
def pw(x, y): return X(cfn('pow')(x.v, Fl(y)))
PI = 3.141592653589793
def design(f, sr):
    """Slaney's gammatone coefficients of one band (Apple TR 35): centre frequency f, sample rate sr"""
    T_ = X(fop('fdiv', Fl(1.0), i2f(sr)))
    cf = X(cplx(f, Fl(0.0)))
    erb = X(cfn('pow')(nadd(pw(cf / EARQ, 1.0).v, fpow(Fl(MINBW), Fl(1.0))), Fl(1.0)))
    B = X(nmul(erb.v, fop('fmul', fop('fmul', Fl(1.019), Fl(2.0)), Fl(PI))))
    eBT = ex(B * T_)
    B1 = -2.0 * cs(2.0 * cf * PI * T_) / eBT
    B2 = ex(B * T_ * -2.0)
    b1 = sn(cf * 2.0 * PI * T_) * T_
    P15 = fpow(Fl(2.0), Fl(1.5))
    hi, lo = X(fop('fsqrt', fop('fadd', Fl(3.0), P15))), X(fop('fsqrt', fop('fsub', Fl(3.0), P15)))
    bp, bn = b1 * 2.0 * hi, b1 * 2.0 * lo
    a = cs(cf * 2.0 * PI * T_) * 2.0 * T_
    A = [-(a / eBT + bp / eBT) / 2.0, -(a / eBT - bp / eBT) / 2.0, -(a / eBT + bn / eBT) / 2.0, -(a / eBT - bn / eBT) / 2.0]
    i = cplx(Fl(0.0), Fl(1.0))
    i4, i2 = X(nmul(i, Fl(4.0))), X(nmul(i, Fl(2.0)))
    xe = ex(i4 * cf * PI * T_)
    x01 = -2.0 * xe * T_
    x02 = 2.0 * ex(-(B * T_) + i2 * cf * PI * T_) * T_
    xc, xs = cs(2.0 * cf * PI * T_), sn(2.0 * cf * PI * T_)
    x = lambda y: x01 + x02 * y
    x5 = (-2.0 / ex(2.0 * B * T_)) - 2.0 * xe + (2.0 * (1.0 + xe)) / ex(B * T_)
    g = (x(xc - lo * xs) * x(xc + lo * xs) * x(xc - hi * xs) * x(xc + hi * xs)) / pw(x5, 4.0)
    return [T_.v] + [q.re() for q in A] + [Fl(0.0), Fl(1.0), B1.re(), B2.re(), nabs(g.v)]
def cap(sr, hi):
    nyq = fop('fdiv', i2f(sr), Fl(2.0))
    return ite(fcmp('lt', nyq, hi), nyq, hi)
def filters(sr, n, lo, hi):
    f = lambda i: centre(lo, cap(sr, hi), n, i)
    def lists(j):
        def el(i):
            d = design(f(i), sr)
            r = d[9]
            for k in range(8, -1, -1): r = ite(eq(j, I(k)), d[k], r)
            return r
        return mkseq(n, el)
    return SV(V + 'ErbFiltersResult', {'filterCoeffs': mkseq(I(10), lists), 'centerFreqs': mkseq(n, f)})
@contract(ERB + 'MakeFilters', sources=ES, opaque=True)
def _(c): c.result(filters(*[c.arg(i) for i in range(4)]))
def filters_of(sr, n, lo, hi): return call_of(ERB + 'MakeFilters', (sr, n, lo, hi), filters(sr, n, lo, hi))

from contracts.registry import prop, lemma
from dv.exec import Oblig
def lem(name, facts, goal, msg):
    return Oblig('lemma', (), tuple(facts), goal, '', msg, name)
def flt(a, b): return fcmp('lt', a, b)
def fle(a, b): return not_(fcmp('lt', b, a))
@lemma('C16.spacing')
def _():
    """exp/log instances used: log increasing; exp increasing; exp(0)=1; exp(log x - log y)=x/y; log(exp(x)*y)=x+log y"""
    lo, hi = T.var('low', 'F'), T.var('high', 'F'); n, i = T.var('bands', 'I'), T.var('i', 'I')
    k = fop('fmul', Fl(EARQ), Fl(MINBW))
    d, l = fop('fadd', hi, k), fop('fadd', lo, k)
    e = fop('fdiv', fop('fadd', fop('fneg', T.fn('log', d)), T.fn('log', l)), i2f(n))
    ex_ = lambda x: T.fn('exp', x)
    arg = lambda j: fop('fmul', i2f(add(j, ONE)), e)
    base = [flt(Fl(0.0), l), flt(lo, hi), lt(ZERO, n), le(ZERO, i), lt(i, n), flt(T.fn('log', l), T.fn('log', d))]
    cf = lambda j: centre(lo, hi, n, j)
    neg_e = flt(e, Fl(0.0))
    out = [lem('C16.spacing', base, neg_e, 'the step on the ERB-rate scale is downwards')]
    inc = implies(flt(arg(add(i, ONE)), arg(i)), flt(ex_(arg(add(i, ONE))), ex_(arg(i))))
    out.append(lem('C16.spacing', base + [neg_e, inc, lt(add(i, ONE), n), flt(arg(add(i, ONE)), arg(i))], flt(cf(add(i, ONE)), cf(i)), 'strictly decreasing'))
    out.append(lem('C16.spacing', base + [neg_e], flt(arg(add(i, ONE)), arg(i)), 'arguments of exp decrease'))
    out.append(lem('C16.spacing', base + [neg_e], flt(arg(i), Fl(0.0)), 'arguments of exp are negative'))
    below = implies(flt(arg(i), Fl(0.0)), flt(ex_(arg(i)), Fl(1.0)))
    out.append(lem('C16.spacing', base + [flt(arg(i), Fl(0.0)), below], flt(cf(i), hi), 'below the upper limit'))
    last = sub(n, ONE)
    whole = fop('fsub', T.fn('log', l), T.fn('log', d))
    out.append(lem('C16.spacing', base, fcmp('eq', arg(last), whole), 'the last argument of exp is log(low+k)-log(high+k)'))
    out.append(lem('C16.spacing', base + [fcmp('eq', ex_(arg(last)), fop('fdiv', l, d))], fcmp('eq', cf(last), lo), 'the last centre frequency is the lower limit'))
    rate = lambda f: T.fn('log', fop('fadd', f, k))
    lg = lambda j: fcmp('eq', T.fn('log', fop('fmul', ex_(arg(j)), d)), fop('fadd', arg(j), T.fn('log', d)))
    cancel = lambda j: fcmp('eq', rate(cf(j)), T.fn('log', fop('fmul', ex_(arg(j)), d)))
    out.append(lem('C16.spacing', base + [fcmp('eq', ex_(arg(i)), ex_(arg(i)))], fcmp('eq', fop('fadd', cf(i), k), fop('fmul', ex_(arg(i)), d)), 'f + earQ*minBW = exp(...)*(high + earQ*minBW)'))
    j = add(i, ONE)
    out.append(lem('C16.spacing', base + [lg(i), lg(j), cancel(i), cancel(j)], fcmp('eq', fop('fsub', rate(cf(j)), rate(cf(i))), e), 'consecutive bands differ by the same step on the ERB-rate scale'))
    return out
prop('C16', [ERB + 'CalcUniformCenterFreqs', ERB + 'MakeFilters'] + KEYS, lemmas=['C16.spacing'],
     harness=dict(file='C16.cc', sources=['equivalent_rectangular_bandwidth.cc', 'complex_valarray.cc']),
     assumptions=['exp and log are the real functions in the lemma (monotone, inverse of each other); ordering of the bands after rounding is checked by the bounded replay only',
                  'lower frequency limit above -228.83 Hz (so that the logarithm is defined)'])
