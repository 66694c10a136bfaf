"""Contracts of the library functions the code calls (the trusted base): std, absl, Armadillo."""
from .loops import *
from .ev import Moved, tyof, inner
from .exec import NIL, Nil, Frame
from . import terms as T

ENUMS = {'absl::LogSeverity': 'int', 'LogSeverity': 'int', 'absl::StatusCode': 'int', 'StatusCode': 'int', 'std::ios_base::openmode': 'int', 'std::_Ios_Openmode': 'int', 'std::_Ios_Seekdir': 'int', 'std::ios_base::seekdir': 'int', 'TfLiteStatus': 'int', 'std::filesystem::path::format': 'int', 'format': 'int'}
_codes = ['kOk', 'kCancelled', 'kUnknown', 'kInvalidArgument', 'kDeadlineExceeded', 'kNotFound', 'kAlreadyExists', 'kPermissionDenied', 'kResourceExhausted', 'kFailedPrecondition', 'kAborted', 'kOutOfRange', 'kUnimplemented', 'kInternal', 'kUnavailable', 'kDataLoss', 'kUnauthenticated']
ENUMCONST = {c: I(i) for i, c in enumerate(_codes)}
ENUMCONST.update({'kInfo': I(0), 'kWarning': I(1), 'kError': I(2), 'kFatal': I(3)})
ENUMCONST.update({'C_SVC': I(0), 'NU_SVC': I(1), 'ONE_CLASS': I(2), 'EPSILON_SVR': I(3), 'NU_SVR': I(4), 'LINEAR': I(0), 'POLY': I(1), 'RBF': I(2), 'SIGMOID': I(3),
                  'PFFFT_REAL': I(0), 'PFFFT_COMPLEX': I(1), 'PFFFT_FORWARD': I(0), 'PFFFT_BACKWARD': I(1), 'kTfLiteOk': I(0), 'kTfLiteError': I(1), 'kTfLiteDelegateError': I(2), 'kTfLiteApplicationError': I(3), 'kTfLiteDelegateFlagsAllowDynamicTensors': I(1), '_S_in': I(8), '_S_out': I(16), '_S_bin': I(4), '_S_app': I(1), '_S_end': I(2), '_S_beg': I(0), '_S_cur': I(1)})
SIZEOF = {}
OPAQUE = {'svm_model', 'FlatBufferModel', 'Interpreter'}    # library classes seen only through their interface
VALUE_RECORDS = {}
def status(code, msg): return SV('Status', {'code': code, 'msg': msg})
OKSTATUS = None      # defaults built by build()

# ---------------------------------------------------------------- numbers (double or complex<double>)
def cplx(re, im): return SV('complex', {'re': re, 'im': im})
def isc(v): return isinstance(v, SV) and v.type == 'complex'
def toc(v): return v if isc(v) else cplx(v, Fl(0.0))
def nadd(a, b):
    if isc(a) and isc(b): return cplx(fop('fadd', a.f['re'], b.f['re']), fop('fadd', a.f['im'], b.f['im']))
    if isc(a): return cplx(fop('fadd', a.f['re'], b), a.f['im'])
    if isc(b): return nadd(b, a)
    return fop('fadd', a, b)
def nsub(a, b):
    if isc(a) and isc(b): return cplx(fop('fsub', a.f['re'], b.f['re']), fop('fsub', a.f['im'], b.f['im']))
    if isc(a): return cplx(fop('fsub', a.f['re'], b), a.f['im'])
    if isc(b): return cplx(fop('fsub', a, b.f['re']), fop('fneg', b.f['im']))
    return fop('fsub', a, b)
def nmul(a, b):
    if isc(a) and isc(b):
        ar, ai, br, bi = a.f['re'], a.f['im'], b.f['re'], b.f['im']
        return cplx(fop('fsub', fop('fmul', ar, br), fop('fmul', ai, bi)), fop('fadd', fop('fmul', ar, bi), fop('fmul', ai, br)))
    if isc(a): return cplx(fop('fmul', a.f['re'], b), fop('fmul', a.f['im'], b))
    if isc(b): return nmul(b, a)
    return fop('fmul', a, b)
def ndiv(a, b):
    if isc(b):
        a = toc(a)
        return cplx(T.fn('cdiv.re', a.f['re'], a.f['im'], b.f['re'], b.f['im']), T.fn('cdiv.im', a.f['re'], a.f['im'], b.f['re'], b.f['im']))
    if isc(a): return cplx(fop('fdiv', a.f['re'], b), fop('fdiv', a.f['im'], b))
    return fop('fdiv', a, b)
def nabs(a):
    if isc(a): return T.fn('hypot', a.f['re'], a.f['im'])
    return fop('fabs', a)
def fpow(x, y):
    if y.op == 'flt':
        v = T.flval(y)
        if v == 2.0: return fop('fmul', x, x)
        if v == 1.0: return x
        if v == 0.5: pass
    return T.fn('pow', x, y)
def fmax2(a, b): return ite(fcmp('lt', a, b), b, a)     # std::max
def fmin2(a, b): return ite(fcmp('lt', b, a), b, a)     # std::min

# ---------------------------------------------------------------- folds used by specifications and by library models
def fsum(n, f, init=None, op='fadd'):
    """((init + f(0)) + f(1)) + ..."""
    kv = bv('I', 'k')
    init = Fl(0.0) if init is None else init
    if n.op == 'int' and n.data <= 0: return init
    return mkfold(0, n, (), (0,), (init.sort,), [init], [fop(op, accref(kv, 0, (), init.sort), f(kv))], kv, [[]])
def fold1(n, init, step):
    """scalar fold: step(k, acc)"""
    kv = bv('I', 'k')
    return mkfold(0, n, (), (0,), (init.sort,), [init], [step(kv, accref(kv, 0, (), init.sort))], kv, [[]])
def foldn(comp, n, inits, step):
    """tuple of scalar accumulators"""
    kv = bv('I', 'k')
    acc = [accref(kv, j, (), x.sort) for j, x in enumerate(inits)]
    return mkfold(comp, n, (), tuple(0 for _ in inits), tuple(x.sort for x in inits), list(inits), list(step(kv, acc)), kv, [[] for _ in inits])
def argbest(n, better):
    """index of the first element that no later element beats: better(new_idx, cur_idx)"""
    return fold1(sub(n, ONE), ZERO, lambda k, a: ite(better(add(k, ONE), a), add(k, ONE), a))

# ---------------------------------------------------------------- helpers
def A(e, st, argn, j): return e.rval(argn[j], st)
def args_of(e, st, argn): return [e.ev(a, st) for a in argn if not (isinstance(a, dict) and a['kind'] == 'CXXDefaultArgExpr')]
def rv(e, st, x): 
    if isinstance(x, Moved): x = x.lv
    return e.rv(st, x)
def lvof(x): return x.lv if isinstance(x, Moved) else x
def contlv(e, st, x):
    x = lvof(x)
    return x if isinstance(x, LV) else e.alloc(st, x)
def clen(e, st, lv): return e.seqlen(e.load(st, lv))
def set_el(e, st, lv, start, n, f, node=None):
    """elements [start, start+n) of the container := f(offset)"""
    c = e.load(st, lv)
    if isinstance(c, Seq):
        off = sub(c.iv, start)
        if start is ZERO and n is c.n: e.store(st, lv, Seq(c.n, c.iv, f(c.iv))); return
        e.store(st, lv, Seq(c.n, c.iv, vite(and_(le(ZERO, off), lt(off, n)), f(off), c.el)))
    elif isinstance(c, Mat):
        i = add(c.ri, mul(c.r, c.ci)) if c.c is not ONE else c.ri
        off = sub(i, start)
        e.store(st, lv, Mat(c.r, c.c, c.ri, c.ci, vite(and_(le(ZERO, off), lt(off, n)), f(off), c.el)))
    else: raise Unsupported('fill of %r' % type(c))
def elem(e, st, it, k):
    """value k steps after iterator it"""
    c = e.load(st, it.lv)
    p = add(it.pos, k) if not it.rev else sub(sub(it.pos, ONE), k)
    return e.proj(st, c, ('i', p))
def span_ok(e, st, a, n, node, what):
    """[a, a+n) lies inside its container"""
    L = clen(e, st, a.lv)
    if not a.rev: e.oblige(st, 'bounds', and_(le(ZERO, a.pos), le(add(a.pos, n), L)), node, what)
    else: e.oblige(st, 'bounds', and_(le(ZERO, sub(a.pos, n)), le(a.pos, L)), node, what)
def dist(a, b):
    if not (isinstance(a, It) and isinstance(b, It)): raise Unsupported('iterator range')
    return sub(b.pos, a.pos) if not a.rev else sub(a.pos, b.pos)
def nonneg(e, st, n, node):
    e.oblige(st, 'bounds', le(ZERO, n), node, 'iterator range is well formed')

def synth(e, st, node, n, body):
    """run body(st, k) for k in 0..n-1 through the loop engine"""
    i = e.alloc(st, ZERO, 'it')
    def c(x): return lt(e.load(x, i), n)
    def b(x):
        body(x, e.load(x, i))
        e.store(x, i, add(e.load(x, i), ONE))
        return [('n', x, None)]
    outs = e.loop(node, st, c, b)
    if len(outs) != 1: raise Unsupported('library loop')
    st.become(outs[0][1])
def callf(e, st, f, args, node):
    if isinstance(f, Clo): return e.call_clo(st, f, args, node)
    if isinstance(f, FnV):
        if isinstance(f.fn, dict): return e.libcall(st, f.fn['name'], f.fn, args, node)
        return e.call_v(st, f.fn, None, args, node)
    if isinstance(f, SV) and f.type.startswith('functor:'):
        return functor(e, st, f.type[8:], args)
    raise Unsupported('call of %r' % type(f))
def functor(e, st, nm, args):
    a = [rv(e, st, x) for x in args]
    if nm == 'plus': return nadd(*a)
    if nm == 'minus': return nsub(*a)
    if nm == 'multiplies': return nmul(*a)
    if nm == 'divides': return ndiv(*a)
    raise Unsupported('functor ' + nm)

# ================================================================ free functions
CALLS = {}
def call_(*names):
    def d(f):
        for n in names: CALLS[n] = f
        return f
    return d
def call(e, st, nm, d, argn, n):
    h = CALLS.get(nm)
    return h(e, st, nm, d, argn, n) if h else None

@call_('move', 'forward')
def _(e, st, nm, d, argn, n):
    x = e.ev(argn[0], st)
    if len(argn) == 3: return copy_alg(e, st, argn, n)
    return Moved(x) if isinstance(x, LV) else x
@call_('max', 'min')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    if len(a) == 1:
        c = a[0]
        if isinstance(c, Seq) and c.n.op == 'int':
            r = at(c, ZERO)
            for j in range(1, c.n.data):
                y = at(c, I(j))
                r = (fmax2 if nm == 'max' else fmin2)(r, y) if r.sort == 'F' else ite(lt(r, y) if nm == 'max' else lt(y, r), y, r)
            return r
        return None
    if not a:        # numeric_limits<T>::max()
        t = unref(tyof(n))
        if t in INTS: return I(e.rng(t)[1] if nm == 'max' else e.rng(t)[0])
        if t == 'double': return Fl(1.7976931348623157e308 if nm == 'max' else 2.2250738585072014e-308)
        if t == 'float': return Fl(3.4028234663852886e38 if nm == 'max' else 1.1754943508222875e-38)
        return None
    x, y = a[0], a[1]
    if x.sort == 'F': return fmax2(x, y) if nm == 'max' else fmin2(x, y)
    return ite(lt(x, y), y, x) if nm == 'max' else ite(lt(y, x), y, x)
@call_('lowest')
def _(e, st, nm, d, argn, n):
    t = unref(tyof(n))
    return Fl(-1.7976931348623157e308) if t == 'double' else I(e.rng(t)[0])
@call_('infinity')
def _(e, st, nm, d, argn, n): return Fl(float('inf'))
@call_('quiet_NaN')
def _(e, st, nm, d, argn, n): return Fl(float('nan'))
@call_('epsilon')
def _(e, st, nm, d, argn, n): return Fl(2.220446049250313e-16)
@call_('clamp')
def _(e, st, nm, d, argn, n):
    v, lo, hi = [rv(e, st, x) for x in args_of(e, st, argn)]
    if v.sort == 'F': return ite(fcmp('lt', v, lo), lo, ite(fcmp('lt', hi, v), hi, v))
    return ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))
@call_('swap')
def _(e, st, nm, d, argn, n):
    a, b = [lvof(x) for x in args_of(e, st, argn)]
    va, vb = e.load(st, a), e.load(st, b)
    e.store(st, a, vb); e.store(st, b, va)
    return UNIT
def mathfn(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    if a and isinstance(a[0], Seq):
        return vmap_seq(e, a, lambda *xs: math1(e, st, nm, xs, n))
    return math1(e, st, nm, a, n)
def vmap_seq(e, a, f):
    s0 = [x for x in a if isinstance(x, Seq)][0]
    return mkseq(s0.n, lambda i: f(*[at(x, i) if isinstance(x, Seq) else x for x in a]))
def math1(e, st, nm, a, n):
    a = [i2f(x) if isinstance(x, Term) and x.sort == 'I' and nm not in ('abs', 'labs') else x for x in a]
    x = a[0]
    if nm in ('abs', 'fabs', 'labs'):
        if isc(x): return nabs(x)
        if x.sort == 'I': return ite(le(ZERO, x), x, neg(x))
        return fop('fabs', x)
    if nm == 'norm' and isc(x): return fop('fadd', fop('fmul', x.f['re'], x.f['re']), fop('fmul', x.f['im'], x.f['im']))
    if isc(x):
        if nm == 'conj': return cplx(x.f['re'], fop('fneg', x.f['im']))
        if nm == 'real': return x.f['re']
        if nm == 'imag': return x.f['im']
        if nm == 'exp':
            return cplx(T.fn('cexp.re', x.f['re'], x.f['im']), T.fn('cexp.im', x.f['re'], x.f['im']))
        if nm in ('sqrt', 'pow', 'sin', 'cos', 'log', 'tan'):
            fs = [t for v in a for t in ((v.f['re'], v.f['im']) if isc(v) else (v,))]
            return cplx(T.fn('c%s.re' % nm, *fs), T.fn('c%s.im' % nm, *fs))
        raise Unsupported('complex %s' % nm)
    if nm == 'sqrt': return fop('fsqrt', x)
    if nm == 'pow' and a[0] is Fl(2.0) and a[1].op == 'i2f' and a[1].args[0].op == 'app' and a[1].args[0].data == 'blen': return i2f(T.app('pow2', (a[1].args[0],), 'I'))
    if nm == 'pow': return fpow(a[0], a[1])
    if nm in ('floor', 'ceil'): return fop(nm, x)
    if nm in ('fmax', 'fmin'): return T.fn(nm, *a)
    if nm in ('isnan',): return isnan(x)
    if nm == 'isfinite': return T.fn('isfinite', x, sort='B')
    return T.fn(nm, *a)
for _n in ('abs', 'fabs', 'labs', 'sqrt', 'pow', 'exp', 'log', 'log10', 'log2', 'cos', 'sin', 'tan', 'atan', 'atan2', 'floor', 'ceil', 'round', 'trunc', 'fmax', 'fmin', 'fmod', 'hypot', 'conj', 'real', 'imag', 'norm', 'isnan', 'isfinite', 'tanh', 'sinh', 'cosh'):
    CALLS[_n] = mathfn
@call_('lround', 'llround', 'lrint')
def _(e, st, nm, d, argn, n):
    x = A(e, st, argn, 0)
    return e.f2i(st, T.fn('round', x), 'long', n)
@call_('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend')
def _(e, st, nm, d, argn, n):
    x = contlv(e, st, e.ev(argn[0], st))
    return mkit(e, st, x, nm)
def mkit(e, st, lv, nm):
    c = e.load(st, lv)
    if isinstance(c, It): lv = c.lv
    L = clen(e, st, lv)
    rev = nm in ('rbegin', 'rend', 'crbegin', 'crend')
    if nm in ('begin', 'cbegin'): return It(lv, ZERO)
    if nm in ('end', 'cend'): return It(lv, L)
    if nm in ('rbegin', 'crbegin'): return It(lv, L, True)
    return It(lv, ZERO, True)
@call_('distance')
def _(e, st, nm, d, argn, n):
    a, b = [rv(e, st, x) for x in args_of(e, st, argn)]
    return dist(a, b)
@call_('advance')
def _(e, st, nm, d, argn, n):
    x = lvof(e.ev(argn[0], st)); k = A(e, st, argn, 1)
    e.store(st, x, e.itadd(e.load(st, x), k)); return UNIT
@call_('next', 'prev')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    k = a[1] if len(a) > 1 else ONE
    return e.itadd(a[0], k if nm == 'next' else neg(k))
@call_('size')
def _(e, st, nm, d, argn, n):
    return clen(e, st, contlv(e, st, e.ev(argn[0], st)))
@call_('get')
def _(e, st, nm, d, argn, n):
    x = lvof(e.ev(argn[0], st))
    import re
    # index is recoverable from the position of the result type only for distinct types; use the template args text
    t = d.get('type', {}).get('qualType', '')
    m = re.search(r'tuple_element<\s*(\d+)', t) or re.search(r'__tuple_element_t<\s*(\d+)', t)
    if not m: 
        k = e.get_index(n)
        if k is None: raise Unsupported('std::get index')
        k = str(k)
    else: k = m.group(1)
    if isinstance(x, LV): return x.f(k)
    return x.f[k]
@call_('make_tuple', 'make_pair', 'tie')
def _(e, st, nm, d, argn, n):
    a = args_of(e, st, argn)
    if nm == 'tie': return SV('tie', {str(i): Ptr(lvof(x), FALSE) for i, x in enumerate(a)})
    return SV('tuple', {str(i): rv(e, st, x) for i, x in enumerate(a)})
@call_('make_unique', 'make_shared')
def _(e, st, nm, d, argn, n):
    t = targs(unref(tyof(n)))[1][0]
    q = e.recname(t)
    if q:
        cs = [f for tu in e.prog.tus for f in tu.fns.values() if f.rec == q and f.kind == 'CXXConstructorDecl' and e.prog.find_def(f) is not None and f.body is not None]
        args = argn
        cs = [f for f in cs if len(f.params) >= len(args)]
        if len(args) == 1:
            at_ = unref(tyof(args[0]))
            cp = [f for f in cs if short(unref(f.params[0]['type']['qualType'].replace('&&', ''))) == q.split('::')[-1]]
            if e.recname(at_) == q:
                v = e.rval(args[0], st)
                return Ptr(e.alloc(st, v, 'h'), FALSE)
            cs = [f for f in cs if f not in cp]
        cs = [f for f in cs if len(f.params) == len(args)] or cs
        seen = {}
        for f in cs: seen.setdefault(f.type, f)
        cs = list(seen.values())
        if len(cs) > 1:
            # choose by argument types
            def score(f): return sum(short(unref(p['type']['qualType'].replace('&&', ''))) == short(unref(tyof(a))) for p, a in zip(f.params, args))
            cs.sort(key=score, reverse=True)
        if cs:
            a = e.evargs(args, cs[0], st)
            v = e.run_ctor(st, q, cs[0], a, n)
        elif not args: v = e.implicit_default(st, q)
        else: raise Unsupported('make_unique<%s>' % t)
        return Ptr(e.alloc(st, v, 'h'), FALSE)
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    if len(a) == 1: v = a[0]
    elif not a: v = e.default(t)
    else: v = construct(e, st, t, '', a, n)
    return Ptr(e.alloc(st, v, 'h'), FALSE)
# ---- algorithms
@call_('transform')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    f = a[-1]; ins = a[0:1] + (a[2:3] if len(a) == 5 else []); out = a[-2]
    N = dist(a[0], a[1]); nonneg(e, st, N, n)
    def body(x, k):
        vs = [e.deref_it(x, i, n, k) for i in ins]
        r = callf(e, x, f, vs, n)
        put(e, x, out, k, rv(e, x, r), n)
    synth(e, st, n, N, body)
    return outend(e, out, N)
def put(e, st, out, k, v, n):
    if isinstance(out, It): e.store(st, e.deref_it(st, out, n, k), v)
    elif isinstance(out, SV) and out.type == 'back_inserter': push(e, st, out.f['c'].lv, v)
    else: raise Unsupported('output iterator %r' % type(out))
def outend(e, out, N): return e.itadd(out, N) if isinstance(out, It) else out
@call_('back_inserter')
def _(e, st, nm, d, argn, n):
    return SV('back_inserter', {'c': Ptr(contlv(e, st, e.ev(argn[0], st)), FALSE)})
@call_('for_each')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = dist(a[0], a[1]); nonneg(e, st, N, n)
    synth(e, st, n, N, lambda x, k: callf(e, x, a[2], [e.deref_it(x, a[0], n, k)], n))
    return UNIT
@call_('generate')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = dist(a[0], a[1]); nonneg(e, st, N, n)
    synth(e, st, n, N, lambda x, k: e.store(x, e.deref_it(x, a[0], n, k), rv(e, x, callf(e, x, a[2], [], n))))
    return UNIT
@call_('iota')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = dist(a[0], a[1]); nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, 'iota range')
    f = (lambda k: add(a[2], k)) if a[2].sort == 'I' else (lambda k: fop('fadd', a[2], i2f(k)))
    set_el(e, st, a[0].lv, a[0].pos, N, f)
    return UNIT
@call_('fill', 'fill_n')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = dist(a[0], a[1]) if nm == 'fill' else a[1]
    nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, 'fill range')
    set_el(e, st, a[0].lv, a[0].pos, N, lambda k: a[2])
    return UNIT
def copy_alg(e, st, argn, n, cnt=False):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = a[1] if cnt else dist(a[0], a[1])
    out = a[2]
    if cnt: N = ite(lt(N, ZERO), ZERO, N)
    nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, 'copy source range')
    src = e.load(st, a[0].lv); it = a[0]
    get = lambda k: e.proj(st, src, ('i', add(it.pos, k) if not it.rev else sub(sub(it.pos, ONE), k)))
    if isinstance(out, It):
        span_ok(e, st, out, N, n, 'copy destination range')
        if out.rev: raise Unsupported('copy to reverse iterator')
        set_el(e, st, out.lv, out.pos, N, get)
        return e.itadd(out, N)
    if isinstance(out, SV) and out.type == 'back_inserter':
        append(e, st, out.f['c'].lv, N, get); return out
    raise Unsupported('copy to %r' % type(out))
@call_('copy')
def _(e, st, nm, d, argn, n): return copy_alg(e, st, argn, n)
@call_('copy_n')
def _(e, st, nm, d, argn, n): return copy_alg(e, st, argn, n, True)
# ---- C allocation and the pffft interface (its transforms are uninterpreted functions of their input)
def av(e, st, x): return rv(e, st, e.ev(x, st))
@call_('pffft_aligned_malloc', 'malloc')
def _(e, st, nm, d, argn, n):
    b = av(e, st, argn[0])
    e.assume_note('memory allocation succeeds')
    return Raw(b)
@call_('pffft_aligned_free')
def _(e, st, nm, d, argn, n): av(e, st, argn[0]); return UNIT
@call_('memset')
def _(e, st, nm, d, argn, n):
    it, v, b = [av(e, st, x) for x in argn[:3]]
    if not isinstance(it, It) or it.rev or v is not ZERO: raise Unsupported('memset')
    q = e.load(st, it.lv)
    if not isinstance(q, Seq) or not isinstance(q.el, Term): raise Unsupported('memset of %r' % type(q))
    x = argn[0]
    pt = lambda y: strip(unref(tyof(y)).rstrip('* '))
    while x['kind'] in ('ImplicitCastExpr', 'ParenExpr') and pt(x) == 'void': x = inner(x)[0]
    w = e.sizeof(pt(x))
    c, dd = T._lin(b)
    cnt = T._mklin(c // w, {a: k // w for a, k in dd.items()}) if c % w == 0 and all(k % w == 0 for k in dd.values()) else idiv(b, I(w))
    if it.null is not FALSE: e.oblige(st, 'null', not_(it.null), n, 'memset of a null pointer')
    nonneg(e, st, cnt, n); span_ok(e, st, it, cnt, n, 'memset range')
    z = Fl(0.0) if q.el.sort == 'F' else ZERO
    set_el(e, st, it.lv, it.pos, cnt, lambda k: z)
    return it
def pffft_n(e, st, s_, n):
    if not isinstance(s_, Ptr): raise Unsupported('PFFFT_Setup')
    return e.load(st, e.deref(st, s_, n)).f['N']
@call_('pffft_new_setup')
def _(e, st, nm, d, argn, n):
    N = av(e, st, argn[0])
    e.oblige(st, 'bounds', and_(le(I(32), N), eq(imod(N, I(32)), ZERO)), n, 'pffft_new_setup: a real transform size that is a multiple of 32')
    return Ptr(e.alloc(st, SV('PFFFT_Setup', {'N': N}), 'heap'), FALSE)
@call_('pffft_destroy_setup')
def _(e, st, nm, d, argn, n): av(e, st, argn[0]); return UNIT
def pffft_op(name):
    def f(e, st, nm, d, argn, n):
        a = [av(e, st, x) for x in argn]
        N = pffft_n(e, st, a[0], n)
        i, o = a[1], a[2]
        span_ok(e, st, i, N, n, 'pffft input'); span_ok(e, st, o, N, n, 'pffft output')
        if len(a) == 5:
            w = a[3]
            if isinstance(w, It):
                e.oblige(st, 'bounds', or_(w.null, le(add(w.pos, N), clen(e, st, w.lv))), n, 'pffft work area')
        k = a[-1]
        if k.op != 'int': raise Unsupported('pffft direction')
        src = e.load(st, i.lv)
        h = handle(mkseq(N, lambda j: e.proj(st, src, ('i', add(i.pos, j)))))
        set_el(e, st, o.lv, o.pos, N, lambda j: T.app('pffft.%s%d' % (name, k.data), (N, h, j), 'F'))
        return UNIT
    return f
call_('pffft_transform')(pffft_op('internal'))
call_('pffft_transform_ordered')(pffft_op('ordered'))
call_('pffft_zreorder')(pffft_op('zreorder'))
@call_('frexp')
def _(e, st, nm, d, argn, n):
    x = av(e, st, argn[0]); p = av(e, st, argn[1])
    if x.sort == 'I': x = i2f(x)
    if x.op != 'i2f': raise Unsupported('frexp of a general double %r' % (x,))
    x = x.args[0]
    while x.op == 'ite':
        if e.prove(st, x.args[0], optimistic=False): x = x.args[1]
        elif e.prove(st, not_(x.args[0]), optimistic=False): x = x.args[2]
        else: break
    m = x; x = i2f(m); ex = T.app('blen', (m,), 'I')
    b = T.app('pow2', (ex,), 'I')
    e.gfact(implies(and_(le(ONE, m), lt(m, I(1 << 52))), and_(lt(m, b), le(b, mul(I(2), m)), le(ZERO, ex), le(ex, I(64)))))
    e.gfact(implies(and_(le(ONE, m), lt(m, I(1 << 30))), ispow2(b)))
    e.store(st, e.deref(st, p, n), ex)
    return fop('fdiv', x, i2f(b))
def ispow2(x):
    """x is a power of two (a positive 32-bit value with one bit set)"""
    return and_(le(ONE, x), eq(T.bitop('and', x, sub(x, ONE), 32), ZERO))
@call_('equal')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = dist(a[0], a[1]); nonneg(e, st, N, n)
    o = a[3] if len(a) == 4 and isinstance(a[3], It) else None
    b = a[2]
    k = bv('I', 'k')
    x, y = elem(e, st, a[0], k), elem(e, st, b, k)
    if o is None: span_ok(e, st, b, N, n, 'equal: second range')
    body = neq_el(e, x, y)
    r = forall([k], implies(and_(le(ZERO, k), lt(k, N)), body))
    return and_(eq(N, dist(b, o)), r) if o is not None else r
def neq_el(e, x, y):
    if isc(x): return and_(fcmp('eq', x.f['re'], y.f['re']), fcmp('eq', x.f['im'], y.f['im']))
    if isinstance(x, Term): return fcmp('eq', x, y) if x.sort == 'F' else eq(x, y)
    raise Unsupported('element comparison')
@call_('accumulate')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = dist(a[0], a[1]); nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, 'accumulate range')
    acc = e.alloc(st, a[2], 'acc')
    ty = unref(tyof(n))
    def body(x, k):
        v = e.load(x, acc); y = rv(e, x, e.deref_it(x, a[0], n, k))
        if len(a) == 4: r = rv(e, x, callf(e, x, a[3], [v, y], n))
        elif isc(v) or isc(y): r = nadd(v, y)
        elif v.sort == 'F' or y.sort == 'F':
            v_ = i2f(v) if v.sort == 'I' else v; y_ = i2f(y) if y.sort == 'I' else y
            r = fop('fadd', v_, y_)
            if v.sort == 'I': r = e.f2i(x, r, ty, n)
        else: r = e.arith(x, '+', v, y, ty, n)
        e.store(x, acc, r)
    synth(e, st, n, N, body)
    return e.load(st, acc)
@call_('inner_product')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    if len(a) != 4: return None
    N = dist(a[0], a[1]); nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, 'inner_product range'); span_ok(e, st, a[2], N, n, 'inner_product range')
    return fsum(N, lambda k: nmul(elem(e, st, a[0], k), elem(e, st, a[2], k)), a[3])
@call_('max_element', 'min_element')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = dist(a[0], a[1]); nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, nm + ' range')
    if len(a) == 3:
        def less(x, y): return rv(e, st, callf(e, st, a[2], [x, y], n))
    else:
        def less(x, y): return fcmp('lt', x, y) if x.sort == 'F' else lt(x, y)
    def better(i, j):
        x, y = elem(e, st, a[0], i), elem(e, st, a[0], j)
        return less(y, x) if nm == 'max_element' else less(x, y)
    b = argbest(N, better)
    r = ite(le(N, ONE), ite(le(N, ZERO), N, ZERO), b)
    if b.op == 'fold': e.fact(st, implies(lt(ZERO, N), and_(le(ZERO, b), lt(b, N))))
    else: r = b if b.op == 'int' else r
    if e.prove(st, lt(ONE, N), optimistic=False): r = b
    elif e.prove(st, lt(ZERO, N), optimistic=False): r = b
    return e.itadd(a[0], r)
@call_('sort', 'stable_sort')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    if len(a) != 2: raise Unsupported('sort with comparator')
    N = dist(a[0], a[1]); nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, 'sort range')
    h = handle(mkseq(N, lambda k: elem(e, st, a[0], k)))
    c = e.load(st, a[0].lv)
    so = elem(e, st, a[0], ZERO).sort
    set_el(e, st, a[0].lv, a[0].pos, N, lambda k: T.app('sorted', (h, k), so))
    return UNIT
@call_('any_of', 'all_of', 'none_of')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = dist(a[0], a[1]); nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, nm)
    k = bv('I', 'k')
    p = rv(e, st, callf(e, st, a[2], [elem(e, st, a[0], k)], n))
    if nm == 'none_of': p = not_(p)
    if nm == 'any_of': return T.exists([k], and_(le(ZERO, k), lt(k, N), p))
    return forall([k], implies(and_(le(ZERO, k), lt(k, N)), p))
@call_('reverse')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = dist(a[0], a[1]); nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, nm)
    c = e.load(st, a[0].lv)
    set_el(e, st, a[0].lv, a[0].pos, N, lambda k: e.proj(st, c, ('i', sub(add(a[0].pos, sub(N, ONE)), k))))
    return UNIT
@call_('reverse_copy')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    N = dist(a[0], a[1]); nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, nm)
    c = e.load(st, a[0].lv)
    span_ok(e, st, a[2], N, n, nm + ' destination')
    set_el(e, st, a[2].lv, a[2].pos, N, lambda k: e.proj(st, c, ('i', sub(add(a[0].pos, sub(N, ONE)), k))))
    return e.itadd(a[2], N)
# ---- armadillo free functions
@call_('trans')
def _(e, st, nm, d, argn, n):
    m = tomat(e, A(e, st, argn, 0))
    def el(r, c):
        v = mat(m, c, r)
        return cplx(v.f['re'], fop('fneg', v.f['im'])) if isc(v) else v
    return mkmat(m.c, m.r, el)
@call_('flipud')
def _(e, st, nm, d, argn, n):
    m = tomat(e, A(e, st, argn, 0))
    return mkmat(m.r, m.c, lambda r, c: mat(m, sub(sub(m.r, ONE), r), c))
@call_('join_vert', 'join_cols')
def _(e, st, nm, d, argn, n):
    a, b = tomat(e, A(e, st, argn, 0)), tomat(e, A(e, st, argn, 1))
    empty_a = and_(eq(a.r, ZERO), eq(a.c, ZERO)); empty_b = and_(eq(b.r, ZERO), eq(b.c, ZERO))
    e.oblige(st, 'bounds', or_(eq(a.c, b.c), and_(eq(a.r, ZERO), eq(a.c, ZERO)), and_(eq(b.r, ZERO), eq(b.c, ZERO))), n, 'join_vert: same number of columns')
    C = a.c if a.c is b.c else imax(a.c, b.c)
    return mkmat(add(a.r, b.r), C, lambda r, c: vite(lt(r, a.r), mat(a, r, c), mat(b, sub(r, a.r), c)))
@call_('mean')
def _(e, st, nm, d, argn, n):
    a = args_of(e, st, argn)
    m = tomat(e, rv(e, st, a[0]))
    dim = rv(e, st, a[1]) if len(a) > 1 else ZERO
    e.assume_note('arma::mean is the left-to-right sum divided by the count (Armadillo sums two interleaved chains)')
    return vite(eq(dim, ZERO), mkmat(ite(le(m.r, ZERO), ZERO, ONE), m.c, lambda r, c: meanof(e, m.r, lambda k: mat(m, k, c))),
                mkmat(m.r, ite(le(m.c, ZERO), ZERO, ONE), lambda r, c: meanof(e, m.c, lambda k: mat(m, r, k))))
def meanof(e, n, f):
    k = bv('I')
    if isc(f(k)):
        return cplx(fop('fdiv', fsum(n, lambda k: f(k).f['re']), i2f(n)), fop('fdiv', fsum(n, lambda k: f(k).f['im']), i2f(n)))
    return fop('fdiv', fsum(n, f), i2f(n))
@call_('stddev')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    m = tomat(e, a[0]); norm = a[1] if len(a) > 1 else ZERO; dim = a[2] if len(a) > 2 else ZERO
    e.oblige(st, 'bounds', and_(le(ZERO, norm), le(norm, ONE)), n, 'stddev norm_type')
    return vite(eq(dim, ZERO), mkmat(ite(le(m.r, ZERO), ZERO, ONE), m.c, lambda r, c: stddevof(e, norm, m.r, lambda k: mat(m, k, c))),
                mkmat(m.r, ite(le(m.c, ZERO), ZERO, ONE), lambda r, c: stddevof(e, norm, m.c, lambda k: mat(m, r, k))))
def stddevof(e, norm, n, f):
    return T.app('arma.stddev', (norm, handle(mkseq(n, f))), 'F')
@call_('sum', 'accu')
def _(e, st, nm, d, argn, n):
    a = [rv(e, st, x) for x in args_of(e, st, argn)]
    m = tomat(e, a[0])
    if nm == 'accu': return fsum(mul(m.r, m.c), lambda k: e.proj(st, m, ('i', k)))
    dim = a[1] if len(a) > 1 else ZERO
    return vite(eq(dim, ZERO), mkmat(ONE, m.c, lambda r, c: fsum(m.r, lambda k: mat(m, k, c))), mkmat(m.r, ONE, lambda r, c: fsum(m.c, lambda k: mat(m, r, k))))
@call_('from')
def _(e, st, nm, d, argn, n):       # arma::conv_to<T>::from
    m = tomat(e, A(e, st, argn, 0))
    t = unref(tyof(n)); sh = short(t)
    if sh == 'vector':
        e.oblige(st, 'bounds', or_(eq(m.r, ONE), eq(m.c, ONE), eq(mul(m.r, m.c), ZERO)), n, 'conv_to: a vector')
        N = m.r if m.c is ONE else m.c if m.r is ONE else mul(m.r, m.c)
        return mkseq(N, lambda i: e.proj(st, m, ('i', i)))
    return m
def tomat(e, v):
    if isinstance(v, Mat): return v
    if isinstance(v, Seq): return mkmat(v.n, ONE, lambda r, c: at(v, r))
    raise Unsupported('matrix from %r' % type(v))
# ---- strings / absl
@call_('StrCat')
def _(e, st, nm, d, argn, n):
    return T.scat(*[strof(e, st, rv(e, st, x)) for x in args_of(e, st, argn)])
def strof(e, st, v):
    if isinstance(v, Term):
        if v.sort == 'S': return v
        if v.sort == 'I': return S(str(v.data)) if v.op == 'int' else T.app('str.of_int', (v,), 'S')
        if v.sort == 'F': return T.app('str.of_flt', (v,), 'S')
        if v.sort == 'B': return T.app('str.of_bool', (v,), 'S')
    if isinstance(v, It) : return e.load(st, v.lv)
    raise Unsupported('string of %r' % type(v))
@call_('to_string')
def _(e, st, nm, d, argn, n):
    v = A(e, st, argn, 0)
    return T.app('to_string', (v,), 'S') if v.sort != 'I' else strof(e, st, v)
for _c in _codes[1:]:
    def _mk(c):
        def h(e, st, nm, d, argn, n):
            return status(ENUMCONST[c], rv(e, st, e.ev(argn[0], st)))
        return h
    CALLS[_c[1:] + 'Error'] = _mk(_c)
@call_('OkStatus')
def _(e, st, nm, d, argn, n): return status(ZERO, S(''))
@call_('RawLog', 'Basename', 'RawLogInternal', 'printf', 'fprintf', 'puts', 'fflush', 'raw_log', 'GetReferenceableValue')
def _(e, st, nm, d, argn, n):
    if nm == 'Basename': return S('file')
    if nm == 'GetReferenceableValue': return e.ev(argn[0], st)
    a = args_of(e, st, argn)
    if nm.startswith('RawLog'):
        # FATAL severity terminates the process
        sev = rv(e, st, a[0])
        if isinstance(sev, Term) and sev.op == 'int' and sev.data >= 3:
            st.pc = (FALSE,); raise DeadPath()
    return ZERO
@call_('move_backward', 'srand')
def _(e, st, nm, d, argn, n): return None

# ================================================================ methods
def append(e, st, lv, N, f):
    c = e.load(st, lv)
    off = sub(c.iv, c.n)
    e.store(st, lv, Seq(add(c.n, N), c.iv, vite(and_(le(ZERO, off), lt(off, N)), f(off), c.el)))
def push(e, st, lv, v):
    c = e.load(st, lv)
    if not isinstance(c, Seq): raise Unsupported('push_back on %r' % type(c))
    el = c.el
    if isinstance(el, Nil): e.store(st, lv, Seq(add(c.n, ONE), c.iv, v)); return
    e.store(st, lv, Seq(add(c.n, ONE), c.iv, vite(eq(c.iv, c.n), v, el)))
def method(e, st, x, bt, nm, argn, n):
    v = e.rv(st, x) if not (isinstance(x, LV) and x.cell not in st.vars) else None
    h = None
    if isinstance(v, Seq): h = SEQM.get(nm)
    elif isinstance(v, Mat): h = MATM.get(nm)
    elif isinstance(v, Term) and v.sort == 'S': h = STRM.get(nm)
    elif isinstance(v, (Ptr, It)) : h = PTRM.get(nm)
    elif isinstance(v, SV): h = SVM.get((v.type, nm)) or SVM.get((v.type.split(':')[0], nm))
    if h is None:
        h2 = METHODS.get((short(unref(bt)), nm))
        if h2: return h2(e, st, x, v, argn, n)
        return None
    return h(e, st, x, v, argn, n)
METHODS = {}
SEQM, MATM, STRM, PTRM, SVM = {}, {}, {}, {}, {}
def meth(tab, *names):
    def d(f):
        for k in names: tab[k] = f
        return f
    return d
@meth(SEQM, 'size', 'length')
def _(e, st, x, v, argn, n):
    e.size_fact(v.n); return v.n
@meth(SEQM, 'empty')
def _(e, st, x, v, argn, n):
    e.size_fact(v.n); return le(v.n, ZERO) if not _nonneg(v.n) else eq(v.n, ZERO)
def _nonneg(t): return t.op in ('var', 'app', 'int')
@meth(SEQM, 'push_back', 'emplace_back')
def _(e, st, x, v, argn, n):
    t = targs(unref(tyof_base(n)))[1]
    a = [e.ev(q, st) for q in argn]
    if len(a) == 1:
        w = a[0]; mv = isinstance(w, Moved)
        val = e.rv(st, w.lv if mv else w)
        if mv and isinstance(w.lv, LV): e.store(st, w.lv, e.movedfrom(val))
        if isinstance(val, Term) and not isinstance(v.el, Nil) and isinstance(v.el, SV): raise Unsupported('emplace conversion')
        if isinstance(val, Term) and t and unref(t[0]) in INTS:
            if val.sort == 'F': val = e.f2i(st, val, unref(t[0]), n)
            elif val.sort == 'I' and unref(tyof(argn[0])) in INTS: val = e.icast(st, val, unref(tyof(argn[0])), unref(t[0]))
        elif isinstance(val, Term) and t and unref(t[0]) in FLTS and val.sort == 'I': val = i2f(val)
        push(e, st, x, val)
    else: raise Unsupported('emplace_back of %d arguments' % len(a))
    return x
def tyof_base(n):
    me = inner(n)[0]
    return tyof(inner(me)[0]) if inner(me) else ''
@meth(SEQM, 'reserve', 'shrink_to_fit')
def _(e, st, x, v, argn, n):
    [e.rval(a, st) for a in argn]; return UNIT
@meth(SEQM, 'clear')
def _(e, st, x, v, argn, n):
    e.store(st, x, Seq(ZERO, v.iv, v.el)); return UNIT
@meth(SEQM, 'resize')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    bt = targs(unref(tyof_base(n)))
    dflt = a[1] if len(a) > 1 else e.default(bt[1][0])
    m = a[0]
    if short(unref(tyof_base(n))) == 'valarray': e.store(st, x, mkseq(m, lambda i: dflt)); return UNIT
    e.store(st, x, Seq(m, v.iv, vite(lt(v.iv, v.n), v.el, dflt))); return UNIT
@meth(SEQM, 'back', 'front')
def _(e, st, x, v, argn, n):
    nm = inner(n)[0]['name']
    e.oblige(st, 'bounds', lt(ZERO, v.n), n, nm + '() of a non-empty container')
    i = sub(v.n, ONE) if nm == 'back' else ZERO
    return x.at(i) if isinstance(x, LV) else at(v, i)
@meth(SEQM, 'pop_back')
def _(e, st, x, v, argn, n):
    e.oblige(st, 'bounds', lt(ZERO, v.n), n, 'pop_back of a non-empty container')
    e.store(st, x, Seq(sub(v.n, ONE), v.iv, v.el)); return UNIT
def _iters(e, st, x, v, argn, n):
    return mkit(e, st, x if isinstance(x, LV) else e.alloc(st, x), inner(n)[0]['name'])
for _t in (SEQM, MATM):
    for _k in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'): _t[_k] = _iters
@meth(SEQM, 'data')
def _(e, st, x, v, argn, n): return It(x if isinstance(x, LV) else e.alloc(st, x), ZERO)
@meth(SEQM, 'at')
def _(e, st, x, v, argn, n):
    i = A(e, st, argn, 0)
    e.oblige(st, 'bounds', and_(le(ZERO, i), lt(i, v.n)), n, 'at() index in range')
    return x.at(i) if isinstance(x, LV) else at(v, i)
@meth(SEQM, 'assign')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    if len(a) == 2 and isinstance(a[0], It):
        N = dist(a[0], a[1]); nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, 'assign range')
        e.store(st, x, mkseq(N, lambda k: elem(e, st, a[0], k))); return UNIT
    if len(a) == 2 and isinstance(a[0], Term) and a[0].sort == 'I':
        e.store(st, x, mkseq(a[0], lambda k: a[1])); return UNIT
    return None
@meth(SEQM, 'insert')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    p = a[0].pos
    if len(a) == 3 and isinstance(a[1], It):
        N = dist(a[1], a[2]); nonneg(e, st, N, n); span_ok(e, st, a[1], N, n, 'insert range')
        src = e.load(st, a[1].lv); it = a[1]
        f = lambda k: e.proj(st, src, ('i', add(it.pos, k) if not it.rev else sub(sub(it.pos, ONE), k)))
    elif len(a) == 3: N = a[1]; f = lambda k: a[2]
    elif len(a) == 2: N = ONE; f = lambda k: a[1]
    else: return None
    e.oblige(st, 'bounds', and_(le(ZERO, p), le(p, v.n)), n, 'insert position')
    i = v.iv
    el = vite(lt(i, p), v.el, vite(lt(i, add(p, N)), f(sub(i, p)), vsubst(v.el, {i: sub(i, N)})))
    if p is v.n: el = vite(lt(i, p), v.el, f(sub(i, p)))
    e.store(st, x, Seq(add(v.n, N), i, el))
    return It(x, p)
@meth(SEQM, 'erase')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    p = a[0].pos
    N = dist(a[0], a[1]) if len(a) == 2 else ONE
    e.oblige(st, 'bounds', and_(le(ZERO, p), le(ZERO, N), le(add(p, N), v.n)), n, 'erase range')
    i = v.iv
    e.store(st, x, Seq(sub(v.n, N), i, vite(lt(i, p), v.el, vsubst(v.el, {i: add(i, N)}))))
    return It(x, p)
@meth(SEQM, 'sum')
def _(e, st, x, v, argn, n): return fsum(v.n, lambda k: at(v, k))
@meth(SEQM, 'max', 'min')
def _(e, st, x, v, argn, n):
    nm = inner(n)[0]['name']
    e.oblige(st, 'bounds', lt(ZERO, v.n), n, nm + ' of a non-empty valarray')
    better = (lambda i, j: fcmp('lt', at(v, j), at(v, i))) if nm == 'max' else (lambda i, j: fcmp('lt', at(v, i), at(v, j)))
    b = argbest(v.n, better)
    e.fact(st, and_(le(ZERO, b), lt(b, v.n)))
    return at(v, b)
@meth(SEQM, 'subspan')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    e.oblige(st, 'bounds', le(a[0], v.n), n, 'subspan start')
    m = sub(v.n, a[0]) if len(a) == 1 else imin(a[1], sub(v.n, a[0]))
    return mkseq(m, lambda i: at(v, add(i, a[0])))
@meth(SEQM, 'operator=')
def _(e, st, x, v, argn, n):
    r = e.ev(argn[0], st)
    w = rv(e, st, r)
    if not isinstance(w, Seq): raise Unsupported('operator= of %r' % type(w))
    if isinstance(r, Moved) and isinstance(r.lv, LV): e.store(st, r.lv, e.movedfrom(w))
    e.store(st, x, w); return x
# Mat
@meth(MATM, 'rows', 'cols')
def _(e, st, x, v, argn, n):
    nm = inner(n)[0]['name']
    a, b = A(e, st, argn, 0), A(e, st, argn, 1)
    L = v.r if nm == 'rows' else v.c
    e.oblige(st, 'bounds', and_(le(ZERO, a), le(a, b), lt(b, L)), n, 'Mat::%s range inside the matrix' % nm)
    p = ('sub', a, ZERO, add(sub(b, a), ONE), v.c) if nm == 'rows' else ('sub', ZERO, a, v.r, add(sub(b, a), ONE))
    if isinstance(x, LV): return LV(x.cell, x.path + (p,))
    return e.proj(st, v, p)
@meth(MATM, 'col', 'row')
def _(e, st, x, v, argn, n):
    nm = inner(n)[0]['name']
    a = A(e, st, argn, 0)
    e.oblige(st, 'bounds', and_(le(ZERO, a), lt(a, v.c if nm == 'col' else v.r)), n, 'Mat::%s index' % nm)
    if isinstance(x, LV): return LV(x.cell, x.path + ((nm, a),))
    return e.proj(st, v, (nm, a))
@meth(MATM, 'subvec')
def _(e, st, x, v, argn, n):
    a, b = A(e, st, argn, 0), A(e, st, argn, 1)
    isrow = v.r is ONE
    L = v.c if isrow else v.r
    e.oblige(st, 'bounds', and_(le(ZERO, a), le(a, b), lt(b, L)), n, 'subvec range')
    m = add(sub(b, a), ONE)
    return e.proj(st, v, ('sub', ZERO, a, ONE, m) if isrow else ('sub', a, ZERO, m, ONE))
@meth(MATM, 'submat')
def _(e, st, x, v, argn, n):
    r0, c0, r1, c1 = [A(e, st, argn, j) for j in range(4)]
    e.oblige(st, 'bounds', and_(le(ZERO, r0), le(r0, r1), lt(r1, v.r), le(ZERO, c0), le(c0, c1), lt(c1, v.c)), n, 'submat range')
    p = ('sub', r0, c0, add(sub(r1, r0), ONE), add(sub(c1, c0), ONE))
    if isinstance(x, LV): return LV(x.cell, x.path + (p,))
    return e.proj(st, v, p)
@meth(MATM, 'fill')
def _(e, st, x, v, argn, n):
    a = A(e, st, argn, 0)
    if isinstance(v.el, SV) and isinstance(a, Term): a = cplx(a, Fl(0.0))
    e.store(st, x, Mat(v.r, v.c, v.ri, v.ci, a)); return x
@meth(MATM, 'zeros')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    z = relabel(v.el, lambda p, b, t: Fl(0.0))
    r, c = (v.r, v.c) if not a else (a[0], a[1] if len(a) > 1 else ONE)
    e.store(st, x, Mat(r, c, v.ri, v.ci, z)); return x
@meth(MATM, 'set_size')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    # contents unspecified
    nm = e.new('undef!set_size')
    e.store(st, x, Mat(a[0], a[1] if len(a) > 1 else ONE, v.ri, v.ci, relabel(v.el, lambda p, b, t: T.app(nm + str(p), (v.ri, v.ci), t.sort)))); return UNIT
@meth(MATM, 'resize')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    r, c = a[0], a[1]
    z = relabel(v.el, lambda p, b, t: Fl(0.0))
    e.store(st, x, Mat(r, c, v.ri, v.ci, vite(and_(lt(v.ri, v.r), lt(v.ci, v.c)), v.el, z))); return UNIT
@meth(MATM, 'reset')
def _(e, st, x, v, argn, n):
    e.store(st, x, Mat(ZERO, ZERO, v.ri, v.ci, v.el)); return UNIT
@meth(MATM, 'at', 'operator()')
def _(e, st, x, v, argn, n):
    return mat_index(e, st, x, v, [rv(e, st, q) for q in args_of(e, st, argn)], n)
def mat_index(e, st, x, v, a, n):
    if len(a) == 1:
        e.oblige(st, 'bounds', and_(le(ZERO, a[0]), lt(a[0], mul(v.r, v.c))), n, 'matrix element index')
        p = ('lin', a[0])
    else:
        e.oblige(st, 'bounds', and_(le(ZERO, a[0]), lt(a[0], v.r), le(ZERO, a[1]), lt(a[1], v.c)), n, 'matrix (row, column) index')
        p = ('rc', a[0], a[1])
    if isinstance(x, LV): return LV(x.cell, x.path + (p,))
    return e.proj(st, v, p)
@meth(MATM, 'memptr')
def _(e, st, x, v, argn, n): return It(x if isinstance(x, LV) else e.alloc(st, x), ZERO)
@meth(MATM, 'size')
def _(e, st, x, v, argn, n): return mul(v.r, v.c)
@meth(MATM, 'print', 'raw_print')
def _(e, st, x, v, argn, n): return UNIT
@meth(MATM, 't')
def _(e, st, x, v, argn, n): return mkmat(v.c, v.r, lambda r, c: mat(v, c, r))
@meth(MATM, 'is_empty')
def _(e, st, x, v, argn, n): return eq(mul(v.r, v.c), ZERO)
# strings
@meth(STRM, 'empty')
def _(e, st, x, v, argn, n): return eq(v, S(''))
@meth(STRM, 'size', 'length')
def _(e, st, x, v, argn, n):
    if v.op == 'strc': return I(len(v.data))
    t = T.app('str.len', (v,), 'I')
    e.gfact(and_(le(ZERO, t), lt(t, I(1 << 48)))); e.gfact(iff(eq(t, ZERO), eq(v, S(''))))
    return t
@meth(STRM, 'c_str', 'data', 'str')
def _(e, st, x, v, argn, n): return v
@meth(STRM, 'back', 'front')
def _(e, st, x, v, argn, n):
    nm = inner(n)[0]['name']
    e.oblige(st, 'bounds', not_(eq(v, S(''))), n, nm + '() of a non-empty string')
    t = T.app('str.' + nm, (v,), 'I')
    e.gfact(and_(le(I(-128), t), le(t, I(127))))
    return t
@meth(STRM, 'pop_back')
def _(e, st, x, v, argn, n):
    e.oblige(st, 'bounds', not_(eq(v, S(''))), n, 'pop_back of a non-empty string')
    e.store(st, x, T.app('str.pop_back', (v,), 'S')); return UNIT
# pointers
@meth(PTRM, 'get')
def _(e, st, x, v, argn, n): return v
@meth(PTRM, 'reset')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    e.store(st, x, a[0] if a else Ptr(None, TRUE)); return UNIT
@meth(PTRM, 'operator bool')
def _(e, st, x, v, argn, n): return not_(v.null) if isinstance(v, Ptr) else TRUE
@meth(PTRM, 'base')
def _(e, st, x, v, argn, n): return It(v.lv, v.pos, False)
# status
def sv(t, *names):
    def d(f):
        for k in names: SVM[(t, k)] = f
        return f
    return d
def sok(v): return eq(v.f['code'], ZERO)
@sv('Status', 'ok')
def _(e, st, x, v, argn, n): return sok(v)
@sv('Status', 'code')
def _(e, st, x, v, argn, n): return v.f['code']
@sv('Status', 'raw_code')
def _(e, st, x, v, argn, n): return v.f['code']
@sv('Status', 'message')
def _(e, st, x, v, argn, n): return v.f['msg']
@sv('Status', 'ToString')
def _(e, st, x, v, argn, n): return T.app('status.str', (v.f['code'], v.f['msg']), 'S')
@sv('StatusOr', 'ok')
def _(e, st, x, v, argn, n): return sok(v.f['status'])
@sv('StatusOr', 'status')
def _(e, st, x, v, argn, n): return x.f('status') if isinstance(x, LV) else v.f['status']
@sv('StatusOr', 'value', 'ValueOrDie')
def _(e, st, x, v, argn, n):
    e.oblige(st, 'statusor', sok(v.f['status']), n, 'value() of an OK StatusOr')
    return x.f('val') if isinstance(x, LV) else v.f['val']
@sv('optional', 'has_value', 'operator bool')
def _(e, st, x, v, argn, n): return v.f['ok']
@sv('optional', 'value')
def _(e, st, x, v, argn, n):
    e.oblige(st, 'statusor', v.f['ok'], n, 'value() of an engaged optional')
    return x.f('val') if isinstance(x, LV) else v.f['val']
@sv('optional', 'value_or')
def _(e, st, x, v, argn, n):
    d = A(e, st, argn, 0)
    if isinstance(v.f['val'], Nil): return d
    return vite(v.f['ok'], v.f['val'], d)
@sv('complex', 'real')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    if a: e.store(st, x.f('re'), a[0]); return UNIT
    return v.f['re']
@sv('complex', 'imag')
def _(e, st, x, v, argn, n):
    a = [rv(e, st, q) for q in args_of(e, st, argn)]
    if a: e.store(st, x.f('im'), a[0]); return UNIT
    return v.f['im']
def _conv(e, st, x, v, argn, n): return v
for _k in ('operator string_view', 'operator basic_string_view', 'operator basic_string', 'operator std::string', 'operator string'): STRM[_k] = _conv

# ================================================================ operators
def operator(e, st, nm, d, args, nodes, n):
    if nm == 'operator()':
        v0 = e.rv(st, lvof(args[0]))
        if isinstance(v0, SV) and v0.type == 'InterpreterBuilder': return libx.build_interpreter(e, st, v0, rv(e, st, args[1]), n)
    a0 = args[0]
    v0 = rv(e, st, a0)
    op = nm[8:]
    if op == '=':
        w = args[1]; mv = isinstance(w, Moved); l = w.lv if mv else w
        val = e.rv(st, l)
        if mv and isinstance(l, LV) and '&&' in d.get('type', {}).get('qualType', ''): e.store(st, l, e.movedfrom(val))
        x = lvof(a0)
        if not isinstance(x, LV):
            if isinstance(x, SV) and x.type == 'tie':
                for k, p in x.f.items(): e.store(st, p.lv, val.f[k])
                return x
            raise Unsupported('assignment to rvalue')
        if isinstance(v0, Mat):
            if isinstance(val, Term):
                if x.path and not isinstance(x.path[-1], str) and x.path[-1][0] in ('col', 'row', 'sub'):
                    raise Unsupported('scalar assignment to view')
                if isinstance(v0.el, SV): val = cplx(val, Fl(0.0))
                val = mkmat(ONE, ONE, lambda r, c: val)
            val = tomat(e, val)
            if x.path and not isinstance(x.path[-1], str) and x.path[-1][0] in ('col', 'row', 'sub'):
                e.oblige(st, 'bounds', and_(eq(v0.r, val.r), eq(v0.c, val.c)), n, 'assignment to a submatrix: same dimensions')
        if isinstance(v0, SV) and v0.type == 'StatusOr' and not (isinstance(val, SV) and val.type == 'StatusOr'): val = to_statusor(e, st, val)
        if isinstance(v0, SV) and v0.type == 'optional' and not (isinstance(val, SV) and val.type == 'optional'): val = SV('optional', {'ok': TRUE, 'val': val})
        if isc(v0) and isinstance(val, Term): val = cplx(val, Fl(0.0))
        if isinstance(v0, Seq) and isinstance(val, Seq) and short(unref(tyof(nodes[0]))) == 'valarray' and x.path and not isinstance(x.path[-1], str) and x.path[-1][0] == 'slice':
            raise Unsupported('slice assignment')
        e.store(st, x, val)
        return x
    if op == '[]':
        i = rv(e, st, args[1])
        if isinstance(v0, Seq):
            if isinstance(i, SV) and i.type == 'slice':
                L = i.f
                e.oblige(st, 'bounds', and_(le(ZERO, L['start']), le(ZERO, L['size']), or_(eq(L['size'], ZERO), lt(add(L['start'], mul(L['stride'], sub(L['size'], ONE))), v0.n))), n, 'slice inside the valarray')
                p = ('slice', L['start'], L['size'], L['stride'])
                x = lvof(a0)
                return LV(x.cell, x.path + (p,)) if isinstance(x, LV) else e.proj(st, v0, p)
            e.oblige(st, 'bounds', and_(le(ZERO, i), lt(i, v0.n)), n, 'operator[] index in range')
            x = lvof(a0)
            return x.at(i) if isinstance(x, LV) else at(v0, i)
        if isinstance(v0, It): return e.deref_it(st, v0, n, i)
        if isinstance(v0, Term) and v0.sort == 'S':
            ln = STRM['size'](e, st, a0, v0, [], n)
            e.oblige(st, 'bounds', and_(le(ZERO, i), le(i, ln)), n, 'string index')
            return T.app('str.at', (v0, i), 'I')
        if isinstance(v0, Mat): return mat_index(e, st, lvof(a0), v0, [i], n)
        if isinstance(v0, Ptr): raise Unsupported('[] on pointer')
    if op == '()' and isinstance(v0, Mat):
        return mat_index(e, st, lvof(a0), v0, [rv(e, st, x) for x in args[1:]], n)
    if op in ('*', '->') and len(args) == 1:
        if isinstance(v0, It):
            l = e.deref_it(st, v0, n)
            return Ptr(l, FALSE) if op == '->' else l
        if isinstance(v0, Ptr):
            l = e.deref(st, v0, n)
            return Ptr(l, FALSE) if op == '->' else l
        if isinstance(v0, SV) and v0.type == 'StatusOr':
            e.oblige(st, 'statusor', sok(v0.f['status']), n, 'dereference of an OK StatusOr')
            x = lvof(a0)
            l = x.f('val') if isinstance(x, LV) else e.alloc(st, v0.f['val'])
            return Ptr(l, FALSE) if op == '->' else l
        if isinstance(v0, SV) and v0.type == 'optional':
            e.oblige(st, 'statusor', v0.f['ok'], n, 'dereference of an engaged optional')
            x = lvof(a0)
            l = x.f('val') if isinstance(x, LV) else e.alloc(st, v0.f['val'])
            return Ptr(l, FALSE) if op == '->' else l
    if op in ('++', '--') and isinstance(v0, It):
        x = lvof(a0)
        e.store(st, x, e.itadd(v0, ONE if op == '++' else I(-1)))
        return v0 if len(args) == 2 else x
    if op == '-' and len(args) == 1:
        if isc(v0): return cplx(fop('fneg', v0.f['re']), fop('fneg', v0.f['im']))
        if isinstance(v0, Seq): return mkseq(v0.n, lambda i: fop('fneg', at(v0, i)))
        if isinstance(v0, Mat): return mkmat(v0.r, v0.c, lambda r, c: nsub(Fl(0.0), mat(v0, r, c)))
    if op == '!' and isinstance(v0, Ptr): return v0.null
    if len(args) == 2:
        v1 = rv(e, st, args[1])
        if isinstance(v0, (It, Ptr)) or isinstance(v1, (It, Ptr)):
            if op in ('+', '-', '==', '!=', '<', '>', '<=', '>='): return e.ptrop(st, op, v0, v1, n)
            if op in ('+=', '-='):
                x = lvof(a0); e.store(st, x, e.itadd(v0, v1 if op == '+=' else neg(v1))); return x
        if isinstance(v0, Term) and v0.sort == 'S' or isinstance(v1, Term) and v1.sort == 'S':
            if op == '+':
                return T.scat(strch(v0), strch(v1))
            if op == '+=':
                x = lvof(a0); e.store(st, x, T.scat(v0, strch(v1))); return x
            if op == '==': return eq(v0, v1)
            if op == '!=': return ne(v0, v1)
            if op == '<': return T.fn('str.lt', v0, v1, sort='B')
        r = arithop(e, st, op.rstrip('=') if op in ('+=', '-=', '*=', '/=', '%=') else op, v0, v1, n, nodes)
        if r is not None:
            if op in ('+=', '-=', '*=', '/=', '%='):
                x = lvof(a0); e.store(st, x, r); return x
            return r
    h = OPS.get((v0.type.split(':')[0] if isinstance(v0, SV) else type(v0).__name__, op))
    if h: return h(e, st, args, nodes, n)
    return None
OPS = {}
def strch(v):
    if v.sort == 'I': return T.app('str.of_char', (v,), 'S') if v.op != 'int' else S(chr(v.data))
    return v
NOPS = {'+': nadd, '-': nsub, '*': nmul, '/': ndiv}
def arithop(e, st, op, a, b, n, nodes):
    if op not in ('+', '-', '*', '/', '%', '==', '!='): return None
    if (isc(a) or isc(b)) and not isinstance(a, (Mat, Seq)) and not isinstance(b, (Mat, Seq)):
        if op in NOPS: return NOPS[op](a, b)
        t = and_(fcmp('eq', toc(a).f['re'], toc(b).f['re']), fcmp('eq', toc(a).f['im'], toc(b).f['im']))
        return t if op == '==' else not_(t)
    if isinstance(a, Mat) or isinstance(b, Mat):
        if op == '%': f = nmul
        elif op in NOPS: f = NOPS[op]
        else: return None
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op == '*': return None
            e.oblige(st, 'bounds', and_(eq(a.r, b.r), eq(a.c, b.c)), n, 'element-wise operation: same dimensions')
            return mkmat(a.r, a.c, lambda r, c: f(mat(a, r, c), mat(b, r, c)))
        if isinstance(a, Mat): return mkmat(a.r, a.c, lambda r, c: f(mat(a, r, c), b))
        return mkmat(b.r, b.c, lambda r, c: f(a, mat(b, r, c)))
    if isinstance(a, Seq) or isinstance(b, Seq):
        if op not in NOPS: return None
        f = NOPS[op]
        s0 = a if isinstance(a, Seq) else b
        if isinstance(a, Seq) and isinstance(b, Seq):
            e.oblige(st, 'bounds', eq(a.n, b.n), n, 'valarray operation: same length')
        return mkseq(s0.n, lambda i: f(at(a, i) if isinstance(a, Seq) else a, at(b, i) if isinstance(b, Seq) else b))
    return None

# ================================================================ construction
def to_statusor(e, st, val):
    if isinstance(val, SV) and val.type == 'Status': return SV('StatusOr', {'status': val, 'val': NIL})
    return SV('StatusOr', {'status': status(ZERO, S('')), 'val': val})
CONS = {}
def cons_(*names):
    def d(f):
        for k in names: CONS[k] = f
        return f
    return d
def construct(e, st, ty, ct, args, n):
    h = CONS.get(short(ty))
    if h is None and short(ty).startswith('reverse_iterator'): h = CONS['reverse_iterator']
    return h(e, st, unref(ty), ct, args, n) if h else None
@cons_('vector')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    et = targs(ty)[1][0]
    if not a: return e.default(ty)
    if len(a) >= 2 and isinstance(a[0], It):
        N = dist(a[0], a[1]); nonneg(e, st, N, n); span_ok(e, st, a[0], N, n, 'vector(first, last) range')
        return mkseq(N, lambda k: elem(e, st, a[0], k))
    if isinstance(a[0], Seq): return a[0]
    if isinstance(a[0], Term) and a[0].sort == 'I':
        v = a[1] if len(a) > 1 else e.default(et)
        return mkseq(a[0], lambda k: v)
    if isinstance(a[0], Mat): return None
    return None
@cons_('valarray')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    et = targs(ty)[1][0]
    if not a: return e.default(ty)
    if isinstance(a[0], Seq) and len(a) == 1: return a[0]
    if len(a) == 2 and isinstance(a[0], It):
        span_ok(e, st, a[0], a[1], n, 'valarray(ptr, n) range')
        return mkseq(a[1], lambda k: elem(e, st, a[0], k))
    if len(a) == 2: return mkseq(a[1], lambda k: a[0])
    if len(a) == 1 and a[0].sort == 'I': v = e.default(et); return mkseq(a[0], lambda k: v)
    return None
@cons_('slice')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    return SV('slice', {'start': a[0], 'size': a[1], 'stride': a[2]})
@cons_('complex')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    if a and isc(a[0]): return a[0]
    return cplx(a[0] if a else Fl(0.0), a[1] if len(a) > 1 else Fl(0.0))
@cons_('Mat', 'Col', 'Row')
def _(e, st, ty, ct, args, n):
    sh = short(ty); et = targs(ty)[1][0]
    a = [rv(e, st, x) for x in args]
    if not a:
        d = e.default('arma::Mat<%s>' % et)
        return Mat(ZERO, ONE if sh == 'Col' else ZERO, d.ri, d.ci, d.el)
    x = a[0]
    if isinstance(x, Mat): return x
    if isinstance(x, Seq):
        if sh == 'Row': return mkmat(ONE, x.n, lambda r, c: at(x, c))
        return mkmat(x.n, ONE, lambda r, c: at(x, r))
    if isinstance(x, It):
        r, c = a[1], a[2] if len(a) > 2 and a[2].sort == 'I' else ONE
        N = mul(r, c)
        span_ok(e, st, x, N, n, 'Mat(ptr, rows, cols): enough data')
        src = e.load(st, x.lv); p = x.pos
        if len(a) > 3 and isinstance(a[3], Term) and a[3].sort == 'B' and a[3] is FALSE:
            e.oblige(st, 'alias', FALSE, n, 'the matrix owns its elements (copy_aux_mem=false borrows the buffer)')
        if c is ONE: return mkmat(r, ONE, lambda i, j: e.proj(st, src, ('i', add(p, i))))
        return mkmat(r, c, lambda i, j: e.proj(st, src, ('i', add(p, i, mul(r, j)))))
    if isinstance(x, Term) and x.sort == 'I':
        # Armadillo zero-fills Mat(rows, cols) by default since 10.5
        v = e.default(et)
        if sh == 'Col': return mkmat(x, ONE, lambda r, c: v)
        if sh == 'Row': return mkmat(ONE, x, lambda r, c: v)
        return mkmat(x, a[1], lambda r, c: v)
    return None
@cons_('basic_string', 'string', 'string_view', 'basic_string_view', 'AlphaNum')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    if not a: return S('')
    if isinstance(a[0], Term) and a[0].sort == 'S': return a[0]
    if short(ty) == 'AlphaNum': return strof(e, st, a[0])
    if isinstance(a[0], It) and len(a) == 2 and a[1].op == 'int' and 0 < a[1].data <= 16:        # the first characters of an array
        span_ok(e, st, a[0], a[1], n, 'string(ptr, n) range')
        return T.app('str.chars', tuple(elem(e, st, a[0], I(k)) for k in range(a[1].data)), 'S')
    return None
@cons_('Status')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    if not a: return status(ZERO, S(''))
    if isinstance(a[0], SV): return a[0]
    return status(a[0], a[1])
@cons_('StatusOr')
def _(e, st, ty, ct, args, n):
    if not args: return SV('StatusOr', {'status': status(I(2), S('')), 'val': NIL})
    a = args[0]
    v = rv(e, st, a)
    if isinstance(v, SV) and v.type == 'StatusOr': return v
    if isinstance(v, SV) and v.type == 'Status':
        e.oblige(st, 'statusor', not_(sok(v)), n, 'StatusOr built from a non-OK status')
    return to_statusor(e, st, v)
@cons_('optional')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    if not a or (isinstance(a[0], SV) and a[0].type == 'nullopt'): return SV('optional', {'ok': FALSE, 'val': NIL})
    if isinstance(a[0], SV) and a[0].type == 'optional': return a[0]
    return SV('optional', {'ok': TRUE, 'val': a[0]})
@cons_('nullopt_t')
def _(e, st, ty, ct, args, n): return SV('nullopt', {})
@cons_('tuple', 'pair')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    if not a: return e.default(ty)
    if len(a) == 1 and isinstance(a[0], SV) and a[0].type == 'tuple': a = [a[0].f[k] for k in sorted(a[0].f, key=int)]
    tys = targs(unref(ty))[1]
    def cv(x, t):
        if isinstance(x, Term) and x.sort == 'I' and t.strip() in ('double', 'float'):
            x = i2f(x)
            return fop('fround32', x) if t.strip() == 'float' else x
        return x
    return SV('tuple', {str(i): cv(x, tys[i]) if i < len(tys) else x for i, x in enumerate(a)})
@cons_('unique_ptr', 'shared_ptr')
def _(e, st, ty, ct, args, n):
    if not args: return Ptr(None, TRUE)
    x = args[0]
    v = rv(e, st, x)
    if isinstance(x, LV) and '&&' in ct: e.store(st, x, Ptr(None, TRUE))
    elif isinstance(x, Moved): e.store(st, x.lv, Ptr(None, TRUE))
    return v
@cons_('__normal_iterator', 'const_iterator', 'row_iterator')
def _(e, st, ty, ct, args, n): return rv(e, st, args[0])
@cons_('reverse_iterator')
def _(e, st, ty, ct, args, n):
    v = rv(e, st, args[0])
    return v if v.rev else It(v.lv, v.pos, True)
@cons_('Span')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    if not a: return e.default(ty)
    if isinstance(a[0], Seq): return a[0]
    if isinstance(a[0], It):
        span_ok(e, st, a[0], a[1], n, 'Span(ptr, n) range')
        return mkseq(a[1], lambda k: elem(e, st, a[0], k))
    return None
@cons_('plus', 'minus', 'multiplies', 'divides')
def _(e, st, ty, ct, args, n): return SV('functor:' + short(ty), {})
@cons_('allocator')
def _(e, st, ty, ct, args, n): return UNIT
@cons_('initializer_list')
def _(e, st, ty, ct, args, n): return rv(e, st, args[0]) if args else e.default(ty)
@cons_('Mutex')
def _(e, st, ty, ct, args, n): return SV(short(ty), {})
@cons_('MutexLock')
def _(e, st, ty, ct, args, n):
    p = rv(e, st, args[0])
    return SV('MutexLock', {'m': S(p.lv.cell)})
# ---- libsvm: the model is an uninterpreted object, a prediction a function of it and of the nodes up to the terminator
def svm_nodes(e, st, it, n):
    if not isinstance(it, It): raise Unsupported('nodes %r' % type(it))
    q = e.load(st, it.lv)
    L = sub(q.n, ONE)
    i = bv('I', 'i')
    e.oblige(st, 'bounds', and_(eq(it.pos, ZERO), le(ZERO, L)), n, 'a node array is handed over')
    e.oblige(st, 'bounds', eq(at(q, L).f['index'], I(-1)), n, 'the last node has index -1')
    e.oblige(st, 'bounds', forall([i], implies(and_(le(ZERO, i), lt(i, L)), lt(ZERO, at(q, i).f['index']))), n, 'the other nodes have positive indices')
    return L, q
def svm_value(mid, L, idx, val): return T.app('svm.predict', (mid, handle(mkseq(L, idx)), handle(mkseq(L, val))), 'F')
def svm_obj(e, st, p, n):
    if not isinstance(p, Ptr): raise Unsupported('model %r' % type(p))
    e.oblige(st, 'null', not_(p.null), n, 'a model is loaded')
    if p.lv is None: e.oblige(st, 'null', FALSE, n, 'the model pointer is set'); raise DeadPath()
    return st.vars[p.lv.cell].f['id']
@call_('svm_predict')
def _(e, st, nm, d, argn, n):
    m = svm_obj(e, st, av(e, st, argn[0]), n)
    L, q = svm_nodes(e, st, av(e, st, argn[1]), n)
    return svm_value(m, L, lambda k: at(q, k).f['index'], lambda k: at(q, k).f['value'])
@call_('svm_load_model')
def _(e, st, nm, d, argn, n):
    path = av(e, st, argn[0])
    held = any(isinstance(l, LV) and isinstance(st.vars.get(l.cell), SV) and st.vars[l.cell].type == 'MutexLock' and st.vars[l.cell].f['m'].data.startswith('static:') for l in st.env.values())
    e.oblige(st, 'lock', TRUE if held else FALSE, n, 'the library loads a model only while a process-wide lock is held')
    lv = e.alloc(st, SV('opaque:svm_model', {'id': T.app('svm.model', (path,), 'O')}), 'svm_model')
    return Ptr(lv, T.app('svm.unloadable', (path,), 'B'))
@call_('svm_free_model_content')
def _(e, st, nm, d, argn, n): svm_obj(e, st, av(e, st, argn[0]), n); return UNIT
@call_('svm_free_and_destroy_model')
def _(e, st, nm, d, argn, n):
    p = av(e, st, argn[0])
    q = e.load(st, p.lv)
    m = svm_obj(e, st, q, n)
    e.oblige(st, 'bounds', FALSE if m.op == 'app' and m.data[0] == 'svm.released' else TRUE, n, 'a model is released once')
    st.vars[q.lv.cell] = SV('opaque:svm_model', {'id': T.app('svm.released', (m,), 'O')})
    e.store(st, p.lv, Ptr(None, TRUE), n)
    return UNIT
@call_('free')
def _(e, st, nm, d, argn, n):
    p = av(e, st, argn[0])
    if isinstance(p, Ptr) and p.lv is None:
        e.oblige(st, 'bounds', p.null, n, 'only memory from malloc is freed'); return UNIT
    if not isinstance(p, It) or not p.lv.cell.startswith('heap') or p.lv.path: raise Unsupported('free of %r' % type(p))
    e.oblige(st, 'bounds', eq(p.pos, ZERO), n, 'the start of a block is freed')
    if p.null is not FALSE: raise Unsupported('free of a possibly null pointer')
    st.vars[p.lv.cell] = SV('freed', {})
    return UNIT
@cons_('function')
def _(e, st, ty, ct, args, n): return rv(e, st, args[0])

# ================================================================ misc hooks
def member(e, st, lv, n, nm):
    if nm in ('data', 'f') and isinstance(lv, LV):       # TfLiteTensor::data.f points at the tensor's value
        o = inner(n)[0]
        if strip(unref(tyof(o)).rstrip('*')).split('::')[-1] == 'TfLiteTensor': return lv
        if strip(unref(tyof(o))).split('::')[-1] == 'TfLitePtrUnion': return Ptr(lv, FALSE)
    if nm in ('n_rows', 'n_cols', 'n_elem', 'mem'):
        v = e.rv(st, lv)
        if isinstance(v, Mat):
            for t in (v.r, v.c): e.size_fact(t)
            if nm == 'n_rows': return v.r
            if nm == 'n_cols': return v.c
            if nm == 'n_elem': return mul(v.r, v.c)
            return It(lv if isinstance(lv, LV) else e.alloc(st, lv), ZERO)
    if nm in ('first', 'second'):
        v = e.rv(st, lv)
        if isinstance(v, SV) and v.type == 'tuple':
            k = '0' if nm == 'first' else '1'
            return lv.f(k) if isinstance(lv, LV) else v.f[k]
    return None
def extvar(e, d, n, st):
    nm = d.get('name')
    if nm == 'pi': return Fl(3.141592653589793)
    if nm == 'nullopt': return SV('nullopt', {})
    if nm == 'npos': return I((1 << 64) - 1)
    if nm in ('in', 'out', 'binary', 'app', 'beg', 'cur', 'end'): return ENUMCONST.get({'in': '_S_in', 'out': '_S_out', 'binary': '_S_bin', 'app': '_S_app', 'beg': '_S_beg', 'cur': '_S_cur', 'end': '_S_end'}[nm])
    if nm in ('cout', 'cerr', 'clog'): return SV('ostream', {'id': S(nm)})
    return EXTVAR.get(nm)
EXTVAR = {}
def static(e, q, v, st):
    if short(unref(v['type'].get('desugaredQualType', v['type']['qualType']))) == 'Mutex': return SV('Mutex', {})
    return None
def reinterpret(e, n, st, v):
    t = unref(tyof(n))
    if isinstance(v, It) and not v.rev and ('SimdVector' in t or '__m128' in t or 'vector_size' in t):
        if v.pos is not ZERO: raise Unsupported('vector view into the middle of an array')
        return It(LV(v.lv.cell, v.lv.path + (('view4',),)), ZERO, False, v.null)
    return None
def vec4(f): return SV('vec4', {str(q): f(str(q)) for q in range(4)})
@call_('_mm_set1_ps')
def _(e, st, nm, d, argn, n):
    x = av(e, st, argn[0]); return vec4(lambda q: x)
@call_('_mm_mul_ps', '_mm_add_ps', '_mm_sub_ps')
def _(e, st, nm, d, argn, n):
    x, y = av(e, st, argn[0]), av(e, st, argn[1])
    op = {'_mm_mul_ps': 'fmul', '_mm_add_ps': 'fadd', '_mm_sub_ps': 'fsub'}[nm]
    return vec4(lambda q: fop('fround32', fop(op, x.f[q], y.f[q])))
def user(e, st, d, lv, args, n):
    h = USER.get(d.qname)
    return h(e, st, d, lv, args, n) if h else None
USER = {}
def build(e, ty, f, path, bs):
    sh = short(unref(ty))
    h = BUILD.get(sh)
    return h(e, ty, f, path, bs) if h else None
BUILD = {}
BUILD['Status'] = lambda e, ty, f, p, bs: SV('Status', {'code': f('int', p + '.code', bs, 'I'), 'msg': f('string', p + '.msg', bs, 'S')})
def _b(e, ty, f, p, bs):
    return SV('StatusOr', {'status': BUILD['Status'](e, ty, f, p + '.status', bs), 'val': e.build(targs(unref(ty))[1][0], f, p + '.val', bs)})
BUILD['StatusOr'] = _b
BUILD['Mutex'] = lambda e, ty, f, p, bs: SV('Mutex', {})
BUILD['allocator'] = lambda e, ty, f, p, bs: UNIT
from . import libx
from . import libw
