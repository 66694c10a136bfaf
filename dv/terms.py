"""Hash-consed first-order terms with a light simplifier.

Sorts: 'B' bool, 'I' unbounded integer, 'F' floating point value, 'S' string,
'O' opaque object handle.  Every machine integer is an 'I' term together with
range facts / explicit wrap operators introduced by the executor; 'F' terms are
interpreted per query as IEEE doubles, as reals or as an uninterpreted sort.
"""
from fractions import Fraction
import itertools, struct

_tab = {}
_ctr = itertools.count()

class Term:
    __slots__ = ('op', 'args', 'sort', 'data', 'id', '_fv', '_h')
    def __repr__(self): return show(self)
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __bool__(self): raise TypeError("term used as python bool: %r" % self)

def mk(op, args=(), sort='I', data=None):
    key = (op, tuple(a.id for a in args), sort, data)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.data = op, tuple(args), sort, data
        t.id = next(_ctr); t._fv = None; t._h = t.id
        _tab[key] = t
    return t

# ---------------------------------------------------------------- atoms
TRUE = mk('true', (), 'B'); FALSE = mk('false', (), 'B')
def B(b): return TRUE if b else FALSE
def I(n): return mk('int', (), 'I', int(n))
def S(s): return mk('strc', (), 'S', s)
def Fl(x):
    """floating literal from python float (exact)"""
    return mk('flt', (), 'F', struct.pack('>d', float(x)).hex())
def flval(t): return struct.unpack('>d', bytes.fromhex(t.data))[0]
_fresh = itertools.count(1)
def var(name, sort): return mk('var', (), sort, name)
def fresh(name, sort): return mk('var', (), sort, '%s!%d' % (name, next(_fresh)))
def bv(sort='I', name='b'): return mk('bv', (), sort, '%s?%d' % (name, next(_fresh)))
def cbv(name, sort): return mk('bv', (), sort, name)
def app(name, args, sort): return mk('app', args, sort, name)
ZERO, ONE = I(0), I(1)

def isint(t): return t.op == 'int'
def is_true(t): return t is TRUE
def is_false(t): return t is FALSE

# ---------------------------------------------------------------- linear integer arithmetic
def _lin(t):
    """term -> (const, {atom: coef})"""
    if t.op == 'int': return t.data, {}
    if t.op == 'lin':
        c, coefs = t.data
        return c, dict(zip(t.args, coefs))
    return 0, {t: 1}
def _mklin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d: return I(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1: return a
    atoms = sorted(d, key=lambda a: a.id)
    return mk('lin', tuple(atoms), 'I', (c, tuple(d[a] for a in atoms)))
def add(*ts):
    c, d = 0, {}
    for t in ts:
        if t.sort == 'B': t = ite(t, ONE, ZERO)
        c2, d2 = _lin(t); c += c2
        for a, k in d2.items(): d[a] = d.get(a, 0) + k
    return _mklin(c, d)
def mulc(k, t):
    c, d = _lin(t)
    return _mklin(k * c, {a: k * x for a, x in d.items()})
def neg(t): return mulc(-1, t)
def sub(a, b): return add(a, neg(b))
PROD = {}                     # product -> factor pairs it was built from
def mul(a, b):
    r = _mul(a, b)
    if r.op != 'int':
        l = PROD.setdefault(r, [])
        if (a, b) not in l: l.append((a, b))
    return r
def _mul(a, b):
    if a.op == 'int': return mulc(a.data, b)
    if b.op == 'int': return mulc(b.data, a)
    # distribute over sums to keep a polynomial normal form
    ca, da = _lin(a); cb, db = _lin(b)
    c, d = ca * cb, {}
    def acc(t, k):
        c2, d2 = _lin(t)
        nonlocal c
        c += k * c2
        for x, y in d2.items(): d[x] = d.get(x, 0) + k * y
    for x, y in da.items():
        if cb: d[x] = d.get(x, 0) + y * cb
    for x, y in db.items():
        if ca: d[x] = d.get(x, 0) + y * ca
    for x, kx in da.items():
        for y, ky in db.items():
            fs = (list(x.args) if x.op == 'mul' else [x]) + (list(y.args) if y.op == 'mul' else [y])
            fs.sort(key=lambda t: t.id)
            m = mk('mul', tuple(fs), 'I')
            d[m] = d.get(m, 0) + kx * ky
    return _mklin(c, d)
def _content(d, c):
    from math import gcd
    g = 0
    for k in d.values(): g = gcd(g, abs(k))
    return g
def le(a, b):
    c, d = _lin(sub(a, b))          # c + d <= 0
    if not d: return B(c <= 0)
    g = _content(d, c)
    if g > 1:
        d = {a_: k // g for a_, k in d.items()}
        c = -((-c) // g)             # ceil(c/g)
    # canonical sign: first atom (lowest id) positive => store as (lin <= -c) or (lin >= c)
    return mk('le', (_mklin(0, d),), 'B', -c)          # lin <= data
def lt(a, b): return le(add(a, ONE), b)
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)

def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B': return iff(a, b)
    if a.sort == 'I':
        c, d = _lin(sub(a, b))
        if not d: return B(c == 0)
        g = _content(d, c)
        if c % g: return FALSE
        if g > 1: d = {x: k // g for x, k in d.items()}; c //= g
        atoms = sorted(d, key=lambda x: x.id)
        if d[atoms[0]] < 0: d = {x: -k for x, k in d.items()}; c = -c
        # small ite lifting:  ite(p,c1,c2) == c3
        if len(atoms) == 1 and abs(d[atoms[0]]) == 1 and atoms[0].op == 'ite':
            t = atoms[0]; v = I(-c * d[atoms[0]])
            if t.args[1].op == 'int' or t.args[2].op == 'int':
                p, x, y = t.args[0], eq(t.args[1], v), eq(t.args[2], v)
                if x is TRUE and y.op == 'eqi' and _le_of(p, y): return p
                if y is TRUE and x.op == 'eqi' and _le_of(not_(p), x): return not_(p)
                return ite(p, x, y)
        return mk('eqi', (_mklin(0, d),), 'B', -c)
    if a.sort == 'S' and a.op == 'strc' and b.op == 'strc': return B(a.data == b.data)
    if a.sort == 'S':
        if a.op == 'scat' or b.op == 'scat':
            pre, x, y, suf = affixes(a, b)
            if pre or suf: return eq(scat(*x), scat(*y))
        for x, y in ((a, b), (b, a)):
            if x.op != 'strc': continue
            if y.op == 'scat' and sum(len(z.data) for z in y.args if z.op == 'strc') > len(x.data): return FALSE
            if y.op == 'ite': return ite(y.args[0], eq(y.args[1], x), eq(y.args[2], x))
            if y.op == 'app' and y.data == 'str.chars':
                if len(x.data) != len(y.args): return FALSE
                return and_(*[eq(z, I(ord(c))) for z, c in zip(y.args, x.data)])
    if a.sort == 'F' and a.op == 'flt' and b.op == 'flt' and a.data != b.data: return FALSE
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')
def _le_of(p, q):
    """the equation q implies the inequality p over the same sum"""
    if p.op != 'le' or q.op != 'eqi': return False
    if p.args[0] is q.args[0]: return q.data <= p.data
    return p.args[0] is neg(q.args[0]) and -q.data <= p.data
def ne(a, b): return not_(eq(a, b))

# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le':                       # not (l <= c)  ->  -l <= -c-1
        return mk('le', (neg(a.args[0]),), 'B', -a.data - 1)
    return mk('not', (a,), 'B')
def and_(*ts):
    out = {}
    for t in ts:
        if isinstance(t, (list, tuple)): t = and_(*t)
        if t is FALSE: return FALSE
        if t is TRUE: continue
        for x in (t.args if t.op == 'and' else (t,)): out[x] = 1
    for x in out:
        if not_(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return next(iter(out))
    # absorb: x and (not x or y)
    xs = sorted(out, key=lambda t: t.id)
    s = set(xs)
    ch = False; ys = []
    for x in xs:
        if x.op == 'or':
            if any(a in s for a in x.args): ch = True; continue
            r = [a for a in x.args if not_(a) not in s]
            if len(r) != len(x.args): ch = True; ys.append(or_(*r)); continue
        ys.append(x)
    if ch: return and_(*ys)
    return mk('and', tuple(xs), 'B')
def or_(*ts):
    out = {}
    for t in ts:
        if isinstance(t, (list, tuple)): t = or_(*t)
        if t is TRUE: return TRUE
        if t is FALSE: continue
        for x in (t.args if t.op == 'or' else (t,)): out[x] = 1
    for x in out:
        if not_(x) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return next(iter(out))
    # x | (!x & y) -> x | y
    for x in out:
        if x.op == 'and':
            r = [a for a in x.args if not_(a) not in out]
            if len(r) != len(x.args):
                return or_(*[y for y in out if y is not x], and_(*r))
    # (P & c) | (P & !c) -> P ;  common factor
    xs = list(out)
    if len(xs) == 2:
        a = set(xs[0].args) if xs[0].op == 'and' else {xs[0]}
        b = set(xs[1].args) if xs[1].op == 'and' else {xs[1]}
        com = a & b
        ra, rb = and_(*(a - com)), and_(*(b - com))
        if ra is TRUE or rb is TRUE: return and_(*com)
        if com:
            r = or_(ra, rb)
            return and_(r, *com)
        # x | (!x & y) -> x | y
        for p, q in ((xs[0], xs[1]), (xs[1], xs[0])):
            if q.op == 'and' and not_(p) in q.args:
                return or_(p, and_(*[z for z in q.args if z is not not_(p)]))
    return mk('or', tuple(sorted(out, key=lambda t: t.id)), 'B')
def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    if a is not_(b): return FALSE
    if a.id > b.id: a, b = b, a
    return mk('iff', (a, b), 'B')
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.sort == 'S' and (a.op == 'scat' or b.op == 'scat' or a.op == b.op == 'strc'):
        pre, x, y, suf = affixes(a, b)
        if pre or suf: return scat(*pre, ite(c, scat(*x), scat(*y)), *suf)
        if b.op == 'strc' and b.data == '' and a.op == 'scat': return scat(*[ite(c, x, b) for x in a.args])
        if a.op == 'strc' and a.data == '' and b.op == 'scat': return scat(*[ite(c, a, x) for x in b.args])
    if a.sort == 'B':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if c.op == 'eqi' and a.op == b.op and a.op in ('app', 'acc') and a.data == b.data and len(a.args) == len(b.args):
        # ite(i == p, f(p), f(i)) is f(i)
        cst, d = _lin(c.args[0])
        for x, k in d.items():
            if k in (1, -1) and x.op in ('bv', 'var'):
                v = sub(I(c.data - cst), _mklin(0, {y: q for y, q in d.items() if y is not x}))
                if k == -1: v = neg(v)
                if subst(b, {x: v}) is a: return b
                if subst(a, {x: v}) is b: return a
    # canonical polarity so ite(l<=c,a,b) and ite(l>c,b,a) coincide
    n = not_(c)
    if n.op != 'not' and n.id < c.id: c, a, b = n, b, a
    # ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
    if a.op == 'ite' and a.args[2] is b: return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b: return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == 'ite' and b.args[1] is a: return ite(or_(c, b.args[0]), a, b.args[2])
    return mk('ite', (c, a, b), a.sort)

def imin(a, b): return ite(le(a, b), a, b)
def imax(a, b): return ite(le(a, b), b, a)

def idiv(a, b):
    """floor division, b > 0 intended (euclidean for z3)"""
    if b.op == 'int' and b.data == 1: return a
    if a.op == 'int' and b.op == 'int' and b.data > 0: return I(a.data // b.data)
    if b.op == 'int' and b.data > 0:
        c, d = _lin(a)
        q = {x: k // b.data for x, k in d.items() if k % b.data == 0}
        r = {x: k for x, k in d.items() if k % b.data}
        if q or (c // b.data and d):
            rest = _mklin(c % b.data, r)
            lead = _mklin(c // b.data, q)
            if lead is not ZERO:
                return add(lead, idiv(rest, b))
    if b.op != 'int':
        q, r = _split_mul(a, b)
        if q is not None: return add(q, idiv(r, b))
    return mk('idiv', (a, b), 'I')
def _split_mul(a, b):
    """a == q*b + r for a symbolic divisor b: (q, r), or (None, a)"""
    c, d = _lin(a)
    q = ZERO; r = {}
    for x, k in d.items():
        if x is b: q = add(q, I(k)); continue
        if x.op == 'mul' and b in x.args:
            l = list(x.args); l.remove(b)
            q = add(q, mulc(k, l[0] if len(l) == 1 else mul(*l))); continue
        r[x] = k
    if q is ZERO: return None, a
    return q, _mklin(c, r)
def imod(a, b):
    if a.op == 'int' and b.op == 'int' and b.data > 0: return I(a.data % b.data)
    if b.op == 'int' and b.data > 0:
        c, d = _lin(a)
        r = {x: k % b.data for x, k in d.items()}
        a = _mklin(c % b.data, r)
        if a.op == 'int': return a
        if a.op == 'imod' and a.args[1] is b: return a
    if b.op != 'int':
        q, r = _split_mul(a, b)
        if q is not None: return imod(r, b)
    return mk('imod', (a, b), 'I')
def _as01(a):
    """the boolean of a 0/1-valued integer term, or None"""
    if a.op == 'int': return B(a.data == 1) if a.data in (0, 1) else None
    if a.op != 'ite': return None
    p, q = _as01(a.args[1]), _as01(a.args[2])
    return None if p is None or q is None else or_(and_(a.args[0], p), and_(not_(a.args[0]), q))
def bitop(op, a, b, w):
    if a.op == 'int' and b.op == 'int':
        m = (1 << w) - 1
        x, y = a.data & m, b.data & m
        if op == 'and': return I(x & y)
        if op == 'or': return I(x | y)
        if op == 'xor': return I(x ^ y)
        if op == 'shl': return I((x << y) & m)
        if op == 'shr': return I(x >> y)
    if op in ('or', 'and', 'xor'):
        p, q = _as01(a), _as01(b)
        if p is not None and q is not None:
            r = or_(p, q) if op == 'or' else and_(p, q) if op == 'and' else not_(iff(p, q))
            return ite(r, I(1), I(0))
    if op == 'shr' and b.op == 'int': return idiv(a, I(1 << b.data))
    if op == 'shl' and b.op == 'int': return imod(mulc(1 << b.data, a), I(1 << w))
    return mk('bit' + op, (a, b), 'I', w)

# ---------------------------------------------------------------- quantifiers
def forall(vs, body):
    vs = [v for v in vs if v in fv(body)]
    if body is TRUE or body is FALSE: return body
    if not vs: return body
    return mk('forall', tuple(vs) + (body,), 'B', len(vs))
def exists(vs, body): return not_(forall(vs, not_(body)))

# ---------------------------------------------------------------- floats (syntactic simplification only where IEEE-exact)
def fop(op, *a):
    if op in ('fadd', 'fmul'):
        if a[0].id > a[1].id: a = (a[1], a[0])
    if op in ('fadd', 'fsub', 'fmul', 'fdiv') and a[0].op == 'flt' and a[1].op == 'flt':
        x, y = flval(a[0]), flval(a[1])
        try:
            r = {'fadd': x + y, 'fsub': x - y, 'fmul': x * y}.get(op) if op != 'fdiv' else x / y
            return Fl(r)
        except (ZeroDivisionError, OverflowError): pass
    if op == 'fneg':
        if a[0].op == 'flt': return Fl(-flval(a[0]))
        if a[0].op == 'fneg': return a[0].args[0]
    if op == 'fmul':                                    # x*1 == x exactly
        for p, q in (a, a[::-1]):
            if p.op == 'flt' and flval(p) == 1.0: return q
    if op == 'fdiv' and a[1].op == 'flt':
        v = flval(a[1])
        if v == 1.0: return a[0]
        import math
        if v != 0 and math.isfinite(v):
            m, e = math.frexp(v)
            if abs(m) == 0.5 and -1000 < e < 1000:        # division by a power of two == multiplication by its inverse
                return fop('fmul', a[0], Fl(1.0 / v))
    if op == 'fsub' and a[1].op == 'flt':               # x - c == x + (-c) exactly
        return fop('fadd', a[0], Fl(-flval(a[1])))
    if op == 'fsub' and a[1].op == 'fneg':
        return fop('fadd', a[0], a[1].args[0])
    if op == 'fadd':                                    # integers below 2^53 (recorded as assumption)
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            if x.op == 'i2f' and y.op == 'flt' and abs(flval(y)) < 2**52 and flval(y) == int(flval(y)): return i2f(add(x.args[0], I(int(flval(y)))))
    if op == 'fround32' and a[0].op == 'flt':
        return Fl(struct.unpack('f', struct.pack('f', flval(a[0])))[0])
    if op == 'fround32' and a[0].op == 'fround32': return a[0]
    if op == 'fround32' and a[0].op == 'ite' and all(x.op == 'flt' for x in a[0].args[1:]): return ite(a[0].args[0], fop(op, a[0].args[1]), fop(op, a[0].args[2]))
    if op in ('i2f',) and a[0].op == 'int': return Fl(float(a[0].data))
    if op == 'f2i' and a[0].op == 'flt': return I(int(flval(a[0])))
    if op == 'f2i' and a[0].op == 'i2f': return a[0].args[0]
    if op == 'floor' and a[0].op == 'i2f': return a[0]
    if op in ('fsqrt', 'fabs') and a[0].op == 'flt':
        import math
        v = flval(a[0])
        if op == 'fabs': return Fl(abs(v))
        if v >= 0: return Fl(math.sqrt(v))
    if op == 'fabs' and a[0].op in ('fabs', 'fsqrt'): return a[0]
    if op in ('flt', 'fle', 'feq'): raise ValueError
    if op == 'f2i': return mk('f2i', a, 'I')
    return mk(op, a, 'F')
def i2f(t): return fop('i2f', t)
def fcmp(op, a, b):
    """op in lt le eq  (IEEE, false on NaN)"""
    if a.op == 'flt' and b.op == 'flt':
        x, y = flval(a), flval(b)
        return B({'lt': x < y, 'le': x <= y, 'eq': x == y}[op])
    if a.op == 'i2f' and b.op == 'i2f':     # exact below 2^53: recorded as assumption by the executor
        return {'lt': lt, 'le': le, 'eq': eq}[op](a.args[0], b.args[0])
    if op == 'eq' and a.id > b.id: a, b = b, a
    return mk('fc' + op, (a, b), 'B')
def isnan(a):
    if a.op == 'flt': return B(flval(a) != flval(a))
    return not_(mk('fceq', (a, a), 'B'))
def fn(name, *args, sort='F'): return mk('app', args, sort, name)

# ---------------------------------------------------------------- free bound variables, substitution
EMPTY = frozenset()
def fv(t):
    """set of 'bv' terms occurring free"""
    if t._fv is not None: return t._fv
    # iterative post-order
    st = [t]
    while st:
        u = st[-1]
        if u._fv is not None: st.pop(); continue
        todo = [a for a in u.args if a._fv is None]
        if todo: st.extend(todo); continue
        st.pop()
        if u.op == 'bv': u._fv = frozenset((u,))
        elif u.op == 'forall':
            u._fv = u.args[-1]._fv - frozenset(u.args[:-1])
        elif u.op in BINDERS:
            u._fv = BINDERS[u.op](u)
        else:
            s = EMPTY
            for a in u.args: s = s | a._fv if a._fv else s
            u._fv = s
    return t._fv
BINDERS = {}

def rebuild(t, args):
    op = t.op
    if op == 'lin':
        c, ks = t.data
        return add(I(c), *[mulc(k, a) for k, a in zip(ks, args)])
    if op == 'mul':
        r = args[0]
        for a in args[1:]: r = mul(r, a)
        return r
    if op == 'le': return le(args[0], I(t.data))
    if op == 'eqi': return eq(args[0], I(t.data))
    if op == 'eq': return eq(*args)
    if op == 'not': return not_(args[0])
    if op == 'and': return and_(*args)
    if op == 'or': return or_(*args)
    if op == 'iff': return iff(*args)
    if op == 'ite': return ite(*args)
    if op == 'idiv': return idiv(*args)
    if op == 'imod': return imod(*args)
    if op in ('bitand', 'bitor', 'bitxor', 'bitshl', 'bitshr'): return bitop(op[3:], args[0], args[1], t.data)
    if op in ('fclt', 'fcle', 'fceq'): return fcmp(op[2:], *args)
    if op in FOPS: return fop(op, *args)
    if op == 'scat': return scat(*args)
    return mk(op, args, t.sort, t.data)
FOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fsqrt', 'fabs', 'i2f', 'f2i', 'floor', 'ceil', 'fround32'}

def affixes(a, b):
    """common leading parts, what is left of a and b, common trailing parts of two texts"""
    x, y = [list(t.args) if t.op == 'scat' else [t] for t in (a, b)]
    x, y = [[u for u in l if not (u.op == 'strc' and u.data == '')] for l in (x, y)]
    pre, suf = [], []
    while x and y:
        u, v = x[0], y[0]
        if u is v: pre.append(u); x.pop(0); y.pop(0); continue
        if u.op == v.op == 'strc':
            n = 0
            while n < min(len(u.data), len(v.data)) and u.data[n] == v.data[n]: n += 1
            if n: pre.append(S(u.data[:n])); x[0:1] = [S(u.data[n:])] if u.data[n:] else []; y[0:1] = [S(v.data[n:])] if v.data[n:] else []
        break
    while x and y:
        u, v = x[-1], y[-1]
        if u is v: suf.insert(0, u); x.pop(); y.pop(); continue
        if u.op == v.op == 'strc':
            n = 0
            while n < min(len(u.data), len(v.data)) and u.data[-1 - n] == v.data[-1 - n]: n += 1
            if n: suf.insert(0, S(u.data[len(u.data) - n:])); x[-1:] = [S(u.data[:-n])] if u.data[:-n] else []; y[-1:] = [S(v.data[:-n])] if v.data[:-n] else []
        break
    return pre, x, y, suf
def scat(*ts):
    out = []
    for t in ts:
        for x in (t.args if t.op == 'scat' else (t,)):
            if x.op == 'strc' and x.data == '': continue
            if x.op == 'strc' and out and out[-1].op == 'strc': out[-1] = S(out[-1].data + x.data)
            else: out.append(x)
    if not out: return S('')
    if len(out) == 1: return out[0]
    return mk('scat', tuple(out), 'S')

SUBST_SPECIAL = {}

def subst(t, m, cache=None):
    """substitute terms (any subterm keys: bv, var or app) by m"""
    if not m: return t
    if cache is None: cache = {}
    keys_bv_only = all(k.op == 'bv' for k in m)
    kset = frozenset(m)
    def go(u):
        r = cache.get(u)
        if r is not None: return r
        if u in m: cache[u] = m[u]; return m[u]
        if keys_bv_only and not (fv(u) & kset):
            cache[u] = u; return u
        if not u.args: cache[u] = u; return u
        if u.op == 'forall':
            vs, body = u.args[:-1], u.args[-1]
            nv = [bv(v.sort) for v in vs]
            b2 = subst(body, dict(zip(vs, nv)))
            b3 = subst(b2, m)
            r = forall(nv, b3)
        elif u.op in SUBST_SPECIAL:
            r = SUBST_SPECIAL[u.op](u, m)
        else:
            na = tuple(go(a) for a in u.args)
            r = u if all(x is y for x, y in zip(na, u.args)) else rebuild(u, na)
        cache[u] = r
        return r
    import sys
    return go(t)

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        u = st.pop()
        if u in seen: continue
        seen.add(u); st.extend(u.args)
    return seen

def contains(t, pred):
    seen = set(); st = [t]
    while st:
        u = st.pop()
        if u in seen: continue
        seen.add(u)
        if pred(u): return True
        st.extend(u.args)
    return False

# ---------------------------------------------------------------- folds and handles
# fold node: k-fold iteration of a simultaneous state update.
#   data = (comp, arities, sorts)     (one arity/sort per component)
#   args = (n, idx_0..idx_{a-1}, [init bodies per comp], [step bodies per comp], binder bvs...)
# binder layout: kvar, then for each comp its index bvs.
# inside step bodies the previous state is  mk('acc', idx.., sort, data=(j, tag)) with tag = binder kvar
def mkfold(comp, n, idx, arities, sorts, inits, steps, kv, ivs):
    """inits[j], steps[j]: terms over ivs[j] (index bvs) and (steps) kv and acc nodes (via accref(kv,j,idx))"""
    if n is ZERO:
        return subst(inits[comp], dict(zip(ivs[comp], idx)))
    # prune components that comp does not depend on
    m = len(arities)
    need, work = set(), [comp]
    while work:
        j = work.pop()
        if j in need: continue
        need.add(j)
        for u in subterms(steps[j]):
            if u.op == 'acc' and u.data[1] == kv.data and u.data[0] not in need: work.append(u.data[0])
    order = []
    # canonical order: comp first, then by first occurrence (dfs in step bodies)
    def dfs(j):
        if j in order: return
        order.append(j)
        for u in _ordered_accs(steps[j], kv): dfs(u)
    dfs(comp)
    ren = {j: p for p, j in enumerate(order)}
    # fresh canonical binders
    depth = 1 + max([_fdepth(steps[j]) for j in order] + [_fdepth(inits[j]) for j in order])
    ck = cbv('#k%d' % depth, 'I')
    civ = [[cbv('#i%d_%d_%d' % (depth, p, q), 'I') for q in range(arities[j])] for p, j in enumerate(order)]
    nin, nst = [], []
    for p, j in enumerate(order):
        mm = dict(zip(ivs[j], civ[p]))
        nin.append(subst(inits[j], mm))
        mm2 = dict(mm); mm2[kv] = ck
        nst.append(_renacc(subst(steps[j], mm2), kv, ck, ren))
    ar = tuple(arities[j] for j in order); so = tuple(sorts[j] for j in order)
    if so == ('S',) and ar == (0,) and nst[0].op == 'scat' and nst[0].args[0].op == 'acc' and not (nin[0].op == 'strc' and nin[0].data == '') and not any(_ordered_accs(x, ck) for x in nst[0].args[1:]):
        # text appended in every iteration: what was there before comes first
        return scat(nin[0], mkfold(0, n, (), (0,), ('S',), [S('')], nst, ck, [[]]))
    args = (n,) + tuple(idx) + tuple(nin) + tuple(nst) + (ck,) + tuple(x for c in civ for x in c)
    return mk('fold', args, so[0], (ar, so, depth))
def _ordered_accs(t, kv):
    out = []
    seen = set()
    def go(u):
        if u in seen: return
        seen.add(u)
        if u.op == 'acc' and u.data[1] == kv.data and u.data[0] not in out: out.append(u.data[0])
        for a in u.args: go(a)
    go(t)
    return out
def _renacc(t, kv, ck, ren):
    cache = {}
    def go(u):
        r = cache.get(u)
        if r is not None: return r
        if not u.args and u.op != 'acc': return u
        na = tuple(go(a) for a in u.args)
        if u.op == 'acc' and u.data[1] == kv.data:
            r = mk('acc', na, u.sort, (ren[u.data[0]], ck.data))
        elif all(x is y for x, y in zip(na, u.args)): r = u
        elif u.op in ('fold', 'hnd', 'forall', 'mu'): r = mk(u.op, na, u.sort, u.data)
        else: r = rebuild(u, na)
        cache[u] = r
        return r
    return go(t)
_fd = {}
def _fdepth(t):
    r = _fd.get(t)
    if r is not None: return r
    d = max([_fdepth(a) for a in t.args], default=0)
    if t.op == 'fold': d = max(d, t.data[2])
    if t.op == 'hnd': d = max(d, t.data[1])
    if t.op == 'mu': d = max(d, t.data)
    _fd[t] = d
    return d
def accref(kv, j, idx, sort): return mk('acc', tuple(idx), sort, (j, kv.data))

def fold_parts(t):
    ar, so, depth = t.data
    m = len(ar); a = t.args
    n, p = a[0], 1
    idx = a[p:p + ar[0]]; p += ar[0]
    inits = a[p:p + m]; p += m
    steps = a[p:p + m]; p += m
    kv = a[p]; p += 1
    ivs = []
    for j in range(m):
        ivs.append(list(a[p:p + ar[j]])); p += ar[j]
    return n, idx, ar, so, inits, steps, kv, ivs
def _fold_fv(t):
    n, idx, ar, so, inits, steps, kv, ivs = fold_parts(t)
    s = n._fv
    for i in idx: s = s | i._fv
    for j in range(len(ar)):
        b = frozenset(ivs[j])
        s = s | (inits[j]._fv - b) | (steps[j]._fv - b - {kv})
    return s
BINDERS['fold'] = _fold_fv
def fold_at(t, n, idx=None, comp=0):
    """same fold at another iteration count / index / component"""
    _, idx0, ar, so, inits, steps, kv, ivs = fold_parts(t)
    return mkfold(comp, n, idx0 if idx is None else idx, ar, so, inits, steps, kv, ivs)
def fold_unfold(t):
    """(n>=1) equation: right-hand side body at n-1"""
    n, idx, ar, so, inits, steps, kv, ivs = fold_parts(t)
    n1 = sub(n, ONE)
    b = subst(steps[0], dict(zip(ivs[0], idx)))
    cache = {}
    def go(u):
        r = cache.get(u)
        if r is not None: return r
        if u is kv: return n1
        if u.op == 'acc' and u.data[1] == kv.data:
            r = mkfold(u.data[0], n1, tuple(go(a) for a in u.args), ar, so, inits, steps, kv, ivs)
        elif u.op in ('fold', 'hnd', 'forall', 'mu'):
            if any(x.op == 'acc' and x.data[1] == kv.data for x in subterms(u)) or kv in fv(u):
                r = _subst_under(u, go, kv)
            else: r = u
        elif not u.args: return u
        else:
            na = tuple(go(a) for a in u.args)
            r = u if all(x is y for x, y in zip(na, u.args)) else rebuild(u, na)
        cache[u] = r
        return r
    return go(b)
def _subst_under(u, go, kv):
    """apply go to a binder node; binders are canonical and distinct by depth"""
    if u.op == 'fold':
        n, idx, ar, so, inits, steps, k2, iv2 = fold_parts(u)
        if k2 is kv: return u      # came in through an index: same depth, so nothing of ours is free in it
        return mkfold(0, go(n), tuple(go(i) for i in idx), ar, so, [go(i) for i in inits], [go(s) for s in steps], k2, iv2)
    if u.op == 'hnd':
        dims, body, vs = hnd_parts(u)
        return mkhnd(u.data[0], [go(d) for d in dims], go(body), vs)
    if u.op == 'mu':
        return mkmu(go(u.args[0]), go(u.args[1]), u.args[2])
    vs, body = u.args[:-1], u.args[-1]
    return forall(vs, go(body))
def _fold_subst(t, m):
    n, idx, ar, so, inits, steps, kv, ivs = fold_parts(t)
    n2 = subst(n, m); idx2 = tuple(subst(i, m) for i in idx)
    bnd = {kv} | {x for l in ivs for x in l}
    if all(k.op == 'bv' for k in m) and not (frozenset(m) & (fv(t) - fv(n))) and not any(frozenset(m) & fv(b) - bnd for b in tuple(inits) + tuple(steps)):
        if n2 is n and idx2 == tuple(idx): return t
        return mkfold(0, n2, idx2, ar, so, inits, steps, kv, ivs)
    nk = bv('I', 'fk'); niv = [[bv('I') for _ in l] for l in ivs]
    ni, ns = [], []
    for j in range(len(ar)):
        mm = dict(zip(ivs[j], niv[j]))
        ni.append(subst(subst(inits[j], mm), m))
        mm2 = dict(mm); mm2[kv] = nk
        st = subst(steps[j], mm2)
        st = _renacc(st, kv, nk, {q: q for q in range(len(ar))})
        ns.append(subst(st, m))
    return mkfold(0, n2, idx2, ar, so, ni, ns, nk, niv)
SUBST_SPECIAL['fold'] = _fold_subst

# handle node: an array-like value as a first-class object (for uninterpreted functions of containers)
def mkhnd(kind, dims, body, vs):
    if all(d.op == 'int' for d in dims) and body.sort in 'FIB':      # few elements: enumerate them (canonical form)
        import itertools, math
        if 0 < math.prod(d.data for d in dims) <= 16:
            new = None
            for ix in sorted(itertools.product(*[range(d.data) for d in dims]), reverse=True):
                x = subst(body, {v: I(i) for v, i in zip(vs, ix)})
                new = x if new is None else ite(and_(*[eq(v, I(i)) for v, i in zip(vs, ix)]), x, new)
            body = new
    depth = 1 + _fdepth(body)
    cv = [cbv('#h%d_%d' % (depth, q), 'I') for q in range(len(vs))]
    b = subst(body, dict(zip(vs, cv)))
    return mk('hnd', tuple(dims) + (b,) + tuple(cv), 'O', (kind, depth, len(dims)))
def hnd_parts(t):
    kind, depth, nd = t.data
    return t.args[:nd], t.args[nd], t.args[nd + 1:]
def _hnd_fv(t):
    dims, body, vs = hnd_parts(t)
    s = body._fv - frozenset(vs)
    for d in dims: s = s | d._fv
    return s
BINDERS['hnd'] = _hnd_fv
def _hnd_subst(t, m):
    dims, body, vs = hnd_parts(t)
    nv = [bv('I') for _ in vs]
    b = subst(subst(body, dict(zip(vs, nv))), m)
    return mkhnd(t.data[0], [subst(d, m) for d in dims], b, nv)
SUBST_SPECIAL['hnd'] = _hnd_subst

# mu node: the least k in [0, bound] with exit(k) or k == bound (bound < 0: unbounded)
def mkmu(bound, exit_, kv):
    depth = 1 + _fdepth(exit_)
    ck = cbv('#m%d' % depth, 'I')
    return mk('mu', (bound, subst(exit_, {kv: ck}), ck), 'I', depth)
def mu_parts(t): return t.args
def _mu_fv(t):
    b, e, k = t.args
    return b._fv | (e._fv - {k})
BINDERS['mu'] = _mu_fv
def _mu_subst(t, m):
    b, e, k = t.args
    nk = bv('I')
    return mkmu(subst(b, m), subst(subst(e, {k: nk}), m), nk)
SUBST_SPECIAL['mu'] = _mu_subst

def mapterm(t, hit, f):
    """rewrite: for maximal nodes u with hit(u), replace by f(u, go); capture-free under binders"""
    hc = {}
    def has(u):
        r = hc.get(u)
        if r is None:
            r = bool(hit(u)) or any(has(a) for a in u.args)
            hc[u] = r
        return r
    cache = {}
    def go(u):
        if not has(u): return u
        r = cache.get(u)
        if r is not None: return r
        if hit(u): r = f(u, go)
        elif u.op == 'fold':
            n, idx, ar, so, inits, steps, kv, ivs = fold_parts(u)
            nk = bv('I', 'fk'); niv = [[bv('I') for _ in l] for l in ivs]
            ni, ns = [], []
            for j in range(len(ar)):
                mm = dict(zip(ivs[j], niv[j]))
                ni.append(go(subst(inits[j], mm)))
                mm2 = dict(mm); mm2[kv] = nk
                ns.append(go(_renacc(subst(steps[j], mm2), kv, nk, {q: q for q in range(len(ar))})))
            r = mkfold(0, go(n), tuple(go(i) for i in idx), ar, so, ni, ns, nk, niv)
        elif u.op == 'hnd':
            dims, body, vs = hnd_parts(u)
            nv = [bv('I') for _ in vs]
            r = mkhnd(u.data[0], [go(d) for d in dims], go(subst(body, dict(zip(vs, nv)))), nv)
        elif u.op == 'mu':
            b, e, k = u.args
            nk = bv('I')
            r = mkmu(go(b), go(subst(e, {k: nk})), nk)
        elif u.op == 'forall':
            vs, body = u.args[:-1], u.args[-1]
            nv = [bv(v.sort) for v in vs]
            r = forall(nv, go(subst(body, dict(zip(vs, nv)))))
        else:
            r = rebuild(u, tuple(go(a) for a in u.args))
        cache[u] = r
        return r
    return go(t)

# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 9: return '…'
    d = depth + 1
    op = t.op
    if op == 'int': return str(t.data)
    if op == 'flt': return repr(flval(t))
    if op == 'strc': return repr(t.data)
    if op in ('true', 'false'): return op
    if op in ('var', 'bv'): return str(t.data)
    if op == 'lin':
        c, ks = t.data
        s = ' + '.join((show(a, d) if k == 1 else '%d*%s' % (k, show(a, d))) for k, a in zip(ks, t.args))
        return '(%s%s)' % (s, '' if c == 0 else ' + %d' % c)
    if op == 'le': return '(%s <= %d)' % (show(t.args[0], d), t.data)
    if op == 'eqi': return '(%s == %d)' % (show(t.args[0], d), t.data)
    if op == 'app': return '%s(%s)' % (t.data, ', '.join(show(a, d) for a in t.args))
    if op == 'acc': return 'acc%d[%s]' % (t.data[0], ','.join(show(a, d) for a in t.args))
    if op == 'fold':
        n, idx, ar, so, inits, steps, kv, ivs = fold_parts(t)
        return 'fold{n=%s; idx=%s; init=%s; %s: %s}' % (show(n, d), [show(i, d) for i in idx], show(inits[0], d), kv.data, show(steps[0], d))
    if op == 'mu': return 'mu{<=%s; %s: %s}' % (show(t.args[0], d), t.args[2].data, show(t.args[1], d))
    if op == 'hnd':
        dims, body, vs = hnd_parts(t)
        return 'obj<%s>{%s|%s}' % (t.data[0], ','.join(show(x, d) for x in dims), show(body, d))
    if op == 'forall':
        return '(forall %s. %s)' % (' '.join(str(v.data) for v in t.args[:-1]), show(t.args[-1], d))
    return '%s(%s)' % (op, ', '.join(show(a, d) for a in t.args))
