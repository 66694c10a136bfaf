"""Structured values of the symbolic executor (immutable) and C++ type names."""
import re
from .terms import *
from . import terms as T

class Unsupported(Exception): pass

class Value: __slots__ = ()
class SV(Value):
    """record value"""
    __slots__ = ('type', 'f')
    def __init__(s, type, f): s.type, s.f = type, f
    def __repr__(s): return '%s{%s}' % (s.type, ', '.join('%s=%r' % kv for kv in s.f.items()))
class Seq(Value):
    """contiguous sequence: length term, bound index, element template"""
    __slots__ = ('n', 'iv', 'el')
    def __init__(s, n, iv, el): s.n, s.iv, s.el = n, iv, el
    def __repr__(s): return 'Seq[%r; %r -> %r]' % (s.n, s.iv, s.el)
class Mat(Value):
    __slots__ = ('r', 'c', 'ri', 'ci', 'el')
    def __init__(s, r, c, ri, ci, el):
        if c is ONE: el = vsubst(el, {ci: ZERO})         # a column: the second index is always 0
        s.r, s.c, s.ri, s.ci, s.el = r, c, ri, ci, el
    def __repr__(s): return 'Mat[%r x %r; %r,%r -> %r]' % (s.r, s.c, s.ri, s.ci, s.el)
class It(Value):
    """iterator / pointer into an array-like lvalue"""
    __slots__ = ('lv', 'pos', 'rev', 'null')
    def __init__(s, lv, pos, rev=False, null=FALSE): s.lv, s.pos, s.rev, s.null = lv, pos, rev, null
    def __repr__(s): return 'It(%r,%r)' % (s.lv, s.pos)
class Ptr(Value):
    """pointer to an object (or null)"""
    __slots__ = ('lv', 'null')
    def __init__(s, lv, null): s.lv, s.null = lv, null
    def __repr__(s): return 'Ptr(%r,null=%r)' % (s.lv, s.null)
class Clo(Value):
    __slots__ = ('node', 'caps', 'this', 'tu')
    def __init__(s, node, caps, this, tu): s.node, s.caps, s.this, s.tu = node, caps, this, tu
class FnV(Value):
    __slots__ = ('fn',)
    def __init__(s, fn): s.fn = fn
class Unit(Value):
    __slots__ = ()
UNIT = Unit()
class Raw(Value):
    """raw storage from malloc, before it is given a type"""
    __slots__ = ('bytes',)
    def __init__(s, b): s.bytes = b

class LV:
    """lvalue: cell + path. path elements: str field | ('i',t) | ('rc',r,c) | ('lin',t)"""
    __slots__ = ('cell', 'path', 'const')
    def __init__(s, cell, path=()): s.cell, s.path = cell, path
    def f(s, name): return LV(s.cell, s.path + (name,))
    def at(s, t): return LV(s.cell, s.path + (('i', t),))
    def key(s): return (s.cell, s.path)
    def __repr__(s): return 'LV(%s%s)' % (s.cell, ''.join('.%s' % (p,) if isinstance(p, str) else '[%s]' % (p[1:],) for p in s.path))
    def same(s, o): return s.cell == o.cell and s.path == o.path
LV.__eq__ = lambda a, b: isinstance(b, LV) and a.same(b)
LV.__hash__ = lambda a: hash((a.cell, a.path))

# ---------------------------------------------------------------- traversal
def vsubst(v, m):
    if not m: return v
    return vmap(v, lambda t: subst(t, m))
def vmap(v, f):
    if isinstance(v, Term): return f(v)
    if isinstance(v, SV):
        ch = False; d = {}
        for k, x in v.f.items():
            y = vmap(x, f); d[k] = y
            if y is not x: ch = True
        return SV(v.type, d) if ch else v
    if isinstance(v, Seq):
        n, el = vmap(v.n, f), vmap(v.el, f)
        return v if n is v.n and el is v.el else Seq(n, v.iv, el)
    if isinstance(v, Mat):
        r, c, el = f(v.r), f(v.c), vmap(v.el, f)
        return v if r is v.r and c is v.c and el is v.el else Mat(r, c, v.ri, v.ci, el)
    if isinstance(v, It):
        p = f(v.pos); lv = lvmap(v.lv, f); nl = f(v.null)
        return v if p is v.pos and lv is v.lv and nl is v.null else It(lv, p, v.rev, nl)
    if isinstance(v, Ptr):
        n = f(v.null); lv = lvmap(v.lv, f) if v.lv else None
        return v if n is v.null and lv is v.lv else Ptr(lv, n)
    return v
def lvmap(lv, f):
    if not any(not isinstance(p, str) for p in lv.path): return lv
    ch = False; out = []
    for p in lv.path:
        if isinstance(p, str): out.append(p); continue
        q = (p[0],) + tuple(f(x) for x in p[1:])
        if any(a is not b for a, b in zip(q[1:], p[1:])): ch = True
        out.append(q)
    return LV(lv.cell, tuple(out)) if ch else lv

def at(s, i): return vsubst(s.el, {s.iv: i})
def mat(m, r, c): return vsubst(m.el, {m.ri: r, m.ci: c})
def mkseq(n, fnc):
    b = bv('I', 'i'); return Seq(n, b, fnc(b))
def mkmat(r, c, fnc):
    a, b = bv('I', 'r'), bv('I', 'c'); return Mat(r, c, a, b, fnc(a, b))
def lin_r(m_r, m_c, i):
    if m_c is ONE: return i
    if m_r is ONE: return ZERO
    return _lm(i, m_r)
def lin_c(m_r, m_c, i):
    if m_c is ONE: return ZERO
    if m_r is ONE: return i
    return _ld(i, m_r)
def _lm(i, r):
    return imod(i, r)
def _ld(i, r):
    return idiv(i, r)

# ---------------------------------------------------------------- leaves
def leaves(v, path=(), binders=()):
    """yield (path, binders, term)"""
    if isinstance(v, Term): yield path, binders, v; return
    if isinstance(v, SV):
        for k in v.f: yield from leaves(v.f[k], path + (k,), binders)
    elif isinstance(v, Seq):
        yield from leaves(v.n, path + ('#n',), binders)
        yield from leaves(v.el, path + ('#el',), binders + (v.iv,))
    elif isinstance(v, Mat):
        yield path + ('#r',), binders, v.r
        yield path + ('#c',), binders, v.c
        yield from leaves(v.el, path + (('#el1',) if v.c is ONE else ('#el',)), binders + ((v.ri,) if v.c is ONE else (v.ri, v.ci)))
    elif isinstance(v, It):
        yield path + ('#pos',), binders, v.pos
    elif isinstance(v, Ptr):
        yield path + ('#null',), binders, v.null
def relabel(v, f, path=(), binders=()):
    """rebuild v with each leaf replaced by f(path, binders, term)"""
    if isinstance(v, Term): return f(path, binders, v)
    if isinstance(v, SV):
        ch = False; d = {}
        for k, x in v.f.items():
            y = relabel(x, f, path + (k,), binders); d[k] = y
            if y is not x: ch = True
        return SV(v.type, d) if ch else v
    if isinstance(v, Seq):
        n = relabel(v.n, f, path + ('#n',), binders); el = relabel(v.el, f, path + ('#el',), binders + (v.iv,))
        return v if n is v.n and el is v.el else Seq(n, v.iv, el)
    if isinstance(v, Mat):
        r = f(path + ('#r',), binders, v.r); c = f(path + ('#c',), binders, v.c)
        el = relabel(v.el, f, path + (('#el1',) if v.c is ONE else ('#el',)), binders + ((v.ri,) if v.c is ONE else (v.ri, v.ci)))
        return v if r is v.r and c is v.c and el is v.el else Mat(r, c, v.ri, v.ci, el)
    if isinstance(v, It):
        p = f(path + ('#pos',), binders, v.pos)
        return v if p is v.pos else It(v.lv, p, v.rev, v.null)
    if isinstance(v, Ptr):
        p = f(path + ('#null',), binders, v.null)
        return v if p is v.null else Ptr(v.lv, p)
    return v
class ShapeMismatch(Unsupported): pass
def zipv(a, b, f):
    """combine two values of the same shape leafwise: f(x, y, binders)"""
    return _zipv(a, b, f, ())
def _zipv(a, b, f, bs):
    if a is b and not isinstance(a, Term): return a
    if isinstance(a, It) and isinstance(b, Ptr) and b.lv is None: return It(a.lv, a.pos, a.rev, f(a.null, b.null, bs))
    if isinstance(b, It) and isinstance(a, Ptr) and a.lv is None: return It(b.lv, b.pos, b.rev, f(a.null, b.null, bs))
    if isinstance(a, Term):
        if not isinstance(b, Term): raise ShapeMismatch('%r / %r' % (a, b))
        return f(a, b, bs)
    if type(a) is not type(b): raise ShapeMismatch('%r / %r' % (type(a), type(b)))
    if isinstance(a, SV):
        if a.type != b.type or a.f.keys() != b.f.keys(): raise ShapeMismatch('%s / %s' % (a.type, b.type))
        return SV(a.type, {k: _zipv(a.f[k], b.f[k], f, bs) for k in a.f})
    if isinstance(a, Seq):
        el = vsubst(b.el, {b.iv: a.iv}) if b.iv is not a.iv else b.el
        return Seq(_zipv(a.n, b.n, f, bs), a.iv, _zipv(a.el, el, f, bs + (a.iv,)))
    if isinstance(a, Mat):
        el = vsubst(b.el, {b.ri: a.ri, b.ci: a.ci})
        return Mat(f(a.r, b.r, bs), f(a.c, b.c, bs), a.ri, a.ci, _zipv(a.el, el, f, bs + (a.ri, a.ci)))
    if isinstance(a, It):
        if not a.lv.same(b.lv): raise ShapeMismatch('iterators into different containers')
        return It(a.lv, f(a.pos, b.pos, bs), a.rev, a.null if a.null is b.null else f(a.null, b.null, bs))
    if isinstance(a, Ptr):
        n = f(a.null, b.null, bs)
        if a.lv is None: return Ptr(b.lv, n)
        if b.lv is None: return Ptr(a.lv, n)
        if not a.lv.same(b.lv): raise ShapeMismatch('pointers to different objects')
        return Ptr(a.lv, n)
    if isinstance(a, Clo):
        if a.node is b.node: return a
    if isinstance(a, (Unit,)): return a
    if isinstance(a, FnV) and a.fn is b.fn: return a
    raise ShapeMismatch('%r / %r' % (a, b))
def vite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return zipv(a, b, lambda x, y, bs: ite(c, x, y))
def veq_goal(a, b):
    """boolean term: the two values are equal (containers: within bounds)"""
    if isinstance(a, Term): return eq(a, b)
    if type(a) is not type(b): raise ShapeMismatch('%r / %r' % (type(a), type(b)))
    if isinstance(a, SV): return and_(*[veq_goal(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Seq):
        i = bv('I', 'i')
        g = veq_goal(at(a, i), at(b, i))
        return and_(eq(a.n, b.n), forall([i], implies(and_(le(ZERO, i), lt(i, a.n)), g)))
    if isinstance(a, Mat):
        r, c = bv('I', 'r'), bv('I', 'c')
        g = veq_goal(mat(a, r, c), mat(b, r, c))
        return and_(eq(a.r, b.r), eq(a.c, b.c), forall([r, c], implies(and_(le(ZERO, r), lt(r, a.r), le(ZERO, c), lt(c, a.c)), g)))
    if isinstance(a, Unit): return TRUE
    if isinstance(a, It): return eq(a.pos, b.pos)
    raise Unsupported('equality of %r' % (a,))
def handle(v):
    """value -> term (containers become handle nodes, records tuples of handles)"""
    if isinstance(v, Term): return v
    if isinstance(v, Seq):
        return mkhnd('seq', [v.n], handle(v.el), [v.iv]) if isinstance(v.el, (Term, Seq, Mat, SV)) else None
    if isinstance(v, Mat): return mkhnd('mat', [v.r, v.c], handle(v.el), [v.ri, v.ci])
    if isinstance(v, SV):
        return mk('app', tuple(handle(v.f[k]) for k in v.f if not isinstance(v.f[k], (Ptr, Clo))), 'O', 'rec:' + v.type)
    raise Unsupported('handle of %r' % (v,))

# ---------------------------------------------------------------- C++ types
INTS = {'int': (32, 1), 'unsigned int': (32, 0), 'unsigned': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0),
        'long long': (64, 1), 'unsigned long long': (64, 0), 'short': (16, 1), 'unsigned short': (16, 0),
        'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'size_t': (64, 0), 'std::size_t': (64, 0),
        'int64_t': (64, 1), 'uint64_t': (64, 0), 'int32_t': (32, 1), 'uint32_t': (32, 0), 'int16_t': (16, 1), 'uint16_t': (16, 0),
        'int8_t': (8, 1), 'uint8_t': (8, 0), 'arma::uword': (64, 0), 'uword': (64, 0), 'ptrdiff_t': (64, 1), 'std::ptrdiff_t': (64, 1),
        'std::streamsize': (64, 1), 'difference_type': (64, 1), 'size_type': (64, 0), 'std::streamoff': (64, 1), 'arma::uhword': (32, 0), '__int128': (128, 1)}
FLTS = {'double': 64, 'float': 32, 'long double': 80}
def strip(t):
    t = t.strip()
    while True:
        o = t
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'typename ', 'enum '):
            if t.startswith(p): t = t[len(p):]
        if t.endswith(' const'): t = t[:-6]
        if t.endswith('const') and t[-6:-5] in ('*', '&'): t = t[:-5]
        if t.endswith('__restrict'): t = t[:-10].strip()
        t = t.strip()
        if t == o: return t
def unref(t):
    t = strip(t)
    while t.endswith('&'): t = strip(t[:-1])
    return t
def isref(t): return t.strip().endswith('&')
def targs(t):
    """'a<b, c<d>>' -> ('a', ['b','c<d>'])"""
    t = strip(t)
    i = t.find('<')
    if i < 0 or not t.endswith('>'): return t, []
    name, body = t[:i], t[i + 1:-1]
    out, d, cur = [], 0, ''
    for ch in body:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return name, out
def short(t):
    """unqualified template name"""
    n, a = targs(t)
    return n.split('::')[-1]
def pow2(x):
    import math
    return 2.0 ** -100 < abs(x) < 2.0 ** 100 and math.frexp(abs(x))[0] == 0.5
