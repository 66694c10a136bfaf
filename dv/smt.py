"""Translation of terms to Z3 and the prover front end."""
import z3, time, subprocess, tempfile, os, math
from fractions import Fraction
from .terms import *
from . import terms as T

_fold_sk = {}      # skeleton term -> name

def lift(t):
    """lambda-lift a fold/hnd node: returns (name, params)"""
    r = _lift_cache.get(t)
    if r is not None: return r
    if t.op == 'fold':
        n, idx, ar, so, inits, steps, kv, ivs = fold_parts(t)
        bnd = frozenset([kv] + [x for l in ivs for x in l])
        bodies = list(inits) + list(steps)
        tag = kv.data
    elif t.op == 'mu':
        bnd = frozenset([t.args[2]]); bodies = [t.args[1]]; tag = None
    else:
        dims, body, vs = hnd_parts(t)
        bnd = frozenset(vs); bodies = [body]; tag = None
    params = []; pidx = {}
    cache = {}
    hasb_c = {}
    def hasb(u):
        r = hasb_c.get(u)
        if r is not None: return r
        r = bool(fv(u) & bnd) or (u.op == 'acc' and u.data[1] == tag) or any(hasb(a) for a in u.args)
        hasb_c[u] = r
        return r
    skc = {}
    def skey(u):
        r = skc.get(u)
        if r is None:
            if not hasb(u): r = '~' + u.sort if u.args or u.op in ('var', 'bv', 'app') else '%s:%s' % (u.op, u.data)
            else: r = '%s:%s(%s)' % (u.op, u.data if u.op != 'lin' else u.data[0], ','.join(map(skey, u.args)))
            skc[u] = r
        return r
    def go(u):
        r = cache.get(u)
        if r is not None: return r
        if not hasb(u):
            if u.op in ('int', 'flt', 'strc', 'true', 'false'): r = u
            else:
                if u not in pidx:
                    pidx[u] = len(params); params.append(u)
                r = mk('var', (), u.sort, '#p%d' % pidx[u])
        elif not u.args: r = u
        else:
            # keep structure verbatim; children of commutative nodes in a structural order
            us, data = u.args, u.data
            if u.op in ('fadd', 'fmul', 'and', 'or', 'mul', 'eq', 'iff'):
                us = sorted(us, key=skey)
            elif u.op == 'lin':
                pr = sorted(zip(us, data[1]), key=lambda p: (skey(p[0]), p[1]))
                us = [p[0] for p in pr]; data = (data[0], tuple(p[1] for p in pr))
            r = mk('#' + u.op, tuple(go(a) for a in us), u.sort, data)
        cache[u] = r
        return r
    # parameters are numbered in deterministic traversal order, but atom order inside
    # commutative nodes depends on term ids: sort args of lin/and/or/fadd by a structural key first
    sk = tuple(go(b) for b in bodies)
    key = (t.op, t.data, tuple(s.id for s in sk))
    name = _fold_sk.setdefault(key, '%s$%d' % (t.op, len(_fold_sk)))
    r = (name, tuple(params))
    _lift_cache[t] = r
    return r
_lift_cache = {}

class Conv:
    def __init__(self, theory):
        self.th = theory
        self.cache = {}; self.nan = {}
        self.side = []          # side conditions (e.g. sqrt axioms)
        self.folds = {}
        if theory == 'uf': self.F = z3.DeclareSort('FP')
        elif theory == 'real': self.F = z3.RealSort()
        elif theory == 'fp': self.F = z3.Float64()
        elif theory == 'bv': self.F = z3.DeclareSort('FP')
        self.W = 80
        self.O = z3.DeclareSort('Obj'); self.S = z3.DeclareSort('Str')
        self.lits = {'flt': {}, 'strc': {}}
        self.ufs = {}
    def sort(self, s):
        if s == 'B': return z3.BoolSort()
        if s == 'I': return z3.BitVecSort(self.W) if self.th == 'bv' else z3.IntSort()
        if s == 'F': return self.F
        if s == 'S': return self.S
        if s == 'O': return self.O
        raise ValueError(s)
    def uf(self, name, args, sort):
        key = (name, tuple(a.sort() for a in args), sort)
        nm = name if len(args) else name
        f = z3.Function(nm, *([a.sort() for a in args] + [self.sort(sort)]))
        return f(*args)
    def num(self, n):
        return z3.BitVecVal(n, self.W) if self.th == 'bv' else z3.IntVal(n)
    def conv(self, t):
        c = self.cache
        st = [t]
        while st:
            u = st[-1]
            if u in c: st.pop(); continue
            if u.op in ('fold', 'hnd', 'mu'):
                deps = list(lift(u)[1])
                if u.op == 'mu': deps.append(u.args[0])
                elif u.op == 'fold':
                    p = fold_parts(u); deps += [p[0]] + list(p[1])
                else: deps += list(hnd_parts(u)[0])
            else: deps = u.args
            todo = [a for a in deps if a not in c]
            if todo: st.extend(todo); continue
            st.pop()
            if self.th == 'real': c[u], self.nan[u] = self.rone(u, c)
            else: c[u] = self.one(u, c)
        return c[t]
    def rone(self, u, c):
        """real theory: rounding is relaxed, but every float carries whether it is not-a-number"""
        op, N = u.op, self.nan
        def ex(ts):
            out = []
            for x in ts: out += [z3.If(N[x], z3.RealVal(0), c[x]), N[x]] if x.sort == 'F' else [c[x]]
            return out
        def uf(name, ts):
            zs = ex(ts)
            if u.sort != 'F': return (self.uf(name, zs, u.sort) if zs else z3.Const('%s:%s' % (name, u.sort), self.sort(u.sort))), None
            if not zs: return z3.Const('%s:F' % name, self.F), z3.Const('%s:nan' % name, z3.BoolSort())
            return self.uf(name, zs, 'F'), self.uf(name + '?nan', zs, 'B')
        if op == 'flt':
            v = flval(u)
            if math.isfinite(v):
                f = Fraction(v); return z3.Q(f.numerator, f.denominator), z3.BoolVal(False)
            return z3.Const('flt:' + u.data, self.F), z3.BoolVal(v != v)
        if op in ('var', 'bv', 'acc') and not u.args: return uf('%s' % (u.data if op != 'acc' else 'acc%s' % (u.data,),), ())
        if op == 'acc': return uf('acc%s' % (u.data,), u.args)
        if op == 'app' and u.data == 'round' and len(u.args) == 1:
            x = c[u.args[0]]; h = z3.Q(1, 2)
            return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(h - x))), N[u.args[0]]
        if op == 'app': return uf(u.data, u.args)
        if op in ('fold', 'hnd', 'mu'):
            name, params = lift(u)
            if op == 'mu': xs = [u.args[0]] + list(params)
            elif op == 'fold':
                p = fold_parts(u); xs = [p[0]] + list(p[1]) + list(params)
                self.folds[u] = 1
            else: xs = list(hnd_parts(u)[0]) + list(params)
            return uf(name, xs)
        if op == 'forall':
            vs = []
            for x in u.args[:-1]: vs += [c[x], N[x]] if x.sort == 'F' else [c[x]]
            return z3.ForAll(vs, c[u.args[-1]]), None
        if op == 'eq' and u.args[0].sort == 'F':
            a, b = u.args
            return z3.And(N[a] == N[b], z3.Or(N[a], c[a] == c[b])), None
        if op == 'ite' and u.sort == 'F': return z3.If(c[u.args[0]], c[u.args[1]], c[u.args[2]]), z3.If(c[u.args[0]], N[u.args[1]], N[u.args[2]])
        if op in ('fclt', 'fcle', 'fceq'):
            a, b = u.args
            return z3.And(z3.Not(N[a]), z3.Not(N[b]), self.fl(u, op, [c[a], c[b]])), None
        v = self.one(u, c)
        if u.sort != 'F': return v, None
        n = z3.Or(*[N[x] for x in u.args if x.sort == 'F']) if any(x.sort == 'F' for x in u.args) else z3.BoolVal(False)
        if op == 'fdiv': n = z3.Or(n, z3.And(c[u.args[0]] == 0, c[u.args[1]] == 0))
        if op == 'fsqrt': n = z3.Or(n, c[u.args[0]] < 0)
        return v, n
    def one(self, u, c):
        op = u.op; a = [c[x] for x in u.args] if op not in ('fold', 'hnd', 'mu') else None
        if op == 'int': return self.num(u.data)
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if self.th == 'bv' and u.sort == 'I' and op in ('var', 'app') and not fv(u):     # machine integers: no wrap-around at this width
            v = self.uf(u.data, a, 'I') if a else z3.Const('%s:I' % u.data, self.sort('I'))
            self.side.append(z3.And(v < z3.BitVecVal(1 << 70, self.W), v > z3.BitVecVal(-(1 << 70), self.W)))
            return v
        if op in ('var', 'bv', 'acc') and not u.args: return z3.Const('%s:%s' % (u.data if op != 'acc' else 'acc%s' % (u.data,), u.sort), self.sort(u.sort))
        if op == 'acc': return self.uf('acc%s' % (u.data,), a, u.sort)
        if op == 'flt':
            if self.th == 'real':
                v = flval(u)
                if math.isfinite(v):
                    f = Fraction(v); return z3.Q(f.numerator, f.denominator)
                return z3.Const('flt:' + u.data, self.F)
            if self.th == 'fp': 
                v = flval(u)
                if v != v: return z3.fpNaN(self.F)
                if math.isinf(v): return z3.fpPlusInfinity(self.F) if v > 0 else z3.fpMinusInfinity(self.F)
                return z3.FPVal(v, self.F)
            k = z3.Const('flt:' + u.data, self.F); self.lits['flt'][u] = k; return k
        if op == 'strc':
            k = z3.Const('str:' + u.data, self.S); self.lits['strc'][u] = k; return k
        if op == 'lin':
            cst, ks = u.data
            r = None
            for k, x in zip(ks, a):
                y = x if k == 1 else self.num(k) * x
                r = y if r is None else r + y
            return r + self.num(cst) if cst else r
        if op == 'mul':
            r = a[0]
            for x in a[1:]: r = r * x
            return r
        if op == 'le': return a[0] <= self.num(u.data)
        if op == 'eqi': return a[0] == self.num(u.data)
        if op == 'eq':
            return a[0] == a[1]
        if op == 'iff': return a[0] == a[1]
        if op == 'not': return z3.Not(a[0])
        if op == 'and': return z3.And(*a)
        if op == 'or': return z3.Or(*a)
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op == 'idiv':
            if self.th == 'bv':
                d = u.args[1].data if u.args[1].op == 'int' else 0
                return z3.LShR(a[0], d.bit_length() - 1) if d and d & (d - 1) == 0 else z3.UDiv(a[0], a[1])
            if u.args[1].op != 'int': return self.divmod(u, a)[0]
            return a[0] / a[1]
        if op == 'imod':
            if self.th == 'bv':
                if u.args[1].op == 'int' and (u.args[1].data & (u.args[1].data - 1)) == 0:
                    return a[0] & (a[1] - 1)
                return z3.URem(a[0], a[1])
            if u.args[1].op != 'int': return self.divmod(u, a)[1]
            return a[0] % a[1]
        if op.startswith('bit'):
            k = op[3:]
            if self.th == 'bv':
                return {'and': lambda: a[0] & a[1], 'or': lambda: a[0] | a[1], 'xor': lambda: a[0] ^ a[1],
                        'shl': lambda: (a[0] << a[1]) & z3.BitVecVal((1 << u.data) - 1, self.W), 'shr': lambda: z3.LShR(a[0], a[1])}[k]()
            return self.uf(op + str(u.data), a, 'I')
        if op == 'forall':
            vs = a[:-1]
            return z3.ForAll(vs, a[-1])
        if op == 'app': return self.uf(u.data, a, u.sort) if a else z3.Const(u.data + ':' + u.sort, self.sort(u.sort))
        if op in ('fold', 'hnd', 'mu'):
            name, params = lift(u)
            if op == 'mu': xs = [u.args[0]] + list(params)
            elif op == 'fold':
                p = fold_parts(u); xs = [p[0]] + list(p[1]) + list(params)
            else: xs = list(hnd_parts(u)[0]) + list(params)
            z = [c[x] for x in xs]
            if op == 'fold': self.folds[u] = 1
            return self.uf(name, z, u.sort) if z else z3.Const(name, self.sort(u.sort))
        if op == 'scat':
            r = a[0]
            for x in a[1:]:
                r = z3.Function('scat', self.S, self.S, self.S)(r, x)
            return r
        return self.fl(u, op, a)
    def divmod(self, u, a):
        """floor division by a symbolic divisor: uninterpreted with its defining facts"""
        q, r = self.uf('idivv', a, 'I'), self.uf('imodv', a, 'I')
        if not fv(u):
            x, b = a
            self.side.append(z3.Implies(b > 0, z3.And(x == b * q + r, r >= 0, r < b)))
            self.side.append(z3.Implies(z3.And(b > 0, x >= 0), q >= 0))
            self.side.append(z3.Implies(z3.And(x >= 0, x < b), z3.And(q == 0, r == x)))
        return q, r
    def fl(self, u, op, a):
        th = self.th
        if th == 'real':
            if op == 'fadd': return a[0] + a[1]
            if op == 'fsub': return a[0] - a[1]
            if op == 'fmul': return a[0] * a[1]
            if op == 'fdiv':
                return a[0] / a[1]
            if op == 'fneg': return -a[0]
            if op == 'fabs': return z3.If(a[0] >= 0, a[0], -a[0])
            if op == 'i2f': return z3.ToReal(a[0])
            if op == 'f2i': return z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
            if op == 'floor': return z3.ToReal(z3.ToInt(a[0]))
            if op == 'ceil': return -z3.ToReal(z3.ToInt(-a[0]))
            if op == 'fround32': return self.uf('fround32', a, 'F')
            if op == 'fsqrt':
                s = self.uf('sqrt', a, 'F')
                if not fv(u):
                    self.side.append(z3.Implies(a[0] >= 0, z3.And(s >= 0, s * s == a[0])))
                return s
            if op == 'fclt': return a[0] < a[1]
            if op == 'fcle': return a[0] <= a[1]
            if op == 'fceq': return a[0] == a[1]
        if th == 'fp':
            rm = z3.RNE()
            if op == 'fadd': return z3.fpAdd(rm, a[0], a[1])
            if op == 'fsub': return z3.fpSub(rm, a[0], a[1])
            if op == 'fmul': return z3.fpMul(rm, a[0], a[1])
            if op == 'fdiv': return z3.fpDiv(rm, a[0], a[1])
            if op == 'fneg': return z3.fpNeg(a[0])
            if op == 'fabs': return z3.fpAbs(a[0])
            if op == 'fsqrt': return z3.fpSqrt(rm, a[0])
            if op == 'floor': return z3.fpRoundToIntegral(z3.RTN(), a[0])
            if op == 'ceil': return z3.fpRoundToIntegral(z3.RTP(), a[0])
            if op == 'fround32': return z3.fpFPToFP(rm, z3.fpFPToFP(rm, a[0], z3.Float32()), self.F)
            if op == 'fclt': return z3.fpLT(a[0], a[1])
            if op == 'fcle': return z3.fpLEQ(a[0], a[1])
            if op == 'fceq': return z3.fpEQ(a[0], a[1])
            if op == 'i2f': return self.uf('i2f', a, 'F')
            if op == 'f2i': return self.uf('f2i', a, 'I')
        # uf
        if op == 'f2i' and not fv(u) and u.args[0].op == 'fmul':      # a zero factor gives zero (a NaN product is refused where it is converted)
            t = self.uf(op, a, u.sort)
            for x in u.args[0].args:
                if x.op == 'i2f': self.side.append(z3.Implies(self.conv(x.args[0]) == 0, t == 0))
            return t
        t = self.uf(op, a, u.sort)
        if not fv(u): self.ieee(u, op, a, t)
        return t
    def ieee(self, u, op, a, t):
        """exact facts of IEEE arithmetic on converted integers (each holds for the rounded operation)"""
        isI = lambda x: x.op == 'i2f' or (x.op == 'flt' and math.isfinite(flval(x)) and flval(x) == int(flval(x)))
        num = lambda x: self.conv(x.args[0]) if x.op == 'i2f' else z3.IntVal(int(flval(x)))
        B = 1 << 30
        if op == 'i2f': self.side.append(z3.Implies(a[0] == 0, t == self.conv(T.Fl(0.0))))
        elif op == 'fdiv' and isI(u.args[1]):
            self.side.append(z3.Implies(z3.And(a[0] == self.conv(T.Fl(0.0)), num(u.args[1]) > 0), t == a[0]))
        elif op in ('fclt', 'fcle'):
            for i in (0, 1):
                q, z = u.args[i], u.args[1 - i]
                if q.op == 'fdiv' and isI(q.args[0]) and isI(q.args[1]) and z is T.Fl(0.0):
                    L, s = num(q.args[0]), num(q.args[1])       # the sign of a quotient of integers
                    v = (L < 0 if op == 'fclt' else L <= 0) if i == 0 else (L > 0 if op == 'fclt' else L >= 0)
                    self.side.append(z3.Implies(s > 0, t == v))
        elif op == 'f2i' and u.args[0].op == 'app' and u.args[0].data == 'round' and u.args[0].args[0].op == 'fmul':
            for x, y in ((0, 1), (1, 0)):
                m = u.args[0].args[0].args
                if isI(m[x]) and m[y].op == 'fdiv' and m[y].args[1] is m[x] and isI(m[y].args[0]):
                    L, s = num(m[y].args[0]), num(m[x])         # lemma C26.roundtrip
                    self.side.append(z3.Implies(z3.And(s > 0, s < B, L < B, -B < L), t == L))
        if op in ('fclt', 'fcle'):
            # range of round(i2f(s) * (i2f(L) / i2f(s))) against constants
            for i in (0, 1):
                r, k = u.args[i], u.args[1 - i]
                if k.op == 'flt' and r.op == 'app' and r.data == 'round' and r.args[0].op == 'fmul':
                    m = r.args[0].args
                    for x, y in ((0, 1), (1, 0)):
                        if isI(m[x]) and m[y].op == 'fdiv' and m[y].args[1] is m[x] and isI(m[y].args[0]):
                            L, s = num(m[y].args[0]), num(m[x]); kv = flval(k)
                            if kv != kv or math.isinf(kv): continue
                            Lr = z3.ToReal(L); f = Fraction(kv); kq = z3.Q(f.numerator, f.denominator)
                            lo, hi = (Lr, kq) if i == 0 else (kq, Lr)
                            self.side.append(z3.Implies(z3.And(s > 0, s < B, L < B, -B < L), t == (lo < hi if op == 'fclt' else lo <= hi)))

def select_range(u):
    """a fold that keeps its value or takes v(k), v linear in k with slope 1 or -1, ends with its initial value or one of v(0)..v(n-1)"""
    if u.sort != 'I': return None
    n, idx, ar, so, inits, steps, k, ivs = fold_parts(u)
    if ar[0] != 0 or steps[0].op != 'ite': return None
    vs = set(); st = [steps[0]]
    while st:
        t = st.pop()
        if t.op == 'ite': st += [t.args[1], t.args[2]]
        elif t.op == 'acc' and t.data == (0, k.data) and not t.args: pass
        else: vs.add(t)
    if len(vs) != 1: return None
    v = vs.pop()
    c, d = T._lin(v)
    if d.get(k) not in (1, -1): return None
    rest = sub(v, k if d[k] == 1 else neg(k))
    if k in fv(rest) or contains(rest, lambda x: x.op == 'acc' and x.data[1] == k.data): return None
    a, b = rest, (add(rest, sub(n, ONE)) if d[k] == 1 else sub(rest, sub(n, ONE)))
    if d[k] == -1: a, b = b, a
    return or_(lt(n, ZERO), eq(u, inits[0]), and_(le(a, u), le(u, b)))
def close(fact_terms, goal, levels=1, extra_unfold=()):
    """fold unfold axioms for the ground fold applications of the query"""
    ax = []; done = set()
    work = set()
    for t in list(fact_terms) + [goal]:
        for u in subterms_ground(t): work.add(u)
    lev = 0
    frontier = work
    while frontier and lev < levels:
        new = set()
        for u in frontier:
            if u in done: continue
            done.add(u)
            if u.op == 'mu':
                b, e, k = u.args
                q = bv('I', 'mk')
                ax.append(le(ZERO, u))
                ax.append(implies(le(ZERO, b), le(u, b)))
                ax.append(forall([q], implies(and_(le(ZERO, q), lt(q, u)), not_(subst(e, {k: q})))))
                ex_ = subst(e, {k: u})
                ax.append(or_(eq(u, b), ex_))
                for v in subterms_ground(ex_): new.add(v)
                continue
            n = fold_parts(u)[0]
            init = fold_at(u, ZERO)
            if n.op == 'int' and n.data <= 0:
                ax.append(eq(u, init)); continue
            sel = select_range(u)
            if sel is not None: ax.append(sel)
            un = fold_unfold(u)
            if n.op == 'int' and n.data <= 40:
                ax.append(eq(u, un))
                for v in subterms_ground(un): new.add(v)
                continue
            ax.append(ite(le(n, ZERO), eq(u, init), eq(u, un)))
            for v in subterms_ground(un): new.add(v)
        # numerals always unfold completely
        nxt = set(v for v in new if v not in done)
        lev += 1
        if lev >= levels:
            nxt = set(v for v in nxt if v.op == 'fold' and fold_parts(v)[0].op == 'int' and fold_parts(v)[0].data <= 40)
            if nxt: lev = levels - 1
        frontier = nxt
    return ax
def subterms_ground(t):
    """fold nodes in t that are not under binders capturing their variables"""
    out = set(); seen = set(); st = [t]
    while st:
        u = st.pop()
        if u in seen: continue
        seen.add(u)
        if u.op == 'forall':
            st.extend(a for a in u.args); continue
        if u.op == 'fold':
            if not fv(u) and not contains(u, lambda x: x.op == 'acc' and not _bound_acc(u, x)): out.add(u)
            p = fold_parts(u); st.append(p[0]); st.extend(p[1]); st.extend(lift(u)[1]); continue
        if u.op == 'hnd':
            st.extend(hnd_parts(u)[0]); st.extend(lift(u)[1]); continue
        if u.op == 'mu':
            if not fv(u): out.add(u)
            st.append(u.args[0]); st.extend(lift(u)[1]); continue
        st.extend(u.args)
    return out
def _bound_acc(fold, acc):
    # an acc node inside `fold` is bound if some fold node inside (including itself) has its tag
    for x in subterms(fold):
        if x.op == 'fold' and fold_parts(x)[6].data == acc.data[1]: return True
    return False

def skolem(goal):
    """strip outer foralls / implications of the goal: returns (extra facts, goal)"""
    facts = []
    while True:
        if goal.op == 'forall':
            vs, body = goal.args[:-1], goal.args[-1]
            goal = subst(body, {v: fresh('sk', v.sort) for v in vs}); continue
        if goal.op == 'or':
            fs = [a for a in goal.args if a.op == 'forall']
            if fs:
                g = fs[0]; rest = [a for a in goal.args if a is not g]
                vs, body = g.args[:-1], g.args[-1]
                goal = or_(subst(body, {v: fresh('sk', v.sort) for v in vs}), *rest); continue
            neg_ = [a for a in goal.args]
            facts += [not_(a) for a in neg_]
            goal = FALSE
            return facts, goal
        return facts, goal

class Result:
    __slots__ = ('status', 'backend', 'time', 'info', 'theory')
    def __init__(s, status, backend='', t=0.0, info='', theory=''):
        s.status, s.backend, s.time, s.info, s.theory = status, backend, t, info, theory

STATS = dict(queries=0, time=0.0)

def check(facts, goal, theory='uf', timeout=4000, levels=1, want_model=True):
    """unsat(facts & !goal)?"""
    t0 = time.time()
    STATS['queries'] += 1
    ex, g = skolem(goal)
    facts = list(facts) + ex
    if any(f is FALSE for f in facts): return Result('proved', 'syntactic', 0, '', theory)
    if g is TRUE: return Result('proved', 'syntactic', 0, '', theory)
    fs = set(facts)
    if g in fs: return Result('proved', 'syntactic', 0, '', theory)
    ax = close(facts, g, levels)
    cv = Conv(theory)
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for f in facts + ax:
        if f is TRUE: continue
        s.add(cv.conv(f))
    s.add(z3.Not(cv.conv(g)))
    for kind in ('flt', 'strc'):
        l = list(cv.lits[kind].values())
        if len(l) > 1: s.add(z3.Distinct(*l))
    for x in cv.side: s.add(x)
    r = s.check()
    dt = time.time() - t0
    STATS['time'] += dt
    if r == z3.unsat: return Result('proved', 'z3', dt, '', theory)
    if r == z3.sat:
        m = ''
        if want_model:
            try: m = str(s.model())[:6000]
            except z3.Z3Exception: pass
        return Result('failed', 'z3', dt, m, theory)
    return Result('unknown', 'z3', dt, s.reason_unknown(), theory)

def check_cvc5(facts, goal, theory='uf', timeout=8000, levels=1):
    t0 = time.time()
    ex, g = skolem(goal)
    facts = list(facts) + ex
    ax = close(facts, g, levels)
    cv = Conv(theory); s = z3.Solver()
    for f in facts + ax:
        if f is not TRUE: s.add(cv.conv(f))
    s.add(z3.Not(cv.conv(g)))
    for kind in ('flt', 'strc'):
        l = list(cv.lits[kind].values())
        if len(l) > 1: s.add(z3.Distinct(*l))
    for x in cv.side: s.add(x)
    smt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt); fn_ = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, fn_], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        out = p.stdout.strip().split('\n')[0] if p.stdout else p.stderr[:200]
    except Exception as e:
        out = 'error %s' % e
    finally:
        os.unlink(fn_)
    st = {'unsat': 'proved', 'sat': 'failed'}.get(out, 'unknown')
    return Result(st, 'cvc5', time.time() - t0, out, theory)
