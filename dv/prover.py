"""Discharging proof obligations: a ladder of exact and relaxed theories, plus congruence of
iterations (two folds whose steps are provably equal for every iteration are equal)."""
import time
from .terms import *
from . import terms as T, smt

LADDER_MS = (600, 4000)

def ground(u):
    return not fv(u) and not contains(u, lambda x: x.op == 'acc' and not smt._bound_acc(u, x))

def binder_nodes(t):
    """ground fold / hnd / mu nodes of t, outermost first"""
    out = []; seen = set(); st = [t]
    while st:
        u = st.pop()
        if u in seen: continue
        seen.add(u)
        if u.op in ('fold', 'hnd', 'mu') and ground(u): out.append(u)
        if u.op == 'forall': continue
        if u.op == 'fold':
            p = fold_parts(u); st.append(p[0]); st.extend(p[1]); st.extend(smt.lift(u)[1])
        elif u.op == 'hnd':
            st.extend(hnd_parts(u)[0]); st.extend(smt.lift(u)[1])
        elif u.op == 'mu':
            st.append(u.args[0]); st.extend(smt.lift(u)[1])
        else: st.extend(u.args)
    return out

def tup(ts): return mk('app', tuple(ts), 'O', 'tuple')
def relevant(facts, goal, depth=3):
    sy = _syms(goal) if isinstance(goal, Term) else frozenset().union(*[_syms(x) for x in goal])
    rest = list(facts); out = []
    for _ in range(depth):
        nr = []; add_ = set()
        for f in rest:
            s = _syms(f)
            if s & sy: out.append(f); add_ |= s
            else: nr.append(f)
        if not add_ - sy: break
        sy = sy | add_; rest = nr
    return out
_sc = {}
def _syms(t):
    r = _sc.get(t)
    if r is None:
        r = frozenset((u.data if u.op in ('var', 'app') else u) for u in subterms(t) if u.op in ('var', 'app', 'fold'))
        _sc[t] = r
    return r

def int_sides(g):
    """sides of an integer equation between iterations under conditions"""
    if g.op != 'eqi' or not contains(g, lambda u: u.op == 'fold'): return None
    c, d = T._lin(g.args[0]); c = g.data - c
    ites = [a for a in d if a.op == 'ite' and abs(d[a]) == 1]
    if not ites or len(d) > 2: return None
    a = max(ites, key=lambda x: x.id)
    rest = T._mklin(0, {x: k for x, k in d.items() if x is not a})
    return a, (sub(I(c), rest) if d[a] == 1 else sub(rest, I(c)))
def skeqs(ex):
    """successive substitutions solving the equations between skolem constants among ex"""
    out = []
    for L in [x for e in ex for x in (e.args if e.op == 'and' else (e,))]:
        for v, t in out: L = subst(L, {v: t})
        if L.op != 'eqi': continue
        cst, d = T._lin(L.args[0])
        v = [a for a in d if a.op == 'var' and d[a] in (1, -1) and '!' in str(a.data)]
        if not v: continue
        v = max(v, key=lambda a: a.id)
        if any(contains(a, lambda u: u is v) for a in d if a is not v): continue
        num = sub(I(L.data), T._mklin(cst, {a: k for a, k in d.items() if a is not v}))
        out.append((v, num if d[v] == 1 else neg(num)))
        if len(out) >= 6: break
    return out
def valform(t):
    """the element at the position found by a search (first best element) as the value carried by that search;
    a value search that starts by comparing its first element with itself starts one later"""
    def argfold(u):
        if u.op != 'fold' or u.sort != 'I': return None
        n, idx, ar, so, ins, sts, k, ivs = fold_parts(u)
        if ar != (0,) or so != ('I',) or sts[0].op != 'ite': return None
        return (n, ins[0], sts[0], k)
    def hit(u): return u.op == 'fold' and u.sort == 'F' or u.op == 'app' and u.sort == 'F' and len([x for x in subterms(u) if x.op == 'fold' and x.sort == 'I']) == 1
    def f(u, go):
        if u.op == 'app':
            G = [x for x in subterms(u) if x.op == 'fold' and x.sort == 'I'][0]
            p = argfold(G)
            if p is None: return u
            n, i0, step, k = p
            h = lambda x: subst(u, {G: x})
            acc = [x for x in subterms(step) if x.op == 'acc' and x.data[1] == k.data]
            if len(acc) != 1: return u
            C, E_, O_ = step.args
            if O_ is not acc[0]:
                if E_ is not acc[0]: return u
                C, E_, O_ = not_(C), O_, E_
            if contains(E_, lambda x: x is acc[0]): return u
            nk = bv('I', 'vk'); va = accref(nk, 0, (), 'F')
            C2 = subst(subst(C, {h(acc[0]): va}), {k: nk})
            if contains(C2, lambda x: x is acc[0]): return u
            return f(T.mkfold(0, n, (), (0,), ('F',), [h(i0)], [ite(C2, subst(h(E_), {k: nk}), va)], nk, [[]]), go)
        n, idx, ar, so, ins, sts, k, ivs = fold_parts(u)
        if ar != (0,) or sts[0].op != 'ite': return u
        acc = [x for x in subterms(sts[0]) if x.op == 'acc' and x.data[1] == k.data]
        if len(acc) != 1 or acc[0] not in sts[0].args: return u
        z = subst(sts[0], {acc[0]: ins[0]}); z = subst(z, {k: ZERO})
        if z is not ins[0]: return u
        nk = bv('I', 'vk'); va = accref(nk, 0, (), 'F')
        return T.mkfold(0, sub(n, ONE), (), (0,), ('F',), ins, [subst(subst(sts[0], {acc[0]: va}), {k: add(nk, ONE)})], nk, [[]])
    return T.mapterm(t, hit, f)
def split(goal):
    """conjuncts of a goal, also below a disjunction that guards them"""
    if goal.op == 'and': return [h for g in goal.args for h in split(g)]
    if goal.op == 'or':
        an = [a for a in goal.args if a.op == 'and' and any(b.op == 'forall' for b in a.args)]
        if len(an) == 1:
            rest = [a for a in goal.args if a is not an[0]]
            return [h for b in an[0].args for h in split(or_(*rest, b))]
    return [goal]
def pivot(A, B):
    """an equation for an index of the goal among the conditions of the if-then-else spines"""
    st = [A, B]; seen = set()
    while st:
        t = st.pop()
        if t.op != 'ite' or t in seen: continue
        seen.add(t); c = t.args[0]
        if c.op == 'eqi':
            cst, d = T._lin(c.args[0])
            v = [a for a in d if a.op == 'var' and d[a] in (1, -1) and '!' in str(a.data)]
            if v:
                v = max(v, key=lambda a: a.id)
                num = sub(I(c.data), T._mklin(cst, {a: k for a, k in d.items() if a is not v}))
                return c, v, num if d[v] == 1 else neg(num)
        st += t.args[1:]
    return None
def without(t, c):
    """the spine of t knowing that c is false"""
    if t.op != 'ite': return t
    p, a, b = t.args
    if p is c: return without(b, c)
    if p is not_(c): return without(a, c)
    return ite(p, without(a, c), without(b, c))
class Prover:
    def __init__(s, deadline=None, cvc5=True, foldlemmas=None):
        s.deadline = deadline; s.cvc5 = cvc5
        s.cong = {}
        s.lem = foldlemmas
        s.stats = {'queries': 0, 'time': 0.0, 'by': {}}
    def left(s):
        return 1e9 if s.deadline is None else max(0.0, s.deadline - time.time())
    def q(s, facts, goal, theory, ms, levels=1, model=False):
        ms = min(ms, s.left() * 1000)
        if ms < 50: return smt.Result('unknown', 'z3', 0, 'out of time', theory)
        r = smt.check(facts, goal, theory, ms, levels, model)
        s.stats['queries'] += 1; s.stats['time'] += r.time
        return r
    # ---- congruence of iterations
    def congruences(s, facts, goal, depth):
        """equalities between ground fold/handle nodes of the goal that can be proved pointwise"""
        nodes = binder_nodes(goal)
        fs_nodes = set(nodes)
        eqs = []
        for i in range(len(nodes)):
            for j in range(i + 1, len(nodes)):
                a, b = nodes[i], nodes[j]
                if a.op != b.op or a.sort != b.sort: continue
                if len(eqs) > 8: return eqs
                e = s.equal_nodes(facts, a, b, depth)
                if e is not None: eqs.append(e)
        return eqs
    def equal_nodes(s, facts, a, b, depth):
        key = (a, b, len(facts), facts[-1] if facts else None)
        if key in s.cong: return s.cong[key]
        s.cong[key] = None
        r = s._equal_nodes(facts, a, b, depth)
        s.cong[key] = r
        return r
    def _equal_nodes(s, facts, a, b, depth):
        if a.op == 'hnd':
            (d1, b1, v1), (d2, b2, v2) = hnd_parts(a), hnd_parts(b)
            if a.data[0] != b.data[0] or len(d1) != len(d2) or b1.sort != b2.sort: return None
            for x, y in zip(d1, d2):
                if x is not y and s.proved(facts, eq(x, y), depth + 1) is None: return None
            sk = [fresh('hk', 'I') for _ in v1]
            hyp = []
            for k, d in zip(sk, d1): hyp += [le(ZERO, k), lt(k, d)]
            g = eq(subst(b1, dict(zip(v1, sk))), subst(b2, dict(zip(v2, sk))))
            if s.proved(list(facts) + hyp, g, depth + 1) is None and not (depth < 3 and b1.sort == 'F' and g.op == 'eq' and s.decomp(list(facts) + hyp, g.args[0], g.args[1], [80], depth + 2)): return None
            return eq(a, b)
        if a.op == 'mu':
            (b1, e1, k1), (b2, e2, k2) = a.args, b.args
            if b1 is not b2 and s.proved(facts, eq(b1, b2), depth + 1) is None: return None
            k = fresh('mk', 'I')
            g = iff(subst(e1, {k1: k}), subst(e2, {k2: k}))
            hyp = [le(ZERO, k)]
            if b1.op != 'int' or b1.data >= 0: hyp.append(or_(lt(k, b1), lt(b1, ZERO)))
            if s.proved(list(facts) + hyp, g, depth + 1) is None: return None
            return eq(a, b)
        n1, idx1, ar1, so1, in1, st1, k1, iv1 = fold_parts(a)
        n2, idx2, ar2, so2, in2, st2, k2, iv2 = fold_parts(b)
        if ar1 != ar2 or so1 != so2: return None
        if n1 is not n2 and s.proved(facts, eq(n1, n2), depth + 1) is None: return None
        for x, y in zip(idx1, idx2):
            if x is not y and s.proved(facts, eq(x, y), depth + 1) is None: return None
        k = fresh('fk', 'I')
        hyp = [le(ZERO, k), lt(k, n1)]
        for j in range(len(ar1)):
            sk = [fresh('fi', 'I') for _ in iv1[j]]
            m1, m2 = dict(zip(iv1[j], sk)), dict(zip(iv2[j], sk))
            i1, i2 = subst(in1[j], m1), subst(in2[j], m2)
            if i1 is not i2 and s.proved(facts, eq(i1, i2), depth + 1) is None: return None
            x = s.accfree(subst(st1[j], {**m1, k1: k}), k1.data)
            y = s.accfree(subst(st2[j], {**m2, k2: k}), k2.data)
            if x is not y and s.proved(list(facts) + hyp, eq(x, y), depth + 1) is None and not (depth < 3 and x.sort == 'F' and s.decomp(list(facts) + hyp, x, y, [80], depth + 2)): return None
        return eq(a, b)
    def accfree(s, t, tag):
        """previous-state references become uninterpreted functions (any previous state)"""
        def hit(u): return u.op == 'acc' and u.data[1] == tag
        def f(u, go): return T.app('prev%d' % u.data[0], tuple(go(x) for x in u.args), u.sort) if u.args else T.var('prev%d' % u.data[0], u.sort)
        return T.mapterm(t, hit, f)
    def proved(s, facts, goal, depth):
        """internal sub-goal: the equality if proved, else None"""
        if goal is TRUE: return TRUE
        if goal is FALSE or depth > 4: return None
        ex, g = smt.skolem(goal)
        fs = ex + [f for f in relevant(list(facts), [g] + ex) if f not in ex]
        r = s.q(fs, g, 'uf', 1500)
        if r.status == 'proved': return goal
        es = s.congruences(list(facts) + ex, tup([g] + ex), depth + 1)
        if es:
            r = s.q(fs + es, g, 'uf', 1500)
            if r.status == 'proved': return goal
        return None
    def decomp(s, facts, A, B, left, depth=1):
        """equality by cases on if-then-else and by congruence of equal operators"""
        if A is B: return True
        if left[0] <= 0: return False
        def q(fs, g, ms=1500):
            left[0] -= 1
            ex, g = smt.skolem(g)
            fs = ex + [f for f in relevant(list(fs), [g] + ex) if f not in ex]
            return s.q(fs, g, 'uf', ms).status == 'proved'
        if A.sort != 'F' and A.op != 'hnd':
            if q(facts, eq(A, B)): return True
            if not any(X.op in ('ite', 'fold') and contains(X, lambda u: u.op == 'fold') for X in (A, B)): return False
        pv = pivot(A, B)
        if pv is not None:
            c, v, num = pv
            left[0] -= 1
            m = {v: num}
            if not s.decomp([subst(x, m) for x in facts] + list(facts), subst(A, m), subst(B, m), left, depth): return False
            return s.decomp(list(facts) + [not_(c)], without(A, c), without(B, c), left, depth)
        for X, Y in ((A, B), (B, A)):
            if X.op == 'ite':
                c, x, y = X.args
                for h, z in ((c, x), (not_(c), y)):
                    fs = list(facts) + list(h.args if h.op == 'and' else (h,))
                    if q(fs, FALSE, 300): continue
                    z_, Y_ = z, Y
                    for L in (h.args if h.op == 'and' else (h,)):
                        if L.op != 'eqi': continue
                        cst, d = T._lin(L.args[0])
                        v = [a for a in d if a.op == 'var' and d[a] in (1, -1) and '!' in str(a.data)]
                        if not v: continue
                        v = max(v, key=lambda a: a.id)
                        num = sub(I(L.data), T._mklin(cst, {a: k for a, k in d.items() if a is not v}))
                        m = {v: num if d[v] == 1 else neg(num)}
                        z_, Y_ = subst(z_, m), subst(Y_, m)
                        fs = [subst(x, m) for x in fs] + fs
                    if not s.decomp(fs, z_, Y_, left, depth): return False
                return True
        if A.op == B.op and A.data == B.data and len(A.args) == len(B.args) and A.op not in ('fold', 'hnd', 'mu', 'flt', 'var') and A.args:
            ys = B.args
            if A.op in ('fadd', 'fmul'):
                hd = lambda t: (t.op, t.data)
                straight = hd(A.args[0]) == hd(ys[0]) and hd(A.args[1]) == hd(ys[1])
                crossed = hd(A.args[0]) == hd(ys[1]) and hd(A.args[1]) == hd(ys[0])
                if A.args[0] is ys[1] or A.args[1] is ys[0] or (crossed and not straight): ys = (ys[1], ys[0])
            return all(s.decomp(facts, x, y, left, depth) for x, y in zip(A.args, ys))
        if A.op == B.op and A.op in ('fold', 'hnd') and depth < 4 and ground(A) and ground(B):
            left[0] -= 1
            return s.equal_nodes(facts, A, B, depth) is not None
        return q(facts, eq(A, B))
    # ---- one obligation
    def discharge(s, ob):
        """-> smt.Result; theory tells which interpretation of floating point was needed"""
        t0 = time.time()
        def done(r):
            r.time = time.time() - t0
            if r.status == 'proved':
                k = '%s/%s' % (r.backend, r.theory)
                s.stats['by'][k] = s.stats['by'].get(k, 0) + 1
            return r
        if ob.goal is TRUE: return done(smt.Result('proved', 'syntactic', 0, '', 'exact'))
        pcs = []
        for p in ob.pc: pcs.extend(p.args if p.op == 'and' else (p,))
        if ob.goal in pcs: return done(smt.Result('proved', 'syntactic', 0, '', 'exact'))
        allf = list(ob.facts) + pcs
        parts = split(ob.goal)
        if len(parts) > 1:
            rs = []
            for g_ in parts:
                rs.append(s.discharge1(ob, g_, pcs, allf))
                if rs[-1].status != 'proved': return done(rs[-1])
            return done(max(rs, key=lambda r: r.theory == 'real'))
        return done(s.discharge1(ob, ob.goal, pcs, allf))
    def discharge1(s, ob, goal, pcs, allf):
        done = lambda r: r
        if goal is TRUE: return smt.Result('proved', 'syntactic', 0, '', 'exact')
        ex, g = smt.skolem(goal)
        al = allf + ex
        hasbit = any(contains(f, lambda u: u.op.startswith('bit')) for f in [g] + ex + pcs)
        rel = ex + [f for f in relevant(al, [g] + ex) if f not in ex]
        if ob.lemmas: rel = rel + ob.lemmas([g] + ex + pcs)
        # 1. quantifier-free relevant facts, few levels of unfolding
        qf = [f for f in rel if not contains(f, lambda u: u.op == 'forall')]
        r = s.q(qf, g, 'uf', LADDER_MS[0])
        if r.status == 'proved': return done(r)
        r = s.q(rel, g, 'uf', LADDER_MS[0], 2)
        if r.status == 'proved': return done(r)
        if hasbit:
            r2 = s.q(qf, g, 'bv', LADDER_MS[1])
            if r2.status == 'proved': return done(r2)
        m = skeqs(ex)
        if m:
            # equations of skolem constants from the goal: replaced everywhere
            for v, t in m:
                sb = {v: t}
                al = [subst(x, sb) for x in al]; ex = [subst(x, sb) for x in ex]; g = subst(g, sb)
            if g is TRUE or FALSE in ex: return done(smt.Result('proved', 'syntactic', 0, '', 'uf'))
            ex = [x for e_ in ex for x in (e_.args if e_.op == 'and' else (e_,)) if x is not TRUE]
            rel = ex + [f for f in relevant(al, [g] + ex) if f not in ex]
            if ob.lemmas: rel = rel + ob.lemmas([g] + ex + pcs)
            r = s.q(rel, g, 'uf', LADDER_MS[0], 2)
            if r.status == 'proved': return done(r)
        vf = tup([g] + ex)
        v2 = valform(vf)
        if v2 is not vf:
            vex = list(v2.args[1:]); vg = v2.args[0]
            if vg is TRUE or FALSE in vex: return done(smt.Result('proved', 'syntactic', 0, '', 'uf'))
            val = [valform(x) for x in al]
            r = s.q(vex + [x for x in relevant(val, [vg] + vex) if x not in vex], vg, 'uf', LADDER_MS[0], 2)
            if r.status == 'proved': return done(r)
        if g is FALSE:      # the negated goal is among ex
            ne_ = [x for x in ex if x.op == 'not' and x.args[0].op == 'eq' and x.args[0].args[0].sort == 'F']
            if len(ne_) == 1:
                A, B_ = ne_[0].args[0].args
                if s.decomp([x for x in al if x is not ne_[0]], A, B_, [120]): return done(smt.Result('proved', 'z3', 0, '', 'uf'))
            ni = [x for x in ex if x.op == 'not' and int_sides(x.args[0])]
            if not ne_ and len(ni) == 1:
                A, B_ = int_sides(ni[0].args[0])
                if s.decomp([x for x in al if x is not ni[0]], A, B_, [80]): return done(smt.Result('proved', 'z3', 0, '', 'uf'))
        elif g.op == 'eq' and g.args[0].sort == 'F' and s.decomp(al, g.args[0], g.args[1], [120]):
            return done(smt.Result('proved', 'z3', 0, '', 'uf'))
        elif g.op == 'eqi' and int_sides(g):
            A, B_ = int_sides(g)
            if s.decomp(al, A, B_, [80]): return done(smt.Result('proved', 'z3', 0, '', 'uf'))
        es = s.congruences(al, tup([g] + ex), 0)
        if es:
            r2 = s.q(rel + es, g, 'uf', LADDER_MS[0], 1)
            if r2.status == 'proved':
                return done(r2)
        r = s.q(rel + es, g, 'uf', LADDER_MS[1], 3, True)
        if r.status == 'proved': return done(r)
        isf = contains(g, lambda u: u.sort == 'F') or any(contains(x, lambda u: u.sort == 'F') for x in ex)
        if isf:
            r2 = s.q(rel + es, g, 'real', LADDER_MS[1], 2, True)
            if r2.status == 'proved': return done(r2)
            if r2.status == 'unknown' and r.status == 'failed': r = smt.Result('unknown', 'z3', 0, r.info, 'real')
        if s.cvc5 and r.status != 'failed':
            r2 = smt.check_cvc5(rel + es, g, 'uf', min(LADDER_MS[1], int(s.left() * 1000)), 2)
            if r2.status == 'proved': return done(r2)
        if r.status == 'unknown' and s.cases(rel + es, g, [12]): return done(smt.Result('proved', 'z3', 0, '', 'uf'))
        return done(r)
    def cases(s, facts, g, left, depth=0):
        """split on a condition of an if-then-else, replacing it by its value everywhere"""
        n = {}
        for t in [g] + list(facts):
            for u in subterms(t):
                if u.op == 'ite' and ground(u.args[0]): n[u.args[0]] = n.get(u.args[0], 0) + (3 if t is g else 1)
        if not n: return False
        cd = max(n, key=lambda x: (n[x], -x.id))
        for h, v in ((cd, TRUE), (not_(cd), FALSE)):
            left[0] -= 1
            if left[0] < 0: return False
            rep = lambda t: T.mapterm(t, lambda u: u is cd, lambda u, go: v)
            fs = [rep(f) for f in facts] + [h]
            g2 = rep(g)
            r = s.q(fs, g2, 'uf', LADDER_MS[0], 2)
            if r.status == 'proved': continue
            r = s.q(fs, g2, 'real', LADDER_MS[0], 2)
            if r.status == 'proved': continue
            if depth > 4 or not s.cases(fs, g2, left, depth + 1): return False
        return True
