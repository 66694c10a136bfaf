"""Loop summarisation: closed forms are inferred from one symbolic iteration and then
*checked by induction*: base and preservation are proof obligations of every run."""
from .ev import *
from . import smt

UNROLL = 48

def assume_in(t, p, val, memo=None):
    """the ite spine of t, simplified knowing p is val"""
    if memo is None: memo = {}
    if t.op != 'ite': return t
    r = memo.get(t)
    if r is None:
        q, a, b = t.args
        if q is p: r = assume_in(a if val else b, p, val, memo)
        elif q is not_(p): r = assume_in(b if val else a, p, val, memo)
        else: r = ite(q, assume_in(a, p, val, memo), assume_in(b, p, val, memo))
        memo[t] = r
    return r
class Comp:
    __slots__ = ('cell', 'path', 'binders', 'sort', 'init', 'step', 'closed', 'K', 'cycle')

def acc_of(u, kv): return u.op == 'acc' and u.data[1] == kv.data
def accs_in(t, kv):
    out = set(); seen = set(); st = [t]
    while st:
        u = st.pop()
        if u in seen: continue
        seen.add(u)
        if acc_of(u, kv): out.add(u)
        st.extend(u.args)
    return out

def aligned_leaves(a, b):
    """[(path, binders, ta, tb)] with b's binders renamed to a's"""
    la, lb = list(leaves(a)), list(leaves(b))
    if len(la) != len(lb): raise ShapeMismatch('loop changes the shape of a value')
    out = []
    for (pa, ba, ta), (pb, bb, tb) in zip(la, lb):
        if pa != pb: raise ShapeMismatch('loop changes the shape of a value: %s %s' % (pa, pb))
        if ba != bb: tb = subst(tb, dict(zip(bb, ba)))
        out.append((pa, ba, ta, tb))
    return out

def ite_out(t):
    """c + ite(p, a, b) as ite(p, c + a, c + b)"""
    if t.op == 'lin':
        for x in t.args:
            if x.op == 'ite':
                d = sub(t, x)
                return ite(x.args[0], add(d, x.args[1]), add(d, x.args[2]))
    return t
class Engine2(Ev):
    def loop(s, n, st, cond, body, unroll=True):
        if unroll:
            r = s.try_unroll(n, st, cond, body)
            if r is not None: return r
        return s.symloop(n, st, cond, body)
    def try_unroll(s, n, st, cond, body):
        nf, no, = len(s.facts), len(s.obligs)
        cur = st.copy(); outs = []
        for it in range(UNROLL + 1):
            try: c = s.decide(cur, cond(cur))
            except DeadPath: return s.norm(outs)
            if c is FALSE:
                outs.append(('n', cur, None)); return s.norm(outs)
            if c is not TRUE or it == UNROLL:
                s.rollback(nf); del s.obligs[no:]
                return None
            nx = []
            for k, o, v in s.guard_outs(body, cur):
                if k == 'n': nx.append((o, None))
                elif k == 'b': outs.append(('n', o, None))
                else: outs.append((k, o, v))
            m = s.merge(nx)
            if not m: return s.norm(outs)
            if len(m) != 1:
                s.rollback(nf); del s.obligs[no:]; return None
            cur = m[0][0]
        return None
    def guard_outs(s, body, x):
        try: return body(x)
        except DeadPath: return []
    # ------------------------------------------------------------ symbolic loops
    def head(s, S0, comps, f):
        """S0 with each modified leaf replaced by f(j, binders)"""
        by = {}
        for j, c in enumerate(comps): by.setdefault(c.cell, {})[c.path] = j
        x = S0.copy()
        for cell, d in by.items():
            def g(path, binders, t):
                j = d.get(path)
                return t if j is None else f(j, binders, t)
            x.vars[cell] = relabel(S0.vars[cell], g)
        return x
    invs = ()
    def shape(s, v):
        if isinstance(v, Term): return v.sort
        if isinstance(v, Seq): return s.shape(v.el) + s.shape(v.el)[:1]
        return '?'
    def declares(s, nm):
        """the function under proof declares a local of this name"""
        d = getattr(s, '_declnames', None)
        if d is None:
            d = s._declnames = set(); st = [s.fn_node]
            while st:
                x = st.pop()
                if x.get('kind') in ('VarDecl', 'ParmVarDecl'): d.add(x.get('name'))
                st.extend(y for y in x.get('inner', ()) if isinstance(y, dict))
        return nm in d
    def inv_terms(s, S0, changed, x, k):
        """the contract's loop invariants in state x after k iterations of a loop that changes these cells"""
        out = []
        for names, f, *opt in s.invs:
            cells = []
            for nm in names:
                nm, sh = nm if isinstance(nm, tuple) else (nm, None)
                c = [c for c in S0.vars if c.split(':')[0].split('#')[0] == nm]
                if not c and sh and not s.declares(nm):
                    c = [c for c in S0.vars if c.split('#')[0] != 'this' and not c.startswith('arg') and s.shape(S0.vars[c]) == sh and (c in changed or cells)]
                    if len(c) != 1: c = []
                if not c: cells = None; break
                cells.append(c[-1])
            if cells and cells[0] in changed: out.append(f(*([x.vars[c] for c in cells] + [k])))
        return out
    def cut(s, S0, changed):
        """the contract's invariant with a variant that replaces a closed form of this loop"""
        for names, f, *opt in s.invs:
            if not opt or opt[0] is None: continue
            c = [c for c in S0.vars if c.split(':')[0].split('#')[0] == names[0]]
            if c and c[-1] in changed: return opt[0]
        return None
    def peel(s, n, st, cond, body, peel):
        """one iteration executed on its own, then the loop"""
        c = s.decide(st, cond(st)); res = []
        f = s.addpc(st.copy(), not_(c))
        if FALSE not in f.pc: res.append(('n', f, None))
        t = s.addpc(st.copy(), c)
        if FALSE in t.pc: return s.norm(res)
        nx = []
        for k, o, v in s.guard_outs(body, t):
            if k in ('n', 'c'): nx.append((o, None))
            elif k == 'b': res.append(('n', o, None))
            else: res.append((k, o, v))
        for o, _ in s.merge(nx): res += s.symloop(n, o, cond, body, peel)
        return s.norm(res)
    def symloop(s, n, st, cond, body, peel=2):
        S0 = st
        kv = bv('I', 'k')
        comps = []
        keyset = {}
        npc = len(S0.pc)
        for rnd in range(12):
            h = s.head(S0, comps, lambda j, b, t: accref(kv, j, b, t.sort))
            nf, no = len(s.facts), len(s.obligs)
            for t in s.inv_terms(S0, set(c.cell for c in comps), h, kv): s.fact(h, t)
            s.mute += 1
            try:
                x = h.copy()
                c = cond(x)
                x = s.addpc(x, c)
                outs = s.guard_outs(body, x) if FALSE not in x.pc else []
            finally:
                s.mute -= 1
                s.rollback(nf); del s.obligs[no:]
            ns = [o for k, o, v in outs if k in ('n', 'c')]
            exits = [o for k, o, v in outs if k in ('b', 'r')]
            m = s.merge([(o, None) for o in ns])
            if len(m) > 1: raise Unsupported('unmergeable loop states at %s' % s.where(n))
            if not m: return s.once(n, st, cond, body)
            y = m[0][0]
            new = False
            for cell in S0.vars:
                a, b = h.vars[cell], y.vars.get(cell)
                if b is None: raise Unsupported('lost cell %s' % cell)
                if a is b: continue
                for path, bs, ta, tb in aligned_leaves(a, b):
                    if ta is not tb and (cell, path) not in keyset:
                        new = True
                        c_ = Comp(); c_.cell, c_.path, c_.sort = cell, path, ta.sort
                        keyset[(cell, path)] = len(comps); comps.append(c_)
            if not new: break
        else: raise Unsupported('loop modification set does not stabilise')
        # gather recurrences
        for cell in set(c.cell for c in comps):
            for path, bs, ta, tb in aligned_leaves(S0.vars[cell], h.vars[cell]):
                j = keyset.get((cell, path))
                if j is not None: comps[j].binders, comps[j].init = bs, ta
            for path, bs, ta, tb in aligned_leaves(S0.vars[cell], y.vars[cell]):
                j = keyset.get((cell, path))
                if j is not None: comps[j].step = s.under(tb, y.pc[npc:])
        # a flag that every iteration sets to the same value: by its value before the loop
        for c_ in comps:
            if c_.sort == 'B' and not c_.binders and c_.step in (TRUE, FALSE) and c_.init not in (TRUE, FALSE):
                res = []
                for v in (TRUE, FALSE):
                    x = s.addpc(st.copy(), c_.init if v is TRUE else not_(c_.init))
                    if FALSE in x.pc: continue
                    x.vars[c_.cell] = relabel(st.vars[c_.cell], lambda path, bs, t: v if path == c_.path else t)
                    res += s.symloop(n, x, cond, body, peel)
                return s.norm(res)
        # a counter whose first steps take another branch (e.g. clamped at a bound): split on that, peel one iteration
        if peel:
            for c_ in comps:
                if c_.sort != 'I' or c_.binders: continue
                own = accref(kv, keyset[(c_.cell, c_.path)], (), 'I')
                stp = ite_out(c_.step)
                if stp.op != 'ite': continue
                p, a, b = stp.args
                if accs_in(p, kv) != {own} or kv in fv(p): continue
                if not (sub(b, own).op == 'int' or sub(a, own).op == 'int'): continue
                if any(cd.op == 'eqi' and x is c_.init for cd, x in ((p, a), (not_(p), b))): continue       # restarts (try_cycle)
                p0 = subst(p, {own: c_.init})
                d = s.decide(st, p0)
                res = []
                if d is TRUE or d is FALSE:
                    keep = b if d is FALSE else a
                    if sub(keep, own).op == 'int': continue
                    return s.peel(n, st, cond, body, peel - 1)
                for q in (p0, not_(p0)):
                    x = s.addpc(st.copy(), q)
                    if FALSE not in x.pc: res += s.symloop(n, x, cond, body, peel)
                return s.norm(res)
        # values left unspecified by the body (moved-from objects): arbitrary after every iteration
        hav = set()
        for c_ in comps:
            if any(u.data.startswith('undef!moved') for u in undef_vars(c_.step)):
                hav.add((c_.cell, c_.path))
                nm = s.new('undef!loop')
                c_.step = T.app(nm, (kv,) + tuple(c_.binders), c_.sort)
        s.loop_st = S0
        cut = s.cut(S0, set(c.cell for c in comps))
        if cut:
            # by the contract's invariant alone: the values after k iterations are any that satisfy it
            for c_ in comps:
                c_.K = bv('I', 'K')
                c_.closed = T.app(s.new('after'), (c_.K,) + tuple(c_.binders), c_.sort)
        else: s.solve(comps, kv)
        cont = and_(*y.pc[npc:]) if y.pc[:npc] == S0.pc else and_(*[p for p in y.pc if p not in S0.pc])
        cont = s.repl(cont, comps, kv)
        if cut:
            N, lin = fresh('iterations', 'I'), False
            hav = set((c_.cell, c_.path) for c_ in comps)
            bound = cut(S0)
        else: N, lin = s.trip(S0, cont, kv, n)
        s.fold_lemmas(S0, comps, kv, N)
        contN = subst(cont, {kv: N})
        # ---- induction step
        if not s.mute:
            nf = len(s.facts)
            kk = fresh('k', 'I')
            hk = s.head(S0, comps, lambda j, b, t: s.closed_at(comps[j], kk, b))
            hk.pc = S0.pc + (le(ZERO, kk),) + (() if cut else (lt(kk, N),))
            s.gfact_lemmas(hk, comps, kk)
            chg = set(c.cell for c in comps)
            for t in s.inv_terms(S0, chg, S0, ZERO): s.oblige(S0, 'loop', t, n, 'loop invariant holds initially')
            for t in s.inv_terms(S0, chg, hk, kk): s.fact(hk, t)
            ck = subst(cont, {kv: kk})
            if cut: s.oblige(s.addpc(hk.copy(), ck), 'termination', lt(kk, bound), n, 'the loop ends after finitely many iterations')
            if lin: s.oblige(hk, 'loop', ck, n, 'iteration count')
            else: s.fact(hk, ck)
            x = hk.copy()
            s.inst_conds = None
            c = cond(x)
            x = s.addpc(x, c)
            outs = s.guard_outs(body, x) if FALSE not in x.pc else []
            ns = s.merge([(o, None) for k, o, v in outs if k in ('n', 'c')])
            if len(ns) > 1: raise Unsupported('unmergeable loop states at %s' % s.where(n))
            if ns:
                y2 = ns[0][0]
                for t in s.inv_terms(S0, chg, y2, add(kk, ONE)): s.oblige(y2, 'loop', t, n, 'loop invariant is preserved')
                hk1 = s.head(S0, comps, lambda j, b, t: s.closed_at(comps[j], add(kk, ONE), b))
                for cell in S0.vars:
                    a, b = hk1.vars[cell], y2.vars[cell]
                    if a is b: continue
                    for g, pth in s.leaf_goals(a, b, y2):
                        if (cell, pth) in hav: continue
                        s.oblige(y2, 'loop', g, n, 'loop summary is inductive for %s%s' % (cell.split(':')[0], ''.join(p if p[0] == '#' else '.' + p for p in pth)))
            s.rollback(nf)
        # ---- base: closed(0) == init
        if not s.mute and not cut:
            for c in comps:
                z = s.closed_at(c, ZERO, c.binders)
                if z is not c.init:
                    sk = {b: fresh('b', b.sort) for b in c.binders}
                    s.oblige(S0, 'loop', eq(subst(z, sk), subst(c.init, sk)), n, 'loop summary holds initially')
        # ---- exit
        xN = s.head(S0, comps, lambda j, b, t: s.closed_at(comps[j], N, b))
        s.fact(xN, le(ZERO, N))
        for t in s.inv_terms(S0, set(c.cell for c in comps), xN, N): s.fact(xN, t)
        s.fact_lemmas_at(xN, comps, N)
        s.cycle_facts(xN, comps, N)
        if not lin and not cut: s.assume_note('loops whose exit depends on data terminate') if N.op == 'mu' and N.args[0] is I(-1) else None
        if lin: s.oblige(xN, 'loop', not_(contN), n, 'loop exit')
        else: s.fact(xN, not_(contN) if cut or (N.op == 'mu' and N.args[0] is I(-1)) or N.op != 'mu' else or_(not_(contN), eq(N, N.args[0])))
        if not exits:
            return [('n', xN, None)]
        res = []
        x = xN.copy()
        c = cond(x)
        c = s.decide(x, c)
        f = s.addpc(x.copy(), not_(c))
        if FALSE not in f.pc: res.append(('n', f, None))
        t = s.addpc(x, c)
        if FALSE not in t.pc:
            for k, o, v in s.guard_outs(body, t):
                if k == 'b': res.append(('n', o, None))
                elif k == 'r': res.append((k, o, v))
        return s.norm(res)
    def once(s, n, st, cond, body):
        c = s.decide(st, cond(st))
        res = []
        f = s.addpc(st.copy(), not_(c))
        if FALSE not in f.pc: res.append(('n', f, None))
        t = s.addpc(st.copy(), c)
        if FALSE not in t.pc:
            for k, o, v in s.guard_outs(body, t):
                if k == 'b': res.append(('n', o, None))
                elif k == 'r': res.append((k, o, v))
                else: raise Unsupported('loop continues unexpectedly')
        return s.norm(res)
    def leaf_goals(s, a, b, st):
        """goals: value a equals b; elements only within bounds"""
        out = []
        rng = {}
        def collect(v):
            if isinstance(v, SV):
                for x in v.f.values(): collect(x)
            elif isinstance(v, Seq): rng[v.iv] = (v.n,); collect(v.el)
            elif isinstance(v, Mat): rng[v.ri] = (v.r,); rng[v.ci] = (v.c,); collect(v.el)
        collect(a)
        for path, bs, ta, tb in aligned_leaves(a, b):
            if ta is tb: continue
            sk = {q: fresh('b', 'I') for q in bs}
            hyp = [and_(le(ZERO, sk[q]), lt(sk[q], subst(rng[q][0], sk))) for q in bs if q in rng]
            out.append((implies(and_(*hyp), eq(subst(ta, sk), subst(tb, sk))), path))
        return out
    # ------------------------------------------------------------ closed forms
    def closed_at(s, c, k, idx):
        m = {c.K: k}
        for b, i in zip(c.binders, idx):
            if b is not i: m[b] = i
        return subst(c.closed, m)
    def repl(s, t, comps, kv, at_=None):
        at_ = kv if at_ is None else at_
        def hit(u): return acc_of(u, kv) and comps[u.data[0]].closed is not None
        def f(u, go): return s.closed_at(comps[u.data[0]], at_, [go(a) for a in u.args])
        return T.mapterm(t, hit, f)
    def solve(s, comps, kv):
        for c in comps: c.closed = None; c.K = bv('I', 'K')
        un = set(range(len(comps)))
        while un:
            prog = False
            for j in sorted(un):
                c = comps[j]
                cl = c.init if c.step is accref(kv, j, tuple(c.binders), c.sort) or c.step is c.init and c.step in (TRUE, FALSE) else s.try_linear(c, j, kv)
                if cl is None: cl = s.try_counters(c, j, kv)
                if cl is None: cl = s.try_cycle(c, j, kv)
                if cl is None: cl = s.try_over(c, j, kv)
                if cl is None: cl = s.try_map(c, j, kv)
                if cl is not None:
                    c.closed = cl; un.discard(j); prog = True
                    for i in un: comps[i].step = s.repl(comps[i].step, comps, kv)
            if prog: continue
            deps = {j: set(u.data[0] for u in accs_in(comps[j].step, kv)) for j in un}
            def reach(j):
                r, w = set(), [j]
                while w:
                    q = w.pop()
                    for z in deps[q]:
                        if z not in r: r.add(z); w.append(z)
                return r
            rs = {j: reach(j) | {j} for j in un}
            j0 = min(un, key=lambda j: (len(rs[j]), j))
            group = sorted(rs[j0])
            if s.try_jmap(comps, group, kv):
                un -= set(group)
                for i in un: comps[i].step = s.repl(comps[i].step, comps, kv)
                continue
            if len(group) == 1:
                c = comps[j0]
                own = accref(kv, j0, tuple(c.binders), c.sort)
                nstep = s.normown(c, j0, c.step, own, kv) if c.binders else c.step
                if c.binders and all(u is own for u in accs_in(nstep, kv)):
                    def elfold(t, nk):
                        # conditions that no iteration changes are decided once
                        if t is own: return c.init
                        if t.op == 'ite' and not accs_in(t.args[0], kv) and kv not in fv(t.args[0]):
                            return ite(t.args[0], elfold(t.args[1], nk), elfold(t.args[2], nk))
                        stp = s.retag(t, kv, nk, {j0: (0, True)})
                        return mkfold(0, c.K, (), (0,), (c.sort,), [c.init], [subst(stp, {kv: nk})], nk, [[]])
                    c.closed = elfold(nstep, bv('I', 'fk'))
                    un.discard(j0)
                    for i in un: comps[i].step = s.repl(comps[i].step, comps, kv)
                    continue
            pos = {j: p for p, j in enumerate(group)}
            nk = bv('I', 'fk')
            ar = tuple(len(comps[j].binders) for j in group); so = tuple(comps[j].sort for j in group)
            inits = [comps[j].init for j in group]
            steps = [subst(s.retag(comps[j].step, kv, nk, {q: (pos[q], False) for q in group}), {kv: nk}) for j in group]
            ivs = [list(comps[j].binders) for j in group]
            for j in group:
                c = comps[j]
                c.closed = mkfold(pos[j], c.K, tuple(c.binders), ar, so, inits, steps, nk, ivs)
            un -= set(group)
            for i in un: comps[i].step = s.repl(comps[i].step, comps, kv)
    def retag(s, t, kv, nk, ren):
        def hit(u): return acc_of(u, kv)
        def f(u, go):
            p, drop = ren[u.data[0]]
            return mk('acc', () if drop else tuple(go(a) for a in u.args), u.sort, (p, nk.data))
        return T.mapterm(t, hit, f)
    def try_linear(s, c, j, kv):
        if c.binders or c.sort != 'I': return None
        own = accref(kv, j, (), 'I')
        stp = ite_out(c.step)
        if stp.op == 'ite' and accs_in(stp.args[0], kv) == {own} and kv not in fv(stp.args[0]):
            # a clamped counter that starts (and, by the inductive check, stays) on its linear side
            p0 = s.decide(s.loop_st, subst(stp.args[0], {own: c.init}))
            if p0 is TRUE: stp = stp.args[1]
            elif p0 is FALSE: stp = stp.args[2]
        d = sub(stp, own)
        if accs_in(d, kv) or kv in fv(d): return None
        return add(c.init, mul(d, c.K))
    def try_counters(s, c, j, kv):
        """an array of counters: each is advanced by the same amount every iteration, or never"""
        if not c.binders or c.sort != 'I': return None
        own = accref(kv, j, tuple(c.binders), 'I')
        seen = [False]
        def go(t):
            if t is own: return c.init
            if t.op == 'ite':
                p, a, b = t.args
                if accs_in(p, kv) or kv in fv(p): return None
                x, y = go(a), go(b)
                return None if x is None or y is None else ite(p, x, y)
            d = sub(t, own)
            if accs_in(d, kv) or kv in fv(d): return None
            seen[0] = True
            return add(c.init, mul(d, c.K))
        t = s.normown(c, j, c.step, own, kv)
        if t.op != 'ite': return None
        r = go(t)
        return r if seen[0] else None
    def try_cycle(s, c, j, kv):
        """a counter that restarts every F iterations, the number of restarts, and the buffer it fills"""
        t = c.step
        if t.op != 'ite' or len(c.binders) > 1: return None
        own = accref(kv, j, tuple(c.binders), c.sort)
        p, a, b = t.args
        if not c.binders:
            if c.sort != 'I': return None
            for cond, x, y in ((p, a, b), (not_(p), b, a)):
                if cond.op != 'eqi': continue
                if x is ZERO and y is add(own, ONE) and c.init is ZERO:
                    # own + 1 == F
                    cst, d = T._lin(cond.args[0])
                    if d.get(own) not in (1, -1): continue
                    rest = sub(I(cond.data), T._mklin(cst, {u: q for u, q in d.items() if u is not own}))
                    F = add(rest if d[own] == 1 else neg(rest), ONE)
                    if accs_in(F, kv) or kv in fv(F): continue
                    c.cycle = F
                    return imod(c.K, F)
                if x is add(own, ONE) and y is own and not accs_in(cond, kv):
                    for m in T.subterms(cond):
                        if m.op == 'imod' and m.args[0] is kv and cond is eq(add(m, ONE), m.args[1]):
                            c.cycle = m.args[1]
                            return add(c.init, idiv(c.K, m.args[1]))
            return None
        i = c.binders[0]
        if b is own and p.op == 'eqi' and not accs_in(a, kv):
            for m in T.subterms(p):
                if m.op == 'imod' and m.args[0] is kv and p is eq(i, m):
                    F = m.args[1]; mK = imod(c.K, F)
                    return ite(and_(le(ZERO, i), lt(i, mK)), subst(a, {kv: add(sub(c.K, mK), i)}), c.init)
        return None
    def cycle_facts(s, st, comps, k):
        """division with remainder for successive iteration numbers (lemma arith.divmod)"""
        for c in comps:
            F = getattr(c, 'cycle', None)
            if F is None: continue
            m, q = imod(k, F), idiv(k, F)
            last = eq(add(m, ONE), F)
            s.fact(st, implies(and_(lt(ZERO, F), le(ZERO, k)), and_(le(ZERO, m), lt(m, F), le(ZERO, q), le(mul(q, F), k), eq(k, add(mul(q, F), m)),
                eq(imod(add(k, ONE), F), ite(last, ZERO, add(m, ONE))), eq(idiv(add(k, ONE), F), ite(last, add(q, ONE), q)))))
            s.fact(st, implies(lt(ZERO, F), and_(eq(imod(ZERO, F), ZERO), eq(idiv(ZERO, F), ZERO))))
    def try_over(s, c, j, kv):
        if accs_in(c.step, kv): return None
        return ite(le(c.K, ZERO), c.init, subst(c.step, {kv: sub(c.K, ONE)}))
    def try_map(s, c, j, kv):
        own = accref(kv, j, tuple(c.binders), c.sort)
        writes = []
        def flat(t, conds):
            if t is own: return
            if t.op == 'ite':
                p, a, b = t.args
                if own in T.subterms(a) or own in T.subterms(b):
                    flat(a, conds + [p]); flat(b, conds + [not_(p)]); return
            writes.append((and_(*conds), t))
        if c.sort == 'B':
            return None
        flat(s.normown(c, j, c.step, own, kv), [])
        if not writes or len(writes) > 4: return None
        sol = []
        for cond, V in writes:
            if accs_in(cond, kv): return None
            lits = cond.args if cond.op == 'and' else (cond,)
            V = s.ownreads(c, j, V, lits, own, kv)
            va = accs_in(V, kv)
            if any(u is not own for u in va): return None
            if va and len(writes) > 1: return None
            r = s.solve_write(lits, kv)
            if r is None: return None
            g, valid = r
            if va: V = subst(V, {own: c.init})
            sol.append((g, valid, subst(V, {kv: g})))
        return s.map_closed(c, sol)
    def ownreads(s, c, j, V, lits, own, kv):
        """reads of the element being written (indices equal to the written ones under the write condition)"""
        def hit(u): return acc_of(u, kv) and u is not own and u.data[0] == j and len(u.args) == len(c.binders) and all(x is y or eq(x, y) in lits for x, y in zip(c.binders, u.args))
        if not contains(V, hit): return V
        return T.mapterm(V, hit, lambda u, go: own)
    def normown(s, c, j, t, own, kv, conds=()):
        """reads of the component at the element's own index (under the branch conditions) are reads of own"""
        if t is own: return t
        if t.op == 'ite':
            p, a, b = t.args
            return ite(p, s.normown(c, j, a, own, kv, conds + ((p.args if p.op == 'and' else (p,)))), s.normown(c, j, b, own, kv, conds + (not_(p),)))
        return s.ownreads(c, j, t, conds, own, kv)
    def solve_write(s, lits, kv):
        """iteration that performs a write whose condition is the conjunction lits: (g, validity)"""
        for L in lits:
            if L.op != 'eqi': continue
            lin = L.args[0]
            cst, d = T._lin(lin)
            k = d.get(kv)
            if k is None or any(kv in fv(a) for a in d if a is not kv): continue
            rest = T._mklin(cst, {a: q for a, q in d.items() if a is not kv})
            num = sub(I(L.data), rest)          # k*kv == num
            if k < 0: k, num = -k, neg(num)
            if k == 1: g, extra = num, TRUE
            else: g, extra = idiv(num, I(k)), eq(imod(num, I(k)), ZERO)
            rl = and_(*[q for q in lits if q is not L])
            break
        else:
            # column-major element numbering: imod(k, R) == a and idiv(k, R) == b  <=>  k == a + R*b
            pr = s.linpair(lits, kv)
            if pr is None: return None
            R, a_, b_, used = pr
            g = add(a_, mul(R, b_)); extra = and_(le(ZERO, a_), lt(a_, R))
            s.lins[g] = (R, a_, b_)
            rl = and_(*[q for q in lits if q not in used])
            return g, and_(extra, le(ZERO, b_), subst(rl, {kv: g}))       # 0 <= a < R: a + R*b >= 0 iff b >= 0
        return g, and_(extra, le(ZERO, g), subst(rl, {kv: g}))
    lins = {}
    def before(s, g, v, K):
        """g < K; for column-major numbers of an R x C matrix and K = R*C this is b < C (v implies 0 <= a < R)"""
        if g in s.lins:
            R, a_, b_ = s.lins[g]
            for r, c in T.PROD.get(K, ()):
                if r is R: return lt(b_, c)
                if c is R: return lt(b_, r)
        return lt(g, K)
    def map_closed(s, c, sol):
        # value after K iterations: the latest valid write wins
        t = c.init
        if len(sol) == 1:
            g, v, V = sol[0]
            return ite(and_(v, s.before(g, v, c.K)), V, t)
        for i in range(len(sol)):
            g, v, V = sol[len(sol) - 1 - i]
            others = [x for q, x in enumerate(sol) if q != len(sol) - 1 - i]
            last = and_(*[or_(not_(and_(v2, lt(g2, c.K))), le(g2, g)) for g2, v2, _ in others])
            t = ite(and_(v, s.before(g, v, c.K), last), V, t)
        return t
    def try_jmap(s, comps, group, kv):
        """arrays written element by element from elements that no earlier iteration has written"""
        W = {}
        for j in group:
            c = comps[j]
            if c.sort == 'B' or not c.binders: return None
            own = accref(kv, j, tuple(c.binders), c.sort)
            ws = []
            def flat(t, conds):
                if t is own: return True
                if t.op == 'ite' and own in T.subterms(t):
                    p, a, b = t.args
                    if p.op == 'or' and a is own: p, a, b = not_(p), b, a
                    if p.op == 'and' and b is own and contains(p, lambda u: acc_of(u, kv)):
                        dep = [L for L in p.args if contains(L, lambda u: acc_of(u, kv))]
                        ws.append((conds + [L for L in p.args if L not in dep], ite(and_(*dep), a, own))); return True
                    if p.op == 'or' or contains(p, lambda u: acc_of(u, kv)): ws.append((conds, t)); return True
                    return flat(assume_in(a, p, True), conds + [p]) and flat(assume_in(b, p, False), conds + [not_(p)])
                ws.append((conds, t)); return True
            flat(s.normown(c, j, c.step, own, kv), [])
            out = []
            for conds, V in ws:
                cond = and_(*conds)
                if accs_in(cond, kv): return None
                lits = cond.args if cond.op == 'and' else (cond,)
                r = s.solve_write(lits, kv)
                if r is None: return None
                out.append((r[0], r[1], s.ownreads(c, j, V, lits, own, kv)))
            W[j] = (c, own, out)
        for j, (c, own, out) in W.items():
            for g, v, V in out:
                for u in accs_in(V, kv):
                    if u is own: continue
                    i = u.data[0]
                    if i not in W: return None
                    ci, _, oi = W[i]
                    for gi, vi, _v in oi:
                        wi = subst(gi, dict(zip(ci.binders, u.args)))
                        if le(kv, wi) is TRUE: continue
                        if subst(vi, dict(zip(ci.binders, u.args))) is FALSE: continue      # an element that is never written
                        if not s._quick([le(ZERO, kv), subst(v, {kv: kv})], or_(le(kv, wi), lt(wi, ZERO)), 300): return None
        for j, (c, own, out) in W.items():
            def hit(u): return acc_of(u, kv)
            def rep(u, go):
                ci = comps[u.data[0]]
                return subst(ci.init, dict(zip(ci.binders, [go(a) for a in u.args])))
            c.closed = s.map_closed(c, [(g, v, subst(T.mapterm(V, hit, rep), {kv: g})) for g, v, V in out])
        return True
    def linpair(s, lits, kv):
        def one(L, op):
            if L.op != 'eqi': return None
            cst, d = T._lin(L.args[0])
            hit = [x for x in d if x.op == op and x.args[0] is kv and kv not in fv(x.args[1])]
            if len(hit) != 1 or d[hit[0]] not in (1, -1): return None
            if any(kv in fv(a) for a in d if a is not hit[0]): return None
            rest = T._mklin(cst, {a: q for a, q in d.items() if a is not hit[0]})
            v = sub(I(L.data), rest)
            return hit[0].args[1], v if d[hit[0]] == 1 else neg(v), L
        ms = [x for x in (one(L, 'imod') for L in lits) if x]
        ds = [x for x in (one(L, 'idiv') for L in lits) if x]
        for R, a, L1 in ms:
            for R2, b, L2 in ds:
                if R is R2: return R, a, b, (L1, L2)
        return None
    # ------------------------------------------------------------ trip count
    def under(s, t, lits, out=True):
        """the ite spine of t under the conditions for another iteration (only a guess at a closed form: induction checks it)"""
        ls = set(x for p in lits for x in (p.args if p.op == 'and' else (p,)))
        def val(c):
            if c in ls: return TRUE
            if not_(c) in ls: return FALSE
            if c.op == 'and': return and_(*[val(x) for x in c.args])
            if c.op == 'or': return or_(*[val(x) for x in c.args])
            if c.op == 'not' and c.args[0].op in ('and', 'or'): return not_(val(c.args[0]))
            return c
        def go(u):
            if u.op == 'ite':
                c = val(u.args[0])
                return go(u.args[1]) if c is TRUE else go(u.args[2]) if c is FALSE else ite(c, go(u.args[1]), go(u.args[2]))
            if u.sort == 'B' and u.op in ('and', 'or', 'not', 'le', 'eqi', 'acc', 'eq'): return val(u)
            return u
        return go(ite_out(t) if out else t)
    def trip(s, st, cont, kv, n):
        lits = cont.args if cont.op == 'and' else (cont,)
        bounds = []; inv = []; other = []
        for L in lits:
            if L is TRUE: continue
            if kv not in fv(L): inv.append(L); continue
            if L.op == 'le':
                cst, d = T._lin(L.args[0])
                k = d.get(kv)
                if k is not None and not any(kv in fv(a) for a in d if a is not kv):
                    rest = T._mklin(cst, {a: q for a, q in d.items() if a is not kv})
                    e = sub(I(L.data), rest)            # k*kv <= e
                    if k > 0:
                        bounds.append(add(idiv(e, I(k)), ONE)); continue
                    # -k' * kv <= e : true from some point on; true for all kv >= 0 iff 0 <= e
                    if s.prove(st, le(ZERO, e), optimistic=False): continue
            if L.op == 'not' and L.args[0].op == 'eqi':
                q = L.args[0]
                cst, d = T._lin(q.args[0])
                k = d.get(kv)
                if k in (1, -1) and not any(kv in fv(a) for a in d if a is not kv):
                    rest = T._mklin(cst, {a: q_ for a, q_ in d.items() if a is not kv})
                    e = sub(I(q.data), rest)
                    if k < 0: e = neg(e)
                    if s.prove(st, le(ZERO, e), optimistic=False):
                        bounds.append(e); continue
                    if s.mute and not bounds: bounds.append(e); continue
            other.append(L)
        if cont is TRUE: raise Unsupported('loop without exit at %s' % s.where(n))
        N = None
        for b in bounds:
            if s.prove(st, le(ZERO, b), optimistic=False): pass
            elif s.prove(st, le(b, ZERO), optimistic=False): b = ZERO
            else: b = imax(ZERO, b)
            if N is None: N = b
            elif s.prove(st, le(N, b), optimistic=False): pass
            elif s.prove(st, le(b, N), optimistic=False): N = b
            else: N = imin(N, b)
        lin = True
        if other:
            N = mkmu(N if N is not None else I(-1), or_(*[not_(L) for L in other]), kv)
            lin = False
        if inv:
            L = and_(*inv)
            if N is None:
                # the condition does not change: it must be false at the start (or the loop diverges)
                s.oblige(st, 'termination', not_(L), n, 'loop condition never changes')
                return ZERO, True
            if not s.prove(st, L, optimistic=False): N = ite(L, N, ZERO)
        return N, lin
    # ------------------------------------------------------------ bounds of integer folds
    def fold_lemmas(s, st, comps, kv, N):
        import z3
        for c in comps:
            if c.sort != 'I' or c.closed.op != 'fold': continue
            f = c.closed
            n, idx, ar, so, inits, steps, k0, ivs = fold_parts(f)
            nm, params = smt.lift(f)
            if any(p[0] == params for p in s.foldlemmas.get(nm + '/p', ())): continue
            k = fresh('lk', 'I')
            fr_ = {}
            def fresh_acc(u):
                if u not in fr_: fr_[u] = T.app('accv%d' % len(fr_) + str(u.data[0]), tuple(), u.sort) if True else None
                return fr_[u]
            sk = {b: fresh('li', 'I') for b in ivs[0]}
            own = mk('acc', tuple(sk[b] for b in ivs[0]), 'I', (0, k0.data))
            stp = subst(steps[0], {**sk, k0: k})
            def hit(u): return u.op == 'acc' and u.data[1] == k0.data
            a = fresh('la', 'I'); memo = {own: a}
            def g(u, go):
                if u not in memo: memo[u] = fresh('lo', u.sort)
                return memo[u]
            t = T.mapterm(stp, hit, g)
            hyp = [le(ZERO, k)]
            pcs = list(st.pc) + hyp
            def q(goal): return s._quick(pcs, goal, 300)
            ls = []
            init_of = lambda u: subst(fold_parts(u)[4][0], dict(zip(fold_parts(u)[7][0], fold_parts(u)[1])))
            guard = and_(*st.pc)
            if q(le(a, t)): ls.append(lambda u: implies(guard, implies(le(ZERO, fold_parts(u)[0]), le(init_of(u), u))))
            if q(le(t, add(a, ONE))): ls.append(lambda u: implies(guard, implies(le(ZERO, fold_parts(u)[0]), le(u, add(init_of(u), fold_parts(u)[0])))))
            if q(le(t, a)): ls.append(lambda u: implies(guard, implies(le(ZERO, fold_parts(u)[0]), le(u, init_of(u)))))
            # constant step bounds that hold in every iteration (candidates: literals of the path condition)
            hy = pcs + [lt(k, N)]
            if s.opts.get('bounds'):
                for f_ in s.facts:
                    for g_ in (f_.args if f_.op == 'and' else (f_,)):
                        if g_.op == 'forall' and g_.data == 1 and g_.args[0].sort == 'I': hy.append(subst(g_.args[1], {g_.args[0]: k}))
            lits = sorted({abs(v.data) for p_ in s.opts.get('bounds', ()) for v in [I(p_)]})
            for B_ in lits:
                if s._quick(hy, and_(le(sub(a, I(B_)), t), le(t, add(a, I(B_)))), 1000):
                    ls.append(lambda u, B_=B_: implies(guard, implies(and_(le(ZERO, fold_parts(u)[0]), le(fold_parts(u)[0], N)), and_(le(u, add(init_of(u), mulc(B_, fold_parts(u)[0]))), le(sub(init_of(u), mulc(B_, fold_parts(u)[0])), u)))))
                    break
            if q(or_(eq(t, a), and_(le(ZERO, t), le(t, k)))):
                ls.append(lambda u: implies(guard, implies(le(ZERO, fold_parts(u)[0]), or_(eq(u, init_of(u)), and_(le(ZERO, u), lt(u, fold_parts(u)[0]))))))
            for l in ls:
                s.foldlemmas.setdefault(nm, []).append((lambda l, params: lambda u: l(u) if smt.lift(u)[1] == params else TRUE)(l, params))
            s.foldlemmas.setdefault(nm + '/p', []).append((params, len(ls)))
    def gfact_lemmas(s, st, comps, kk):
        s.fact_lemmas_at(st, comps, kk); s.fact_lemmas_at(st, comps, add(kk, ONE)); s.cycle_facts(st, comps, kk)
    def fact_lemmas_at(s, st, comps, k):
        for c in comps:
            if c.sort == 'I' and c.closed.op == 'fold' and not c.binders:
                u = s.closed_at(c, k, ())
                for t in s.lemma_facts([u]): s.fact(st, t)
