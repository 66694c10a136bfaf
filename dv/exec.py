"""Symbolic executor: turns the clang AST of a function into proof obligations."""
import time, os
from .terms import *
from . import terms as T
from .values import *
from . import smt, cast

class Nil(Value):
    """absent value (e.g. the payload of an error StatusOr); reading it is guarded by an obligation"""
    __slots__ = ()
NIL = Nil()
import dv.values as _V
_zip0 = _V._zipv
def _zipv(a, b, f, bs):
    if isinstance(a, Nil): return b
    if isinstance(b, Nil): return a
    return _zip0(a, b, f, bs)
_V._zipv = _zipv

class St:
    __slots__ = ('vars', 'env', 'pc')
    def __init__(s, vars=None, env=None, pc=()):
        s.vars = vars if vars is not None else {}; s.env = env if env is not None else {}; s.pc = pc
    def copy(s): return St(dict(s.vars), dict(s.env), s.pc)
    def become(s, o): s.vars, s.env, s.pc = o.vars, o.env, o.pc

class Oblig:
    __slots__ = ('cat', 'pc', 'facts', 'goal', 'where', 'msg', 'fn', 'res', 'label', 'lemmas')
    def __init__(s, cat, pc, facts, goal, where, msg, fn):
        s.cat, s.pc, s.facts, s.goal, s.where, s.msg, s.fn = cat, pc, facts, goal, where, msg, fn
        s.res = None; s.lemmas = None; s.label = None
    def __repr__(s): return '[%s] %s %s: %s' % (s.cat, s.fn, s.where, s.msg)

class Frame:
    __slots__ = ('tu', 'this', 'name', 'id', 'rettype')
    def __init__(s, tu, this, name, id, rettype=''): s.tu, s.this, s.name, s.id, s.rettype = tu, this, name, id, rettype

def sel_merge(prefix, r1, r2):
    c1, c2 = and_(*r1), and_(*r2)
    return c1, c2

def isundef(t): return t.op == 'var' and t.data.startswith('undef!')

def undef_vars(t):
    return [u for u in T.subterms(t) if u.op in ('var', 'app') and isinstance(u.data, str) and u.data.startswith('undef!')]

class DeadPath(Exception): pass
INVARIANT = {}          # record -> symbolic value of an object whose class invariant holds

class Engine:
    def __init__(s, prog, lib, contracts=None, opts=None):
        s.prog, s.lib = prog, lib
        s.contracts = contracts or {}
        s.facts = []
        s.obligs = []
        s.assumptions = {}
        s.mute = 0
        s.frames = []
        s.ctr = itertools_count()
        s.qconv = smt.Conv('uf')
        s.used_contracts = set()
        s.inlined = set()
        s.consts = {}
        s.rfacts = set()
        s.depth = 0
        s.opts = opts or {}
        s.foldlemmas = {}
        s.virtual_spec = {}
        s.qcache = {}
        s.t_quick = 0.0
        s.tainted = False
        s._rn = {}
        s.vtypes = {}
        s.narrow = set()

    # ------------------------------------------------------------ misc
    def new(s, p): return '%s#%d' % (p, next(s.ctr))
    @property
    def fr(s): return s.frames[-1]
    def assume_note(s, k): s.assumptions[k] = s.assumptions.get(k, 0) + 1
    def fact(s, st, t):
        if t is TRUE: return
        f = implies(and_(*st.pc), t) if st.pc else t
        if f is TRUE: return
        s.facts.append(f)
    def gfact(s, t):
        if t is not TRUE and t not in s.rfacts:
            s.rfacts.add(t); s.facts.append(t)
    def contract_of(s, f, nargs=None):
        l = s.contracts.get(f.qname)
        if l is None: return None
        for c in l:
            if c.typ is None or c.typ in f.type: return c
        return None
    def where(s, node):
        if node is None: return ''
        if '_l' in node: return '%s:%s' % (os.path.basename(node.get('_f') or '?'), node['_l'])
        return ''
    def oblige(s, st, cat, goal, node=None, msg=''):
        if goal is TRUE:
            if not s.mute: s.obligs.append(Oblig(cat, (), (), TRUE, s.where(node), msg, s.fr.name if s.frames else ''))
            return
        if not s.mute:
            o = Oblig(cat, st.pc, s.snap(), goal, s.where(node), msg, s.fr.name if s.frames else '')
            o.lemmas = s.lemma_facts
            s.obligs.append(o)
        s.fact(st, goal)
    def snap(s):
        c = getattr(s, '_snap', None)
        if c is not None and len(c) == len(s.facts) and (not c or c[-1] is s.facts[-1]): return c
        s._snap = tuple(s.facts)
        return s._snap
    def rollback(s, n):
        for f in s.facts[n:]: s.rfacts.discard(f)
        del s.facts[n:]
        s._snap = None
    # ------------------------------------------------------------ quick queries
    def _rel(s, ts, goal, limit=250):
        """facts sharing symbols with the goal"""
        syms = s._syms(goal)
        fs = [f for f in ts if not contains(f, lambda u: u.op == 'forall')]
        out = []; rest = fs
        for _ in range(3):
            nr = []; add_ = set()
            for f in rest:
                sf = s._syms(f)
                if sf & syms: out.append(f); add_ |= sf
                else: nr.append(f)
            if not add_ - syms: break
            syms = syms | add_; rest = nr
        return out[-limit:]
    _symc = {}
    def _syms(s, t):
        r = s._symc.get(t)
        if r is None:
            r = frozenset((u.data if u.op in ('var', 'app') else u) for u in T.subterms(t) if u.op in ('var', 'app', 'fold', 'bv'))
            s._symc[t] = r
        return r
    def prove(s, st, goal, timeout=300, optimistic=True):
        """immediate query; in trial mode answers optimistically"""
        if goal is TRUE: return True
        if goal is FALSE: return False
        if s.mute and optimistic: return True
        pcs = []
        for p in st.pc: pcs.extend(p.args if p.op == 'and' else (p,))
        if goal in pcs: return True
        if goal in s.rfacts: return True
        key = (goal, st.pc, len(s.facts))
        if key in s.qcache: return s.qcache[key]
        r = s._quick(pcs, goal, timeout)
        s.qcache[key] = r
        return r
    def _quick(s, pcs, goal, timeout):
        import z3
        t0 = time.time()
        fs = s._rel(pcs + s.facts + s.lemma_facts([goal] + pcs), goal)
        cv = s.qconv; cv.side = []
        sol = z3.SimpleSolver() if False else z3.Solver()
        sol.set('timeout', timeout)
        ax = []
        for f in fs: sol.add(cv.conv(f))
        sol.add(z3.Not(cv.conv(goal)))
        r = sol.check() == z3.unsat
        s.t_quick += time.time() - t0
        return r
    def lemma_facts(s, ts):
        out = []; seen = set()
        for t in ts:
            for u in T.subterms(t):
                if u.op == 'mu' and u not in seen and not fv(u):
                    seen.add(u); out += [le(ZERO, u), implies(le(ZERO, u.args[0]), le(u, u.args[0]))]
                    continue
                if not s.foldlemmas: continue
                if u.op == 'fold' and u not in seen and not fv(u):
                    seen.add(u)
                    try: nm = smt.lift(u)[0]
                    except Exception: continue
                    for l in s.foldlemmas.get(nm, ()): out.append(l(u))
        return out
    # ------------------------------------------------------------ types
    def rng(s, t):
        t = unref(t)
        if t in INTS:
            w, sg = INTS[t]
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        return None
    def enum_or_int(s, ty):
        ty = unref(ty)
        if ty in INTS: return True
        return False
    def range_fact(s, st, t, ty):
        if t.op in ('var', 'app', 'fold') and t.sort == 'I':
            r = s.rng(ty)
            if r:
                f = and_(le(I(r[0]), t), le(t, I(r[1])))
                if t.op == 'fold': s.fact(st, f)
                else: s.gfact(f)
    def inrange(s, t, ty):
        r = s.rng(ty)
        return and_(le(I(r[0]), t), le(t, I(r[1])))
    # ------------------------------------------------------------ merge
    def merge2(s, a, va, b, vb):
        n = 0
        for x, y in zip(a.pc, b.pc):
            if x is not y: break
            n += 1
        r1, r2 = and_(*a.pc[n:]), and_(*b.pc[n:])
        if r1 is FALSE: return b, vb
        if r2 is FALSE: return a, va
        sz1 = len(r1.args) if r1.op == 'and' else 1; sz2 = len(r2.args) if r2.op == 'and' else 1
        sel = r1 if sz1 <= sz2 else not_(r2)
        st = St({}, {}, a.pc[:n] + (() if or_(r1, r2) is TRUE else (or_(r1, r2),)))
        for c, x in a.vars.items():
            if c in b.vars:
                y = b.vars[c]
                st.vars[c] = x if x is y else vite(sel, x, y)
            elif c[0] == 'h': st.vars[c] = x
        for c, y in b.vars.items():
            if c not in a.vars and c[0] == 'h': st.vars[c] = y
        for k, l in a.env.items():
            l2 = b.env.get(k)
            if l2 is l or (l2 is not None and l2 == l): st.env[k] = l
        v = s.mergeval(sel, va, vb)
        return st, v
    def mergeval(s, sel, va, vb):
        if va is vb: return va
        if isinstance(va, LV) or isinstance(vb, LV):
            if isinstance(va, LV) and isinstance(vb, LV):
                if va == vb: return va
                if va.cell == vb.cell and len(va.path) == len(vb.path):
                    path = []
                    for p, q in zip(va.path, vb.path):
                        if isinstance(p, str) or isinstance(q, str):
                            if p != q: raise ShapeMismatch('lvalue merge')
                            path.append(p)
                        else:
                            if p[0] != q[0]: raise ShapeMismatch('lvalue merge')
                            path.append((p[0],) + tuple(ite(sel, x, y) for x, y in zip(p[1:], q[1:])))
                    return LV(va.cell, tuple(path))
            raise ShapeMismatch('lvalue merge %r %r' % (va, vb))
        if va is None: return vb
        if vb is None: return va
        return vite(sel, va, vb)
    def merge(s, outs):
        """list of (St, val) -> merged list (ideally of length 1)"""
        outs = [o for o in outs if not any(p is FALSE for p in o[0].pc)]
        res = []
        for st, v in outs:
            for i, (s2, v2) in enumerate(res):
                try:
                    res[i] = s.merge2(s2, v2, st, v); break
                except ShapeMismatch: continue
            else: res.append((st, v))
        return res
    def addpc(s, st, c):
        if c is TRUE: return st
        if c.op == 'and': st.pc = st.pc + tuple(x for x in c.args if x not in st.pc)
        elif c not in st.pc: st.pc = st.pc + (c,)
        if c is FALSE: st.pc = (FALSE,)
        else:
            n = set()
            for p in st.pc: n.add(p)
            for p in st.pc:
                if not_(p) in n: st.pc = (FALSE,); break
        return st
    def decide(s, st, c):
        """simplify a branch condition under the path condition"""
        if c is TRUE or c is FALSE: return c
        for p in st.pc:
            if p is c: return TRUE
            if p is not_(c): return FALSE
        if c.op in ('le', 'eqi', 'not', 'and', 'or') and not s.mute and s.opts.get('decide', True):
            if s.arith_only(c):
                if s.prove(st, c, 150): return TRUE
                if s.prove(st, not_(c), 150): return FALSE
        return c
    def arith_only(s, c):
        r = s._ar.get(c)
        if r is not None: return r
        st = [c]; seen = set()
        while st:
            u = st.pop()
            if u in seen: continue
            seen.add(u)
            if u.sort == 'F' or u.op == 'forall': s._ar[c] = False; return False
            if u.op != 'mu': st.extend(u.args)
        s._ar[c] = True
        return True
    _ar = {}
    def branch(s, st, c, node, fa, fb):
        """run fa/fb (st -> list of (st,val)) under c / not c; returns merged list"""
        us = undef_vars(c)
        if us and not s.mute:
            m = {u: fresh('undef2', u.sort) for u in us if u.op == 'var'}
            s.oblige(st, 'uninit', iff(c, subst(c, m)), node, 'branch on uninitialised value')
        c = s.decide(st, c)
        if c is TRUE: return fa(st)
        if c is FALSE: return fb(st)
        a = s.addpc(st.copy(), c); b = s.addpc(st.copy(), not_(c))
        ra = s.guarded(fa, a); rb = s.guarded(fb, b)
        return s.merge(ra + rb)
    def guarded(s, f, x):
        if FALSE in x.pc: return []
        try: return f(x)
        except DeadPath: return []
    def branch_val(s, st, c, node, fa, fb):
        """expression-level branch: mutates st, returns the merged value"""
        r = s.branch(st, c, node, lambda x: [(x, fa(x))], lambda x: [(x, fb(x))])
        if not r:
            st.pc = (FALSE,); return TRUE
        if len(r) != 1: raise Unsupported('unmergeable branches in expression at %s' % s.where(node))
        st.become(r[0][0])
        return r[0][1]
    # ------------------------------------------------------------ memory
    def alloc(s, st, v, p='t'):
        c = s.new(p); st.vars[c] = v
        return LV(c)
    def load(s, st, lv, node=None):
        if lv.cell not in st.vars: raise Unsupported('dangling cell %s at %s' % (lv.cell, s.where(node)))
        v = st.vars[lv.cell]
        for p in lv.path: v = s.proj(st, v, p, node)
        return v
    def proj(s, st, v, p, node=None):
        if isinstance(p, str):
            if isinstance(v, SV):
                if p not in v.f: raise Unsupported('no field %s in %s' % (p, v.type))
                return v.f[p]
            if isinstance(v, Mat) and p == 'matrix_': return v
            if isinstance(v, Nil): raise Unsupported('field %s of absent value' % p)
            raise Unsupported('field %s of %r at %s' % (p, type(v), s.where(node)))
        k = p[0]
        if k == 'i':
            if isinstance(v, Seq): return at(v, p[1])
            if isinstance(v, Mat): return mat(v, lin_r(v.r, v.c, p[1]), lin_c(v.r, v.c, p[1]))
            if isinstance(v, Term) and v.sort == 'S': return T.app('str.at', (v, p[1]), 'I')
            if p[1] is ZERO: return v
            raise Unsupported('index of %r' % (type(v),))
        if k == 'rc': return mat(v, p[1], p[2])
        if k == 'lin': return mat(v, lin_r(v.r, v.c, p[1]), lin_c(v.r, v.c, p[1]))
        if k == 'col':
            c = p[1]; b = bv('I', 'r')
            return Mat(v.r, ONE, v.ri, bv('I', 'c'), vsubst(v.el, {v.ci: c}))
        if k == 'row':
            return Mat(ONE, v.c, bv('I', 'r'), v.ci, vsubst(v.el, {v.ri: p[1]}))
        if k == 'sub':      # r0, c0, nr, nc
            r0, c0, nr, nc = p[1:]
            return mkmat(nr, nc, lambda r, c: mat(v, add(r, r0), add(c, c0)))
        if k == 'slice':    # start, size, stride
            st_, n, d = p[1:]
            return mkseq(n, lambda i: at(v, add(st_, mul(d, i))))
        if k == 'view4':    # floats seen as SSE vectors of four
            return mkseq(idiv(v.n, I(4)), lambda i: SV('vec4', {str(q): at(v, add(mul(I(4), i), I(q))) for q in range(4)}))
        raise Unsupported('path %r' % (p,))
    def store(s, st, lv, val, node=None):
        if lv.cell not in st.vars: raise Unsupported('dangling cell %s at %s' % (lv.cell, s.where(node)))
        st.vars[lv.cell] = s.upd(st.vars[lv.cell], lv.path, val)
    def upd(s, v, path, val):
        if not path: return val
        p, rest = path[0], path[1:]
        if isinstance(p, str):
            if isinstance(v, Mat) and p == 'matrix_': return s.upd(v, rest, val)
            if not isinstance(v, SV): raise Unsupported('store to field %s of %r' % (p, type(v)))
            d = dict(v.f); d[p] = s.upd(v.f[p], rest, val)
            return SV(v.type, d)
        k = p[0]
        if k == 'view4':
            t = rest[0][1]
            if len(rest) > 1: raise Unsupported('store to one lane of a vector')
            lane = imod(v.iv, I(4))
            x = val.f['3']
            for q in (2, 1, 0): x = ite(eq(lane, I(q)), val.f[str(q)], x)
            return Seq(v.n, v.iv, ite(eq(idiv(v.iv, I(4)), t), x, v.el))
        if k in ('i', 'lin', 'rc'):
            if isinstance(v, Seq):
                new = s.upd(at(v, p[1]), rest, val)
                return Seq(v.n, v.iv, vite(eq(v.iv, p[1]), new, v.el))
            if isinstance(v, Mat):
                r, c = (p[1], p[2]) if k == 'rc' else (lin_r(v.r, v.c, p[1]), lin_c(v.r, v.c, p[1]))
                new = s.upd(mat(v, r, c), rest, val)
                g = TRUE
                if v.r is not ONE or k == 'rc': g = and_(g, eq(v.ri, r))
                if v.c is not ONE or k == 'rc': g = and_(g, eq(v.ci, c))
                return Mat(v.r, v.c, v.ri, v.ci, vite(g, new, v.el))
            if p[1] is ZERO: return s.upd(v, rest, val)
        if k == 'col':
            m = val if not rest else None
            if m is None: 
                assert rest[0][0] in ('lin', 'i')
                return s.upd(v, (('rc', rest[0][1], p[1]),) + rest[1:], val)
            return Mat(v.r, v.c, v.ri, v.ci, vite(eq(v.ci, p[1]), vsubst(m.el, {m.ri: v.ri, m.ci: ZERO}), v.el))
        if k == 'row':
            m = val if not rest else None
            if m is None: return s.upd(v, (('rc', p[1], rest[0][1]),) + rest[1:], val)
            return Mat(v.r, v.c, v.ri, v.ci, vite(eq(v.ri, p[1]), vsubst(m.el, {m.ri: ZERO, m.ci: v.ci}), v.el))
        if k == 'sub' and not rest:
            r0, c0, nr, nc = p[1:]
            g = and_(le(r0, v.ri), lt(v.ri, add(r0, nr)), le(c0, v.ci), lt(v.ci, add(c0, nc)))
            return Mat(v.r, v.c, v.ri, v.ci, vite(g, vsubst(val.el, {val.ri: sub(v.ri, r0), val.ci: sub(v.ci, c0)}), v.el))
        raise Unsupported('store path %r into %r' % (p, type(v)))
    def rv(s, st, x, node=None):
        return s.load(st, x, node) if isinstance(x, LV) else x
    def aslv(s, st, x):
        return x if isinstance(x, LV) else s.alloc(st, x)
    # ------------------------------------------------------------ default / symbolic values by type
    def record_fields(s, q):
        r = s.prog.records.get(q)
        if r is None: return None
        tu, d = r
        out = []
        for b in d.get('bases', ()):
            bq = s.recname(b['type'].get('desugaredQualType', b['type']['qualType']))
            if bq and s.prog.records.get(bq): out += s.record_fields(bq)
        for c in d.get('inner', ()):
            if c.get('kind') == 'FieldDecl': out.append((c['name'], c['type'].get('desugaredQualType', c['type']['qualType']), c, tu))
        return out
    def recname(s, ty):
        ty = unref(ty)
        if ty.endswith('&&'): ty = unref(ty[:-2])
        r = s._rn.get(ty, 0)
        if r == 0:
            if s._rnix is None:
                s._rnix = {cast.canon(q): q for q in s.prog.records}
            r = s._rn[ty] = s._rnix.get(cast.canon(ty))
        return r
    _rnix = None
    def build(s, ty, f, path='', bs=()):
        """structured value of C++ type ty; leaves by f(kind/type, path, binders, sort)"""
        ty = unref(ty)
        if ty.endswith(' &&'): ty = ty[:-3]
        n, a = targs(ty); sh = n.split('::')[-1]
        if ty in INTS: return f(ty, path, bs, 'I')
        if ty in FLTS: return f(ty, path, bs, 'F')
        if ty == 'bool': return f(ty, path, bs, 'B')
        if ty.endswith('*'): return f(ty, path, bs, 'P')
        if sh in ('string', 'string_view', 'basic_string', 'basic_string_view'): return f('string', path, bs, 'S')
        if sh in ('vector', 'valarray', 'initializer_list'):
            iv = bv('I', 'i')
            return Seq(f('#n', path + '.n', bs, 'I'), iv, s.build(a[0], f, path + '[]', bs + (iv,)))
        if sh == 'Span':
            iv = bv('I', 'i')
            return Seq(f('#n', path + '.n', bs, 'I'), iv, s.build(a[0], f, path + '[]', bs + (iv,)))
        if sh == 'AMatrix' or (sh in ('Mat',) and 'arma' in n) or (sh == 'Mat'):
            ri, ci = bv('I', 'r'), bv('I', 'c')
            return Mat(f('#n', path + '.r', bs, 'I'), f('#n', path + '.c', bs, 'I'), ri, ci, s.build(a[0], f, path + '[]', bs + (ri, ci)))
        if sh == 'Col':
            ri, ci = bv('I', 'r'), bv('I', 'c')
            return Mat(f('#n', path + '.r', bs, 'I'), ONE, ri, ci, s.build(a[0], f, path + '[]', bs + (ri, ci)))
        if sh == 'Row':
            ri, ci = bv('I', 'r'), bv('I', 'c')
            return Mat(ONE, f('#n', path + '.c', bs, 'I'), ri, ci, s.build(a[0], f, path + '[]', bs + (ri, ci)))
        if sh == 'complex':
            return SV('complex', {'re': s.build(a[0], f, path + '.re', bs), 'im': s.build(a[0], f, path + '.im', bs)})
        if sh == 'pair':
            return SV('tuple', {'0': s.build(a[0], f, path + '.0', bs), '1': s.build(a[1], f, path + '.1', bs)})
        if sh == 'tuple':
            return SV('tuple', {str(i): s.build(x, f, path + '.%d' % i, bs) for i, x in enumerate(a)})
        if sh == 'array':
            iv = bv('I', 'i')
            return Seq(I(int(a[1].rstrip('ULul'))), iv, s.build(a[0], f, path + '[]', bs + (iv,)))
        if sh == 'optional':
            return SV('optional', {'ok': f('bool', path + '.ok', bs, 'B'), 'val': s.build(a[0], f, path + '.val', bs)})
        if sh == 'unique_ptr' or sh == 'shared_ptr':
            return f(ty, path, bs, 'P')
        if ty.endswith(']'):
            iv = bv('I', 'i'); i = ty.rindex('['); 
            return Seq(I(int(ty[i + 1:-1])), iv, s.build(ty[:i].strip(), f, path + '[]', bs + (iv,)))
        q = s.recname(ty)
        if q:
            if getattr(s, 'symst', None) is not None and not bs and q in INVARIANT: return INVARIANT[q](s, s.symst, path, f)
            d = {}
            for (nm, t2, c, tu) in s.record_fields(q):
                d[nm] = s.build(t2, f, path + '.' + nm, bs)
            return SV(q, d)
        r = s.lib.build(s, ty, f, path, bs)
        if r is not None: return r
        if s.is_enum(ty): return f('int', path, bs, 'I')
        raise Unsupported('type %s' % ty)
    def is_enum(s, ty):
        ty = unref(ty)
        if ty in s.lib.ENUMS: return True
        for tu in s.prog.tus:
            for d in tu.decls.values():
                if d.get('kind') == 'EnumDecl' and d.get('name') and (ty == d['name'] or ty.endswith('::' + d['name'])): return True
        return False
    def default(s, ty):
        """value-initialised"""
        if short(unref(ty)) == 'StatusOr': return SV('StatusOr', {'status': SV('Status', {'code': I(2), 'msg': S('')}), 'val': NIL})
        def f(k, path, bs, so):
            if so == 'I': return ZERO
            if so == 'F': return Fl(0.0)
            if so == 'B': return FALSE
            if so == 'S': return S('')
            if so == 'P': return Ptr(None, TRUE)
            if so == 'O': return s.lib.OKSTATUS
        return s.build(ty, f)
    def undef(s, ty):
        nm = s.new('undef!')
        def f(k, path, bs, so):
            if so == 'P': return Ptr(None, TRUE)
            return T.app(nm + path, bs, so) if bs else T.var(nm + path, so)
        return s.build(ty, f)
    def uninit(s, ty):
        """default-initialised: class types get their default, scalars stay undefined"""
        t = unref(ty)
        nm = s.new('undef!')
        def f(k, path, bs, so):
            if so == 'P': return Ptr(None, TRUE) if bs or short(unref(k)) in ('unique_ptr', 'shared_ptr') else Ptr(None, T.var(nm + path + '.null', 'B'))   # an uninitialised raw pointer may hold anything
            if k == '#n': return ZERO
            if so == 'S': return S('')
            if so == 'O': return s.lib.OKSTATUS
            if bs or '.val' in path: return {'I': ZERO, 'F': Fl(0.0), 'B': FALSE}.get(so)
            return T.var(nm + path, so)
        if t.endswith(']'): return s.undef(t)
        return s.build(t, f)
    def sym(s, st, ty, name):
        """symbolic input value; adds size facts"""
        def f(k, path, bs, so):
            if so == 'P':
                n = targs(unref(k))
                if n[0].split('::')[-1] in ('unique_ptr', 'shared_ptr'):
                    c = 'h:' + path
                    try:
                        if s.isabstract(n[1][0]): raise Unsupported('abstract')
                        st.vars[c] = s.build(n[1][0], f, path + '->', bs)
                    except Unsupported: st.vars[c] = SV('opaque:' + n[1][0], {'id': T.var(path + '->', 'O')})
                    return Ptr(LV(c), FALSE)
                inner = unref(k)[:-1].strip()
                if strip(inner) in ('char',): return T.var(path, 'S')
                c = 'h:' + path
                try:
                    if s.isabstract(strip(inner)): raise Unsupported('abstract')
                    st.vars[c] = s.build(strip(inner), f, path + '->', bs)
                except Unsupported: st.vars[c] = SV('opaque:' + strip(inner), {'id': T.var(path + '->', 'O')})
                return Ptr(LV(c), FALSE)
            t = T.app(path, bs, so) if bs else T.var(path, so)
            if k == '#n':
                lim = s.opts.get('maxsize', 1 << 48)
                if bs:
                    s.gfact(forall(list(bs), and_(le(ZERO, t), lt(t, I(lim)))))
                else: s.gfact(and_(le(ZERO, t), lt(t, I(lim))))
            return t
        s.symst = st
        try: v = s.build(ty, f, name)
        finally: s.symst = None
        s.mat_facts(v)
        return v
    def isabstract(s, ty):
        if strip(ty).split('::')[-1] in s.lib.OPAQUE: return True
        try: r = s.prog.records.get(s.recname(strip(ty)))
        except Exception: r = None
        return bool(r and r[1].get('definitionData', {}).get('isAbstract'))
    def mat_facts(s, v):
        if isinstance(v, SV):
            for x in v.f.values(): s.mat_facts(x)
        elif isinstance(v, Mat) and v.r.op in ('var', 'app') and v.c.op in ('var', 'app') and not fv(v.r):
            p = mul(v.r, v.c)
            s.gfact(and_(le(ZERO, p), lt(p, I(1 << 48))))
    def size_fact(s, t):
        if t.op in ('var', 'app') and not fv(t):
            s.gfact(and_(le(ZERO, t), lt(t, I(s.opts.get('maxsize', 1 << 48)))))

def itertools_count():
    import itertools
    return itertools.count(1)
