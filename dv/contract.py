"""Contracts: requires / functional specification / ensures / frame, attached to a function of
/repo by qualified name.  The same object is (1) the assumption a caller is checked against and
(2) the set of obligations the function's own body has to meet."""
from .loops import *
from .exec import Frame, Oblig, NIL
from . import lib, prover, terms as T, smt
import time, traceback

REG = {}                      # qname -> [Contract]

class Contract:
    def __init__(s, qname, fn, typ=None, opaque=False, inline=False, sources=(), nosafety=False, ghost=False, cases=()):
        s.qname, s.fn, s.typ, s.opaque, s.inline, s.sources = qname, fn, typ, opaque, inline, tuple(sources)
        s.key = qname + ('|' + typ if typ else '')
        s.cases, s.case = tuple(cases), None   # boolean parameters the proof splits on (all combinations are proved)
        s.setup = None            # fn(engine, state) -> symbolic arguments of an admissible call
        s.this_setup = None       # fn(engine, state, this) -> the receiver, restricted to an admissible shape
        s.assumed = None          # text: contract of code that is not verified (external)
    def run(s, cx):
        s.fn(cx)
        if cx.mode == 'body':
            for i, v in (s.case or {}).items(): cx.fix('case', cx.arg(i), v)
    def apply(s, e, st, f, lv, args, node):
        """call site: requires become obligations; the post-state is the specified one"""
        cx = CallCtx(e, st, f, lv, args, s)
        s.run(cx)
        opts = e.opts or {}
        for lab, t in cx.reqs:
            if s.key in opts.get('assume_pre', ()):
                e.assume_note('%s: precondition of %s taken as given: %s' % (e.verifying.key.replace('Visqol::', ''), s.key.replace('Visqol::', ''), lab)); continue
            e.oblige(st, 'pre', t, node, '%s requires %s' % (s.key.replace('Visqol::', ''), lab))
        for lab, t in cx.throws: e.oblige(st, 'throw', not_(t), node, '%s throws: %s' % (s.key, lab))
        rt = f.type[:f.type.find('(')].strip()
        hs = None
        memo = []
        def handles():
            if memo: return memo[0]
            out = []
            memo.append(out)
            def streams(v):                  # a stream a record points to is part of what the call depends on
                if isinstance(v, SV):
                    for x in v.f.values():
                        if isinstance(x, Ptr) and x.lv is not None:
                            y = st.vars.get(x.lv.cell)
                            if isinstance(y, SV) and y.type == 'istream': out.append(handle(e.load(st, x.lv)))
                        else: streams(x)
            if cx.this0 is not None and f.kind != 'CXXConstructorDecl': out.append(handle(cx.this0)); streams(cx.this0)
            for v in cx.vals:
                if isinstance(v, Value) and not isinstance(v, Term) and isinstance(v, (Clo, FnV)): continue
                if isinstance(v, It): out.append(handle(e.load(st, v.lv))); out.append(v.pos); continue
                streams(v)
                out.append(handle(e.load(st, v.lv) if isinstance(v, Ptr) and v.lv is not None and v.null is FALSE else v))
            memo[0] = tuple(out)
            return memo[0]
        if cx.resref is not None: res = cx.resref
        elif cx.res is not None: res = hide(cx.res, 'fn:' + s.key, handles(), s.opaque, e) if s.opaque else cx.res
        elif f.kind == 'CXXConstructorDecl' or rt == 'void': res = UNIT
        else: res = e.uf_value(st, rt, 'fn:' + s.key, handles())
        for nm in cx.havocs:
            lvx = cx.place(nm)
            cur = e.load(st, lvx)
            if isinstance(cur, Ptr):          # a pointer whose target the contract replaces: some object of unknown identity
                ty = st.vars[cur.lv.cell].type if cur.lv is not None and isinstance(st.vars.get(cur.lv.cell), SV) else s.ptrtype(e, cx, nm)
                u = T.app('fn:%s@%s' % (s.key, nm), handles(), 'O')
                cx.post[nm] = Ptr(e.alloc(st, SV(ty if ty.startswith('opaque:') else 'opaque:' + ty, {'id': u}), 'h:fn'), T.app('fn:%s@%s.null' % (s.key, nm), handles(), 'B'))
                continue
            def g(path, bs, t):
                u = T.app('fn:%s@%s%s' % (s.key, nm, '.'.join(path)), handles() + tuple(bs), t.sort)
                if path and path[-1] in ('#n', '#r', '#c'): e.gfact(and_(le(ZERO, u), lt(u, I(1 << 48))))
                return u
            cx.post[nm] = relabel(cur, g)
        for nm in cx.clobbers:
            lvx = cx.place(nm); q = e.load(st, lvx); u = e.new('clob!')
            e.store(st, lvx, Seq(q.n, q.iv, T.app(u, (q.iv,), q.el.sort)), node)
        for nm, v in cx.post.items():
            if s.opaque: v = hide(v, 'fn:%s@%s' % (s.key, nm), handles(), s.opaque, e)
            e.store(st, cx.place(nm), v, node)
        post = Post(e, st, cx, res)
        for lab, fnc in cx.enss:
            if s.key not in opts.get('skip_ens', ()): e.fact(st, fnc(post))
        return res

def _ptrtype(s, e, cx, nm):
    q = cx.f.rec
    for p in nm.split('.'):
        ty = [t for n, t, _, _ in e.record_fields(q) if n == p][0]
        q = e.recname(ty) or q
    ty = unref(ty)
    return targs(ty)[1][0] if short(ty) in ('unique_ptr', 'shared_ptr') else strip(ty.rstrip('*'))
Contract.ptrtype = _ptrtype
def hide(v, name, hs, mode=True, e=None):
    """v with its sizes kept (unless mode is 'sizes') and its contents named by an uninterpreted function of the arguments:
    a caller reasons with the name; the function's own verification uses the definition"""
    def g(path, bs, t):
        if path and path[-1] in ('#n', '#r', '#c', '#null', '#pos'):
            if mode != 'sizes' or path[-1] in ('#null', '#pos') or t.op == 'int': return t
            u = T.app(name + '.'.join(path), tuple(hs) + tuple(bs), t.sort)
            if e is not None and not fv(u): e.gfact(le(ZERO, u))
            return u
        return T.app(name + '.'.join(path), tuple(hs) + tuple(bs), t.sort)
    return relabel(v, g)
def call_of(key, args, value, at_=None):
    """what a call of the opaque contract 'key' with these argument values returns (specification side)"""
    return hide(value, 'fn:' + key + ('@' + at_ if at_ else ''), tuple(handle(a) for a in args), 'sizes' if any(k.opaque == 'sizes' for k in REG.get(key.split('|')[0], ()) if k.key == key) else True)

class Post:
    def __init__(s, e, st, cx, res): s.e, s.st, s.cx, s.res = e, st, cx, res
    def __getitem__(s, nm): return s.e.load(s.st, s.cx.place(nm))

class Ctx:
    def __init__(s, e, st, f, lv, args, con):
        s.e, s.st, s.f, s.con = e, st, f, con
        s.reqs, s.enss, s.post, s.havocs, s.throws, s.clobbers = [], [], {}, [], [], []
        s.ghost = {}              # body mode: cell -> its specified final value
        s.res = None; s.resref = None; s.fixes = {}; s.invs = []
        s.lv = lv
        s.names = [p.get('name') or 'arg%d' % i for i, p in enumerate(f.params)]
        s.args = dict(zip(s.names, args)); s.arglist = list(args)
        s.vals = []
        for a in args:
            if isinstance(a, Moved): a = a.lv
            v = e.load(st, a) if isinstance(a, LV) else a
            s.vals.append(v)
        s.this0 = e.load(st, lv) if lv is not None else None
        s.map0 = dict(zip(s.names, s.vals))
    def arg(s, i):
        """pre-state value of the i-th parameter (position: parameter names may change)"""
        v = s.vals[i]
        if isinstance(v, Ptr): return s.e.load(s.st, v.lv)
        return v
    def raw(s, i): return s.vals[i]
    @property
    def n(s): return len(s.vals)
    def t(s, *path):
        v = s.this0
        for p in path:
            v = v.f[p] if isinstance(v, SV) else v
        return v
    def req(s, lab, t): s.reqs.append((lab, t))
    def fix(s, lab, t, const):
        """requires t == const; the body is executed with the constant in place of the symbol"""
        s.req(lab, eq(t, const))
        if isinstance(t, Term) and t.op == 'var': s.fixes[t] = const
    def result(s, v): s.res = v
    def result_ref(s, lv):
        """the function returns a reference to this place"""
        s.resref = lv
    def set(s, place, v): s.post[place] = v
    def clobber(s, place):
        """the array at this place keeps its size; its elements are unspecified afterwards"""
        s.clobbers.append(place)
    def havoc(s, place): s.havocs.append(place)
    def inv(s, names, f, bound=None):
        """loop invariant of every loop of the body that changes the first of these local variables (others may
        just be in scope): f(values..., k), k = number of iterations done.  A name may be a tuple (name, shape),
        shape 'FF'/'II'/'I' ...: if no local has that name, the only changed one of that shape is taken.
        With bound(state before the loop), a number of iterations the loop never reaches, the invariant replaces the closed form
        of the loop: what it says is all that is known of the changed cells afterwards"""
        s.invs.append((names, f, bound))
    def throw_if(s, lab, t): s.throws.append((lab, t))
    def ens(s, lab, f): s.enss.append((lab, f))
    def place(s, nm):
        """'field', 'field.sub' of *this, or '#i' = i-th argument (reference / pointer)"""
        if nm.startswith('#'):
            parts = nm[1:].split('.')
            a = s.arglist[int(parts[0])]
            if isinstance(a, Moved): a = a.lv
            if isinstance(a, (It, Ptr)) and parts[1:2] == ['*']: return s.walk(a.lv, parts[2:])
            if not isinstance(a, LV): raise Unsupported('argument %s is not a place' % nm)
            v = s.e.load(s.st, a)
            if isinstance(v, Ptr): a = v.lv
            return s.walk(a, parts[1:])
        l = s.lv
        if nm == '*': return l
        return s.walk(l, nm.split('.'))
    def walk(s, a, parts):
        """fields; '*' follows a pointer"""
        for p in parts:
            if p == '*':
                v = s.e.load(s.st, a)
                if not isinstance(v, (Ptr, It)): raise Unsupported('place through %r' % type(v))
                a = v.lv
            else: a = a.f(p)
        return a
class CallCtx(Ctx): mode = 'call'
class BodyCtx(Ctx): mode = 'body'

def same_place(e, st, a, b):
    """boolean term: two lvalues denote the same place"""
    if a.cell != b.cell or len(a.path) != len(b.path): return FALSE
    g = TRUE; base = LV(a.cell)
    for p, q in zip(a.path, b.path):
        if isinstance(p, str) or isinstance(q, str):
            if p != q: return FALSE
        else:
            v = e.load(st, base)
            def rc(x):
                if x[0] == 'rc': return x[1], x[2]
                if isinstance(v, Mat) and x[0] in ('i', 'lin'): return lin_r(v.r, v.c, x[1]), lin_c(v.r, v.c, x[1])
                return x[1:]
            if isinstance(v, Mat) and p[0] in ('i', 'lin') and q[0] in ('i', 'lin'): g = and_(g, eq(p[1], q[1]))
            elif isinstance(v, Mat) and p[0] in ('i', 'lin', 'rc') and q[0] in ('i', 'lin', 'rc'): g = and_(g, *[eq(x, y) for x, y in zip(rc(p), rc(q))])
            elif p[0] == q[0]: g = and_(g, *[eq(x, y) for x, y in zip(p[1:], q[1:])])
            else: return FALSE
        base = LV(base.cell, base.path + (p,))
    return g

def contract(qname, typ=None, **kw):
    def d(fn):
        c = Contract(qname, fn, typ, **kw)
        REG.setdefault(qname, []).append(c)
        return c
    return d

# ------------------------------------------------------------------ verifying one function
class FnReport:
    def __init__(s, key):
        s.key = key; s.obligs = []; s.error = None; s.used = set(); s.inlined = set(); s.assumptions = {}
        s.time = 0; s.prover = {}; s.vacuous = False; s.loc = ''

def elem_goals(a, b):
    """leafwise equality goals of two values with index ranges: [(path, goal)]"""
    out = []
    def go(x, y, path, hyp):
        if x is y: return
        if isinstance(x, Term):
            if not isinstance(y, Term): raise ShapeMismatch('%s: %r vs %r' % ('.'.join(path), x, y))
            g = implies(and_(*hyp), eq(x, y))
            out.append((path, g)); return
        if type(x) is not type(y): raise ShapeMismatch('%s: %s vs %s' % ('.'.join(path), type(x).__name__, type(y).__name__))
        if isinstance(x, SV):
            if x.f.keys() != y.f.keys(): raise ShapeMismatch('%s: fields %s vs %s' % ('.'.join(path), list(x.f), list(y.f)))
            if x.type == 'optional':
                go(x.f['ok'], y.f['ok'], path + ('ok',), hyp); go(x.f['val'], y.f['val'], path + ('val',), hyp + [x.f['ok']]); return
            if x.type == 'StatusOr':
                go(x.f['status'], y.f['status'], path + ('status',), hyp)
                if isinstance(x.f['val'], type(NIL)) and isinstance(y.f['val'], type(NIL)): return
                okk = eq(x.f['status'].f['code'], ZERO)
                if okk is FALSE: return
                go(x.f['val'], y.f['val'], path + ('val',), hyp + [okk]); return
            for k in x.f: go(x.f[k], y.f[k], path + (k,), hyp)
            return
        if isinstance(x, Seq):
            go(x.n, y.n, path + ('size',), hyp)
            i = fresh('i', 'I')
            go(at(x, i), at(y, i), path + ('[i]',), hyp + [le(ZERO, i), lt(i, x.n)]); return
        if isinstance(x, Mat):
            go(x.r, y.r, path + ('rows',), hyp); go(x.c, y.c, path + ('cols',), hyp)
            r, c = fresh('r', 'I'), fresh('c', 'I')
            go(mat(x, r, c), mat(y, r, c), path + ('[r,c]',), hyp + [le(ZERO, r), lt(r, x.r), le(ZERO, c), lt(c, x.c)]); return
        if isinstance(x, It):
            if not x.lv.same(y.lv) or x.rev != y.rev: raise ShapeMismatch('iterators into different containers')
            go(x.pos, y.pos, path + ('pos',), hyp); return
        if isinstance(x, Ptr):
            go(x.null, y.null, path + ('null',), hyp)
            if x.lv is not None and y.lv is not None and not x.lv.same(y.lv): raise ShapeMismatch('pointers to different objects')
            return
        if type(x).__name__ in ('Unit', 'Nil', 'FnV', 'Clo'): return
        raise Unsupported('comparison of %r' % (x,))
    go(a, b, (), [])
    return out or [((), TRUE)]

def verify(prog, con, contracts, opts=None, deadline=None):
    if not con.cases: return verify1(prog, con, contracts, opts, deadline)
    import itertools
    out = None
    for vals in itertools.product((TRUE, FALSE), repeat=len(con.cases)):
        con.case = dict(zip(con.cases, vals))
        r = verify1(prog, con, contracts, opts, deadline)
        con.case = None
        if out is None: out = r; continue
        out.obligs = out.obligs + r.obligs; out.used = set(out.used) | set(r.used); out.inlined = set(out.inlined) | set(r.inlined)
        out.error = out.error or r.error; out.vacuous = out.vacuous or r.vacuous; out.time += r.time
        if r.error and hasattr(r, 'tb'): out.tb = r.tb
        for k, n in r.assumptions.items(): out.assumptions[k] = out.assumptions.get(k, 0) + n
        for k, n in r.prover.items():
            if isinstance(n, (int, float)): out.prover[k] = out.prover.get(k, 0) + n
            elif isinstance(n, dict):
                d = out.prover.setdefault(k, {})
                for q, m in n.items(): d[q] = d.get(q, 0) + m
    return out
def verify1(prog, con, contracts, opts=None, deadline=None):
    rep = FnReport(con.key)
    t0 = time.time()
    try:
        fns = prog.find(con.qname, con.typ)
        if not fns:
            rep.error = 'no definition of %s%s found in /repo' % (con.qname, ' (%s)' % con.typ if con.typ else '')
            return rep
        f = fns[0]
        rep.loc = '%s:%s' % (f.file, f.line)
        e = Engine2(prog, lib, contracts, opts)
        e.verifying = con
        st = St()
        e.frames.append(Frame(f.tu, None, con.qname, 'F0'))
        args = []
        if con.setup: args = con.setup(e, st)
        for i, P in enumerate(f.params if not con.setup else ()):
            ty = P['type'].get('desugaredQualType', P['type']['qualType'])
            v = e.sym(st, ty, 'a%d_%s' % (i, P.get('name', '')))
            v = argrange(e, st, v, ty)
            args.append(e.alloc(st, v, 'arg%d' % i) if isref(ty) else v)
        lv = None
        if f.rec and not f.static:
            if f.kind == 'CXXConstructorDecl':
                d = {}
                for (nm, t2, c, tu) in e.record_fields(f.rec): d[nm] = e.field_init(st, c, tu, t2)
                lv = e.alloc(st, SV(f.rec, d), 'this')
            else:
                tv = e.sym(st, f.rec, 'this')
                if con.this_setup: tv = con.this_setup(e, st, tv)
                lv = e.alloc(st, tv, 'this')
        pre = st.copy()
        cx = BodyCtx(e, pre, f, lv, args, con)
        if opts and opts.get('virtual'):
            pass
        con.run(cx)
        if cx.fixes:
            for cell in list(pre.vars): pre.vars[cell] = vsubst(pre.vars[cell], cx.fixes)
            st = pre.copy()
            args = [vsubst(a, cx.fixes) if not isinstance(a, LV) else a for a in args]
            e.facts[:] = [subst(x, cx.fixes) for x in e.facts]
            cx = BodyCtx(e, pre, f, lv, args, con)
            con.run(cx)
        for lab, t in cx.reqs: e.fact(st, t)
        e.invs = cx.invs; e.fn_node = f.node
        n0 = len(e.facts)
        rep.pre_facts = list(e.facts)
        outs = e.body_outcomes(st.copy(), f, lv, [a for a in args], None)
        outs = [(k, o, v) for k, o, v in outs]
        m = e.merge([(o, v) for k, o, v in outs])
        if not m and not cx.throws:
            rep.error = 'no normal outcome'; return rep
        for o, v in m:
            e.frames.append(Frame(f.tu, lv, con.qname, 'F0'))
            if isref(f.type[:f.type.find('(')].strip()) and isinstance(v, LV):
                if cx.resref is not None: e.oblige(o, 'post', same_place(e, o, cx.resref, v), None, 'result refers to the specified place')
                v = e.load(o, v)
            if cx.res is not None:
                for path, g in elem_goals(cx.res, v):
                    e.oblige(o, 'post', g, None, 'result%s as specified' % ('.' + '.'.join(path) if path else ''))
            # state: specified places, everything else unchanged
            want = pre.copy()
            for nm in cx.havocs:
                l = cx.place(nm)
                e.store(want, l, e.load(o, l))
            for nm in cx.clobbers:
                l = cx.place(nm); q = e.load(want, l); r_ = e.load(o, l)
                e.store(want, l, Seq(q.n, r_.iv, r_.el))
            for nm, val in cx.post.items(): e.store(want, cx.place(nm), val)
            want.vars.update(cx.ghost)
            for cell in pre.vars:
                a, b = want.vars[cell], o.vars.get(cell)
                if a is b or b is None: continue
                isarg = [i for i, x in enumerate(args) if isinstance(x, LV) and x.cell == cell]
                for path, g in elem_goals(a, b):
                    nm = '#%d' % isarg[0] if isarg else 'this' if lv is not None and cell == lv.cell else cell
                    e.oblige(o, 'post', g, None, 'final %s%s as specified' % (nm, '.' + '.'.join(path) if path else ''))
            post = Post(e, o, cx, v)
            for lab, fnc in cx.enss: e.oblige(o, 'post', fnc(post), None, lab)
            # vacuity: the exit must not be contradictory
            ob = Oblig('vacuity', o.pc, tuple(x for x in e.facts[:n0]), FALSE, '', 'exit reachable', con.qname)
            ob.lemmas = e.lemma_facts
            rep.vac = getattr(rep, 'vac', []) + [ob]
            e.frames.pop()
        rep.obligs = e.obligs
        rep.used = e.used_contracts; rep.inlined = e.inlined; rep.assumptions = e.assumptions
    except Unsupported as x:
        rep.error = 'outside the verified subset: %s' % x
        rep.tb = traceback.format_exc()
    except RecursionError as x:
        rep.error = 'recursion limit'
    except Exception as x:
        rep.error = 'verifier error: %s: %s' % (type(x).__name__, x)
        rep.tb = traceback.format_exc()
    rep.exec_time = time.time() - t0
    if rep.error:
        rep.time = time.time() - t0
        return rep
    pr = prover.Prover(deadline)
    vac_ok = False
    for ob in rep.vac:
        r = pr.q(list(ob.facts) + list(ob.pc), FALSE, 'uf', 1500)
        if r.status != 'proved': vac_ok = True
    rep.vacuous = not vac_ok
    merged = {}
    for ob in rep.obligs:
        k = (ob.goal, ob.pc, len(ob.facts))
        if k in merged: ob.res = merged[k]; continue
        ob.res = pr.discharge(ob)
        merged[k] = ob.res
    rep.prover = pr.stats
    rep.time = time.time() - t0
    return rep

def argrange(e, st, v, ty):
    """machine range of every integer leaf of an input"""
    r = e.rng(ty)
    if r is not None and isinstance(v, Term): e.gfact(and_(le(I(r[0]), v), le(v, I(r[1]))))
    return v
