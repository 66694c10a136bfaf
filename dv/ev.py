"""Expression and statement evaluation."""
from .exec import *
from .exec import Engine as _E

class Moved:
    """an xvalue produced by std::move"""
    __slots__ = ('lv',)
    def __init__(s, lv): s.lv = lv

CASTS_ID = {'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion',
            'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast', 'BaseToDerived', 'ToVoid', 'Dependent', 'AtomicToNonAtomic', 'NonAtomicToAtomic'}

def tyof(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType', t.get('qualType', ''))
def inner(n): return [c for c in n.get('inner', ()) if c and c.get('kind') != 'FullComment']

class Ev(_E):
    # ------------------------------------------------------------ expressions
    def rval(s, n, st):
        x = s.ev(n, st)
        if isinstance(x, Moved): x = x.lv
        return s.rv(st, x, n)
    def lval(s, n, st):
        x = s.ev(n, st)
        if isinstance(x, Moved): x = x.lv
        return x if isinstance(x, LV) else s.alloc(st, x)
    def ev(s, n, st):
        k = n['kind']
        m = getattr(s, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s at %s' % (k, s.where(n)))
        return m(n, st)
    def pas(s, n, st): return s.ev(inner(n)[0], st)
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = pas
    def e_MaterializeTemporaryExpr(s, n, st):
        x = s.ev(inner(n)[0], st)
        if isinstance(x, (LV, Moved)): return x
        return s.alloc(st, x)
    def e_FullExpr(s, n, st): return s.pas(n, st)
    def e_IntegerLiteral(s, n, st): return I(int(n['value']))
    def e_CharacterLiteral(s, n, st): return I(int(n['value']))
    def e_FloatingLiteral(s, n, st):
        t = Fl(float(n['value']))
        # clang prints enough digits to round-trip doubles
        return t
    def e_CXXBoolLiteralExpr(s, n, st): return B(n['value'])
    def e_StringLiteral(s, n, st):
        import json
        v = n['value']
        try: v = json.loads(v)
        except Exception: v = v.strip('"')
        return S(v)
    def e_CXXNullPtrLiteralExpr(s, n, st): return Ptr(None, TRUE)
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr
    def e_CXXThisExpr(s, n, st):
        return Ptr(s.fr.this, FALSE)
    def e_PredefinedExpr(s, n, st): return S('__func__')
    def e_SourceLocExpr(s, n, st): return ZERO
    def e_ImplicitValueInitExpr(s, n, st): return s.default(tyof(n))
    def e_CXXScalarValueInitExpr(s, n, st): return s.default(tyof(n))
    def e_CXXDefaultArgExpr(s, n, st):
        raise Unsupported('default argument outside call at %s' % s.where(n))
    def e_CXXDefaultInitExpr(s, n, st): raise Unsupported('default init expr')
    def e_UnaryExprOrTypeTraitExpr(s, n, st):
        if n.get('name') == 'sizeof':
            t = n.get('argType', {}).get('desugaredQualType') or n.get('argType', {}).get('qualType')
            if t is None: t = tyof(inner(n)[0])
            return I(s.sizeof(t))
        raise Unsupported('trait')
    def e_DeclRefExpr(s, n, st):
        d = n['referencedDecl']; i = d['id']
        l = st.env.get((s.fr.tu.idx, i))
        if l is not None: return l
        k = d['kind']
        if k == 'EnumConstantDecl':
            v = s.fr.tu.vars.get(i)
            if v is not None: return I(v['_v'])
            if d['name'] in s.lib.ENUMCONST: return s.lib.ENUMCONST[d['name']]
            raise Unsupported('enum constant %s' % d['name'])
        if k == 'VarDecl':
            v = s.fr.tu.vars.get(i)
            if v is not None: return s.static(v, st)
            r = s.lib.extvar(s, d, n, st)
            if r is not None: return r
            raise Unsupported('variable %s at %s' % (d.get('name'), s.where(n)))
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            f = s.fr.tu.fns.get(i)
            return FnV(f if f is not None else d)
        if k == 'BindingDecl': raise Unsupported('structured binding')
        raise Unsupported('reference to %s %s' % (k, d.get('name')))
    def static(s, v, st):
        q = v['_q']
        c = 'static:' + q
        if c in st.vars: return LV(c)
        if q not in s.consts:
            ty = v['type'].get('desugaredQualType', v['type']['qualType'])
            isconst = 'const' in v['type']['qualType'].split() or v.get('constexpr') or ty.startswith('const ') or v['type']['qualType'].endswith('const')
            if not isconst:
                ext = s.lib.static(s, q, v, st)
                if ext is None: raise Unsupported('mutable static %s' % q)
                s.consts[q] = ext
            else:
                def search():
                    for tu in s.prog.tus:
                        for d in tu.vars.values():
                            if d.get('_q') == q and d.get('init') and inner(d): return tu, d
                found = search()
                if not found and s.prog.load_rest(): found = search()
                if not found: raise Unsupported('no initialiser for %s' % q)
                tu, d = found
                st2 = St()
                s.frames.append(Frame(tu, None, 'static ' + q, s.new('F')))
                try: val = s.rval([x for x in inner(d) if not x['kind'].endswith('Attr')][-1], st2)
                finally: s.frames.pop()
                s.consts[q] = val
        st.vars[c] = s.consts[q]
        return LV(c)
    def e_MemberExpr(s, n, st):
        b = inner(n)[0]
        if n.get('name') == 'matrix_' or True:
            if n.get('isArrow'):
                p = s.rval(b, st)
                lv = s.deref(st, p, n)
            else:
                x = s.ev(b, st)
                lv = x.lv if isinstance(x, Moved) else x
                if isinstance(x, Moved) and isinstance(lv, LV): return Moved(s.member(st, lv, n))
        return s.member(st, lv, n)
    def member(s, st, lv, n):
        nm = n.get('name')
        v = s.fr.tu.vars.get(n.get('referencedMemberDecl'))
        if v is not None and v.get('kind') == 'VarDecl': return s.static(v, st)
        r = s.lib.member(s, st, lv, n, nm)
        if r is not None: return r
        if isinstance(lv, LV):
            if nm == 'matrix_': return lv
            return lv.f(nm)
        return s.proj(st, lv, nm, n)
    def deref(s, st, p, node):
        if isinstance(p, LV): p = s.load(st, p, node)
        if isinstance(p, Ptr):
            s.oblige(st, 'null', not_(p.null), node, 'dereference of a null pointer')
            if p.lv is None:
                st.pc = (FALSE,)
                raise DeadPath()
            return p.lv
        if isinstance(p, It):
            return s.deref_it(st, p, node)
        if isinstance(p, SV) and 'ok' in p.f: return None
        raise Unsupported('dereference of %r at %s' % (type(p), s.where(node)))
    def deref_it(s, st, it, node, off=ZERO):
        pos = add(it.pos, off) if not it.rev else sub(sub(it.pos, ONE), off)
        if it.null is not FALSE: s.oblige(st, 'null', not_(it.null), node, 'dereference of a null pointer')
        c = s.load(st, it.lv, node)
        n = s.seqlen(c)
        s.oblige(st, 'bounds', and_(le(ZERO, pos), lt(pos, n)), node, 'iterator/pointer dereference in range')
        return LV(it.lv.cell, it.lv.path + (('i', pos),))
    def seqlen(s, c):
        if isinstance(c, Seq): return c.n
        if isinstance(c, Mat): return mul(c.r, c.c)
        if isinstance(c, Term) and c.sort == 'S': return T.app('str.len', (c,), 'I')
        return ONE
    def e_ArraySubscriptExpr(s, n, st):
        a, b = inner(n)
        x = s.rval(a, st); i = s.rval(b, st)
        if isinstance(i, (Ptr, It)): x, i = i, x
        if isinstance(x, It): return s.deref_it(st, x, n, i)
        if isinstance(x, Ptr):
            s.oblige(st, 'null', not_(x.null), n, 'null pointer')
            s.oblige(st, 'bounds', eq(i, ZERO), n, 'index of pointer to single object')
            return x.lv
        if isinstance(x, Term) and x.sort == 'S': return T.app('str.at', (x, i), 'I')
        raise Unsupported('subscript of %r at %s' % (type(x), s.where(n)))
    # ---- casts
    def e_ImplicitCastExpr(s, n, st):
        ck = n['castKind']; c = inner(n)[0]
        if ck == 'LValueToRValue':
            b = c
            while b['kind'] == 'ParenExpr': b = inner(b)[0]
            x = s.cond_value(b, st) if b['kind'] == 'ConditionalOperator' else s.ev(c, st)
            if isinstance(x, Moved): x = x.lv
            v = s.rv(st, x, n)
            if isinstance(v, Term) and v.sort == 'I': s.range_fact(st, v, tyof(n))
            return v
        if ck in CASTS_ID:
            x = s.ev(c, st)
            if ck == 'BitCast' and isinstance(x, (Ptr, It)) and x.lv is not None and unref(tyof(n)) in ('void *', 'const void *', 'char *', 'const char *'):
                ty = unref(tyof(c))
                if ty.endswith('*') and strip(ty[:-1]) != 'void': s.vtypes[s.lib.libw.tkey(x.lv)] = strip(ty[:-1])      # the object behind an untyped pointer
            return x
        if ck == 'ArrayToPointerDecay':
            x = s.ev(c, st)
            if isinstance(x, LV):
                v = s.load(st, x, n)
                if isinstance(v, Seq): return It(x, ZERO)
                return v
            if isinstance(x, Seq): return It(s.alloc(st, x), ZERO)
            return x
        if ck == 'NullToPointer': s.ev(c, st); return Ptr(None, TRUE)
        v = s.rval(c, st)
        if isinstance(v, Raw): return s.typed(st, v, tyof(n), n)
        return s.cast(st, ck, v, tyof(c), tyof(n), n)
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr
    def e_CXXReinterpretCastExpr(s, n, st):
        v = s.rval(inner(n)[0], st)
        if isinstance(v, Raw): return s.typed(st, v, tyof(n), n)
        r = s.lib.reinterpret(s, n, st, v)
        if r is not None: return r
        raise Unsupported('reinterpret_cast at %s' % s.where(n))
    def typed(s, st, raw, tt, n):
        """raw storage seen as an array of T: a new array with undefined elements"""
        tt = unref(tt)
        if not tt.endswith('*'): raise Unsupported('raw storage as %s' % tt)
        ty = strip(tt[:-1])
        if ty == 'void': return raw
        w = s.sizeof(ty)
        c, d = T._lin(raw.bytes)
        if c % w == 0 and all(k % w == 0 for k in d.values()): cnt = T._mklin(c // w, {a: k // w for a, k in d.items()})
        else: cnt = idiv(raw.bytes, I(w))
        nm = s.new('undef!'); iv = bv('I', 'i')
        def f(k, path, bs, so):
            if so == 'P': return Ptr(None, TRUE)
            return T.app(nm + path, bs, so)
        lv = s.alloc(st, Seq(cnt, iv, s.build(ty, f, '', (iv,))), 'heap')
        return It(lv, ZERO)
    def sizeof(s, t):
        t = unref(t)
        if t in INTS: return INTS[t][0] // 8
        if t in FLTS: return {'double': 8, 'float': 4, 'long double': 16}[t]
        if t == 'bool': return 1
        if t.endswith('*'): return 8
        if targs(t)[0].endswith('complex'): return 16
        q = s.lib.SIZEOF.get(t)
        if q: return q
        l = s.layout(t)
        if l: return l[0]
        raise Unsupported('sizeof %s' % t)
    def layout(s, t):
        """(size, alignment, [(path, offset, scalar type)]) of a plain-old-data type on x86-64"""
        t = unref(t)
        if t in INTS: w = INTS[t][0] // 8; return w, w, [((), 0, t)]
        if t in ('float', 'double'): w = 4 if t == 'float' else 8; return w, w, [((), 0, t)]
        if t.endswith(']'):
            i = t.rindex('['); k = int(t[i + 1:-1]); l = s.layout(t[:i].strip())
            return l and (l[0] * k, l[1], [((('i', j),) + p, j * l[0] + o, x) for j in range(k) for p, o, x in l[2]])
        q = s.recname(t)
        if not q: return None
        off, al, out = 0, 1, []
        for nm, ty, c, tu in s.record_fields(q):
            l = s.layout(ty)
            if l is None: return None
            off = (off + l[1] - 1) // l[1] * l[1]
            out += [((nm,) + p, off + o, x) for p, o, x in l[2]]
            off += l[0]; al = max(al, l[1])
        return (off + al - 1) // al * al, al, out
    def cast(s, st, ck, v, tf, tt, n):
        tt, tf = unref(tt), unref(tf)
        if ck == 'IntegralCast':
            if isinstance(v, Term) and v.sort == 'B': v = ite(v, ONE, ZERO)
            if tt == 'bool': return ne(v, ZERO)
            if tf in INTS and INTS[tf][0] <= 16 and tt in INTS and INTS[tt][0] > 16 and INTS[tf][1] <= INTS[tt][1]: s.narrow.add(v)       # a promoted 16-bit value
            return s.icast(st, v, tf, tt)
        if ck == 'IntegralToFloating':
            if v.sort == 'B': v = ite(v, ONE, ZERO)
            if not (v.op == 'int'): s.assume_note('integer-to-double conversions are exact (magnitudes below 2^53)')
            r = i2f(v)
            if v in s.narrow or tf in INTS and INTS[tf][0] <= 16: s.narrow.add(r)
            return s.toflt(r, tt)
        if ck == 'FloatingToIntegral':
            if tt == 'bool': return not_(fcmp('eq', v, Fl(0.0)))
            return s.f2i(st, v, tt, n)
        if ck == 'FloatingCast': return s.toflt(v, tt)
        if ck == 'IntegralToBoolean': return v if v.sort == 'B' else ne(v, ZERO)
        if ck == 'FloatingToBoolean': return not_(fcmp('eq', v, Fl(0.0)))
        if ck == 'PointerToBoolean':
            if isinstance(v, Ptr): return not_(v.null)
            if isinstance(v, It): return not_(v.null)
            raise Unsupported('pointer to bool')
        if ck == 'FloatingRealToComplex': return v
        raise Unsupported('cast %s at %s' % (ck, s.where(n)))
    def toflt(s, v, tt):
        if tt == 'float':
            # a 16-bit integer, also times a power of two, has an exact single-precision value
            m = [x for x in v.args if x.op == 'flt'] if v.op == 'fmul' else []
            if v in s.narrow or (len(v.args) == 2 and len(m) == 1 and any(x in s.narrow for x in v.args) and pow2(T.flval(m[0]))): return v
            return fop('fround32', v)
        return v
    def f2i(s, st, v, tt, n):
        r = fop('f2i', v)
        lo, hi = s.rng(tt)
        if r.op != 'int':
            s.oblige(st, 'conv', and_(fcmp('lt', Fl(float(lo) - 1.0), v) if lo > -(1 << 53) else fcmp('le', Fl(float(lo)), v), fcmp('lt', v, Fl(float(hi + 1)))), n, 'float-to-integer conversion in range')
            s.fact(st, and_(le(I(lo), r), le(r, I(hi))))
        return r
    def icast(s, st, v, tf, tt):
        r1, r2 = s.rng(tf), s.rng(tt)
        if r2 is None:
            return v        # enum
        if r1 is not None and r1[0] >= r2[0] and r1[1] <= r2[1]: return v
        return s.wrap(st, v, tt)
    def wrap(s, st, v, tt):
        lo, hi = s.rng(tt)
        if v.op == 'int': 
            return I((v.data - lo) % (hi - lo + 1) + lo)
        if s.prove(st, and_(le(I(lo), v), le(v, I(hi)))): return v
        m = I(hi - lo + 1)
        if lo == 0: r = imod(v, m)
        else: r = add(imod(sub(v, I(lo)), m), I(lo))
        s.gfact(and_(le(I(lo), r), le(r, I(hi)))) if not fv(r) else None
        return r
    # ---- operators
    def e_UnaryOperator(s, n, st):
        op = n['opcode']; c = inner(n)[0]
        if op == '&':
            x = s.ev(c, st)
            if isinstance(x, FnV): return x
            x = x if isinstance(x, LV) else s.alloc(st, x)
            return s.addrof(st, x)
        if op == '*':
            p = s.rval(c, st)
            if isinstance(p, FnV): return p
            return s.deref(st, p, n)
        if op in ('++', '--'):
            lv = s.lval(c, st)
            v = s.load(st, lv, n)
            if isinstance(v, It): nv = s.itadd(v, ONE if op == '++' else I(-1))
            elif isinstance(v, Term) and v.sort == 'F': nv = fop('fadd' if op == '++' else 'fsub', v, Fl(1.0))
            elif isinstance(v, Term):
                s.range_fact(st, v, tyof(n))
                nv = s.arith(st, '+' if op == '++' else '-', v, ONE, tyof(n), n)
            else: raise Unsupported('++ on %r' % type(v))
            s.store(st, lv, nv, n)
            return v if n.get('isPostfix') else lv
        v = s.rval(c, st)
        if op == '!':
            if isinstance(v, Term): return not_(v if v.sort == 'B' else ne(v, ZERO))
        if op == '-':
            if v.sort == 'F': return fop('fneg', v)
            return s.arith(st, '-', ZERO, v, tyof(n), n)
        if op == '+': return v
        if op == '~':
            lo, hi = s.rng(tyof(n))
            return sub(I(-1), v) if lo < 0 else sub(I(hi), v)
        if op == '__extension__': return v
        raise Unsupported('unary %s' % op)
    def addrof(s, st, lv):
        """pointer to an lvalue; element pointers become iterators"""
        if lv.path and not isinstance(lv.path[-1], str) and lv.path[-1][0] in ('i', 'lin'):
            return It(LV(lv.cell, lv.path[:-1]), lv.path[-1][1])
        return Ptr(lv, FALSE)
    def itadd(s, it, k): return It(it.lv, add(it.pos, k) if not it.rev else sub(it.pos, k), it.rev, it.null)
    def e_BinaryOperator(s, n, st):
        op = n['opcode']; a, b = inner(n)
        if op == '=':
            if True:
                v = s.rval(b, st)
                lv = s.lval(a, st)
                s.store(st, lv, v, n)
                return lv
        if op == ',':
            s.ev(a, st); return s.ev(b, st)
        if op == '&&':
            c = s.rval(a, st)
            return s.branch_val(st, c, n, lambda x: s.rval(b, x), lambda x: FALSE)
        if op == '||':
            c = s.rval(a, st)
            return s.branch_val(st, c, n, lambda x: TRUE, lambda x: s.rval(b, x))
        x = s.rval(a, st); y = s.rval(b, st)
        return s.binop(st, op, x, y, tyof(n), n, tyof(a))
    def e_CompoundAssignOperator(s, n, st):
        op = n['opcode'][:-1]; a, b = inner(n)
        y = s.rval(b, st)
        lv = s.lval(a, st)
        x = s.load(st, lv, n)
        if isinstance(x, It):
            s.store(st, lv, s.itadd(x, y if op == '+' else neg(y))); return lv
        if x.sort == 'I': s.range_fact(st, x, tyof(a))
        ct = n.get('computeResultType', n['type']); ct = unref(ct.get('desugaredQualType', ct['qualType']))
        lt_ = n.get('computeLHSType', n['type']); lt_ = unref(lt_.get('desugaredQualType', lt_['qualType']))
        ta = unref(tyof(a))
        x2 = s.conv_arith(st, x, ta, lt_, n)
        r = s.binop(st, op, x2, y, ct, n, lt_)
        s.store(st, lv, s.conv_arith(st, r, ct, ta, n), n)
        return lv
    def conv_arith(s, st, v, tf, tt, n):
        if tf == tt: return v
        fi, ti = tf in INTS or tf == 'bool', tt in INTS or tt == 'bool'
        if fi and ti: return s.cast(st, 'IntegralCast', v, tf, tt, n)
        if fi and tt in FLTS: return s.cast(st, 'IntegralToFloating', v, tf, tt, n)
        if tf in FLTS and ti: return s.cast(st, 'FloatingToIntegral', v, tf, tt, n)
        if tf in FLTS and tt in FLTS: return s.toflt(v, tt)
        raise Unsupported('conversion %s -> %s' % (tf, tt))
    def binop(s, st, op, x, y, ty, n, ta=None):
        if isinstance(x, (It, Ptr)) or isinstance(y, (It, Ptr)): return s.ptrop(st, op, x, y, n)
        if isinstance(x, Term) and isinstance(y, Term):
            if x.sort == 'F' or y.sort == 'F':
                return s.fbin(st, op, x, y, ty, n)
            if op in ('==', '!='):
                if x.sort != y.sort:
                    x = ite(x, ONE, ZERO) if x.sort == 'B' else x; y = ite(y, ONE, ZERO) if y.sort == 'B' else y
                return eq(x, y) if op == '==' else ne(x, y)
            if x.sort == 'B': x = ite(x, ONE, ZERO)
            if y.sort == 'B': y = ite(y, ONE, ZERO)
            if op == '<': return lt(x, y)
            if op == '<=': return le(x, y)
            if op == '>': return gt(x, y)
            if op == '>=': return ge(x, y)
            return s.arith(st, op, x, y, ty, n)
        raise Unsupported('operator %s on %r, %r at %s' % (op, type(x), type(y), s.where(n)))
    def fbin(s, st, op, x, y, ty, n):
        c = {'<': lambda: fcmp('lt', x, y), '<=': lambda: fcmp('le', x, y), '>': lambda: fcmp('lt', y, x), '>=': lambda: fcmp('le', y, x),
             '==': lambda: fcmp('eq', x, y), '!=': lambda: not_(fcmp('eq', x, y))}
        if op in c: return c[op]()
        o = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}.get(op)
        if o is None: raise Unsupported('float op %s' % op)
        return s.toflt(fop(o, x, y), unref(ty))
    def arith(s, st, op, x, y, ty, n):
        ty = unref(ty)
        if ty not in INTS:
            if s.is_enum(ty): ty = 'int'
            else: raise Unsupported('integer arithmetic at type %s' % ty)
        w, sg = INTS[ty]
        if op in '+-*':
            r = {'+': add, '-': sub, '*': mul}[op](x, y)
            if r.op == 'int':
                lo, hi = s.rng(ty)
                if lo <= r.data <= hi: return r
            if sg:
                s.oblige(st, 'overflow', s.inrange(r, ty), n, 'signed %s does not overflow' % op)
                return r
            return s.wrap(st, r, ty)
        if op in '/%':
            s.oblige(st, 'div0', ne(y, ZERO), n, 'division by zero')
            if not sg:
                return idiv(x, y) if op == '/' else imod(x, y)
            if x.op == 'int' and y.op == 'int' and y.data:
                q = abs(x.data) // abs(y.data) * (1 if (x.data < 0) == (y.data < 0) else -1)
                return I(q) if op == '/' else I(x.data - q * y.data)
            pos = y.op == 'int' and y.data > 0 or s.prove(st, lt(ZERO, y), optimistic=False)
            if pos:
                if s.prove(st, le(ZERO, x), optimistic=False): q = idiv(x, y)
                else: q = ite(le(ZERO, x), idiv(x, y), neg(idiv(neg(x), y)))
            else:
                ax = ite(le(ZERO, x), x, neg(x)); ay = ite(le(ZERO, y), y, neg(y))
                q = idiv(ax, ay)
                q = ite(iff(le(ZERO, x), le(ZERO, y)), q, neg(q))
            return q if op == '/' else sub(x, mul(q, y))
        if op == '<<':
            if y.op == 'int':
                if sg:
                    r = mulc(1 << y.data, x)
                    s.oblige(st, 'overflow', s.inrange(r, ty), n, 'shift does not overflow')
                    return r
                return s.wrap(st, mulc(1 << y.data, x), ty)
            if x.op == 'int' and x.data == 1: 
                r = T.app('pow2', (y,), 'I')
                return r
            raise Unsupported('variable shift')
        if op == '>>':
            if y.op == 'int': return idiv(x, I(1 << y.data))
            raise Unsupported('variable shift')
        if op in '&|^':
            if x.op == 'int' and y.op != 'int': x, y = y, x
            if op == '&' and y.op == 'int' and (y.data + 1) & y.data == 0 and y.data >= 0:
                return imod(x, I(y.data + 1))
            return bitop({'&': 'and', '|': 'or', '^': 'xor'}[op], x, y, w)
        raise Unsupported('op %s' % op)
    def ptrop(s, st, op, x, y, n):
        if op in ('==', '!='):
            if isinstance(x, It) and isinstance(y, It):
                if not x.lv == y.lv: raise Unsupported('comparison of unrelated iterators')
                r = eq(x.pos, y.pos)
            elif isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.lv is None: r = y.null
                elif y.lv is None: r = x.null
                elif x.lv == y.lv: r = iff(x.null, y.null)
                else: r = and_(x.null, y.null)
            elif isinstance(x, It) and isinstance(y, Ptr): r = and_(x.null, y.null)
            elif isinstance(x, Ptr) and isinstance(y, It): r = and_(x.null, y.null)
            elif isinstance(x, Ptr) and isinstance(y, Term): r = x.null
            else: raise Unsupported('pointer comparison')
            return r if op == '==' else not_(r)
        if isinstance(x, It) and isinstance(y, Term):
            return s.itadd(x, y if op == '+' else neg(y))
        if isinstance(y, It) and isinstance(x, Term) and op == '+': return s.itadd(y, x)
        if isinstance(x, It) and isinstance(y, It) and x.lv == y.lv:
            a, b = (x.pos, y.pos) if not x.rev else (y.pos, x.pos)
            return {'-': lambda: sub(a, b), '<': lambda: lt(a, b), '>': lambda: gt(a, b), '<=': lambda: le(a, b), '>=': lambda: ge(a, b)}[op]()
        raise Unsupported('pointer op %s on %r %r at %s' % (op, type(x), type(y), s.where(n)))
    def e_ConditionalOperator(s, n, st):
        c, a, b = inner(n)
        v = s.rval(c, st)
        if tyof(n).startswith('const char'):                 # character arrays are their strings
            def f(y):
                def g(x):
                    r = s.keep(s.ev(y, x))
                    return s.load(x, r, n) if isinstance(r, LV) else r
                return g
            return s.branch_val(st, v, n, f(a), f(b))
        if tyof(n) in ('const double', 'const float', 'const int', 'const bool', 'const unsigned long', 'const size_t', 'const std::size_t', 'const unsigned int', 'const long', 'const short', 'const unsigned char'):
            return s.cond_value(n, st, v)                    # a constant scalar is its value
        return s.branch_val(st, v, n, lambda x: s.keep(s.ev(a, x)), lambda x: s.keep(s.ev(b, x)))
    def cond_value(s, n, st, v=None):
        c, a, b = inner(n)
        if v is None: v = s.rval(c, st)
        return s.branch_val(st, v, n, lambda x: s.rv(x, s.keep(s.ev(a, x)), a), lambda x: s.rv(x, s.keep(s.ev(b, x)), b))
    def keep(s, x): return x.lv if isinstance(x, Moved) else x
    def e_LambdaExpr(s, n, st):
        rec = [c for c in inner(n) if c['kind'] == 'CXXRecordDecl'][0]
        caps = dict(st.env)
        # by-copy captures: snapshot
        flds = [c for c in inner(rec) if c['kind'] == 'FieldDecl']
        body = [c for c in inner(n) if c['kind'] == 'CompoundStmt'][-1:]
        ci = [c for c in inner(n) if c['kind'] not in ('CXXRecordDecl', 'CompoundStmt')]
        for f_, c in zip(flds, ci):
            if isref(f_['type']['qualType']) or c['kind'] == 'CXXThisExpr': continue
            d = s._declref(c)
            if d is not None:
                key = (s.fr.tu.idx, d)
                if key in st.env: caps[key] = s.alloc(st, s.load(st, st.env[key], n))
        op = None
        for c in inner(rec):
            if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()': op = c
        if op is None:
            for c in inner(rec):
                if c['kind'] == 'FunctionTemplateDecl' and c.get('name') == 'operator()': raise Unsupported('generic lambda')
        return Clo(op, caps, s.fr.this, s.fr.tu)
    def _declref(s, n):
        while n['kind'] != 'DeclRefExpr':
            i = inner(n)
            if not i: return None
            n = i[0]
        return n['referencedDecl']['id']
    def e_InitListExpr(s, n, st):
        ty = unref(tyof(n))
        els = inner(n)
        if ty.endswith(']'):
            k = ty.rindex('['); cnt = int(ty[k + 1:-1])
            vals = [s.rval(e, st) for e in els if e['kind'] != 'ArrayFiller']
            filler = s.default(ty[:k].strip())
            return s.seq_of([*vals] + [filler] * (cnt - len(vals)))
        q = s.recname(ty)
        if q and len(els) == 1 and s.recname(unref(tyof(els[0]))) == q: return s.rval(els[0], st)
        if q:
            fl = s.record_fields(q); d = {}
            vals = [e for e in els]
            for (nm, t2, c, tu), e in zip(fl, vals):
                if e['kind'] == 'CXXDefaultInitExpr': d[nm] = s.field_init(st, c, tu, t2)
                else: d[nm] = s.rval(e, st)
            for (nm, t2, c, tu) in fl[len(vals):]: d[nm] = s.field_init(st, c, tu, t2)
            return SV(q, d)
        if len(els) == 1: return s.rval(els[0], st)
        if not els: return s.default(ty)
        raise Unsupported('init list of %s' % ty)
    def field_init(s, st, c, tu, t2):
        if c.get('hasInClassInitializer'):
            i = inner(c)
            if i:
                s.frames.append(Frame(tu, s.fr.this if s.frames else None, 'nsdmi', s.new('F')))
                try: return s.rval(i[-1], st)
                finally: s.frames.pop()
        return s.uninit(t2)
    def seq_of(s, vals):
        b = bv('I', 'i')
        if not vals: raise Unsupported('empty init list')
        el = vals[-1]
        for j in range(len(vals) - 2, -1, -1): el = vite(eq(b, I(j)), vals[j], el)
        return Seq(I(len(vals)), b, el)
    def e_CXXStdInitializerListExpr(s, n, st):
        x = s.rval(inner(n)[0], st)
        return x
    # ---- construction
    def e_CXXConstructExpr(s, n, st):
        ty = unref(tyof(n)); ct = n.get('ctorType', {}).get('qualType', '')
        args = inner(n)
        return s.construct(st, ty, ct, args, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def construct(s, st, ty, ct, argn, n):
        """argn: AST nodes or values"""
        def evalargs():
            return [a if not isinstance(a, dict) else s.ev(a, st) for a in argn if not (isinstance(a, dict) and a['kind'] == 'CXXDefaultArgExpr')]
        q = s.recname(ty)
        sh = short(ty)
        if q and sh != 'FilePath_':
            f = s.find_ctor(q, ct)
            base = targs(q)[0]
            if f is not None and s.prog.find_def(f) is not None:
                args = s.evargs(argn, s.prog.find_def(f), st)
                return s.run_ctor(st, q, s.prog.find_def(f), args, n)
            args = evalargs()
            if len(args) == 1: return s.copy_or_move(st, args[0], '&&' in ct, n)
            if not args:
                if f is not None and f.body is None and not f.node.get('explicitlyDefaulted') and not f.node.get('isImplicit') and f.node.get('explicitlyDefaulted') != 'default':
                    if not (f.node.get('defaultedFunction') or f.node.get('isImplicit')): pass
                return s.implicit_default(st, q)
            raise Unsupported('constructor %s %s at %s' % (q, ct, s.where(n)))
        args = evalargs()
        if len(args) == 1 and not q:
            a = args[0]
            pt = ct[ct.find('(') + 1:ct.rfind(')')] if ct else ''
            v = s.peek(st, a)
            if s.same_kind(ty, v, pt): return s.copy_or_move(st, a, '&&' in ct, n)
        r = s.lib.construct(s, st, ty, ct, args, n)
        if r is None: raise Unsupported('constructor %s %s at %s' % (ty, ct, s.where(n)))
        return r
    def same_kind(s, ty, v, pt):
        """copy construction of a library value"""
        sh = short(ty); psh = short(unref(pt.replace('&&', ''))) if pt else ''
        base = {'basic_string': 'string'}
        return bool(pt) and base.get(sh, sh) == base.get(psh, psh) and '&' in pt
    def peek(s, st, a):
        if isinstance(a, Moved): a = a.lv
        return s.load(st, a) if isinstance(a, LV) else a
    def copy_or_move(s, st, a, mv, n):
        if isinstance(a, Moved): a = a.lv
        if not isinstance(a, LV): return a
        v = s.load(st, a, n)
        if mv: s.store(st, a, s.movedfrom(v), n)
        return v
    def movedfrom(s, v):
        if isinstance(v, Seq): return Seq(ZERO, v.iv, v.el)
        if isinstance(v, Mat):
            nm = s.new('undef!moved')
            return Mat(T.var(nm + '.r', 'I'), T.var(nm + '.c', 'I'), v.ri, v.ci, relabel(v.el, lambda p, b, t: T.app(nm + str(p), (v.ri, v.ci) + b, t.sort)))
        if isinstance(v, Ptr): return Ptr(None, TRUE)
        if isinstance(v, SV) and v.type.startswith('Visqol::'): return SV(v.type, {k: s.movedfrom(x) for k, x in v.f.items()})
        return v
    def implicit_default(s, st, q):
        d = {}
        for (nm, t2, c, tu) in s.record_fields(q): d[nm] = s.field_init(st, c, tu, t2)
        return SV(q, d)
    def find_ctor(s, q, ct):
        tu = s.fr.tu
        cand = [f for f in tu.fns.values() if f.rec == q and f.kind == 'CXXConstructorDecl' and f.type == ct]
        if not cand:
            cand = [f for t in s.prog.tus for f in t.fns.values() if f.rec == q and f.kind == 'CXXConstructorDecl' and f.type == ct]
        for f in cand:
            if f.body is not None: return f
        for f in cand:
            if s.prog.find_def(f) is not None: return f
        return cand[0] if cand else None
    def evargs(s, argn, f, st):
        out = []
        for i, a in enumerate(argn):
            if isinstance(a, dict):
                if a['kind'] == 'CXXDefaultArgExpr':
                    out.append(s.defarg(f, i, st)); continue
                out.append(s.ev(a, st))
            else: out.append(a)
        return out
    def defarg(s, f, i, st):
        # default expression lives on the first declaration that has it
        for t in s.prog.tus:
            for g in t.fns.values():
                if g.qname == f.qname and len(g.params) == len(f.params) and g.type == f.type and inner(g.params[i]):
                    s.frames.append(Frame(t, None, 'default arg', s.new('F')))
                    try: return s.ev(inner(g.params[i])[-1], st)
                    finally: s.frames.pop()
        raise Unsupported('default argument %d of %s' % (i, f.qname))
    def run_ctor(s, st, q, f, args, n):
        isamat = targs(q)[0].endswith('AMatrix')
        if q in s.lib.VALUE_RECORDS:
            r = s.lib.VALUE_RECORDS[q](s, st, f, args, n)
            if r is not None: return r
        c = s.contract_of(f)
        if isamat: obj = s.default(q)
        else:
            d = {}
            for (nm, t2, cc, tu) in s.record_fields(q): d[nm] = s.field_init(st, cc, tu, t2)
            obj = SV(q, d)
        lv = s.alloc(st, obj, 'o')
        if c is not None and not c.inline and s.verifying is not c:
            s.apply_contract(st, c, f, lv, args, n)
        else: s.invoke(st, f, lv, args, n)
        return s.load(st, lv)
    # ------------------------------------------------------------ calls
    verifying = None
    def e_CallExpr(s, n, st):
        ch = inner(n)
        cal = ch[0]
        while cal['kind'] in ('ImplicitCastExpr', 'ParenExpr'): cal = inner(cal)[0]
        if cal['kind'] == 'MemberExpr' and s.fr.tu.fns.get(cal.get('referencedMemberDecl')) is not None:      # static member function named through an object
            s.ev(inner(cal)[0], st)
            return s.call(st, s.fr.tu.fns[cal['referencedMemberDecl']], None, ch[1:], n)
        if cal['kind'] == 'DeclRefExpr' and cal['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = cal['referencedDecl']
            f = s.fr.tu.fns.get(d['id'])
            if f is not None: return s.call(st, f, None, ch[1:], n)
            return s.libcall(st, d['name'], d, ch[1:], n)
        c = s.rval(ch[0], st)
        if isinstance(c, Clo): return s.call_clo(st, c, [s.ev(a, st) for a in ch[1:]], n)
        if isinstance(c, FnV) and not isinstance(c.fn, dict): return s.call(st, c.fn, None, ch[1:], n)
        raise Unsupported('call at %s' % s.where(n))
    def e_CXXMemberCallExpr(s, n, st):
        ch = inner(n); me = ch[0]
        while me['kind'] in ('ParenExpr',): me = inner(me)[0]
        f = s.fr.tu.fns.get(me.get('referencedMemberDecl'))
        base = inner(me)[0]
        if f is not None and f.static:
            s.ev(base, st)
            return s.call(st, f, None, ch[1:], n)
        if f is not None:
            if me.get('isArrow'):
                p = s.rval(base, st)
                lv = s.deref(st, p, n)
            else:
                x = s.ev(base, st); x = x.lv if isinstance(x, Moved) else x
                lv = x if isinstance(x, LV) else s.alloc(st, x)
            return s.call(st, f, lv, ch[1:], n)
        # library object
        bt = tyof(base)
        if me.get('isArrow'):
            p = s.rval(base, st)
            x = s.deref(st, p, n); bt = unref(bt).rstrip('*').strip() if unref(bt).endswith('*') else bt
        else:
            x = s.ev(base, st)
            x = x.lv if isinstance(x, Moved) else x
        return s.libmethod(st, x, bt, me['name'], ch[1:], n)
    def e_CXXOperatorCallExpr(s, n, st):
        ch = inner(n); cal = ch[0]
        while cal['kind'] in ('ImplicitCastExpr', 'ParenExpr'): cal = inner(cal)[0]
        d = cal['referencedDecl']; nm = d['name']
        f = s.fr.tu.fns.get(d['id'])
        if f is not None:
            if f.kind == 'CXXMethodDecl':
                lv = s.lval(ch[1], st)
                return s.call(st, f, lv, ch[2:], n)
            return s.call(st, f, None, ch[1:], n)
        if nm == 'operator()':
            c = s.rval(ch[1], st)
            if isinstance(c, Clo): return s.call_clo(st, c, [s.ev(a, st) for a in ch[2:]], n)
        # C++17: for assignment operators the right operand is sequenced first
        if nm in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=') and len(ch) == 3:
            r = s.ev(ch[2], st); l = s.ev(ch[1], st); args = [l, r]
        else: args = [s.ev(a, st) for a in ch[1:]]
        q = s.recname(tyof(ch[1]))
        if nm == 'operator=' and q:       # implicit copy/move assignment of a user record
            v = s.copy_or_move(st, args[1], '&&' in d.get('type', {}).get('qualType', ''), n)
            s.store(st, args[0], v, n); return args[0]
        return s.lib_op(st, nm, d, args, ch[1:], n)
    def lib_op(s, st, nm, d, args, nodes, n):
        r = s.lib.operator(s, st, nm, d, args, nodes, n)
        if r is None: raise Unsupported('operator %s on %s at %s' % (nm, [tyof(a) for a in nodes], s.where(n)))
        return r
    def libcall(s, st, nm, d, argn, n):
        r = s.lib.call(s, st, nm, d, argn, n)
        if r is None: raise Unsupported('library function %s(%s) at %s' % (nm, d.get('type', {}).get('qualType'), s.where(n)))
        return r
    def libmethod(s, st, x, bt, nm, argn, n):
        r = s.lib.method(s, st, x, bt, nm, argn, n)
        if r is None: raise Unsupported('library method %s::%s at %s' % (bt, nm, s.where(n)))
        return r
    def dispatch(s, st, f, lv, n):
        """virtual dispatch on the dynamic record type"""
        if lv is None or f.static: return f
        v = s.load(st, lv, n)
        if isinstance(v, SV) and v.type != f.rec and v.type.startswith('Visqol'):
            q = v.type
            while q:
                c = [g for g in s.prog.byname.get(q + '::' + f.name, []) if len(g.params) == len(f.params)]
                same = [g for g in c if s.sig(g) == s.sig(f)]
                if same: return same[0]
                if c: return c[0]
                r = s.prog.records.get(q)
                b = r[1].get('bases', ()) if r else ()
                q = s.recname(b[0]['type'].get('desugaredQualType', b[0]['type']['qualType'])) if b else None
        return f
    def sig(s, f): return f.type[f.type.find('('):]
    def call(s, st, f, lv, argn, n):
        d = s.dispatch(st, f, lv, n)
        df = s.prog.find_def(d)
        args = s.evargs(argn, df or d, st)
        return s.call_v(st, d, lv, args, n)
    def call_v(s, st, d, lv, args, n):
        if lv is not None:
            v = st.vars.get(lv.cell)
            if not lv.path and isinstance(v, SV) and v.type.startswith('opaque:'):
                return s.opaque_call(st, d, lv, args, n)
            if d.virtual and not lv.path and lv.cell.startswith('h:') and isinstance(v, SV):
                # an object handed in by pointer: its dynamic type is not known, any overrider may run
                hs = [s.dyn(st, lv)] + [handle(s.peek(st, a)) for a in args]
                return s.uf_value(st, d.type[:d.type.find('(')].strip(), 'virt:' + d.qname, hs)
        c = s.contract_of(d)
        if c is not None and s.verifying is not c and not c.inline and c.key not in (s.opts or {}).get('inline', ()):
            return s.apply_contract(st, c, d, lv, args, n)
        r = s.lib.user(s, st, d, lv, args, n)
        if r is not None: return r
        f = s.prog.find_def(d)
        if f is None:
            raise Unsupported('no definition of %s %s at %s' % (d.qname, d.type, s.where(n)))
        return s.invoke(st, f, lv, args, n)
    def dyn(s, st, lv):
        v = st.vars[lv.cell]
        return v.f['id'] if v.type.startswith('opaque:') else T.var(lv.cell + '!dynamic', 'O')
    def opaque_call(s, st, d, lv, args, n):
        v = st.vars[lv.cell]
        rt = d.type[:d.type.find('(')].strip()
        hs = [v.f['id']] + [handle(s.peek(st, a)) for a in args]
        return s.uf_value(st, rt, 'virt:' + d.qname, hs)
    def uf_value(s, st, ty, name, hs):
        """uninterpreted result of C++ type ty as a function of handles"""
        hs = tuple(hs)
        def f(k, path, bs, so):
            if so == 'P': raise Unsupported('pointer result')
            t = T.app(name + path, hs + tuple(bs), so)
            if k == '#n' and not fv(t): s.gfact(and_(le(ZERO, t), lt(t, I(1 << 48))))
            if k == '#n' and name.startswith('virt:') and path.endswith(('.r', '.c')) and not fv(t):
                s.assume_note('a matrix returned by an overridable function has fewer than 2^31 rows and columns')
                s.gfact(and_(le(ZERO, t), lt(t, I(1 << 31))))
            return t
        return s.build(ty, f)
    def apply_contract(s, st, c, f, lv, args, n):
        s.used_contracts.add(c.key)
        return c.apply(s, st, f, lv, args, n)
    def invoke(s, st, f, lv, args, n):
        """inline a function body; mutates st; returns the value"""
        s.inlined.add(f.qname)
        if s.depth > 40: raise Unsupported('inlining depth at %s' % f.qname)
        env = st.env
        outs = s.body_outcomes(st, f, lv, args, n)
        m = s.merge([(o, v) for (_, o, v) in outs])
        st.env = env
        if not m:
            st.pc = (FALSE,); raise DeadPath()
        if len(m) != 1: raise Unsupported('unmergeable outcomes of %s' % f.qname)
        st.become(m[0][0]); st.env = env
        v = m[0][1]
        return UNIT if v is None else v
    def bind(s, st, tu, params, args, env, n):
        for p, a in zip(params, args):
            pt = p['type'].get('desugaredQualType', p['type']['qualType'])
            key = (tu.idx, p['id'])
            if isinstance(a, Moved):
                if isref(pt): a = a.lv
                else: a = s.load(st, a.lv)
            if isref(pt):
                env[key] = a if isinstance(a, LV) else s.alloc(st, a)
            else:
                v = s.rv(st, a, n)
                env[key] = s.alloc(st, v, 'p_' + p.get('name', ''))
    def body_outcomes(s, st, f, lv, args, n):
        env = {}
        s.bind(st, f.tu, f.params, args, env, n)
        saved = st.env; st.env = env
        rt = f.type[:f.type.find('(')].strip()
        s.frames.append(Frame(f.tu, lv, f.qname, s.new('F'), rt)); s.depth += 1
        try:
            for ini in f.inits: s.ctor_init(st, ini, lv)
            outs = s.ex(f.body, st)
            res = []
            for k, o, v in outs:
                if k in ('n', 'r'): o.env = saved; res.append(('r', o, v))
                else: raise Unsupported('outcome %s' % k)
            return res
        finally: s.frames.pop(); s.depth -= 1
    def ctor_init(s, st, ini, lv):
        e = inner(ini)
        if 'anyInit' in ini:
            nm = ini['anyInit']['name']
            fty = ini['anyInit']['type'].get('desugaredQualType', ini['anyInit']['type']['qualType'])
            if not e: return
            if e[0]['kind'] == 'CXXDefaultInitExpr': return     # already applied
            if isref(fty): raise Unsupported('reference member')
            v = s.rval(e[0], st)
            if nm == 'matrix_': s.store(st, lv, v); return
            s.store(st, lv.f(nm), v)
            return
        if 'baseInit' in ini:
            bt = ini['baseInit'].get('desugaredQualType', ini['baseInit']['qualType'])
            q = s.recname(bt)
            if not q: return
            e0 = e[0]
            while e0['kind'] in ('ExprWithCleanups',): e0 = inner(e0)[0]
            ct = e0.get('ctorType', {}).get('qualType', '')
            f = s.find_ctor(q, ct)
            df = s.prog.find_def(f) if f is not None else None
            if df is not None:
                args = s.evargs(inner(e0), df, st)
                s.invoke(st, df, lv, args, e0)
            return
        if 'delegatingInit' in ini:
            v = s.rval(e[0], st); s.store(st, lv, v); return
        raise Unsupported('constructor initialiser')
    def call_clo(s, st, clo, args, n=None):
        op = clo.node
        params = [c for c in op.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        body = [c for c in op.get('inner', ()) if c.get('kind') == 'CompoundStmt'][0]
        env = dict(clo.caps)
        s.bind(st, clo.tu, params, args, env, n)
        saved = st.env; st.env = env
        rt = op['type']['qualType']; rt = rt[:rt.find('(')].strip()
        s.frames.append(Frame(clo.tu, clo.this, s.fr.name + '::lambda', s.new('F'), rt)); s.depth += 1
        try:
            outs = s.ex(body, st)
            m = s.merge([(o, v) for (k, o, v) in outs])
            if len(m) != 1: raise Unsupported('unmergeable outcomes of lambda')
            st.become(m[0][0]); st.env = saved
            v = m[0][1]
            return UNIT if v is None else v
        finally: s.frames.pop(); s.depth -= 1
    # ------------------------------------------------------------ statements
    def ex(s, n, st):
        """list of outcomes (kind, state, value)"""
        k = n['kind']
        m = getattr(s, 's_' + k, None)
        try:
            if m is not None: return m(n, st)
            s.ev(n, st)
            return [('n', st, None)] if FALSE not in st.pc else []
        except DeadPath: return []
    def norm(s, outs):
        """merge outcomes per kind"""
        by = {}
        for k, o, v in outs: by.setdefault(k, []).append((o, v))
        res = []
        for k, l in by.items():
            for o, v in s.merge(l): res.append((k, o, v))
        return res
    def s_CompoundStmt(s, n, st):
        cur = [st]; done = []
        for c in inner(n):
            nxt = []
            for x in cur:
                for k, o, v in s.ex(c, x):
                    if k == 'n': nxt.append((o, None))
                    else: done.append((k, o, v))
            cur = [o for o, _ in (s.merge(nxt) if len(nxt) > 1 else nxt)]
            if not cur: break
            if len(cur) > 16: raise Unsupported('too many unmergeable states')
        locks = [k for o in cur for k, l in o.env.items() if isinstance(l, LV) and isinstance(o.vars.get(l.cell), SV) and o.vars[l.cell].type == 'MutexLock']
        for o in cur:
            for k in locks: o.env.pop(k, None)        # the lock's destructor ran
        return s.norm(done + [('n', o, None) for o in cur]) if len(done) + len(cur) > 1 else done + [('n', o, None) for o in cur]
    def s_NullStmt(s, n, st): return [('n', st, None)]
    def s_DeclStmt(s, n, st):
        for d in inner(n):
            if d['kind'] == 'VarDecl': s.declare(d, st)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'EmptyDecl', 'UsingDirectiveDecl', 'CXXRecordDecl'): pass
            else: raise Unsupported('declaration %s' % d['kind'])
        return [('n', st, None)]
    def declare(s, d, st):
        key = (s.fr.tu.idx, d['id'])
        ty = d['type'].get('desugaredQualType', d['type']['qualType'])
        i = [c for c in inner(d) if not c['kind'].endswith('Attr') and c['kind'] != 'FullComment']
        if isref(ty):
            x = s.ev(i[-1], st)
            if isinstance(x, Moved): x = x.lv
            st.env[key] = x if isinstance(x, LV) else s.alloc(st, x, 'r')
            return
        cell = '%s:%s:%s' % (d.get('name'), s.fr.id, d['id'])
        if d.get('storageClass') == 'static':
            if 'const' not in d['type']['qualType']: raise Unsupported('mutable function static')
        if i and d.get('init'):
            v = s.rval(i[-1], st)
        else: v = s.uninit(ty)
        st.vars[cell] = v
        st.env[key] = LV(cell)
    def s_ReturnStmt(s, n, st):
        c = inner(n)
        if not c: return [('r', st, UNIT)]
        if isref(s.fr.rettype):
            x = s.ev(c[0], st)
            return [('r', st, x.lv if isinstance(x, Moved) else x)]
        v = s.rval(c[0], st)
        if FALSE in st.pc: return []
        return [('r', st, v)]
    def s_IfStmt(s, n, st):
        ch = inner(n)
        if n.get('hasInit'):
            s.ex(ch[0], st); ch = ch[1:]
        if n.get('hasVar'):
            s.ex(ch[0], st); ch = ch[1:]
        c = s.rval(ch[0], st)
        if FALSE in st.pc: return []
        us = undef_vars(c)
        if us and not s.mute:
            m = {u: fresh('undef2', u.sort) for u in us if u.op == 'var'}
            s.oblige(st, 'uninit', iff(c, subst(c, m)), n, 'branch on uninitialised value')
        c = s.decide(st, c)
        els = ch[2] if n.get('hasElse') else None
        if c is TRUE: return s.ex(ch[1], st)
        if c is FALSE: return s.ex(els, st) if els else [('n', st, None)]
        a = s.addpc(st.copy(), c); b = s.addpc(st.copy(), not_(c))
        outs = []
        if FALSE not in a.pc: outs += s.ex(ch[1], a)
        if FALSE not in b.pc:
            if els: outs += s.ex(els, b)
            else:
                if s.vtypes and not any(k == 'n' for k, _, _ in outs): s.tidy(b)
                outs.append(('n', b, None))
        return s.norm(outs)
    def tidy(s, st):
        """conditional values in the state, simplified under the path condition"""
        memo = {}
        def f(path, bs, t):
            if t.op != 'ite' and t.sort != 'B': return t
            if t not in memo: memo[t] = s.under(t, st.pc, False)
            return memo[t]
        for c, v in st.vars.items():
            if isinstance(v, (Term, SV, Seq, Mat)): st.vars[c] = relabel(v, f)
    def s_BreakStmt(s, n, st): return [('b', st, None)]
    def s_ContinueStmt(s, n, st): return [('c', st, None)]
    def s_AttributedStmt(s, n, st): return s.ex(inner(n)[-1], st)
    def s_SwitchStmt(s, n, st):
        ch = inner(n)
        v = s.rval(ch[0], st)
        body = ch[-1]
        groups = []          # (cond or None, [stmts])
        def flat(c):
            if c['kind'] == 'CaseStmt':
                i = inner(c)
                cv = s.rval(i[0], st)
                groups.append((eq(v, cv), []))
                flat(i[-1])
            elif c['kind'] == 'DefaultStmt':
                groups.append((None, [])); flat(inner(c)[0])
            else: groups[-1][1].append(c)
        for c in inner(body): flat(c)
        outs = []
        conds = [g[0] for g in groups if g[0] is not None]
        for i, (c, _) in enumerate(groups):
            cond = c if c is not None else and_(*[not_(x) for x in conds])
            x = s.addpc(st.copy(), cond)
            if FALSE in x.pc: continue
            cur = [x]
            for _, ss in groups[i:]:
                for stm in ss:
                    nx = []
                    for y in cur:
                        for k, o, vv in s.ex(stm, y):
                            if k == 'n': nx.append(o)
                            elif k == 'b': outs.append(('n', o, None))
                            else: outs.append((k, o, vv))
                    cur = nx
            outs += [('n', y, None) for y in cur]
        if not any(c is None for c, _ in groups):
            x = s.addpc(st.copy(), and_(*[not_(c) for c in conds]))
            if FALSE not in x.pc: outs.append(('n', x, None))
        return s.norm(outs)
    # ---- loops
    def s_ForStmt(s, n, st):
        ch = n.get('inner', [])
        init, cvar, cond, inc, body = ch
        if init:
            r = s.ex(init, st)
            if len(r) != 1: raise Unsupported('for init')
            st = r[0][1]
        def c(x): return s.rval(cond, x) if cond else TRUE
        def b(x):
            outs = s.ex(body, x)
            return s.after(outs, (lambda y: s.ev(inc, y)) if inc else None)
        return s.loop(n, st, c, b)
    def after(s, outs, f):
        res = []; nc = []
        for k, o, v in outs:
            if k in ('n', 'c'): nc.append((o, None))
            else: res.append((k, o, v))
        for o, _ in s.merge(nc):
            if f: 
                try: f(o)
                except DeadPath: continue
            res.append(('n', o, None))
        return res
    def s_WhileStmt(s, n, st):
        ch = inner(n)
        cond, body = ch[-2], ch[-1]
        return s.loop(n, st, lambda x: s.rval(cond, x), lambda x: s.after(s.ex(body, x), None))
    def s_DoStmt(s, n, st):
        ch = inner(n); body, cond = ch[0], ch[1]
        outs = s.after(s.ex(body, st), None)
        res = []
        for k, o, v in outs:
            if k == 'b': res.append(('n', o, None))
            elif k == 'n':
                res += s.loop(n, o, lambda x: s.rval(cond, x), lambda x: s.after(s.ex(body, x), None))
            else: res.append((k, o, v))
        return s.norm(res)
    def s_CXXForRangeStmt(s, n, st):
        ch = n.get('inner', [])
        init, rng, beg, end, cond, inc, var, body = ch
        if init: s.ex(init, st)
        s.ex(rng, st); s.ex(beg, st); s.ex(end, st)
        def b(x):
            s.ex(var, x)
            outs = s.ex(body, x)
            return s.after(outs, lambda y: s.ev(inc, y))
        return s.loop(n, st, lambda x: s.rval(cond, x), b)
