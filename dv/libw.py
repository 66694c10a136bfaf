"""Library contracts, continued: byte streams (std::istream and its derived classes over an in-memory buffer).
A stream is its bytes, the read position and the state bits; the C++ standard library's unformatted input is deterministic in these."""
from .lib import *
from . import lib as L_
from . import terms as T
from .lib import av

def build_stream(e, ty, f, p, bs):
    iv = bv('I', 'i')
    return SV('istream', {'data': Seq(f('#n', p + '.data.n', bs, 'I'), iv, e.build('unsigned char', f, p + '.data[]', bs + (iv,))),
        'pos': f('long', p + '.pos', bs, 'I'), 'eof': f('bool', p + '.eof', bs, 'B'), 'fail': f('bool', p + '.fail', bs, 'B'), 'gcount': f('long', p + '.gcount', bs, 'I')})
for _t in ('istream', 'basic_istream', 'stringstream', 'basic_stringstream', 'ifstream', 'basic_ifstream', 'istringstream', 'basic_istringstream'): BUILD[_t] = build_stream
def stream_inv(v):
    """what every stream object satisfies"""
    i = bv('I', 'i')
    b = at(v.f['data'], i)
    return and_(le(ZERO, v.f['data'].n), lt(v.f['data'].n, I(1 << 48)), le(ZERO, v.f['pos']), le(v.f['pos'], v.f['data'].n),
        forall([i], implies(and_(le(ZERO, i), lt(i, v.f['data'].n)), and_(le(ZERO, b), le(b, I(255))))))
def good(v): return and_(not_(v.f['eof']), not_(v.f['fail']))
def byte(e, D, p):
    b = at(D, p)
    if e is not None and not fv(b): e.gfact(implies(and_(le(ZERO, p), lt(p, D.n)), and_(le(ZERO, b), le(b, I(255)))))
    return b
def le_uint(e, D, p, k):
    t = ZERO
    for j in range(k): t = add(t, T.mulc(1 << (8 * j), byte(e, D, add(p, I(j)))))
    return t
def le_int(e, D, p, k):
    u = le_uint(e, D, p, k)
    return ite(le(I(1 << (8 * k - 1)), u), sub(u, I(1 << (8 * k))), u)
def scalar(e, D, p, ty):
    w, sg = INTS[strip(ty)]
    return le_int(e, D, p, w // 8) if sg else le_uint(e, D, p, w // 8)
def stream_of(e, st, x):
    if not isinstance(x, LV): raise Unsupported('stream is not an object')
    return x
def setf(e, st, x, n, **kw):
    v = e.load(st, x)
    e.store(st, x, SV(v.type, {**v.f, **kw}), n)
@meth(SVM, ('istream', 'good'))
def _(e, st, x, v, argn, n): return good(v)
@meth(SVM, ('istream', 'eof'))
def _(e, st, x, v, argn, n): return v.f['eof']
@meth(SVM, ('istream', 'fail'), ('istream', 'operator!'))
def _(e, st, x, v, argn, n): return v.f['fail']
@meth(SVM, ('istream', 'operator bool'))
def _(e, st, x, v, argn, n): return not_(v.f['fail'])
@meth(SVM, ('istream', 'gcount'))
def _(e, st, x, v, argn, n): return v.f['gcount']
@meth(SVM, ('istream', 'close'))
def _(e, st, x, v, argn, n): return UNIT
@meth(SVM, ('istream', 'clear'))
def _(e, st, x, v, argn, n):
    if args_of(e, st, argn): return None
    setf(e, st, x, n, eof=FALSE, fail=FALSE); return UNIT
@meth(SVM, ('istream', 'tellg'))
def _(e, st, x, v, argn, n):
    g = good(v)
    setf(e, st, x, n, fail=or_(v.f['fail'], v.f['eof']))
    return ite(g, v.f['pos'], I(-1))
@meth(SVM, ('istream', 'seekg'))
def _(e, st, x, v, argn, n):
    a = [A(e, st, argn, i) for i in range(len(argn))]
    to = a[0]
    if len(a) == 2:
        base = ite(eq(a[1], ZERO), ZERO, ite(eq(a[1], ONE), v.f['pos'], v.f['data'].n))
        to = add(base, a[0])
    ok = and_(not_(v.f['fail']), le(ZERO, to), le(to, v.f['data'].n))         # clears eof first; a failed stream does not move
    setf(e, st, x, n, pos=ite(ok, to, v.f['pos']), eof=FALSE, fail=not_(ok))
    return x
@meth(SVM, ('istream', 'read'))
def _(e, st, x, v, argn, n):
    p, cnt = A(e, st, argn, 0), A(e, st, argn, 1)
    D, pos = v.f['data'], v.f['pos']
    e.oblige(st, 'bounds', le(ZERO, cnt), n, 'read of a non-negative number of bytes')
    g = good(v)
    full = le(add(pos, cnt), D.n)
    m = ite(full, cnt, sub(D.n, pos))
    setf(e, st, x, n, pos=ite(g, add(pos, m), pos), gcount=ite(g, m, ZERO), eof=or_(v.f['eof'], and_(g, not_(full))), fail=or_(v.f['fail'], not_(g), not_(full)))
    put_bytes(e, st, p, D, pos, ite(g, m, ZERO), cnt, and_(g, full), g, n)
    return x
def put_bytes(e, st, p, D, pos, m, cnt, full, g, n):
    """the first m of the cnt bytes wanted are stored in the object p points to"""
    und = lambda so, bs=(): T.app(e.new('undef!'), bs, so) if bs else T.var(e.new('undef!'), so)
    if isinstance(p, It):
        q = e.load(st, p.lv)
        if p.null is not FALSE: e.oblige(st, 'null', not_(p.null), n, 'destination of a read')
        ty = e.vtypes.get(tkey(p.lv))
        if ty is None or not isinstance(q, Seq) or not isinstance(q.el, Term): raise Unsupported('read into memory of unknown type')
        w = INTS[strip(ty)][0] // 8
        e.oblige(st, 'bounds', and_(le(ZERO, p.pos), le(add(T.mulc(w, p.pos), cnt), T.mulc(w, q.n))), n, 'the destination of a read holds the bytes asked for')
        i = sub(q.iv, p.pos)
        whole = and_(le(ZERO, i), le(T.mulc(w, add(i, ONE)), m))
        part = FALSE if w == 1 else and_(le(ZERO, i), lt(T.mulc(w, i), m), not_(whole))
        el = ite(whole, scalar(None, D, add(pos, T.mulc(w, i)), ty), q.el if part is FALSE else ite(part, und('I', (q.iv,)), q.el))
        e.store(st, p.lv, Seq(q.n, q.iv, el), n)
        return
    if not isinstance(p, Ptr): raise Unsupported('destination of a read')
    if p.null is not FALSE: e.oblige(st, 'null', not_(p.null), n, 'destination of a read')
    obj = e.load(st, p.lv)
    ty = obj.type if isinstance(obj, SV) else e.vtypes.get(tkey(p.lv))
    lay = e.layout(ty) if ty else None
    if lay is None or cnt.op != 'int': raise Unsupported('read into an object of type %s' % ty)
    c = cnt.data
    e.oblige(st, 'bounds', TRUE if 0 <= c <= lay[0] else FALSE, n, 'the destination of a read holds the bytes asked for')
    part = and_(g, lt(ZERO, m), not_(full))
    for path, off, sty in lay[2]:
        w = INTS[strip(sty)][0] // 8
        if off >= c: continue
        l = LV(p.lv.cell, p.lv.path + tuple(x if isinstance(x, str) else (x[0], I(x[1])) for x in path))
        old = e.load(st, l)
        new = scalar(e, D, add(pos, I(off)), sty) if off + w <= c else und('I')
        e.store(st, l, ite(full, new, ite(part, und('I'), old)), n)
def tkey(lv): return (lv.cell,) + tuple(x if isinstance(x, str) else x[0] for x in lv.path)
METHODS[('fpos', 'operator long')] = lambda e, st, x, v, argn, n: v
METHODS[('fpos', 'operator std::streamoff')] = METHODS[('fpos', 'operator long')]
METHODS[('fpos', 'operator streamoff')] = METHODS[('fpos', 'operator long')]
@cons_('fpos')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    return a[0] if a else ZERO

# ---- files: readable or not, and their bytes; a file does not change while a function runs
def file_stream(path):
    i = bv('I', 'i')
    return SV('istream', {'data': Seq(T.app('file.len', (path,), 'I'), i, T.app('file.byte', (path, i), 'I')), 'pos': ZERO, 'eof': FALSE, 'fail': not_(T.app('file.readable', (path,), 'B')), 'gcount': ZERO})
def file_inv(path): return stream_inv(file_stream(path))
def empty_stream():
    i = bv('I', 'i')
    return SV('istream', {'data': Seq(ZERO, i, ZERO), 'pos': ZERO, 'eof': FALSE, 'fail': FALSE, 'gcount': ZERO})
@cons_('ifstream', 'basic_ifstream')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    if not a or not isinstance(a[0], Term) or a[0].sort != 'S': return None
    if len(a) < 2 or a[1].op != 'int' or not a[1].data & 4: return text_stream(T.app('file.text', (a[0],), 'S'), not_(T.app('file.readable', (a[0],), 'B')))
    e.gfact(file_inv(a[0]))
    return file_stream(a[0])
# ---- text read piece by piece: getline with one delimiter; the pieces of a text are what lies between its delimiters, a last piece being there only if it is not empty
def pieces(text, d): return T.app('split.n', (text, I(d)), 'I')
def piece(text, d, i): return T.app('split.at', (text, I(d), i), 'S')
def text_stream(text, fail=FALSE): return SV('textstream', {'text': text, 'idx': ZERO, 'fail': fail})
@cons_('istringstream', 'basic_istringstream')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    if len(a) not in (1, 2) or not isinstance(a[0], Term) or a[0].sort != 'S': return None
    return text_stream(a[0])
@meth(SVM, ('textstream', 'fail'), ('textstream', 'operator!'))
def _(e, st, x, v, argn, n): return v.f['fail']
@meth(SVM, ('textstream', 'operator bool'))
def _(e, st, x, v, argn, n): return not_(v.f['fail'])
@meth(SVM, ('textstream', 'is_open'))
def _(e, st, x, v, argn, n): return T.app('file.readable', (v.f['text'].args[0],), 'B') if v.f['text'].op == 'app' else FALSE
@meth(SVM, ('textstream', 'close'))
def _(e, st, x, v, argn, n): return UNIT
@call_('getline')
def _(e, st, nm, d, argn, n):
    x = L_.lvof(e.ev(argn[0], st)); y = L_.lvof(e.ev(argn[1], st))
    d = A(e, st, argn, 2) if len(argn) > 2 else I(10)
    v = e.load(st, x)
    if not (isinstance(v, SV) and v.type == 'textstream') or d.op != 'int': return None
    was = e.__dict__.setdefault('delims', {}).setdefault(x.cell, d.data)
    if was != d.data: raise Unsupported('getline with several delimiters on one stream')
    m = pieces(v.f['text'], d.data)
    e.gfact(and_(le(ZERO, m), lt(m, I(1 << 48))))
    ok = and_(not_(v.f['fail']), lt(v.f['idx'], m))
    old = e.load(st, y)
    e.store(st, y, ite(ok, piece(v.f['text'], d.data, v.f['idx']), T.app('getline.left', (v.f['text'], v.f['idx'], old), 'S')), n)
    e.store(st, x, SV(v.type, {**v.f, 'idx': ite(ok, add(v.f['idx'], ONE), v.f['idx']), 'fail': not_(ok)}), n)
    return x
@cons_('stringstream', 'basic_stringstream')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    if any(isinstance(x, Term) and x.sort == 'S' for x in a): raise Unsupported('string stream over a given string')
    return empty_stream()
@meth(SVM, ('istream', 'rdbuf'))
def _(e, st, x, v, argn, n):
    if args_of(e, st, argn): raise Unsupported('rdbuf of another stream')
    return SV('streambuf', {'of': Ptr(stream_of(e, st, x), FALSE)})
def insert_file(e, st, x, a, n):
    v = e.load(st, x)
    src = e.load(st, a.f['of'].lv)
    D, p, O = src.f['data'], src.f['pos'], v.f['data']
    ok = good(v)
    m = ite(ok, sub(D.n, p), ZERO)
    if not (O.n.op == 'int' and O.n.data == 0): raise Unsupported('insertion into a stream that holds something')
    i = bv('I', 'i')
    setf(e, st, x, n, data=Seq(m, i, at(D, add(p, i))), fail=or_(v.f['fail'], not_(ok), eq(m, ZERO)))
    setf(e, st, a.f['of'].lv, n, pos=add(p, m))
    return x
_operator = L_.operator
def operator(e, st, nm, d, args, nodes, n):
    if nm in ('operator<<', 'operator>>') and len(args) == 2:
        x = L_.lvof(args[0])
        v = rv(e, st, args[0])
        if isinstance(v, SV) and v.type == 'istream':
            a = rv(e, st, args[1])
            if nm == 'operator<<' and isinstance(x, LV) and isinstance(a, SV) and a.type == 'streambuf': return insert_file(e, st, x, a, n)
            raise Unsupported('%s on an input stream' % nm)
    if nm == 'operator!' and len(args) == 1:
        v = rv(e, st, args[0])
        if isinstance(v, SV) and v.type in ('istream', 'textstream'): return v.f['fail']
    return _operator(e, st, nm, d, args, nodes, n)
L_.operator = operator

# ---- output files: the text sent to a file opened by this function
def out_stream(): return SV('ofstream', {'path': S(''), 'text': S(''), 'used': FALSE, 'keep': TRUE, 'open': FALSE, 'prec': I(6)})
BUILD['ofstream'] = BUILD['basic_ofstream'] = lambda e, ty, f, p, bs: SV('ofstream', {'path': f('std::string', p + '.path', bs, 'S'), 'text': f('std::string', p + '.text', bs, 'S'), 'used': f('bool', p + '.used', bs, 'B'), 'keep': f('bool', p + '.keep', bs, 'B'), 'open': f('bool', p + '.open', bs, 'B'), 'prec': f('long', p + '.prec', bs, 'I')})
def opened(e, v, a):
    if v.f['used'] is not FALSE: raise Unsupported('an output stream opened twice')
    mode = a[1] if len(a) > 1 else I(16)
    if mode.op != 'int': raise Unsupported('open mode')
    return SV('ofstream', {**v.f, 'path': a[0], 'used': TRUE, 'open': TRUE, 'keep': TRUE if mode.data & 1 else FALSE})
@cons_('ofstream', 'basic_ofstream')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    return opened(e, out_stream(), a) if a else out_stream()
@meth(SVM, ('ofstream', 'open'))
def _(e, st, x, v, argn, n):
    e.store(st, x, opened(e, v, [A(e, st, argn, i) for i in range(len(argn))]), n); return UNIT
@meth(SVM, ('ofstream', 'close'))
def _(e, st, x, v, argn, n): setf(e, st, x, n, open=FALSE); return UNIT
@meth(SVM, ('ofstream', 'is_open'), ('ofstream', 'operator bool'), ('ofstream', 'good'))
def _(e, st, x, v, argn, n): return v.f['open']
@meth(SVM, ('ofstream', 'flush'))
def _(e, st, x, v, argn, n): return x
@call_('setprecision')
def _(e, st, nm, d, argn, n): return SV('setprecision', {'n': A(e, st, argn, 0)})
def text_int(i): return S(str(i.data)) if i.op == 'int' else T.app('text.int', (i,), 'S')
def text_double(x, prec): return T.app('text.double', (x, prec), 'S')
def insert_text(e, st, x, v, arg, node, n):
    a = e.rv(st, arg) if isinstance(arg, (LV, Moved)) else arg
    if isinstance(a, SV) and a.type == 'setprecision':
        setf(e, st, x, n, prec=a.f['n']); return x
    ty = unref(L_.tyof(node)) if node is not None else ''
    if isinstance(a, Term) and a.sort == 'S': t = a
    elif isinstance(a, Term) and a.sort == 'F': t = text_double(a, v.f['prec'])
    elif isinstance(a, Term) and a.sort == 'I' and strip(ty) in ('char',) and a.op == 'int': t = S(chr(a.data))
    elif isinstance(a, Term) and a.sort == 'I' and strip(ty) in INTS and INTS[strip(ty)][0] > 8: t = text_int(a)
    else: raise Unsupported('insertion of %r (%s) into a text stream' % (a, ty))
    e.oblige(st, 'pre', v.f['open'], n, 'text is written to an open file')
    setf(e, st, x, n, text=T.scat(v.f['text'], t))
    return x
_operator2 = L_.operator
def operator2(e, st, nm, d, args, nodes, n):
    if nm == 'operator<<' and len(args) == 2:
        x = L_.lvof(args[0])
        v = rv(e, st, args[0])
        if isinstance(v, SV) and v.type == 'ofstream' and isinstance(x, LV):
            fn = args[1]
            if isinstance(fn, FnV) or fn == 'endl' or (isinstance(fn, SV) and fn.type == 'endl'):
                setf(e, st, x, n, text=T.scat(v.f['text'], S('\n'))); return x
            return insert_text(e, st, x, v, fn, nodes[1], n)
    return _operator2(e, st, nm, d, args, nodes, n)
L_.operator = operator2
