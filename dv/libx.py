"""Library contracts, continued: TensorFlow Lite, protocol-buffer messages, byte streams."""
from .lib import *
from . import lib as L_
from . import terms as T
from .lib import av

# ---------------------------------------------------------------- TensorFlow Lite
# A model is an opaque object named by its path; its signature "predict" takes, for each of its bands b, the tensors
# fvnsim<b>, fvnsim10_<b>, fstdnsim<b>, fvdegenergy<b>, and the tensor tau, one float each.  Invoke makes the output tensor
# "predictions" a function of the model and of those inputs.
TFL_BANDED = ('fvnsim', 'fvnsim10_', 'fstdnsim', 'fvdegenergy')
def tfl_bands(i): return T.app('tflite.bands', (i,), 'I')
def tfl_score(i, fams, tau):
    return T.app('tflite.score', (i,) + tuple(handle(f) for f in fams) + (tau,), 'F')
@call_('BuildFromFile')
def _(e, st, nm, d, argn, n):
    p = av(e, st, argn[0])
    return Ptr(e.alloc(st, SV('opaque:FlatBufferModel', {'id': T.app('tflite.model', (p,), 'O')}), 'tfl'), T.app('tflite.unloadable', (p,), 'B'))
@cons_('BuiltinOpResolver')
def _(e, st, ty, ct, args, n): return SV('BuiltinOpResolver', {})
@cons_('InterpreterBuilder')
def _(e, st, ty, ct, args, n): return SV('InterpreterBuilder', {'m': rv(e, st, args[0]).f['id']})
def tst(nm, e, *a):
    t = T.app('tflite.' + nm, tuple(a), 'I')
    e.gfact(and_(le(ZERO, t), le(t, I(3))))
    return t
@meth(SVM, ('InterpreterBuilder', 'SetNumThreads'))
def _(e, st, x, v, argn, n): return tst('SetNumThreads', e, v.f['m'], A(e, st, argn, 0))
def build_interpreter(e, st, v, p, n):
    r = tst('build', e, v.f['m'])
    lv = e.alloc(st, SV('opaque:Interpreter', {'id': T.app('tflite.interpreter', (v.f['m'],), 'O')}), 'tfl')
    e.store(st, p.lv, Ptr(lv, not_(eq(r, ZERO))), n)
    return r
@meth(SVM, ('opaque', 'AllocateTensors'))
def _(e, st, x, v, argn, n): return tst('AllocateTensors', e, v.f['id'])
@meth(SVM, ('opaque', 'ModifyGraphWithDelegate'))
def _(e, st, x, v, argn, n):
    A(e, st, argn, 0)
    return tst('ModifyGraphWithDelegate', e, v.f['id'])
def runner_of(i, ins): return SV('SignatureRunner', {'id': i, 'in': ins, 'done': FALSE, 'out': T.app('tflite.stale', (i,), 'F')})
@meth(SVM, ('opaque', 'GetSignatureRunner'))
def _(e, st, x, v, argn, n):
    nm = A(e, st, argn, 0)
    e.oblige(st, 'tflite', eq(nm, S('predict')), n, 'the model has a signature of that name')
    i = T.app('tflite.predict', (v.f['id'],), 'O')
    nb = tfl_bands(i)
    old = {f: mkseq(nb, lambda k: T.app('tflite.old.' + f, (i, k), 'F')) for f in TFL_BANDED}
    old['tau'] = T.app('tflite.old.tau', (i,), 'F')
    return Ptr(e.alloc(st, runner_of(i, SV('inputs', old)), 'runner'), FALSE)
import re as _re
def tfl_name(nm):
    """(family, band term) of a tensor name"""
    if nm.op == 'strc':
        if nm.data == 'tau': return 'tau', None
        for f in sorted(TFL_BANDED, key=len, reverse=True):
            m = _re.fullmatch(_re.escape(f) + r'(0|[1-9][0-9]*)', nm.data)
            if m: return f, I(int(m.group(1)))
    if nm.op == 'scat' and len(nm.args) == 2 and nm.args[0].op == 'strc' and nm.args[0].data in TFL_BANDED and nm.args[1].op == 'app' and nm.args[1].data == 'str.of_int':
        return nm.args[0].data, nm.args[1].args[0]
    return None
@meth(SVM, ('SignatureRunner', 'input_tensor'))
def _(e, st, x, v, argn, n):
    nm = A(e, st, argn, 0)
    q = tfl_name(nm)
    e.oblige(st, 'tflite', FALSE if q is None else TRUE, n, 'the model has an input of that name')
    if q is None: raise Unsupported('tensor name %r' % nm)
    f, b = q
    if b is None: return Ptr(x.f('in').f('tau'), FALSE)
    e.oblige(st, 'tflite', and_(le(ZERO, b), lt(b, v.f['in'].f[f].n)), n, 'the model has an input for that band')
    return Ptr(x.f('in').f(f).at(b), FALSE)
@meth(SVM, ('SignatureRunner', 'Invoke'))
def _(e, st, x, v, argn, n):
    ins = v.f['in'].f
    e.store(st, x.f('out'), tfl_score(v.f['id'], [ins[f] for f in TFL_BANDED], ins['tau']), n)
    e.store(st, x.f('done'), TRUE, n)
    return T.app('tflite.invoke', (v.f['id'],), 'I')
@meth(SVM, ('SignatureRunner', 'output_tensor'))
def _(e, st, x, v, argn, n):
    nm = A(e, st, argn, 0)
    e.oblige(st, 'tflite', eq(nm, S('predictions')), n, 'the model has an output of that name')
    return Ptr(x.f('out'), FALSE)
@call_('TfLiteXNNPackDelegateCreate')
def _(e, st, nm, d, argn, n):
    A(e, st, argn, 0)
    return Ptr(e.alloc(st, SV('TfLiteDelegate', {'flags': T.app('tflite.flags', (), 'I')}), 'tfl'), FALSE)
@call_('TfLiteXNNPackDelegateDelete')
def _(e, st, nm, d, argn, n): return UNIT

# ---------------------------------------------------------------- protocol buffer messages
# Read from the .proto files on every run: a message is the record of its fields; accessors read and write exactly their own field.
import os as _os
from .cast import REPO
PTYPES = {'double': 'double', 'float': 'float', 'int32': 'int', 'int64': 'long', 'uint32': 'unsigned int', 'uint64': 'unsigned long', 'bool': 'bool', 'string': 'std::string'}
MSGS = {}          # C++ class -> [(field, repeated, C++ type, is message)]
def _proto(text):
    text = _re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=_re.S)
    tok = _re.findall(r'[A-Za-z_][\w.]*|\d+|"[^"]*"|[{}=;\[\],]', text)
    i = 0; stack = []
    names = set()
    while i < len(tok):
        t = tok[i]
        if t in ('message', 'enum') and tok[i + 2] == '{':
            stack.append(tok[i + 1]); names.add('_'.join(stack)); MSGS.setdefault('_'.join(stack), []); i += 3; continue
        if t == '}': stack.pop(); i += 1; continue
        if stack:
            rep = t == 'repeated'
            if t in ('repeated', 'optional'): i += 1
            ty, nm = tok[i], tok[i + 1]
            if tok[i + 2] == '=':
                MSGS['_'.join(stack)].append([nm, rep, ty, list(stack)])
            while tok[i] != ';': i += 1
        i += 1
def _load():
    d = _os.path.join(REPO, 'src', 'proto')
    for f in sorted(_os.listdir(d)):
        if f.endswith('.proto'): _proto(open(_os.path.join(d, f)).read())
    for m, fs in MSGS.items():
        out = []
        for nm, rep, ty, stk in fs:
            if ty in PTYPES: out.append((nm, rep, PTYPES[ty], False)); continue
            c = [q for k in range(len(stk), -1, -1) for q in ['_'.join(stk[:k] + [ty])] if q in MSGS]
            out.append((nm, rep, c[0] if c else ty, True))
        MSGS[m] = out
    for m in MSGS: _register(m)
def _build(m):
    def b(e, ty, f, p, bs):
        d = {}
        for nm, rep, ty2, msg in MSGS[m]:
            if rep:
                iv = bv('I', 'i')
                d[nm] = Seq(f('#n', p + '.' + nm + '.n', bs, 'I'), iv, e.build(ty2, f, p + '.' + nm + '[]', bs + (iv,)))
            else:
                if msg: d['has_' + nm] = f('bool', p + '.has_' + nm, bs, 'B')
                d[nm] = e.build(ty2, f, p + '.' + nm, bs)
        return SV(m, d)
    return b
def _conv(e, st, a, ty, n):
    v = av(e, st, a)
    if ty == 'std::string': return strof(e, st, v)
    return v
def _register(m):
    BUILD[m] = _build(m)
    @cons_(m)
    def _(e, st, ty, ct, args, n):
        if not args: return e.default(m)
        return rv(e, st, args[0])
    for nm, rep, ty, msg in MSGS[m]:
        def reg(k, f): SVM[(m, k)] = f
        if rep:
            def get(e, st, x, v, argn, n, nm=nm):
                if not argn: return x.f(nm) if isinstance(x, LV) else v.f[nm]
                i = A(e, st, argn, 0)
                e.oblige(st, 'bounds', and_(le(ZERO, i), lt(i, v.f[nm].n)), n, 'index of a repeated field')
                return x.f(nm).at(i) if isinstance(x, LV) else at(v.f[nm], i)
            def size(e, st, x, v, argn, n, nm=nm): e.size_fact(v.f[nm].n); return v.f[nm].n
            def add_(e, st, x, v, argn, n, nm=nm, ty=ty, msg=msg):
                w = e.default(ty) if msg else _conv(e, st, argn[0], ty, n)
                push(e, st, x.f(nm), w)
                return Ptr(x.f(nm).at(v.f[nm].n), FALSE) if msg else UNIT
            def mut(e, st, x, v, argn, n, nm=nm):
                if not argn: return Ptr(x.f(nm), FALSE)
                i = A(e, st, argn, 0)
                e.oblige(st, 'bounds', and_(le(ZERO, i), lt(i, v.f[nm].n)), n, 'index of a repeated field')
                return Ptr(x.f(nm).at(i), FALSE)
            def set_(e, st, x, v, argn, n, nm=nm, ty=ty):
                i = A(e, st, argn, 0)
                e.oblige(st, 'bounds', and_(le(ZERO, i), lt(i, v.f[nm].n)), n, 'index of a repeated field')
                e.store(st, x.f(nm).at(i), _conv(e, st, argn[1], ty, n), n); return UNIT
            def clear(e, st, x, v, argn, n, nm=nm):
                q = v.f[nm]; e.store(st, x.f(nm), Seq(ZERO, q.iv, q.el), n); return UNIT
            reg(nm, get); reg(nm + '_size', size); reg('add_' + nm, add_); reg('mutable_' + nm, mut); reg('clear_' + nm, clear)
            if not msg: reg('set_' + nm, set_)
        else:
            def get(e, st, x, v, argn, n, nm=nm, ty=ty, msg=msg):
                if msg: return vite(v.f['has_' + nm], v.f[nm], e.default(ty))
                if isinstance(v.f[nm], Term) and v.f[nm].sort == 'I':
                    todo = [v.f[nm]]                         # an integer field holds a value of its type, whichever message it is
                    while todo:
                        t = todo.pop()
                        if t.op == 'ite': todo += t.args[1:]
                        else: e.range_fact(st, t, ty)
                return v.f[nm]
            def set_(e, st, x, v, argn, n, nm=nm, ty=ty):
                e.store(st, x.f(nm), _conv(e, st, argn[0], ty, n), n); return UNIT
            def clear(e, st, x, v, argn, n, nm=nm, ty=ty, msg=msg):
                e.store(st, x.f(nm), e.default(ty), n)
                if msg: e.store(st, x.f('has_' + nm), FALSE, n)
                return UNIT
            reg(nm, get); reg('clear_' + nm, clear)
            if msg:
                def has(e, st, x, v, argn, n, nm=nm): return v.f['has_' + nm]
                def mut(e, st, x, v, argn, n, nm=nm, ty=ty):
                    e.store(st, x.f(nm), vite(v.f['has_' + nm], v.f[nm], e.default(ty)), n)
                    e.store(st, x.f('has_' + nm), TRUE, n)
                    return Ptr(x.f(nm), FALSE)
                reg('has_' + nm, has); reg('mutable_' + nm, mut)
            else: reg('set_' + nm, set_)
_load()
def _assign(e, st, x, v, argn, n):
    w = e.ev(argn[0], st); l = lvof(w)
    val = e.rv(st, l)
    if isinstance(w, Moved) and isinstance(l, LV): e.store(st, l, e.movedfrom(val))
    e.store(st, x, val, n); return x
for _t in (STRM, SEQM, MATM, PTRM): _t.setdefault('operator=', _assign)

# ---------------------------------------------------------------- file system, command line flags
# A path is its native string; what exists or can be read, and the working directory, are fixed during a call.
@cons_('path')
def _(e, st, ty, ct, args, n):
    a = [rv(e, st, x) for x in args]
    return strof(e, st, a[0]) if a else S('')
BUILD['path'] = lambda e, ty, f, p, bs: f('string', p, bs, 'S')
@meth(STRM, 'string', 'native', 'generic_string', 'lexically_normal')
def _(e, st, x, v, argn, n):
    if inner(n)[0]['name'] == 'lexically_normal': return None
    return v
def fexists(p): return T.app('fs.exists', (p,), 'B')
CWD = T.var('fs.cwd', 'S')
@call_('exists')
def _(e, st, nm, d, argn, n): return fexists(strof(e, st, av(e, st, argn[0])))
@call_('current_path')
def _(e, st, nm, d, argn, n): return CWD if not args_of(e, st, argn) else None
@call_('SetProgramUsageMessage')
def _(e, st, nm, d, argn, n): return UNIT
@call_('ParseCommandLine')
def _(e, st, nm, d, argn, n):
    st.vars['flags!'] = TRUE
    return NIL
def flag(e, name, sort):
    t = T.var('flag.' + name, sort)
    if sort == 'I' and e is not None: e.gfact(and_(le(I(-(1 << 31)), t), lt(t, I(1 << 31))))
    return t
@call_('GetFlag')
def _(e, st, nm, d, argn, n):
    a = argn[0]
    while a['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr'): a = inner(a)[0]
    r = a.get('referencedDecl', {}).get('name', '')
    if not r.startswith('FLAGS_'): return None
    e.oblige(st, 'flags', TRUE if st.vars.get('flags!') is TRUE else FALSE, n, 'flags are read after the command line was parsed')
    t = tyof(n)
    return flag(e, r[6:], 'B' if t == 'bool' else 'S' if 'string' in t else 'I')
