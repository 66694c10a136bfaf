"""Clang AST extraction: every run re-parses /repo's current sources with clang's
own front end; nothing is hand-copied.  Dropped by the extraction: comments,
macros (seen expanded), and everything outside namespace Visqol."""
import json, subprocess, os, re, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('DV_REPO', '/repo')
SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'shim')

class ExtractError(Exception): pass

def genproto(outdir):
    os.makedirs(outdir, exist_ok=True)
    protos = [os.path.join('src/proto', f) for f in sorted(os.listdir(REPO + '/src/proto')) if f.endswith('.proto')]
    subprocess.run(['protoc', '--cpp_out=' + outdir, '-I' + REPO] + [REPO + '/' + p for p in protos], check=True)

def flags(gen):
    return ['-std=c++17', '-DNDEBUG', '-DARMA_DONT_USE_WRAPPER', '-I' + REPO + '/src/include', '-I' + REPO + '/src/svr_training',
            '-I' + REPO, '-I' + gen, '-I/usr/include/libsvm', '-I' + SHIM]

_cn = {}
def canon(t):
    r = _cn.get(t)
    if r is None:
        r = _cn[t] = re.sub(r'\b(?:std|Visqol|arma)::', '', t).replace('(anonymous namespace)', '(anon)').replace(' >', '>').strip()
    return r

def _unnamed(d):
    """the way types spell an unnamed struct"""
    for c in d.get('inner', ()):
        if c.get('name', '').startswith('(unnamed '): return c['name']
class Fn:
    def __init__(s): pass
    def __repr__(s): return 'Fn(%s @%s:%s)' % (s.qname, os.path.basename(s.file or '?'), s.line)

class TU:
    """one parsed translation unit"""
    def __init__(self, src, idx):
        self.src, self.idx = src, idx
        self.decls = {}      # id -> node
        self.qname = {}      # id -> qualified name
        self.canon = {}      # id -> first decl id
        self.fns = {}        # id -> Fn (all function decls)
        self.records = {}    # qname -> record node with definition
        self.vars = {}       # id -> node

def run_clang(src, gen, extra=()):
    cmd = ['clang++'] + flags(gen) + list(extra) + ['-fsyntax-only', '-Wno-everything', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=Visqol', src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (src, p.stderr[:2000]))
    return p.stdout

def parse_docs(text):
    dec = json.JSONDecoder(); i = 0; n = len(text); docs = []
    while i < n:
        while i < n and text[i] in ' \r\n\t': i += 1
        if i >= n: break
        if text.startswith('Dumping', i):
            i = text.find('\n', i) + 1; continue
        d, i = dec.raw_decode(text, i)
        docs.append(d)
    return docs

def _locs(node, st):
    """clang delta-encodes file/line; restore them"""
    def upd(l):
        if not isinstance(l, dict): return
        if 'spellingLoc' in l: upd(l['spellingLoc'])
        if 'expansionLoc' in l: upd(l['expansionLoc'])
        if 'file' in l: st[0] = l['file']
        if 'line' in l: st[1] = l['line']
    stack = [node]
    def visit(n):
        upd(n.get('loc'))
        if 'loc' in n and n['loc']: n['_f'], n['_l'] = st[0], st[1]
        r = n.get('range')
        if r:
            upd(r.get('begin'))
            if '_l' not in n: n['_f'], n['_l'] = st[0], st[1]
            upd(r.get('end'))
        for k in n.get('inner', ()):
            if isinstance(k, dict) and k: visit(k)
    visit(node)

LIBRECORDS = {'svm_node': [('index', 'int'), ('value', 'double')],
    'TfLiteXNNPackDelegateOptions': [('num_threads', 'int'), ('flags', 'unsigned int')]}
class Program:
    def __init__(self, sources, gen):
        self.tus = []
        self.defs = {}       # (qname, typestr) -> Fn with body
        self.byname = {}     # qname -> [Fn with body]
        self.records = {}
        self.gen = gen
        srcs = [os.path.join(REPO, s) if not os.path.isabs(s) else s for s in sources]
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda s: run_clang(s, gen), srcs))
        import sys
        sys.setrecursionlimit(100000)
        for i, (s, t) in enumerate(zip(srcs, texts)):
            self.tus.append(self._load(s, i, t))
        for q, fs in LIBRECORDS.items():      # plain records of C libraries (their headers are outside the AST dump's filter)
            self.records.setdefault(q, (self.tus[0], {'kind': 'CXXRecordDecl', 'name': q, 'completeDefinition': True, 'definitionData': {},
                'inner': [{'kind': 'FieldDecl', 'name': n, 'type': {'qualType': t}} for n, t in fs]}))
    def load_rest(self):
        """parse the sources not listed (a definition may have moved)"""
        have = {t.src for t in self.tus}
        d = os.path.join(REPO, 'src')
        rest = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cc') and os.path.join(d, f) not in have and f != 'main.cc']
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda s: run_clang(s, self.gen), rest))
        for s, t in zip(rest, texts): self.tus.append(self._load(s, len(self.tus), t))
        return bool(rest)
    def _load(self, src, idx, text):
        tu = TU(src, idx)
        st = [None, None]
        docs = parse_docs(text)
        al = {}
        for d in docs:
            if d.get('kind') != 'NamespaceDecl': continue
            for c in d.get('inner', ()):
                if c.get('kind') in ('TypeAliasDecl', 'TypedefDecl') and c.get('name'):
                    t = c['type'].get('desugaredQualType', c['type'].get('qualType', ''))
                    if '(' not in t: al[c['name']] = t
        if al:
            rx = re.compile(r'(?:\bVisqol::)?\b(?:%s)\b' % '|'.join(al))
            sub = lambda t: rx.sub(lambda m: al[m.group(0).split('::')[-1]], t)
            todo = list(docs)
            while todo:
                n = todo.pop()
                for v in n.values():
                    if isinstance(v, dict):
                        q = v.get('qualType')
                        if q is not None and rx.search(q):
                            v['qualType'] = sub(q)
                            if 'desugaredQualType' in v and rx.search(v['desugaredQualType']): v['desugaredQualType'] = sub(v['desugaredQualType'])
                        elif 'inner' in v or 'type' in v: todo.append(v)
                    elif isinstance(v, list): todo += [x for x in v if isinstance(x, dict)]
        for d in docs:
            _locs(d, st)
            if d.get('kind') == 'NamespaceDecl':
                self._ns(tu, d, '')
            else:
                self._decl(tu, d, '', None)
        self._resolve(tu)
        return tu
    def _ns(self, tu, d, prefix):
        name = d.get('name')
        q = prefix + (name + '::' if name else '(anon)::' if not d.get('isInline') else '')
        for c in d.get('inner', ()):
            if c and not (c.get('_f') or '').endswith('.pb.h'): self._decl(tu, c, q, None)      # generated message classes: contracts in dv/libx.py
    def _decl(self, tu, d, q, rec):
        k = d.get('kind', '')
        i = d.get('id')
        if i: tu.decls[i] = d
        name = d.get('name', '')
        if k == 'NamespaceDecl': return self._ns(tu, d, q)
        if k in ('LinkageSpecDecl',):
            for c in d.get('inner', ()): self._decl(tu, c, q, None)
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            for c in d.get('inner', ()):
                ck = c.get('kind')
                if ck in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl', 'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    if ck in ('CXXRecordDecl',) : 
                        self._decl(tu, c, q + '<tmpl>', None); continue
                    self._decl(tu, c, q, rec)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            if k == 'ClassTemplateSpecializationDecl':
                targs = [a.get('type', {}).get('qualType', str(a.get('value', '?'))) for a in d.get('inner', ()) if a.get('kind') == 'TemplateArgument']
                name = '%s<%s>' % (name, ', '.join(targs))
            rq = q + (name or _unnamed(d) or '(anon%s)' % i)
            tu.qname[i] = rq
            d['_q'] = rq
            if d.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in d.get('inner', ())):
                tu.records[rq] = d
                self.records.setdefault(rq, (tu, d))
            for c in d.get('inner', ()):
                if c and c.get('kind') not in ('TemplateArgument',): self._decl(tu, c, rq + '::', rq)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            f = Fn(); f.id, f.node, f.tu, f.kind = i, d, tu, k
            f.name, f.file, f.line = name, d.get('_f'), d.get('_l')
            f.prefix, f.rec = q, rec
            f.type = d.get('type', {}).get('qualType', '')
            f.params = [c for c in d.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
            b = [c for c in d.get('inner', ()) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
            f.body = b[0] if b else None
            f.inits = [c for c in d.get('inner', ()) if c.get('kind') == 'CXXCtorInitializer']
            f.static = d.get('storageClass') == 'static'
            f.virtual = d.get('virtual', False)
            f.qname = q + name
            tu.fns[i] = f
            for pdecl in f.params: tu.decls[pdecl['id']] = pdecl
            return
        if k in ('VarDecl', 'FieldDecl', 'EnumConstantDecl'):
            tu.vars[i] = d; d['_q'] = q + name
            tu.qname[i] = q + name
            return
        if k == 'EnumDecl':
            n = 0
            for c in d.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    tu.decls[c['id']] = c; tu.vars[c['id']] = c; c['_q'] = q + name + '::' + c['name']
                    for e in c.get('inner', ()):
                        if 'value' in e:
                            try: n = int(e['value'])
                            except ValueError: pass
                    c['_v'] = n; n += 1
            return
    def _resolve(self, tu):
        # out-of-line definitions: find owner through previousDecl / parentDeclContextId
        for f in list(tu.fns.values()):
            n = f.node
            pd = n.get('previousDecl'); pc = n.get('parentDeclContextId')
            if f.rec is None:
                if pd and pd in tu.fns:
                    o = tu.fns[pd]; f.rec, f.qname = o.rec, o.qname
                    f.static = f.static or o.static; f.virtual = f.virtual or o.virtual
                elif pc and pc in tu.qname:
                    f.rec = tu.qname[pc]; f.qname = f.rec + '::' + f.name
        for i, v in list(tu.vars.items()):
            pd = v.get('previousDecl')
            if pd and pd in tu.vars: v['_q'] = tu.vars[pd]['_q']
        for f in tu.fns.values():
            if f.body is not None:
                key = (canon(f.qname), canon(f.type))
                self.defs.setdefault(key, f)
                l = self.byname.setdefault(f.qname, [])
                if not any(g.type == f.type and g.file == f.file and g.line == f.line for g in l): l.append(f)
    def record(self, q):
        r = self.records.get(q)
        return r
    def find_def(self, f):
        """definition for a (possibly body-less) declaration"""
        if f.body is not None: return f
        key = (canon(f.qname), canon(f.type))
        d = self.defs.get(key)
        if d is None and f.qname.startswith('Visqol') and self.load_rest(): d = self.defs.get(key)
        return d
    def find(self, qname, typ=None):
        """definitions with this qualified name (optionally: type text contains typ)"""
        for k in (0, 1):
            l = [f for f in self.byname.get(qname, []) if typ is None or typ in f.type]
            if l: return l
            if k == 0 and not self.load_rest(): break
        return []
    def src_hash(self):
        h = hashlib.sha256()
        for t in self.tus: h.update(open(t.src, 'rb').read())
        return h.hexdigest()[:16]
