"""Mechanical extraction: clang's typed AST of /repo's *current* sources.

The driver translation unit only #includes the repository's own headers/sources and
instantiates their templates at T=double; every statement that the verifier executes comes
from that AST.  Nothing here rewrites code.
"""
import json, os, subprocess, sys, hashlib, tempfile, re
sys.setrecursionlimit(200000)
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang++'
if not os.path.exists(CLANG):
    CLANG = 'clang++-18'


class ExtractionError(Exception):
    pass


def norm_name(s):
    s = s.strip()
    s = re.sub(r'\b(class|struct|enum|typename)\s+', '', s)
    return s


# ---------------------------------------------------------------- types
_INTS = {
    'unsigned long': (64, False), 'size_t': (64, False), 'std::size_t': (64, False),
    'unsigned long long': (64, False), 'uint64_t': (64, False), 'unsigned int': (32, False),
    'unsigned': (32, False), 'uint32_t': (32, False), 'unsigned short': (16, False), 'uint16_t': (16, False),
    'unsigned char': (8, False), 'uint8_t': (8, False),
    'int': (32, True), 'long': (64, True), 'long long': (64, True), 'short': (16, True),
    'char': (8, True), 'signed char': (8, True), 'ptrdiff_t': (64, True), 'int64_t': (64, True), 'int32_t': (32, True),
    'std::ptrdiff_t': (64, True), 'unsigned __int128': (128, False),
}


def split_targs(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_tcache = {}


def parse_type(s):
    r = _tcache.get(s)
    if r is None:
        r = _tcache[s] = _parse_type(s)
    return r


def _parse_type(s):
    s = norm_name(s)
    while True:
        t = s
        s = re.sub(r'^(const|volatile|mutable)\s+', '', s).strip()
        s = re.sub(r'\s+(const|volatile)$', '', s).strip()
        s = re.sub(r'([*&])\s*(const|volatile|__restrict)$', r'\1', s).strip()
        if s == t:
            break
    if s.startswith('(lambda at') or s.startswith('lambda'):
        return ('fn', s)
    if s.endswith('&&'):
        return ('ref', parse_type(s[:-2]))
    if s.endswith('&'):
        return ('ref', parse_type(s[:-1]))
    if s.endswith('*'):
        return ('ptr', parse_type(s[:-1]))
    if s in _INTS:
        return ('int',) + _INTS[s]
    if s in ('bool', '_Bool'):
        return ('bool',)
    if s in ('double', 'float', 'long double'):
        return ('real',)
    if s == 'void':
        return ('void',)
    if s in ('std::nullptr_t', 'nullptr_t'):
        return ('ptr', ('void',))
    if s in ('std::string', 'std::basic_string<char>', 'basic_string<char>', 'string',
             'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'):
        return ('str',)
    m = re.match(r'^(.*?)\[(\d+)\]$', s)
    if m:
        return ('arr', parse_type(m.group(1)), int(m.group(2)))
    if '(*)' in s:
        return ('fn', s)
    m = re.match(r'^([\w:]+)<(.*)>$', s)
    if m and balanced(m.group(2)):
        n, a = m.group(1), split_targs(m.group(2))
        base = n.split('::')[-1]
        if n.startswith('std') or '::' not in n or n.startswith('__gnu'):
            if base == 'vector':
                return ('vec', parse_type(a[0]))
            if base == 'initializer_list':
                return ('vec', parse_type(a[0]))
            if base == 'optional':
                return ('opt', parse_type(a[0]))
            if base == 'pair':
                return ('pair', parse_type(a[0]), parse_type(a[1]))
            if base == 'function':
                return ('fn', s)
            if base in ('unordered_set', 'set'):
                return ('uset', parse_type(a[0]))
            if base in ('unordered_map', 'map'):
                return ('umap', parse_type(a[0]), parse_type(a[1]))
            if base in ('list', 'deque', 'queue'):
                return ('vec', parse_type(a[0]))
            if base == 'priority_queue':
                return ('pq', parse_type(a[0]), a[2] if len(a) > 2 else '')
            if base == '__normal_iterator':
                return ('iter', s)
            if base in ('remove_reference_t', 'decay_t'):
                return parse_type(a[0])
            if base in ('unique_ptr', 'shared_ptr'):
                return ('ptr', parse_type(a[0]))
    return ('cls', s)


def balanced(s):
    d = 0
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
            if d < 0:
                return False
    return d == 0


def node_type(n):
    t = n.get('type')
    if not t:
        return ('void',)
    q = t.get('desugaredQualType') or t.get('qualType')
    return parse_type(q)


def fn_sig(q):
    """'R (A, B) const' -> list of normalized parameter strings"""
    # find the last top-level (...) group
    depth = 0
    end = q.rfind(')')
    i = end
    while i >= 0:
        if q[i] == ')':
            depth += 1
        elif q[i] == '(':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    return split_targs(q[i + 1:end])


class AST:
    def __init__(self):
        self.by_id = {}
        self.funcs = {}        # id -> function decl having a body
        self.canon = {}        # id -> id of the declaration it redeclares (first)
        self.defs = {}         # canonical id -> decl with body
        self.qual = {}         # id -> qualified name
        self.classes = {}      # qualified class name -> class node (definition)
        self.owner = {}        # method id -> class name
        self.by_name = {}      # qualified function name -> [decl]
        self.files = set()

    # -------------------------------------------------------------
    def load(self, text):
        dec = json.JSONDecoder()
        i, n = 0, len(text)
        objs = []
        while i < n:
            while i < n and text[i].isspace():
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(text, i)
            objs.append(o)
        self._loc = (None, None)
        for o in objs:
            self._index(o, [], None, False)
        for d in self.funcs.values():
            self.defs[self._canon(d['id'])] = d
        for d in list(self.funcs.values()):
            q = self.qual.get(d['id'])
            self.by_name.setdefault(q, []).append(d)
        return self

    def _canon(self, i):
        seen = 0
        while i in self.canon and seen < 50:
            i = self.canon[i]; seen += 1
        return i

    def _setloc(self, n):
        loc = n.get('loc') or {}
        r = n.get('range', {}).get('begin', {})
        for l in (loc, loc.get('expansionLoc', {}), r, r.get('expansionLoc', {})):
            if 'file' in l:
                self._f = l['file']
            if 'line' in l:
                self._l = l['line']
        n['_f'] = getattr(self, '_f', None)
        n['_l'] = getattr(self, '_l', None)

    def _index(self, n, path, cls, dependent):
        """declaration level walk"""
        k = n.get('kind')
        if k is None:
            return
        self._walkloc(n)
        nm = n.get('name')
        i = n.get('id')
        if i:
            self.by_id[i] = n
        if k == 'NamespaceDecl':
            for x in n.get('inner', []):
                self._index(x, path + ([nm] if nm else []), cls, dependent)
            return
        if k == 'ClassTemplateDecl':
            for x in n.get('inner', []):
                kk = x.get('kind')
                if kk == 'CXXRecordDecl':
                    # the dependent pattern; remember default member inits only
                    self._class(x, path, True, x.get('name'))
                elif kk in ('ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
                    self._index(x, path, cls, dependent)
            return
        if k == 'ClassTemplateSpecializationDecl':
            args = []
            for x in n.get('inner', []):
                if x.get('kind') == 'TemplateArgument':
                    t = x.get('type', {})
                    args.append(t.get('desugaredQualType') or t.get('qualType') or str(x.get('value')))
            self._class(n, path, False, '%s<%s>' % (nm, ', '.join(args)))
            return
        if k == 'CXXRecordDecl':
            self._class(n, path, dependent, nm)
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for x in n.get('inner', []):
                if x.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    dep = any(y.get('kind') == 'TemplateArgument' for y in x.get('inner', []))
                    self._func(x, path, cls, not dep)
                    first = False
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self._func(n, path, cls, dependent)
            return
        if k in ('FieldDecl', 'VarDecl', 'EnumConstantDecl'):
            self.qual[i] = '::'.join(path + [nm or '?'])
            return
        if k in ('EnumDecl', 'LinkageSpecDecl'):
            for x in n.get('inner', []) or []:
                self._index(x, path, cls, dependent)

    def _walkloc(self, n):
        if '_l' in n:
            return
        self._setloc(n)
        for x in n.get('inner', []) or []:
            self._walkloc(x)

    def _class(self, n, path, dependent, nm):
        q = '::'.join(path + [nm or '?'])
        n['_q'] = q
        n['_dep'] = dependent
        self.by_id[n['id']] = n
        if n.get('completeDefinition') and not dependent:
            self.classes[q] = n
        elif n.get('completeDefinition'):
            self.classes.setdefault('dep:' + q, n)
        for x in n.get('inner', []) or []:
            self._index(x, path + [nm or '?'], q, dependent)

    def _func(self, n, path, cls, dependent):
        i = n['id']
        if cls is None and n.get('parentDeclContextId'):
            p = self.by_id.get(n['parentDeclContextId'])
            if p is not None and p.get('_q'):
                cls = p['_q']
                path = cls.split('::') if '<' not in cls else [cls]
                dependent = dependent or p.get('_dep', False)
        self.owner[i] = cls
        q = '::'.join(path + [n.get('name', '?')])
        if cls:
            q = cls + '::' + n.get('name', '?')
        self.qual[i] = q
        if n.get('previousDecl'):
            self.canon[i] = n['previousDecl']
        n['_cls'] = cls
        n['_q'] = q
        body = [x for x in n.get('inner', []) if x.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
        n['_params'] = [x for x in n.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        for p in n['_params']:
            self.by_id[p['id']] = p
        n['_body'] = body[0] if body else None
        n['_dep'] = dependent
        if body and not dependent:
            self.funcs[i] = n
            if n.get('_f'):
                self.files.add(n['_f'])

    # -------------------------------------------------------------
    def definition(self, i):
        """definition (with body) of the function declared by id i, or None"""
        c = self._canon(i)
        return self.defs.get(c) or self.funcs.get(i)

    def cls_node(self, q):
        c = self.classes.get(q)
        if c is None:
            for pre in ('nnet::', 'rocnnet::'):
                c = self.classes.get(pre + q)
                if c is not None:
                    return c
        return c

    def cls_name(self, q):
        c = self.cls_node(q)
        return c['_q'] if c is not None else q

    def fields(self, q):
        c = self.cls_node(q)
        if c is None:
            raise ExtractionError('class %s not in AST' % q)
        out = []
        for b in self.bases(q):
            if self.cls_node(b) is not None:
                out += self.fields(b)
        for x in c.get('inner', []) or []:
            if x.get('kind') == 'FieldDecl':
                out.append(x)
        return out

    def bases(self, q):
        c = self.cls_node(q)
        if c is None:
            return []
        out = []
        for b in c.get('bases', []) or []:
            t = b['type']
            out.append(norm_name(t.get('desugaredQualType') or t['qualType']))
        return out

    def methods(self, q, name=None):
        c = self.cls_node(q)
        out = []
        for x in c.get('inner', []) or []:
            ks = [x]
            if x.get('kind') == 'FunctionTemplateDecl':
                ks = x.get('inner', [])
            for y in ks:
                if y.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                    if name is None or y.get('name') == name:
                        out.append(y)
        return out

    def is_derived(self, d, b):
        d, b = self.cls_name(d), self.cls_name(b)
        if d == b:
            return True
        return any(self.is_derived(x, b) for x in self.bases(d))

    def find(self, qname, nparams=None, sig=None):
        """definitions by qualified name (nnet::tensorshape::n_elems)"""
        c = [d for d in self.by_name.get(qname, [])]
        if nparams is not None:
            c = [d for d in c if len(d['_params']) == nparams]
        if sig is not None:
            c = [d for d in c if sig in d['type']['qualType']]
        if not c:
            raise ExtractionError('function %s not found in current source' % qname)
        return c[0]


# ---------------------------------------------------------------- running clang
PROTO_OUT = None


def scratch():
    global PROTO_OUT
    d = os.environ.get('VERIF_SCRATCH')
    if not d:
        d = tempfile.mkdtemp(prefix='rocverif.')
        os.environ['VERIF_SCRATCH'] = d
        import atexit, shutil
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def gen_proto():
    """protobuf header generated from /repo's .proto outside /repo"""
    d = os.path.join(scratch(), 'gen')
    out = os.path.join(d, 'proto')
    if not os.path.exists(os.path.join(out, 'tenncor.pb.h')):
        os.makedirs(out, exist_ok=True)
        p = os.path.join(REPO, 'app/tenncor/proto/serial')
        subprocess.run(['/usr/bin/protoc', '-I', p, '--cpp_out', out, os.path.join(p, 'tenncor.proto')], check=True)
    return d


def include_flags():
    return ['-I' + os.path.join(REPO, 'app/tenncor/include'), '-I' + os.path.join(REPO, 'app/rocnnet/include'),
            '-I' + os.path.join(REPO, 'app/tenncor'), '-I' + gen_proto(), '-I' + REPO]


def load_ast(driver, defines=('ENABLE_STRASSEN',), filt='nnet'):
    cmd = [CLANG, '-std=c++14', '-fsyntax-only', '-w'] + ['-D' + d for d in defines] + include_flags() + \
          ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, driver]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractionError('clang failed on %s:\n%s' % (driver, p.stderr.decode()[-3000:]))
    return AST().load(p.stdout.decode())
