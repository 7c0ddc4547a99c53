"""Loads and resolves the Python program under analysis (names, imports,
classes, methods) from the current source tree."""
import ast
import os
import warnings

REPO = os.environ.get('PYPHS_SA_REPO', '/repo')


class Module:
    def __init__(self, name, path, tree, ispkg, src):
        self.name, self.path, self.tree = name, path, tree
        self.ispkg, self.src = ispkg, src
        self.names = {}
        self._collect(tree.body)

    def package(self):
        return self.name if self.ispkg else self.name.rpartition('.')[0]

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ('def', st)
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ('class', st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ('import', a.name)
                    else:
                        self.names[a.name.split('.')[0]] = (
                            'import', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                if st.module == '__future__':
                    continue
                base = self.resolve_from(st)
                for a in st.names:
                    self.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ('assign', st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.names[e.id] = ('unpack', st.value, i)
            elif isinstance(st, ast.AnnAssign) and st.value is not None \
                    and isinstance(st.target, ast.Name):
                self.names[st.target.id] = ('assign', st.value)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    sub = Module.__new__(Module)
                    sub.names = {}
                    sub.name, sub.ispkg = self.name, self.ispkg
                    sub._collect(h.body)
                    for k, v in sub.names.items():
                        self.names.setdefault(k, v)
                self._collect(st.orelse)
                self._collect(st.finalbody)
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, (ast.With,)):
                self._collect(st.body)

    def resolve_from(self, st):
        if st.level == 0:
            return st.module
        pkg = self.package().split('.')
        if st.level > 1:
            pkg = pkg[:len(pkg) - (st.level - 1)]
        return '.'.join(pkg + ([st.module] if st.module else []))


class Program:
    def __init__(self, root=None, package='pyphs'):
        self.root = root or REPO
        self.package = package
        self.modules = {}
        self.errors = []
        base = os.path.join(self.root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in
                             ('__pycache__', '.git'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
                ispkg = rel[-1] == '__init__'
                if ispkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                try:
                    with open(p, encoding='utf8') as fh:
                        src = fh.read()
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(src, p)
                except (SyntaxError, UnicodeDecodeError, ValueError) as e:
                    self.errors.append((p, str(e)))
                    continue
                self.modules[name] = Module(name, p, tree, ispkg, src)

        self.nrepo = len(self.modules)
        here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ref')
        for f in sorted(os.listdir(here)):
            if f.endswith('.py') and f != '__init__.py':
                p = os.path.join(here, f)
                with open(p) as fh:
                    src = fh.read()
                n = 'ref.' + f[:-3]
                self.modules[n] = Module(n, p, ast.parse(src, p), False, src)

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def lookup(self, modname, name, depth=0):
        """Follow re-exports: returns (kind, module, node/..)"""
        if depth > 12:
            return None
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        b = m.names.get(name)
        if b is None:
            sub = modname + '.' + name
            if sub in self.modules:
                return ('mod', sub)
            return None
        if b[0] in ('def', 'class'):
            return (b[0], m, b[1])
        if b[0] == 'import':
            if b[1] in self.modules:
                return ('mod', b[1])
            return ('ext', b[1])
        if b[0] == 'from':
            if b[1] is None:
                return ('ext', name)
            sub = b[1] + '.' + b[2]
            r = None
            if b[1] in self.modules:
                if b[1] == modname and b[2] == name:
                    if sub in self.modules:
                        return ('mod', sub)
                    return None
                r = self.lookup(b[1], b[2], depth + 1)
            if r is not None:
                return r
            if sub in self.modules:
                return ('mod', sub)
            return ('ext', sub)
        if b[0] in ('assign', 'unpack'):
            return ('value', m, name, b)
        return None

    def find_class(self, qual):
        mod, _, cls = qual.rpartition('.')
        r = self.lookup(mod, cls)
        if r and r[0] == 'class':
            return r[1], r[2]
        return None

    def find_function(self, qual):
        """pyphs.a.b.func or pyphs.a.b.Class.meth -> (module, class, node)"""
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            if mod in self.modules:
                rest = parts[i:]
                r = self.lookup(mod, rest[0])
                if r is None:
                    return None
                if r[0] == 'def' and len(rest) == 1:
                    return r[1], None, r[2]
                if r[0] == 'class' and len(rest) == 2:
                    for st in r[2].body:
                        if isinstance(st, ast.FunctionDef) and \
                                st.name == rest[1]:
                            return r[1], r[2], st
                return None
        return None

    def functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n
