"""Abstract interpreter of the analysed program over the term domain.

One pass, no path enumeration: branches are joined with gated (ite) values,
loops are summarised for an arbitrary number of iterations, calls to functions
of the repository are resolved and analysed in context, everything else is an
uninterpreted function.  The code under analysis is never imported.
"""
import ast
import re
from . import nd as ndm
from .terms import (
    T, mk, C, sym, kind, isc, isnum, TRUE, FALSE, NONE, ZERO, ONE, EMPTY,
    ite, as_bool, not_, and_, or_, lift, leaves, lt, le, eq, isin, add, sub,
    neg, mul, div, power, inv, Sum, strcat, tostr, joinm, it, splice, seq,
    segs, fm, length, rep, idx, sl, mkdict, pair, mkset, mT, blk, mperm,
    subst, rebuild, free_bv, walk, fresh_bv, fresh_phi, canon_binder,
    subterms_of, nonneg, Blowup, _map, BINDERS, mshape)

MAXDEPTH = 48
UNDEF = mk('undef')


class Abort(Exception):
    """The analysis gives up on this obligation (undecided)."""


class Raised(Exception):
    """the evaluated expression raises this exception in every case"""

    def __init__(self, exc):
        Exception.__init__(self, exc)
        self.exc = exc


class St(object):
    __slots__ = ('d', 'facts')

    def __init__(self, d=None, facts=None):
        self.d = d if d is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return St(dict(self.d), self.facts)


class Out(object):
    """Outcomes of a block: kind -> (cond, state, value)."""
    __slots__ = ('o',)

    def __init__(self):
        self.o = {}


W = ('w',)
_ATOMS = {}


def implied(c, val):
    """literals implied by (c == val)"""
    out = {}
    c0 = c
    seen = set()

    def atoms(t):
        if t.op == 'ite' and t not in seen:
            seen.add(t)
            yield t.args[0]
            for a in t.args[1:]:
                for x in atoms(a):
                    yield x
    ats = []
    for a in atoms(c):
        if a not in ats:
            ats.append(a)
        if len(ats) > 12:
            return out
    bad = FALSE if val else TRUE
    for a in ats:
        t1 = restrict(c0, {a: True})
        if t1 is bad:
            out[a] = False
            continue
        t0 = restrict(c0, {a: False})
        if t0 is bad:
            out[a] = True
    return out


def restrict(t, facts, memo=None):
    """cofactor the top-level MTBDD of t by the facts"""
    if t.op != 'ite' or not facts:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    v = facts.get(t.args[0])
    if v is True:
        r = restrict(t.args[1], facts, memo)
    elif v is False:
        r = restrict(t.args[2], facts, memo)
    else:
        a = restrict(t.args[1], facts, memo)
        b = restrict(t.args[2], facts, memo)
        if a is t.args[1] and b is t.args[2]:
            r = t
        else:
            r = a if a is b else mk('ite', t.args[0], a, b)
    memo[t] = r
    return r


_HN = {}


def has_new(t):
    r = _HN.get(t)
    if r is None:
        if t.op in ('new', 'glob'):
            r = True
        elif t.op == 'fn':
            r = False
        else:
            r = False
            for a in t.args:
                for u in subterms_of(a):
                    if has_new(u):
                        r = True
                        break
                if r:
                    break
        _HN[t] = r
    return r


def contains(t, sub_):
    for u in walk(t):
        if u is sub_:
            return True
    return False


class Fn(object):
    __slots__ = ('node', 'module', 'fid', 'cls', 'qual', 'defaults',
                 'kwdefaults')


class Interp(object):

    def __init__(self, prog, opaque=(), models=None, budget=400000):
        self.numexpr = False
        self.attrhooks = {}
        self.prog = prog
        self.opaque = set(opaque)
        self.models = dict(models or {})
        self.constructed = set()
        self.fopen = None
        self.strs = None
        self.extmodels = {}
        self.methmodels = {}
        self.gheap = {}
        self.fns = {}
        self.closed = set()      # frames that closures refer to
        self.clsinfo = {}
        self.objcls = {}
        self.reclimit = 4
        self.fancy = False
        self.nd = False          # numpy arrays of literal shape (nd.py)
        self.alias = {}          # external name -> class of sa/ref
        self.nnew = 0
        self.nfid = 0
        self.frames = {}         # fid -> (module, cls, parent fid)
        self.depth = 0
        self.steps = 0
        self.budget = budget
        self.unknown = set()
        self.raises = []
        self.callstack = []
        self.visited = set()      # functions analysed
        self.mayraise = None
        self.gcache = {}
        self.rename_free = None

    # ---------------------------------------------------------------- heap

    def new(self, tag='o'):
        self.nnew += 1
        return mk('new', self.nnew, tag)

    def alloc(self, st, content, tag='k'):
        a = self.new(tag)
        st.d[('k', a)] = content
        return a

    def getk(self, st, a):
        """content of an address term (a itself when nothing is known)"""
        v = st.d.get(('k', a))
        if v is None:
            v = self.gheap.get(('k', a))
        if v is None:
            v = self.qread(st, 'k', a, None)
        return a if v is None else v

    def deref(self, st, t):
        """content of t (one level)"""
        if t.op == 'ite':
            r = ite(t.args[0], self.deref(st, t.args[1]),
                    self.deref(st, t.args[2]))
            return restrict(r, st.facts)
        if t.op == 'c':
            return t
        v = self.getk(st, t)
        if v.op == 'ite' and v is not t:
            return restrict(v, st.facts)
        return v

    def setk(self, st, a, content, cond=TRUE):
        if a.op == 'ite':
            for path, leaf in leaves(a):
                c = TRUE
                for at, v in path:
                    c = and_(c, at if v else not_(as_bool(at)))
                old = self.deref(st, leaf)
                cc = content(old) if callable(content) else content
                st.d[('k', leaf)] = ite(c, cc, old)
            return
        st.d[('k', a)] = content(self.deref(st, a)) if callable(content) \
            else content

    def mutate(self, st, a, f):
        self.setk(st, a, f)

    def snapshot(self, st, t, depth=0, busy=()):
        """deep value of t: every address replaced by its contents"""
        memo = {}

        def go(u, busy):
            if u in memo:
                return memo[u]
            if u.op == 'c':
                return u
            k = ('k', u)
            v = st.d.get(k)
            if v is None:
                v = self.gheap.get(k)
            if v is not None and u not in busy:
                r = go(v, busy | {u}) if v is not u else u
                memo[u] = r
                return r
            if not has_new(u) and not self.touched(st, u):
                memo[u] = u
                return u
            if u.op in ('new', 'glob', 'fn', 'bound', 'cls'):
                return u
            if u.op in BINDERS:
                r = rebuild(u.op, (u.args[0],) + tuple(
                    _map(a, lambda x: go(x, busy)) for a in u.args[1:]))
            else:
                r = rebuild(u.op, tuple(_map(a, lambda x: go(x, busy))
                                        for a in u.args))
            if not busy:
                memo[u] = r
            return r
        return go(t, frozenset())

    def touched(self, st, t):
        """whether a 'seq'-like structure may hold mutated symbolic
        addresses as items"""
        if t.op in ('seq', 'it', 'dict', 'pair', 'ite', 'fm'):
            return True
        return False

    # ---------------------------------------------------------------- merge

    def default(self, key):
        if key[0] == 'k':
            g = self.gheap.get(key)
            return g if g is not None else (
                key[1] if key[1].op != 'new' else None)
        if key[0] == 'a':
            if key[1].op == 'new':
                return None
            return None
        return None

    def merge(self, c, s1, s2):
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        d = {}
        d1, d2 = s1.d, s2.d
        for k, v in d1.items():
            w = d2.get(k)
            if w is v:
                d[k] = v
            elif w is None:
                dv = self.absent(k, s2)
                d[k] = v if dv is None else ite(c, v, dv)
            else:
                d[k] = self.mergev(c, k, v, w)
        for k, w in d2.items():
            if k not in d1:
                dv = self.absent(k, s1)
                d[k] = w if dv is None else ite(c, dv, w)
        facts = {a: v for a, v in s1.facts.items()
                 if s2.facts.get(a) is v}
        return St(d, facts)

    def mergev(self, c, k, v, w):
        if k[0] == 'q':
            return tuple(x for x in v) + tuple(x for x in w if x not in v)
        return ite(c, v, w)

    def absent(self, k, st):
        if k[0] == 'k':
            if k[1].op == 'new':
                return None
            g = self.gheap.get(k)
            return g if g is not None else k[1]
        if k[0] == 'a':
            if k[1].op == 'new':
                return mk('noattr') if False else None
            r = self.class_attr_raw(st, k[1], k[2])
            return mk('attr', k[1], k[2]) if r is None else None
        if k[0] == 'v':
            return UNDEF
        if k == W:
            return EMPTY
        return None

    # ---------------------------------------------------------------- names

    def newframe(self, module, cls=None, parent=None):
        self.nfid += 1
        self.frames[self.nfid] = (module, cls, parent)
        return self.nfid

    def regfn(self, node, module, fid, cls, qual, st=None, env=None):
        f = Fn()
        f.node, f.module, f.fid, f.cls, f.qual = node, module, fid, cls, qual
        t = mk('fn', qual, fid or 0)
        if t in self.fns and not fid:
            return t
        a = node.args
        f.defaults = {}
        pos = list(getattr(a, 'posonlyargs', [])) + a.args
        self.fns[t] = f
        k = fid
        while k and k not in self.closed:
            self.closed.add(k)
            k = self.frames[k][2]
        for arg, dflt in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            f.defaults[arg.arg] = self.evdefault(dflt, module, fid, st, qual,
                                                 arg.arg)
        for arg, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if dflt is not None:
                f.defaults[arg.arg] = self.evdefault(dflt, module, fid, st,
                                                     qual, arg.arg)
        return t

    def evdefault(self, e, module, fid, st, qual, name):
        if fid and st is not None:
            return self.ev(e, st, fid)
        s = St()
        fr = self.newframe(module)
        v = self.ev(e, s, fr)
        return self.globalise(s, v, qual + ':' + name)

    def globalise(self, s, v, qual):
        """turn local addresses into named module-level addresses"""
        if v.op == 'new':
            g = mk('glob', qual)
            if ('k', v) in s.d:
                content = s.d[('k', v)]
                self.gheap[('k', g)] = self._glob_inner(s, content, qual)
            else:
                for k, w in list(s.d.items()):
                    if k[0] == 'a' and k[1] is v:
                        self.gheap[('a', g, k[2])] = self._glob_inner(
                            s, w, qual + '.' + k[2])
            if v in self.objcls:
                self.objcls[g] = self.objcls[v]
            return g
        if has_new(v):
            return self._glob_inner(s, v, qual)
        return v

    def _glob_inner(self, s, content, qual):
        n = [0]

        def go(u):
            if u.op == 'new':
                n[0] += 1
                return self.globalise(s, u, '%s#%d' % (qual, n[0]))
            if not has_new(u):
                return u
            if u.op == 'pair':
                return pair(go(u.args[0]),
                            self.globalise(s, u.args[1], '%s[%s]' % (
                                qual, u.args[0])) if u.args[1].op == 'new'
                            else go(u.args[1]))
            return rebuild(u.op, tuple(_map(a, go) for a in u.args))
        return go(content)

    def modglobal(self, modname, name):
        key = (modname, name)
        if key in self.gcache:
            return self.gcache[key]
        r = self.prog.lookup(modname, name)
        if r is None:
            return None
        v = self.fromlookup(r)
        self.gcache[key] = v
        return v

    def fromlookup(self, r):
        if r[0] == 'def':
            m, node = r[1], r[2]
            return self.regfn(node, m, 0, None, m.name + '.' + node.name)
        if r[0] == 'class':
            return mk('cls', r[1].name + '.' + r[2].name)
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'ext':
            return self.extname(r[1])
        if r[0] == 'value':
            m, name, b = r[1], r[2], r[3]
            key = (m.name, name)
            if key in self.gcache:
                return self.gcache[key]
            self.gcache[key] = mk('gval', m.name + '.' + name)
            try:
                v = self.evmodule(m, name)
            except RecursionError:
                raise
            self.gcache[key] = v
            return v
        return None

    def extname(self, n):
        if n == 'numpy.newaxis':
            return NONE
        if n in self.alias:
            q = self.alias[n]
            return q if not isinstance(q, str) else mk('cls', q)
        return mk('ext', n)

    def evmodule(self, m, name):
        """evaluate the module-level statements that bind `name`"""
        st = St()
        fr = self.newframe(m)
        saved = self.depth, self.mayraise
        self.mayraise = None
        found = None
        for stn in self._binding_stmts(m.tree.body, name):
            if isinstance(stn, ast.Assign):
                v = self.ev(stn.value, st, fr)
                for t in stn.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        found = v
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name) and e.id == name:
                                found = idx(self.deref(st, v), C(i))
                    elif isinstance(t, ast.Subscript) and found is not None:
                        k = self.snapshot(st, self.ev(t.slice, st, fr))
                        self.mutate(st, found, lambda d, k=k, v=v:
                                    mkdict(splice(d), pair(k, v))
                                    if d.op == 'dict' else d)
            elif isinstance(stn, ast.AnnAssign):
                found = self.ev(stn.value, st, fr)
            elif isinstance(stn, ast.AugAssign) and found is not None:
                v = self.ev(stn.value, st, fr)
                found = self.binop(stn.op, found, v, st)
            elif isinstance(stn, ast.Expr) and found is not None:
                st.d[('v', fr, name)] = found
                self.ev(stn.value, st, fr)
            elif isinstance(stn, (ast.If, ast.For)):
                if found is not None:
                    st.d[('v', fr, name)] = found
                out = self.block([stn], st, fr)
                if 'n' in out.o:
                    st = out.o['n'][1]
                    found = st.d.get(('v', fr, name), found)
        self.depth, self.mayraise = saved
        if found is None:
            return mk('gval', m.name + '.' + name)
        return self.globalise(st, found, m.name + '.' + name)

    def _binding_stmts(self, body, name):
        for s in body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    hit = False
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and n.id == name:
                            hit = True
                    if hit:
                        yield s
                        break
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                if isinstance(s.target, ast.Name) and s.target.id == name \
                        and s.value is not None:
                    yield s
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) \
                    and isinstance(s.value.func, ast.Attribute) and \
                    isinstance(s.value.func.value, ast.Name) and \
                    s.value.func.value.id == name:
                yield s
            elif isinstance(s, ast.Try):
                for x in self._binding_stmts(s.body, name):
                    yield x
            elif isinstance(s, (ast.If, ast.For)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and n.id == name and \
                            isinstance(n.ctx, ast.Store):
                        yield s
                        break

    BUILTINS = set('''len range enumerate zip map filter sum min max any all
        sorted reversed list tuple dict set frozenset str int float bool abs
        isinstance issubclass hasattr getattr setattr callable type print
        iter next super object repr round open id divmod pow slice property
        staticmethod classmethod Exception ValueError TypeError KeyError
        AttributeError IndexError NotImplementedError AssertionError
        RuntimeError ImportError IOError OSError FileNotFoundError
        UserWarning Warning StopIteration NameError complex eval exec input
        chr ord vars dir globals locals bytes unicode xrange basestring
        ZeroDivisionError ArithmeticError FileExistsError memoryview
        hash delattr format BaseException SystemError EnvironmentError
        NotImplemented Ellipsis'''.split())

    def name(self, n, st, fid):
        f = fid
        while f:
            v = st.d.get(('v', f, n))
            if v is not None:
                return restrict(v, st.facts) if v.op == 'ite' else v
            module, cls, parent = self.frames[f]
            if parent:
                f = parent
            else:
                break
        module = self.frames[fid][0]
        v = self.modglobal(module.name, n)
        if v is not None:
            return v
        if n in self.BUILTINS:
            return mk('builtin', n)
        if n == '__file__':
            return mk('ext', module.name + '.__file__')
        if n == '__name__':
            return C(module.name)
        # star imports
        for s in module.tree.body:
            if isinstance(s, ast.ImportFrom) and any(a.name == '*'
                                                     for a in s.names):
                base = module.resolve_from(s)
                if base in self.prog.modules:
                    v = self.modglobal(base, n)
                    if v is not None:
                        return v
        return mk('unbound', module.name, n)

    # -------------------------------------------------------------- classes

    def cinfo(self, qual):
        c = self.clsinfo.get(qual)
        if c is not None:
            return c
        r = self.prog.find_class(qual)
        if r is None:
            return None
        m, node = r
        c = {'qual': qual, 'module': m, 'node': node, 'bases': [],
             'attrs': {}, 'ext': []}
        self.clsinfo[qual] = c
        st = St()
        fr = self.newframe(m, qual)
        for b in node.bases:
            v = self.ev(b, st, fr)
            if v.op == 'cls':
                c['bases'].append(v.args[0])
            elif v.op == 'ext' or v.op == 'builtin':
                c['ext'].append(v)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                t = self.regfn(s, m, 0, qual, qual + '.' + s.name)
                decs = []
                for d in s.decorator_list:
                    decs.append(d)
                val = t
                for d in decs:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        val = mk('prop', t, NONE)
                    elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                        val = mk('static', t)
                    elif isinstance(d, ast.Name) and d.id == 'classmethod':
                        val = mk('clsmeth', t)
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        # a setter may share the getter's name
                        t2 = mk('fn', qual + '.' + s.name + '.setter', 0)
                        f2 = Fn()
                        for sl_ in Fn.__slots__:
                            try:
                                setattr(f2, sl_, getattr(self.fns[t], sl_))
                            except AttributeError:
                                pass
                        f2.node = s
                        f2.qual = qual + '.' + s.name + '.setter'
                        self.fns[t2] = f2
                        old = c['attrs'].get(s.name)
                        val = mk('prop', old.args[0] if old is not None and
                                 old.op == 'prop' else NONE, t2)
                if not (decs and isinstance(decs[0], ast.Attribute)
                        and decs[0].attr == 'setter'):
                    # a later plain definition replaces the earlier one
                    self.fns[t].node = s
                c['attrs'][s.name] = val
                st.d[('v', fr, s.name)] = val
            elif isinstance(s, ast.Assign):
                v = self.ev(s.value, st, fr)
                v = self.globalise(st, v, qual + '.' + (
                    s.targets[0].id if isinstance(s.targets[0], ast.Name)
                    else '?'))
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c['attrs'][t.id] = v
                        st.d[('v', fr, t.id)] = v
        return c

    def mro(self, qual):
        out = []
        todo = [qual]
        while todo:
            q = todo.pop(0)
            if q in out:
                continue
            c = self.cinfo(q)
            if c is None:
                continue
            out.append(q)
            todo = list(c['bases']) + todo
        return out

    def classattr(self, qual, name):
        for q in self.mro(qual):
            a = self.cinfo(q)['attrs'].get(name)
            if a is not None:
                return a
        return None

    def class_attr_raw(self, st, obj, name):
        q = self.objcls.get(obj)
        if q is None:
            return None
        return self.classattr(q, name)

    def extbases(self, qual):
        out = []
        for q in self.mro(qual):
            out.extend(self.cinfo(q)['ext'])
        return out

    # ------------------------------------------------------------ attributes

    def getattr(self, st, obj, name, dflt=None):
        if obj.op == 'ite':
            return ite(obj.args[0],
                       self.getattr(self.with_fact(st, obj.args[0], True),
                                    obj.args[1], name, dflt),
                       self.getattr(self.with_fact(st, obj.args[0], False),
                                    obj.args[2], name, dflt))
        if obj.op == 'mod':
            sub_ = obj.args[0] + '.' + name
            v = self.modglobal(obj.args[0], name)
            if v is not None:
                return v
            if sub_ in self.prog.modules:
                return mk('mod', sub_)
            return mk('unbound', obj.args[0], name)
        if obj.op == 'ext':
            return self.extname(obj.args[0] + '.' + name)
        v = st.d.get(('a', obj, name))
        if v is None:
            v = self.gheap.get(('a', obj, name))
        if v is not None:
            q = self.objcls.get(obj)
            if q is not None:
                a = self.classattr(q, name)
                if a is not None and a.op == 'prop':
                    return self.call(a.args[0], [obj], {}, st)
            return restrict(v, st.facts) if v.op == 'ite' else v
        q = self.objcls.get(obj)
        if q is not None:
            a = self.classattr(q, name)
            if a is not None:
                return self.bindattr(a, obj, st, q)
            if name == '__class__':
                return mk('cls', q)
            if name == '__dict__':
                return mk('objdict', obj)
        if obj.op == 'cls':
            v = st.d.get(('a', obj, name))
            if v is not None:
                return v
            a = self.classattr(obj.args[0], name)
            if a is not None:
                if a.op == 'static':
                    return a.args[0]
                if a.op == 'clsmeth':
                    return mk('bound', a.args[0], obj)
                return a
            if name == '__name__':
                return C(obj.args[0].rpartition('.')[2])
            return mk('attr', obj, name)
        if obj.op == 'fn' and name == '__name__':
            return C(obj.args[0].rpartition('.')[2])
        if obj.op == 'super':
            return self.superattr(obj, name, st)
        v = self.qread(st, 'a', obj, name)
        if v is not None:
            return v
        if obj.op == 'new' and obj in self.objcls:
            if self.extbases(self.objcls[obj]):
                return mk('meth', obj, name)
            if dflt is not None:
                return dflt
            return mk('attr', obj, name)
        content = self.deref(st, obj)
        if content.op == 'nd':
            v = ndm.attr(self, st, content, name)
            return v if v is not None else mk('meth', obj, name)
        h = self.attrhooks.get(name)
        if h is not None:
            v = h(self, st, content)
            if v is not None:
                return v
        k = kind(content)
        if k == 'mat':
            if name == 'T':
                return self.alloc(st, mT(content))
            if name == 'shape':
                return self.matshape(content)
            if name == 'rows':
                return idx(self.matshape(content), ZERO)
            if name == 'cols':
                return idx(self.matshape(content), ONE)
            if name in ('is_zero', 'is_zero_matrix', 'is_square', 'size',
                        'free_symbols', 'dtype', 'ndim'):
                return mk('attr', content, name)
        if content.op == 'slice' and name in ('start', 'stop', 'step'):
            return content.args[('start', 'stop', 'step').index(name)]
        if content.op == 'slice' and name == 'indices':
            return mk('meth', obj, name)
        if k in ('seq', 'dict', 'set', 'str', 'mat') or \
                obj.op in ('new', 'glob') or \
                name in self.LISTM or name in self.STRM:
            return mk('meth', obj, name)
        return mk('attr', self.keyval(st, obj), name)

    def keyval(self, st, obj):
        """value form of an object used in a term"""
        if has_new(obj) and not (obj.op in ('new', 'glob') and
                                 obj in self.objcls):
            return self.snapshot(st, obj)
        return obj

    LISTM = set('append extend insert pop remove index count sort reverse '
                'copy keys values items update get setdefault add discard '
                'union intersection difference clear popitem '
                'symmetric_difference'.split())
    STRM = set('join split format replace strip lstrip rstrip startswith '
               'endswith lower upper find rfind isdigit partition '
               'rpartition capitalize title encode decode splitlines '
               'zfill'.split())

    def matshape(self, m):
        s = mshape(m)
        if s is not None:
            return seq(it(s[0]), it(s[1]))
        return mk('attr', m, 'shape')

    def superattr(self, obj, name, st):
        cls, self_ = obj.args
        q = self.objcls.get(self_)
        order = self.mro(q) if q else self.mro(cls)
        if cls in order:
            order = order[order.index(cls) + 1:]
        for b in order:
            a = self.cinfo(b)['attrs'].get(name)
            if a is not None:
                return self.bindattr(a, self_, st, b)
        return mk('meth', mk('extsuper', cls, self_), name)

    def bindattr(self, a, obj, st, q):
        if a.op == 'prop':
            if a.args[0] is NONE:
                return mk('attr', obj, 'unreadable')
            return self.call(a.args[0], [obj], {}, st)
        if a.op == 'static':
            return a.args[0]
        if a.op == 'clsmeth':
            return mk('bound', a.args[0], mk('cls', q))
        if a.op == 'fn':
            return mk('bound', a, obj)
        return a

    def with_fact(self, st, atom, val):
        st.facts = dict(st.facts)
        return st

    def setattr(self, st, obj, name, val, line=None):
        if obj.op == 'ite':
            for path, leaf in leaves(obj):
                c = TRUE
                for at, v in path:
                    c = and_(c, at if v else not_(as_bool(at)))
                s2 = st.copy()
                self.setattr(s2, leaf, name, val)
                m = self.merge(c, s2, st)
                st.d = m.d
            return
        q = self.objcls.get(obj)
        if q is not None:
            a = self.classattr(q, name)
            if a is not None and a.op == 'prop' and a.args[1] is not NONE:
                self.call(a.args[1], [obj, val], {}, st)
                return
        if name == '__doc__':
            return
        st.d[('a', obj, name)] = val

    # quantified stores: ('q', kindkey, attr) -> tuple of
    # (bv, n, obj pattern, value)
    def qread(self, st, kk, obj, name):
        ents = st.d.get(('q', kk, name))
        if not ents:
            return None
        for bv, n, pat, val in reversed(ents):
            m = match1(pat, bv, obj)
            if m is not None:
                return subst(val, {bv: m})
        return None

    # --------------------------------------------------------------- events

    def event(self, st, ev):
        st.d[W] = seq(splice(st.d.get(W, EMPTY)), it(ev))

    def trace(self, st):
        return st.d.get(W, EMPTY)

    def note(self, t):
        if self.mayraise is not None:
            self.mayraise.append(t)


def match1(pat, bv, t):
    """m such that pat[bv:=m] is t, or None"""
    res = [None]

    def go(p, u):
        if p is bv:
            if res[0] is None:
                res[0] = u
                return True
            return res[0] is u
        if p is u:
            return True
        if bv not in free_bv(p):
            return False
        if p.op != u.op or len(p.args) != len(u.args) or p.op in BINDERS:
            return False
        for a, b in zip(p.args, u.args):
            if isinstance(a, T) and isinstance(b, T):
                if not go(a, b):
                    return False
            elif a != b:
                return False
        return True
    if go(pat, t) and res[0] is not None:
        return res[0]
    return None
