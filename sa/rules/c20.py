"""Generated C++ code: the class written for a method is complete and executes
the same method (initial values, mutators, update with its iterations,
accessors, sample rate, parameters), and the program written for a simulation
reads, updates and writes each time step where the Python data has it.

The generator is interpreted with opaque expressions, each printed as a marker
HOLEkX; the text is then parsed and evaluated (sa/cxx.py) on terms, a marker
being a function of the values its free symbols point to.  The reference
executes the update actions of the method itself.  A text that declares and
defines different methods, uses a name nobody declares or mixes shapes is an
error of the generated class."""
import os
import re
import hashlib
import string
from . import common as cm
from .common import litlist, litmat
from . import c11, c12, c17
from .. import terms as tm, nd, cxx
from ..interp import Raised
from ..terms import mk, C, sym

FLOOR = 10
F = 'pyphs/numerics/cpp/'
M2C = 'pyphs.numerics.cpp.method2cpp.method2cpp'
S2C = 'pyphs.numerics.cpp.simu2cpp.simu2cpp'


class Holes(object):
    """expressions printed in C++: text <<k>> for the k-th"""

    def __init__(self):
        self.exprs = []
        self.deref = []

    def ccode(self, m, st, args, kw):
        e = m.snapshot(st, args[0])
        d = kw.get('dereference')
        d = m.snapshot(st, d) if d is not None else tm.EMPTY
        names = [g.args[0] for g in d.args if g.op == 'it']
        if e.op == 'c' and isinstance(e.args[0], (int, float)):
            return C(repr(e.args[0]))
        self.exprs.append(e)
        self.deref.append(names)
        return C('HOLE%dX' % (len(self.exprs) - 1))


def free(e, args, pars):
    """free symbols of an opaque expression: drawn from its name"""
    h = hashlib.sha256(tm.pp(e).encode()).digest()
    out = []
    kind = h[0] % 4
    if kind:
        for k, a in enumerate(args):
            if h[1 + k % 15] % 3 == 0:
                out.append(a)
    if kind != 1:
        for k, a in enumerate(pars):
            if h[20 + k % 10] % 2:
                out.append(a)
    return out


def textmodels(r):
    """files and templates"""
    m = r.m
    files = m.alloc(r.st, tm.mkdict())

    def fopen(mm, st, args, kw):
        mode = kw.get('mode', args[1] if len(args) > 1 else C('r'))
        return mm.call(mk('cls', 'ref.files.File'), [files, args[0], mode],
                       {}, st)
    m.fopen = fopen
    e = m.extmodels
    e['string.Template'] = lambda mm, st, args, kw: mm.call(
        mk('cls', 'ref.files.Template'), args, {}, st)

    def join(mm, st, args, kw):
        v = [mm.snapshot(st, a) for a in args]
        if all(tm.isc(x) for x in v):
            return C('/'.join(x.args[0].rstrip('/') for x in v))
    e['os.path.join'] = join
    for n in ('os.path.exists', 'os.path.isfile', 'os.path.isdir'):
        e.setdefault(n, lambda mm, st, args, kw: tm.TRUE)
    for n in ('os.mkdir', 'os.makedirs', 'os.chmod', 'os.chdir'):
        e[n] = lambda mm, st, args, kw: tm.NONE
    e['os.getcwd'] = lambda mm, st, args, kw: C('/cwd')
    root = os.path.join(m.prog.root if hasattr(m.prog, 'root') else
                        os.environ.get('PYPHS_SA_REPO', '/repo'))

    def template(mm, st, args, kw):
        p = mm.snapshot(st, args[0])
        if not tm.isc(p) or not p.args[0].startswith('/templates/'):
            return None
        with open(os.path.join(root, 'pyphs', p.args[0][1:])) as f:
            return C(f.read())

    def fill(mm, st, args, kw):
        t, d = [mm.snapshot(st, a) for a in args]
        if not tm.isc(t) or d.op != 'dict':
            return None
        sub = {}
        for g in d.args:
            if g.op != 'pair' or not tm.isc(g.args[0]) or \
                    g.args[1].op != 'c':
                return None
            sub[g.args[0].args[0]] = g.args[1].args[0]
        try:
            return C(string.Template(t.args[0]).substitute(sub))
        except (KeyError, ValueError):
            raise Raised(mk('exc', 'KeyError'))
    m.models['ref.files.template'] = template
    for n in ('pyphs.templates', 'pyphs'):
        m.gcache[(n, 'path_to_templates')] = C('/templates')

    m.alias['os.sep'] = C('/')
    m.alias['os.path.sep'] = C('/')
    m.models['ref.files.fill'] = fill
    m.models['pyphs.misc.tools.get_time'] = \
        lambda mm, st, args, kw: C('today')
    return files


def setup(split, nx, nw, dims, nobs=1, npar=2, scalar=False, sparse=False):
    r, core, me, trace, before = c12.built('discret', split, nx, nw, dims,
                                           nobs)
    m = r.m
    nd.use(m)
    m.reclimit = 12
    m.budget = 10 ** 8
    holes = Holes()
    e = m.extmodels
    files = textmodels(r)
    e['sympy.printing.ccode'] = holes.ccode
    e['sympy.ccode'] = holes.ccode
    m.attrhooks['shape'] = lambda mm, st, t: \
        tm.EMPTY if tm.kind(t) == 'num' else None
    e['numpy.sqrt'] = lambda mm, st, args, kw: sym('VALUE_s', 'num')

    def inv(mm, st, args, kw):
        a = nd.arr(mm, st, args[0])
        if a is None or len(nd.shape(a)) != 2:
            return None
        return mm.alloc(st, nd.nd(nd.shape(a), [
            sym('VALUE_i%d' % k, 'num')
            for k in range(len(nd.elems(a)))]))
    e['numpy.linalg.inv'] = inv
    if scalar:
        scalarfunc(r, me)
    # symbols
    args = [g.args[0] for g in r.snap(r.meth(me, 'args')).args]
    fs = r.snap(r.get(me, 'fs'))
    pars = [tm.named('k%d' % k) for k in range(npar)]
    subs = m.alloc(r.st, tm.mkdict(*[
        tm.pair(p, C(k + 2)) for k, p in enumerate(pars)]))
    r.set(me, 'subs', subs)
    exprs = {}
    for n in names(r, me, 'funcs_names'):
        e = r.snap(r.get(me, n + '_expr'))
        if e.op == 'seq':
            es = [sym('F_%s_%d' % (n, k), 'num') for k in range(len(e.args))]
            v = litlist(r, es)
            exprs[n] = (len(es), 1, es)
            if not es:         # Matrix([]) has the shape (0, 0)
                v = mk('zeros', C(0), C(0))
        elif tm.kind(e) == 'mat':
            i, j = [int(x.args[0]) for x in tm.mshape(e)]
            v = litmat(r, 'F_' + n, i, j)
            if sparse and i and j:
                # no entry above the diagonal, numbers below
                v = m.alloc(r.st, mk('mlit', *[tuple(
                    C(0) if p < q else C(2 + p + q) if p > q + 1 - p % 2
                    else sym('F_%s_%d_%d' % (n, p, q), 'num')
                    for q in range(j)) for p in range(i)]))
            t = r.snap(v)
            exprs[n] = (i, j, [t.args[p][q] for p in range(i)
                               for q in range(j)] if i and j else [])
        else:
            v = sym('F_' + n, 'num')
            exprs[n] = (0, 0, [v])
        r.set(me, n + '_expr', v)
    known = dict((e, [] if e.op == 'c' else free(e, args, pars + [fs]))
                 for x in exprs.values() for e in x[2])

    def freesymbols(mm, st, t):
        if t in known:
            return mm.alloc(st, tm.mkset(*map(tm.it, known[t])))
        if tm.isname(t):
            return mm.alloc(st, tm.mkset(tm.it(t)))
        if t.op == 'c' or t.op == 'sym' and t.args[0][:6] == 'VALUE_':
            return mm.alloc(st, tm.mkset())
        return None
    m.attrhooks['free_symbols'] = freesymbols

    def substitute(mm, st, args, kw):
        """values of the expressions at the initial state"""
        t = mm.snapshot(st, args[0])
        if t.op == 'seq':
            return mm.alloc(st, tm.seq(*[
                tm.it(sym('VALUE_%d' % k, 'num')) for k in range(len(t.args))]))
        if tm.kind(t) == 'mat':
            i, j = [int(x.args[0]) for x in tm.mshape(t)]
            if not i or not j:
                return mm.alloc(st, mk('zeros', C(i), C(j)))
            return mm.alloc(st, mk('mlit', *[tuple(
                sym('VALUE_%d_%d' % (p, q), 'num') for q in range(j))
                for p in range(i)]))
        return sym('VALUE_', 'num')
    m.models['pyphs.core.tools._substitutions.substitute'] = substitute
    return r, me, holes, files, args, pars, fs, exprs, known


def scalarfunc(r, me):
    """two numbers among the functions, updated at the end"""
    for n in ('power', 'gain'):
        r.meth(me, 'setfunc', C(n), sym('E_' + n, 'num'))
    r.meth(me, 'set_execaction', r.m.alloc(r.st, tm.seq(
        tm.it(C('power')), tm.it(C('gain')))))


def names(r, me, a):
    return [n.args[0].args[0] for n in r.snap(r.get(me, a)).args]


# ------------------------------------------------------------- comparison

class Reference(object):
    """the method executed from its own definitions"""

    def __init__(self, num, r, me, info, known, pars, subs, fs, rate):
        self.num, self.known = num, known
        self.info = info
        self.values = dict((p, C(v)) for p, v in zip(pars, subs))
        self.fs = fs
        self.values[fs] = rate
        self.store = {}

    def start(self, inits):
        i = self.info
        for n in i.argnames:
            if n in inits:
                self.set(n, inits[n])

    def set(self, name, v):
        for s, x in zip(self.info.symbols[name], v):
            self.values[s] = x

    def get(self, name):
        i = self.info
        if name in i.argnames:
            d = [self.values[s] for s in i.symbols[name]]
            return cxx.Mat(len(d), 1 if d else 0, d)
        return self.store[name]

    def entry(self, e):
        if e.op == 'c':
            return cxx.number(e.args[0])
        return self.num.app('expr ' + tm.pp(e),
                            [self.values[s] for s in self.known[e]])[0]

    def define(self, name):
        """value of a function or operation"""
        i = self.info
        if name in i.exprs:
            r, c, es = i.exprs[name]
            d = [self.entry(e) for e in es]
            return d[0] if (r, c) == (0, 0) and len(d) == 1 else \
                cxx.Mat(r, c, d)
        return self.operation(i.ops[name])

    def operation(self, op):
        kind, a = op
        v = []
        for x in a:
            if isinstance(x, str):
                v.append(self.get(x))
            elif isinstance(x, tuple):
                v.append(self.operation(x))
            else:
                v.append(x)
        m = [isinstance(x, cxx.Mat) for x in v]
        n = self.num
        M = cxx.Machine(n, None)
        if kind == 'add':
            return M.bin('+', v[0], v[1], False)
        if kind == 'prod':
            if all(m):
                raise cxx.Unsupported('entrywise product')
            return M.bin('*', v[0], v[1], False)
        if kind == 'dot':
            return M.bin('*', v[0], v[1], False)
        if kind == 'inv':
            return n.inv(v[0])
        if kind == 'div':
            return M.bin('/', v[0], v[1], False)
        if kind == 'norm':
            return n.sqrt(cxx.add(*[tm.mul(x, x) for x in v[0].d]))
        if kind == 'copy':
            return v[0]
        raise cxx.Unsupported('operation %s' % kind)

    def execs(self, commands):
        for c in commands:
            if isinstance(c, str):
                self.store[c] = self.define(c)
            else:
                v = self.define(c[1])
                self.store[c[1]] = v
                self.set(c[0], v.d)

    def update(self, eps, maxit, choose):
        for kind, a in self.info.actions:
            if kind == 'exec':
                self.execs(a)
                continue
            commands, res, step = a
            both = cxx.Machine(self.num, None).bin
            self.store[step] = C(1)
            it = 0
            while it < maxit:
                c = both('&', self.above(self.get(res), eps),
                         self.above(self.get(step), eps), False)
                if not (c if isinstance(c, bool) else choose(c)):
                    break
                self.execs(commands)
                it += 1

    def above(self, v, eps):
        return cxx.Machine(self.num, None).bin('>', v, cxx.number(eps), False)


class Info(object):
    """the method: names, symbols, expressions, operations, actions"""

    def __init__(self, r, me, exprs):
        self.exprs = exprs
        self.argnames = names(r, me, 'args_names')
        self.funcs = names(r, me, 'funcs_names')
        self.opnames = names(r, me, 'ops_names')
        self.symbols = {}
        for n in self.argnames:
            self.symbols[n] = [g.args[0] for g in
                               r.snap(r.get(me, n + '_expr')).args]
        self.ops = dict((n, self.op(r, r.get(me, n + '_op')))
                        for n in self.opnames)
        self.actions = []
        for g in r.snap(r.get(me, 'update_actions')).args:
            kind, a = [x.args[0] for x in g.args[0].args]
            kind = kind.args[0]
            if kind == 'exec':
                self.actions.append((kind, self.commands(a)))
            else:
                c, res, step = [x.args[0] for x in a.args]
                self.actions.append((kind, (self.commands(c), res.args[0],
                                            step.args[0])))
        self.deps = [g.args[0].args[0] for g in
                     r.snap(r.meth(me, 'update_actions_deps')).args]

    def commands(self, t):
        out = []
        for g in t.args:
            x = g.args[0]
            if tm.isc(x):
                out.append(x.args[0])
            else:
                out.append(tuple(y.args[0].args[0] for y in x.args))
        return out

    def op(self, r, t):
        kind = r.snap(r.get(t, 'operation')).args[0]
        a = []
        for g in r.snap(r.get(t, 'args')).args:
            x = g.args[0]
            if tm.isc(x):
                v = x.args[0]
                a.append(v if isinstance(v, str) else cxx.number(v))
            else:
                a.append(self.op(r, x))
        return (kind, a)



class Case(object):
    """one generation: the text, loaded, and the reference"""

    def __init__(self, split=True, nx=2, nw=2, dims=((1, 0), (1, 1)),
                 nobs=1, npar=2, inits=None, config=None, subs=None,
                 scalar=False, sparse=False):
        self.r, self.me, self.holes, self.files, self.args, self.pars, \
            self.fs, self.exprs, self.known = setup(
                split, nx, nw, dims, nobs, npar, scalar, sparse)
        r = self.r
        kw = {}
        self.inits = inits or {}
        if inits:
            kw['inits'] = r.m.alloc(r.st, tm.mkdict(*[
                tm.pair(C(n), r.m.alloc(r.st, tm.seq(*[
                    tm.it(C(x)) for x in v]))) for n, v in inits.items()]))
        self.config = dict(config or {})
        if config:
            kw['config'] = r.m.alloc(r.st, tm.mkdict(*[
                tm.pair(C(n), C(v)) for n, v in config.items()]))
        self.subs = subs
        if subs is not None:
            d = [r.m.alloc(r.st, tm.mkdict(*[
                tm.pair(self.pars[k], C(v)) for k, v in x])) for x in subs]
            kw['subs'] = d[0] if len(d) == 1 else r.m.alloc(
                r.st, tm.seq(*map(tm.it, d)))
        self.info = Info(r, self.me, self.exprs)
        r.m.pending = []
        r.call(r.fn(M2C), self.me, objlabel=C('Obj'), path=C('/src'), **kw)
        self.texts = {}
        for g in r.snap(self.files).args:
            if g.op != 'pair' or not tm.isc(g.args[0]) or \
                    not tm.isc(g.args[1]):
                raise cxx.Unsupported('text written: %s' % tm.pp(g)[:200])
            self.texts[g.args[0].args[0]] = g.args[1].args[0]
        self.num = cxx.Numbers()

    def option(self, n):
        d = self.r.m.modglobal('pyphs.config', 'CONFIG_NUMERIC')
        if n in self.config:
            return self.config[n]
        v = self.r.m.getitem(self.r.st, d, C(n))
        return v.args[0]

    def machine(self):
        m = cxx.Machine(self.num, self.hole)
        for n in ('parameters.h', 'parameters.cpp', 'core.h', 'core.cpp'):
            if '/src/' + n not in self.texts:
                raise cxx.Bad('%s is not written' % n)
        t = [self.texts['/src/' + n] for n in (
            'parameters.h', 'parameters.cpp', 'core.h', 'core.cpp')]
        if not self.pars:
            t = t[2:]
        m.load(*t)
        return m

    def hole(self, k, read):
        e = self.holes.exprs[k]
        if e not in self.known:
            if e.op == 'c':
                return cxx.number(e.args[0])
            if tm.isname(e):
                return read(str(e.args[0])[1:])
            raise cxx.Unsupported('expression %s' % tm.pp(e)[:200])
        for s in self.known[e]:
            if s not in self.holes.deref[k]:
                raise cxx.Bad('%s is printed without dereferencing the '
                              'pointer %s' % (tm.pp(e), tm.pp(s)))
        return self.num.app('expr ' + tm.pp(e),
                            [read(label(s)) for s in self.known[e]])[0]

    def reference(self, rate=None):
        n = self.option('fs') if rate is None else rate
        vals = [k + 2 for k in range(len(self.pars))]
        if self.subs is not None:
            for k, v in self.subs[0]:
                vals[k] = v
        ref = Reference(self.num, self.r, self.me, self.info, self.known,
                        self.pars, vals, self.fs, cxx.number(n))
        ini = {}
        for name in ('x', 'dx', 'w', 'u', 'p', 'o'):
            k = len(self.info.symbols[name])
            ini[name] = [cxx.number(v) for v in
                         self.inits.get(name, [0] * k)]
        ref.start(ini)
        return ref


def label(s):
    return tm.pp(s)[1:]


def flat(v):
    """shape and values"""
    if isinstance(v, cxx.Cell):
        v = v.v
    if isinstance(v, cxx.Mat):
        return (v.r, v.c), v.d
    if isinstance(v, cxx.Vec):
        return (len(v.d),), v.d
    if isinstance(v, list):
        return (len(v),), v
    return (), [v]


def compare(rep, rule, cons, got, want):
    """values, entry by entry"""
    (s, a), (t, b) = flat(got), flat(want)
    if 0 in t and 0 in s and t:
        rep.holds(rule, cons)
    elif s != t:
        rep.violated(rule, cons, 'shape %s instead of %s' % (s, t))
    else:
        rep.same(rule, cons, tm.seq(*map(tm.it, a)), tm.seq(*map(tm.it, b)))


def guarded(rep, rule, cons, f):
    try:
        return f()
    except cxx.Bad as e:
        rep.violated(rule, cons, str(e))
    except cxx.Unsupported as e:
        rep.undecided(rule, cons, 'text not read: %s' % e)


M = F + 'method2cpp.py:method2cpp '


def generation(rep, label, **kw):
    """the class generated for a method"""
    try:
        c = Case(**kw)
    except Raised as e:
        rep.violated('C20.generate', M + label, 'raises %s' %
                     tm.pp(e.exc)[:200])
        return
    rep.visited |= c.r.m.visited
    if c.r.m.pending:
        rep.undecided('C20.generate', M + label, 'may raise %s' %
                      tm.pp(c.r.m.pending[0])[:200])

    def load():
        m = c.machine()
        return m, m.new('OBJ')
    out = guarded(rep, 'C20.text', M + label + ': class', load)
    if out is None:
        return
    m, o = out
    miss = m.missing('OBJ')
    if miss:
        rep.violated('C20.text', M + label + ': definitions',
                     '%s%s is declared and not defined' % (
                         miss[0].name, cxx.sigtext(miss[0])))
    else:
        rep.holds('C20.text', M + label + ': definitions')
    info = c.info
    unsigned = lambda k: cxx.Cell(C(k))

    def call(o, name, *a):
        return m.call(o, name, list(a))

    def observe(o, what, ref, state=True):
        """accessors"""
        if state:
            for n in info.argnames:
                guarded(rep, 'C20.accessors', M + what + n + '()',
                        lambda: compare(rep, 'C20.accessors',
                                        M + what + n + '()',
                                        call(o, n), ref.get(n)))
                guarded(rep, 'C20.accessors', M + what + n + '_vector()',
                        lambda: compare(rep, 'C20.accessors',
                                        M + what + n + '_vector()',
                                        call(o, n + '_vector'),
                                        list(ref.get(n).d)))
        have = set(x.name for x in m.classes['OBJ'][2])
        for n in info.deps:
            if n in info.argnames:
                continue
            v = ref.store[n]
            k = M + what + n
            guarded(rep, 'C20.results', k + '()', lambda: compare(
                rep, 'C20.results', k + '()', call(o, n), v))
            if not isinstance(v, cxx.Mat):
                continue
            col = [v.d[i * v.c] for i in range(v.r)] if v.c else []
            if n + '_vector' in have:
                guarded(rep, 'C20.results', k + '_vector()',
                        lambda: compare(
                            rep, 'C20.results', k + '_vector()',
                            call(o, n + '_vector'), col))
            if n in info.funcs:
                for i in range(v.r if v.c else 0):
                    guarded(rep, 'C20.results', k + '(%d)' % i,
                            lambda: compare(
                                rep, 'C20.results', k + '(%d)' % i,
                                call(o, n, unsigned(i)), col[i]))

    def settle(ref, o):
        """each result is the value of its definition"""
        for n in info.deps:
            if n in info.funcs:
                ref.store[n] = ref.define(n)
        for n in info.deps:
            if n in info.opnames:
                ref.store[n] = ref.define(n)

    # initial state
    ref = c.reference()
    g = guarded(rep, 'C20.init', M + label + ': reference',
                lambda: settle(ref, o) or True)
    if g is None:
        return
    observe(o, label + ', initial ', ref)
    # mutators
    def stamp(n, tag):
        return [sym('%s%s%d' % (n, tag, k), 'num')
                for k in range(len(info.symbols[n]))]
    for n in info.argnames:
        k = len(info.symbols[n])
        want = c.reference()

        def others(o, want, what):
            got = [call(o, a) for a in info.argnames]
            for a, v in zip(info.argnames, got):
                compare(rep, 'C20.mutators', M + label + ', ' + what +
                        ', then ' + a, v, want.get(a))

        def vector(n=n, k=k):
            o = m.new('OBJ')
            w = c.reference()
            v = stamp(n, 'v')
            call(o, 'set_' + n, cxx.Vec(v))
            w.set(n, v)
            others(o, w, 'set_%s(vector)' % n)

        def matrix(n=n, k=k):
            o = m.new('OBJ')
            w = c.reference()
            v = stamp(n, 'm')
            call(o, 'set_' + n, cxx.Mat(k, 1 if k else 0, v))
            w.set(n, v)
            others(o, w, 'set_%s(Matrix)' % n)

        def element(n=n, k=k):
            for j in range(k):
                o = m.new('OBJ')
                w = c.reference()
                v = sym('%se%d' % (n, j), 'num')
                call(o, 'set_' + n, cxx.Cell(v), unsigned(j))
                cur = list(w.get(n).d)
                cur[j] = v
                w.set(n, cur)
                others(o, w, 'set_%s(value, %d)' % (n, j))
        for h in (vector, matrix, element):
            guarded(rep, 'C20.mutators', M + label + ', set_%s: %s' % (
                n, h.__name__), h)

    # steps
    eps, maxit = c.option('eps'), c.option('maxit')
    for count in (0, 1, 2) if any(a[0] == 'iter' for a in info.actions) \
            else (1,):
        def steps():
            o = m.new('OBJ')
            ref = c.reference()
            settle(ref, o)
            seen = [], []

            def chooser(log):
                left = [count]

                def choose(cond):
                    log.append(cond)
                    if left[0]:
                        left[0] -= 1
                        return True
                    left[0] = count
                    return False
                return choose
            for t in range(2):
                for n in ('u', 'p'):
                    v = stamp(n, 't%d_' % t)
                    call(o, 'set_' + n, cxx.Vec(v))
                    ref.set(n, v)
                m.choose = chooser(seen[0])
                call(o, 'update')
                ref.update(eps, maxit, chooser(seen[1]))
                what = label + ', step %d (%d iterations) ' % (t, count)
                observe(o, what, ref)
            a, b = [[tm.seq(*[tm.it(mk('cmp', C(op), x, y)) for op, x, y in
                              sorted(s, key=lambda q: tm.pp(q[1]))])
                     for s in log] for log in seen]
            rep.same('C20.iterations', M + label + ', %d iterations: '
                     'conditions' % count, tm.seq(*map(tm.it, a)),
                     tm.seq(*map(tm.it, b)))
        guarded(rep, 'C20.update', M + label + ', %d iterations' % count,
                steps)

    # sample rate
    def rate():
        o = m.new('OBJ')
        x = sym('rate', 'num')
        ref = c.reference()
        ref.values[c.fs] = x
        settle(ref, o)
        call(o, 'set_sampleRate', cxx.Cell(x))
        observe(o, label + ', sample rate changed: ', ref)
    guarded(rep, 'C20.rate', M + label + ', set_sampleRate', rate)


def table(rep):
    """parameter values"""
    for what, subs in (
            ('other order', [((1, 7.5), (0, -2.0))]),
            ('several sets', [((0, 3.0), (1, 4.5)), ((0, 5.0), (1, 6.0))])):
        c = Case(subs=subs)

        def f():
            m = c.machine()
            o = m.new('OBJ')
            t = m.globals.get('subs')
            if t is None:
                raise cxx.Bad('no table subs')
            want = [[cxx.number(dict(s)[k]) for k in range(2)] for s in subs]
            for k, row in enumerate(want):
                o = m.new('OBJ')
                for j, v in enumerate(row):
                    if k == 0:
                        p = m.value(m.name(label(c.pars[j]), o, {}))
                        compare(rep, 'C20.parameters', M + '%s: %s' % (
                            what, label(c.pars[j])), p.d[p.k], v)
            if len(subs) > 1:
                compare(rep, 'C20.parameters', M + what + ': sets',
                        C(len(t)), C(len(subs)))
                for k, row in enumerate(want):
                    compare(rep, 'C20.parameters', M + '%s: set %d' % (
                        what, k), t[k], row)
        guarded(rep, 'C20.parameters', M + what, f)
        rep.visited |= c.r.m.visited


class Ext(cxx.Obj):
    """object of a library: records what it is asked"""

    def __init__(self, cls, log):
        cxx.Obj.__init__(self, cls)
        self.log = log

    def method(self, name, args):
        f = getattr(self, 'm_' + name, None)
        if f is not None:
            return f(*args)
        self.log.append((self.cls, name))


def values(v):
    return v.v if isinstance(v, cxx.Cell) else v


class Space(Ext):
    """selection of rows"""
    at = None

    def m_selectHyperslab(self, op, count, offset, *a):
        self.at = (list(count), list(offset))


class Dataset(Ext):
    """the file: a table of nt rows"""

    def __init__(self, log, rows):
        Ext.__init__(self, 'DataSet', log)
        self.rows = rows

    def row(self, space):
        sp = values(space)
        count, off = sp.at
        n = [x.args[0] if tm.isc(x) else None for x in count + off]
        if None in n:
            raise cxx.Unsupported('selection')
        if n[0] != 1 or n[1] != len(self.rows[0]) or n[3] != 0 or \
                not 0 <= n[2] < len(self.rows):
            raise cxx.Bad('selection of %s rows and columns at %s' % (
                n[:2], n[2:]))
        return int(n[2])

    def layout(self, st):
        out = []
        for n, v in st.fields.items():
            if isinstance(v, list):
                out += [(v, k) for k in range(len(v))]
            elif isinstance(v, cxx.Cell):
                out.append((cxx.CellList(v), 0))
            else:
                raise cxx.Unsupported('structure')
        return out

    def m_getSpace(self):
        return Space('DataSpace', self.log)

    def fits(self, st):
        if len(self.layout(st)) != len(self.rows[0]):
            raise cxx.Bad('the structure has %d values, a row of the file '
                          '%d' % (len(self.layout(st)), len(self.rows[0])))

    def m_read(self, ptr, typ, mem, space):
        st = values(ptr)
        self.fits(st)
        n = self.row(space)
        for (d, k), v in zip(self.layout(st), self.rows[n]):
            d[k] = v
        self.log.append(('read', n))

    def m_write(self, ptr, typ, mem, space):
        st = values(ptr)
        self.fits(st)
        n = self.row(space)
        self.rows[n] = [d[k] for d, k in self.layout(st)]
        self.log.append(('write', n))


class Core(Ext):
    """the generated class, seen by the program"""

    def __init__(self, log, dims):
        Ext.__init__(self, 'OBJ', log)
        self.dims = dims
        self.given = {}
        self.t = None

    def method(self, name, args):
        args = [values(a) for a in args]
        if name.startswith('set_') and len(args) == 1:
            n = name[4:]
            v = args[0]
            if n not in self.dims or not isinstance(v, (cxx.Mat, cxx.Vec)):
                raise cxx.Bad('no OBJ::%s' % name)
            if len(v.d) != self.dims[n]:
                raise cxx.Bad('%s: %d values for %d' % (name, len(v.d),
                                                        self.dims[n]))
            self.given[n] = list(v.d)
            return None
        if name == 'update' and not args:
            self.t = 0 if self.t is None else self.t + 1
            self.log.append(('update', tm.seq(*[tm.it(tm.seq(
                tm.it(C(n)), *map(tm.it, v)))
                for n, v in sorted(self.given.items())])))
            return None
        if name.endswith('_vector') and not args and name[:-7] in self.dims:
            n = name[:-7]
            return cxx.Vec([self.value(n, k) for k in range(self.dims[n])])
        raise cxx.Bad('no OBJ::%s' % name)

    def value(self, n, k):
        return sym('%s after %s updates, %d' % (n, self.t, k), 'num')


S = F + 'simu2cpp.py:simu2cpp '


def program(rep):
    """the program of a simulation"""
    for lab, dnames, opts in (
            ('default names', c17.NAMES, {}),
            ('other names', ('y', 'x', 'w'), {'pbar': True}),
            ('no parameter', c17.NAMES, {'np': 0})):
        simulation(rep, lab, dnames, **opts)


def simulation(rep, lab, dnames, pbar=False, np=1, nt=3):
    r, fs, me = c17.fresh()
    files = textmodels(r)
    dims = dict(c17.DIMS)
    if not np:
        r.set(me, 'p', litlist(r, []))
        dims['p'] = 0
    for n in ('dxH', 'z', 'y', 'dx'):
        r.set(me, n, litlist(r, [sym('%s%d' % (n, k), 'num')
                                 for k in range(dims[n])]))
    cfg = c17.config(r, dnames=tm.seq(*[tm.it(C(n)) for n in dnames]),
                     pbar=C(pbar), cmake=C('cmake'))
    data = r.new(c17.H5, me, cfg, erase=tm.TRUE)
    u = c17.grid('u', nt, dims['u'])
    p = c17.grid('p', nt, dims['p'])
    r.meth(data, 'init_data', C(nt), c17.lists(r, u), c17.lists(r, p))
    simu = c12.bare(r, 'pyphs.numerics.simulations.simulation.Simulation')
    r.set(me, 'label', C('Obj'))
    for n, v in (('label', C('Simu')),
                 ('cpp_path', C('/w/obj')), ('src_path', C('/w/obj/src')),
                 ('data', data), ('config', cfg), ('method', me)):
        r.m.setattr(r.st, simu, n, v)
    r.m.pending = []
    try:
        r.call(r.fn(S2C), simu)
    except Raised as e:
        rep.violated('C20.program', S + lab, 'raises %s' %
                     tm.pp(e.exc)[:200])
        return
    rep.visited |= r.m.visited
    path = r.snap(r.get(data, 'h5path'))
    dname = r.snap(r.get(data, 'dname'))

    def f():
        texts = {}
        for g in r.snap(files).args:
            if g.op != 'pair' or not tm.isc(g.args[0]) or \
                    not tm.isc(g.args[1]):
                raise cxx.Unsupported('text written: %s %s' % (tm.pp(g.args[0]), tm.pp(g.args[1])[-300:]))
            texts[g.args[0].args[0]] = g.args[1].args[0]
        if '/w/obj/src/simu.cpp' not in texts:
            raise cxx.Bad('simu.cpp is not written')
        run_program(rep, lab, texts, r, data, dims, dnames, u, p, nt, path,
                    dname)
        # the executable
        exe = re.findall(r'add_executable\s*\(\s*(\S+)',
                         texts.get('/w/obj/CMakeLists.txt', ''))
        run = [l for l in texts.get('/w/obj/run.sh', '').split('\n')
               if l.startswith('./bin/')]
        if len(exe) != 1 or len(run) != 1:
            raise cxx.Unsupported('build files')
        rep.same('C20.program', S + lab + ': executable', C(run[0]),
                 C('./bin/' + exe[0]))
        return True
    guarded(rep, 'C20.program', S + lab, f)


def run_program(rep, lab, texts, r, data, dims, dnames, u, p, nt, path,
                dname):
    num = cxx.Numbers()
    m = cxx.Machine(num, None)
    log = []
    order = ['u', 'p'] + list(dnames)
    # the layout of the file, as its Python reader sees it
    inds = r.snap(r.get(data, 'inds'))
    where = {}
    for g in inds.args:
        a, b = [x.args[0].args[0] for x in g.args[1].args]
        where[g.args[0].args[0]] = (int(a), int(b))
    width = sum(dims[n] for n in order)
    before = [[sym('cell_%d_%d' % (t, k), 'num') for k in range(width)]
              for t in range(nt)]
    for t in range(nt):
        for n, v in (('u', u), ('p', p)):
            a, b = where[n]
            before[t][a:b] = v[t]
    rows = [list(x) for x in before]
    core = Core(log, dims)

    def opened(*a):
        if a and values(a[0]) is not None:
            log.append(('open', values(a[0])))
        return Ext('H5File', log)
    E = m.extern
    E['H5File'] = opened
    Ext.m_openDataSet = lambda self, n: (
        log.append(('dataset', values(n))), Dataset(log, rows))[1]
    E['DataSet'] = lambda *a: Ext('DataSet', log)
    E['DataType'] = lambda *a: Ext('DataType', log)
    E['DataSpace'] = lambda *a: Space('DataSpace', log)
    E['OBJ'] = lambda *a: core
    E['clock'] = lambda *a: num.app('clock', [])[0]
    for n in ('cout', 'cerr', 'NULL', 'H5F_ACC_RDWR', 'H5S_SELECT_SET'):
        m.globals[n] = Ext(n, log)
    m.globals['CLOCKS_PER_SEC'] = sym('CLOCKS_PER_SEC', 'num')
    types = ('H5File', 'DataSet', 'DataType', 'DataSpace', 'OBJ')
    m.choose = lambda c: False
    m.load(texts['/w/obj/src/simu.cpp'], types=types)
    main = m.globals.get('main')
    if not isinstance(main, cxx.Method):
        raise cxx.Bad('no main')
    try:
        m.run(main.body, None, {' key': ('', 'main')})
    except cxx.Return:
        pass
    opened = [e[1] for e in log if e[0] in ('open', 'dataset')]
    compare(rep, 'C20.program', S + lab + ': file and dataset',
            opened,
            [C('"%s"' % path.args[0]), C('"%s"' % dname.args[0])])
    got = [e[1] if e[0] == 'update' else C('%s %d' % e) for e in log
           if e[0] in ('read', 'update', 'write')]
    want = []
    for t in range(nt):
        want += [C('read %d' % t), tm.seq(*[tm.it(tm.seq(
            tm.it(C(n)), *map(tm.it, v[t])))
            for n, v in (('p', p), ('u', u)) if dims[n]]), C('write %d' % t)]
    compare(rep, 'C20.program', S + lab + ': order of the operations',
            got, want)
    for t in range(nt):
        core.t = t
        for n in order:
            a, b = where[n]
            w = before[t][a:b] if n in ('u', 'p') else [
                core.value(n, k) for k in range(dims[n])]
            compare(rep, 'C20.program', S + lab + ': %s written at time '
                    'step %d' % (n, t), rows[t][a:b], w)


CASES = (
    ('split', dict()),
    ('no split', dict(split=False)),
    ('linear', dict(nx=2, nw=1, dims=((2, 0), (1, 0)))),
    ('nonlinear', dict(nx=1, nw=1, dims=((0, 1), (0, 1)))),
    ('no parameters', dict(nx=1, nw=1, dims=((1, 0), (0, 1)), npar=0,
                           nobs=0)),
    ('initial values', dict(inits={'x': [0.1, -1.25], 'u': [0.3],
                                   'w': [2, 0.7]},
                            config={'fs': 96000, 'maxit': 1, 'eps': 0.25})),
    ('scalar function', dict(scalar=True)),
    ('sparse matrices', dict(sparse=True)),
    ('sparse matrices, no split', dict(sparse=True, split=False)),
)


def case(rep, k):
    lab, kw = CASES[k]
    generation(rep, lab, **kw)


def run(rep, tier):
    jobs = [lambda rep, k=k: case(rep, k) for k in range(len(CASES))]
    cm.parallel(rep, jobs + [table, program])
