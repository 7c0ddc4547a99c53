"""Configuration of a simulation: what a run uses is what was asked. A
simulation takes the default options, those of its method and the given ones,
refuses unknown options, and rebuilds its method when the options of the
method differ. After any sequence of init with options, parameter values,
initial values, inputs, and of process, the next run uses the current ones:
the method, its numerical evaluation or generated C++ files and the data are
those of the current options, parameter values and initial values, and a run
prepared by init starts from the initial values. The caller's dictionaries and
the default options are not modified.

Decided on sequences of one to three operations; the construction of methods,
of their numerical evaluation and of their C++ code are replaced by records of
what they were built from; files and folders are modelled."""
from fractions import Fraction
import itertools
from . import common as cm
from .common import litlist
from . import c12, c17, c20
from .. import terms as tm
from ..interp import Raised
from ..rig import CORE
from ..terms import mk, C, sym

FLOOR = 200
F = 'pyphs/numerics/simulations/simulation.py:Simulation'
SIM = 'pyphs.numerics.simulations.simulation.Simulation'
METHOD = c17.METHOD
NUM = 'pyphs.numerics.numerical_core._numerical_core.Numeric'
GRAPH = 'pyphs.graphs.graph.Graph'
NETLIST = 'pyphs.graphs.netlists.Netlist'
M2C = 'pyphs.numerics.cpp.method2cpp.'
METHKEYS = ('grad', 'theta', 'split', 'epsdg')


class World(object):
    """one simulation, and the record of what was built"""

    def __init__(self):
        self.r, self.h5, self.me = c17.fresh()
        r = self.r
        for n in ('EPS_DG', 'EPS'):
            r.m.gcache[('pyphs.config', n)] = C(Fraction(1, 2 ** 52))
        self.events = []
        self.dirs = {'/', '/w', '/cwd', '/w/data'}
        self.texts = c20.textmodels(r)
        self.k = tm.named('k'), tm.named('l')
        self.models()
        r.set(self.me, 'subs', self.mkd([(self.k[0], C(3))]))
        self.core = c12.bare(r, CORE)
        for a in ('x', 'w', 'u', 'y', 'p', 'observers', 'fs', 'subs', 'H',
                  'connectors', 'dims', 'label'):
            r.set(self.core, a, r.get(self.me, a))
        self.method = r.new(METHOD, self.core)

    # ------------------------------------------------------------ helpers

    def mkd(self, pairs):
        r = self.r
        return r.m.alloc(r.st, tm.mkdict(*[tm.pair(
            C(k) if isinstance(k, str) else k, v) for k, v in pairs]))

    def given(self, d):
        """a dictionary of options, as the user writes it"""
        r = self.r

        def val(v):
            if isinstance(v, dict):
                return self.mkd([(k, val(x)) for k, x in v.items()])
            if isinstance(v, tuple):
                return tm.seq(*[tm.it(C(x)) for x in v])
            if isinstance(v, list):
                return litlist(r, [C(x) for x in v])
            return v if isinstance(v, tm.T) else C(v)
        return self.mkd([(k, val(v)) for k, v in d.items()])

    def table(self, v, st=None):
        """{key: value}"""
        t = self.r.m.snapshot(st or self.r.st, v)
        if t.op != 'dict':
            raise KeyError(tm.pp(t)[:80])
        out = {}
        for g in t.args:
            k = g.args[0]
            out[k.args[0] if tm.isc(k) else k] = g.args[1]
        return out

    # ------------------------------------------------------------- models

    def models(self):
        r = self.r
        m = r.m
        e = m.extmodels
        dirs, events, texts = self.dirs, self.events, self.texts

        def path(mm, st, a):
            p = mm.snapshot(st, a)
            if not tm.isc(p):
                return None
            return p.args[0].rstrip('/') or '/'

        def parent(p):
            return p[:p.rfind('/')] or '/'

        def known(mm, st):
            return set(g.args[0].args[0] for d in (
                texts, mm.getitem(st, self.h5, C('files')))
                for g in mm.snapshot(st, d).args)

        def exists(mm, st, args, kw):
            p = path(mm, st, args[0])
            if p is not None:
                return C(p in dirs or p in known(mm, st))

        def isdir(mm, st, args, kw):
            p = path(mm, st, args[0])
            if p is not None:
                return C(p in dirs)

        def isfile(mm, st, args, kw):
            p = path(mm, st, args[0])
            if p is not None:
                return C(p in known(mm, st))

        def mkdir(mm, st, args, kw):
            p = path(mm, st, args[0])
            if p is None:
                return None
            if p in dirs:
                raise Raised(mk('exc', 'FileExistsError', p))
            if parent(p) not in dirs:
                raise Raised(mk('exc', 'FileNotFoundError', p))
            dirs.add(p)
            return tm.NONE

        def makedirs(mm, st, args, kw):
            p = path(mm, st, args[0])
            if p is None:
                return None
            ok = kw.get('exist_ok', args[2] if len(args) > 2 else tm.FALSE)
            if p in dirs and ok is not tm.TRUE:
                raise Raised(mk('exc', 'FileExistsError', p))
            while p not in dirs:
                dirs.add(p)
                p = parent(p)
            return tm.NONE

        def rmtree(mm, st, args, kw):
            p = path(mm, st, args[0])
            if p is None:
                return None
            if p not in dirs:
                if tm.TRUE in (kw.get('ignore_errors'),) + tuple(args[1:2]):
                    return tm.NONE
                raise Raised(mk('exc', 'FileNotFoundError', p))
            for d in list(dirs):
                if d == p or d.startswith(p + '/'):
                    dirs.discard(d)
            for d in (texts, mm.getitem(st, self.h5, C('files'))):
                for g in mm.snapshot(st, d).args:
                    if g.args[0].args[0].startswith(p + '/'):
                        mm.call(mm.getattr(st, d, 'pop'), [g.args[0]], {},
                                st)
            return tm.NONE
        e['os.path.exists'] = exists
        e['os.path.isdir'] = isdir
        e['os.path.isfile'] = isfile
        e['os.mkdir'] = mkdir
        e['os.makedirs'] = makedirs
        e['shutil.rmtree'] = rmtree
        old, oldh5 = m.fopen, e['h5py.File']

        def folder(f):
            def g(mm, st, args, kw):
                p = path(mm, st, args[0])
                mode = mm.snapshot(st, kw.get('mode', args[1] if
                                              len(args) > 1 else C('r')))
                if p is not None and tm.isc(mode) and \
                        mode.args[0][:1] != 'r' and parent(p) not in dirs:
                    raise Raised(mk('exc', 'FileNotFoundError', p))
                return f(mm, st, args, kw)
            return g
        m.fopen = folder(old)
        e['h5py.File'] = folder(oldh5)

        # the method
        def arg(args, kw, k, n, d=None):
            return kw.get(n, args[k] if len(args) > k else d)

        def method(mm, st, args, kw):
            me, core = args[:2]
            cfg = arg(args, kw, 2, 'config')
            lab = arg(args, kw, 3, 'label')
            for a in ('x', 'w', 'u', 'y', 'p', 'observers', 'fs', 'H',
                      'connectors'):
                mm.setattr(st, me, a, mm.getattr(st, core, a))
            mm.setattr(st, me, 'label', mm.getattr(st, core, 'label')
                       if lab is None or mm.snapshot(st, lab) is tm.NONE
                       else lab)
            conf = mm.call(mm.getattr(st, mm.modglobal(
                'pyphs.config', 'CONFIG_METHOD'), 'copy'), [], {}, st)
            if cfg is not None and mm.snapshot(st, cfg) is not tm.NONE:
                for k in self.table(cfg, st):
                    if k not in METHKEYS:
                        raise Raised(mk('exc', 'AttributeError', str(k)))
                mm.call(mm.getattr(st, conf, 'update'), [cfg], {}, st)
            mm.setattr(st, me, 'config', conf)
            subs = mm.call(mm.getattr(st, mm.getattr(st, core, 'subs'),
                                      'copy'), [], {}, st)
            cp = c12.bare(r, CORE)
            for a in ('x', 'w', 'u', 'y', 'p', 'observers', 'fs', 'label',
                      'H', 'connectors', 'dims'):
                mm.setattr(st, cp, a, mm.getattr(st, core, a))
            mm.setattr(st, cp, 'subs', subs)
            mm.setattr(st, me, '_core', cp)
            mm.setattr(st, me, 'subs', mm.call(mm.getattr(
                st, subs, 'copy'), [], {}, st))
            mm.setattr(st, me, 'dims', mm.getattr(st, core, 'dims'))
            mm.setattr(st, me, 'args_names', tm.seq(*[tm.it(C(n)) for n in (
                'x', 'dx', 'w', 'u', 'p', 'o')]))
            events.append(('method', me, self.table(conf, st),
                           self.table(subs, st)))
            return tm.NONE
        m.models[METHOD + '.__init__'] = method

        def build(mm, st, args, kw):
            nu = args[0]
            me = mm.getattr(st, nu, 'method')
            n = len(events)
            for a, k in c17.DIMS.items():
                mm.setattr(st, nu, a, mm.alloc(st, tm.seq(*[
                    tm.it(sym('%s_%d_run%d' % (a, i, n), 'num'))
                    for i in range(k)])))
            events.append(('nums', nu, me) + tuple(
                self.table(mm.getattr(st, o, a), st) for o, a in (
                    (me, 'config'), (me, 'subs'), (nu, 'inits'),
                    (nu, 'config'))))
            return tm.NONE
        m.models[NUM + '.build'] = build

        def update(mm, st, args, kw):
            events.append(('update', args[0]))
            return tm.NONE
        m.models[NUM + '.update'] = update

        def text(mm, st, subs):
            d = self.table(subs, st)
            return C('PARAMETERS ' + ' ; '.join(sorted(
                '%s = %s' % (tm.pp(a), tm.pp(b)) for a, b in d.items()
                if a is not self.fs())))

        def parameters(mm, st, args, kw):
            t = text(mm, st, arg(args, kw, 0, 'subs'))
            return mm.alloc(st, tm.mkdict(*[tm.pair(C(x), t)
                                            for x in ('cpp', 'h')]))
        m.models[M2C + 'parameters'] = parameters

        def m2c(mm, st, args, kw):
            names = ('method', 'objlabel', 'path', 'inits', 'config', 'subs')
            d = dict((n, arg(args, kw, k, n, tm.NONE))
                     for k, n in enumerate(names))
            me = d['method']
            p = path(mm, st, d['path'])
            if p is None:
                return None
            if p not in dirs:
                makedirs(mm, st, [d['path']], {})
            events.append(('cpp', me, p) + tuple(
                {} if mm.snapshot(st, v) is tm.NONE else self.table(v, st)
                for v in (mm.getattr(st, me, 'config'),
                          mm.getattr(st, me, 'subs'), d['inits'],
                          d['config'])) + (mm.snapshot(st, d['objlabel']),))
            s = d['subs']
            if mm.snapshot(st, s) is tm.NONE:
                s = mm.getattr(st, me, 'subs')
            t = text(mm, st, s)
            for n, v in (('core.cpp', C('CORE')), ('core.h', C('CORE')),
                         ('parameters.cpp', t), ('parameters.h', t)):
                mm.setitem(st, texts, C(p + '/' + n), v)
            return tm.NONE
        m.models[M2C + 'method2cpp'] = m2c

    def source(self, route):
        """the object a simulation or a method is asked from"""
        r = self.r
        if route == 'Core':
            return self.core
        if route == 'Method':
            return self.method
        r.m.models[GRAPH + '.to_core'] = lambda *a: self.core
        r.m.models[GRAPH + '.__init__'] = lambda *a: tm.NONE
        return c12.bare(r, GRAPH if route == 'Graph' else NETLIST)

    def fs(self):
        return self.r.snap(self.r.get(self.me, 'fs'))


# --------------------------------------------------------- expected state

DEFAULTS = ('SIMULATION', 'NUMERIC', 'METHOD', 'CPP')


def norm(v):
    """value of an option, comparable"""
    if isinstance(v, dict):
        return dict((k, norm(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return '[%s]' % ', '.join(str(norm(x)) for x in v)
    if not isinstance(v, tm.T):
        v = C(v)
    if v.op == 'seq':
        return '[%s]' % ', '.join(norm(g.args[0]) for g in v.args)
    return tm.pp(v)


class Expected(object):
    """what the next run has to use"""

    def __init__(self, w, config, inits, methodconf):
        m = w.r.m
        self.cfg = {}
        for n in DEFAULTS:
            self.cfg.update(w.table(m.modglobal('pyphs.config',
                                                'CONFIG_' + n)))
        self.keys = dict((n, set(w.table(m.modglobal(
            'pyphs.config', 'CONFIG_' + n)))) for n in DEFAULTS)
        self.cfg.update(methodconf)
        self.cfg.update(config)
        self.inits = dict(inits)
        self.subs = {w.k[0]: C(3)}
        self.place()

    def place(self):
        p = self.cfg['path']
        if p is None or p is tm.NONE:
            self.cfg['path'] = '/cwd'

    def init(self, config=None, inits=None, subs=None, **kw):
        config = dict(config or {})
        if 'load' in config and isinstance(self.cfg['load'], dict):
            config['load'] = dict(self.cfg['load'], **config['load'])
        self.cfg.update(config)
        self.inits.update(inits or {})
        self.subs.update(subs or {})
        self.place()

    def part(self, *names):
        return dict((k, norm(self.cfg[k])) for n in names
                    for k in self.keys[n])


def normed(d, only=None, drop=()):
    return dict((k, norm(v)) for k, v in d.items()
                if (only is None or k in only) and k not in drop)


def show(d):
    return ', '.join('%s: %s' % (k if isinstance(k, str) else tm.pp(k), v)
                     for k, v in sorted(d.items(), key=lambda q: str(
                         q[0] if isinstance(q[0], str) else tm.pp(q[0]))))


def same(rep, rule, cons, got, want):
    if got == want:
        return rep.holds(rule, cons)
    ks = [k for k in set(got) | set(want) if got.get(k) != want.get(k)] \
        if isinstance(got, dict) and isinstance(want, dict) else None
    if ks:
        got = dict((k, got[k]) for k in ks if k in got)
        want = dict((k, want[k]) for k in ks if k in want)
        got, want = show(got), show(want)
    rep.violated(rule, cons, 'is {%s} instead of {%s}' % (got, want))


class Session(object):

    def __init__(self, rep, name, config=None, inits=None, method=None,
                 label=None, route=None):
        self.rep, self.name = rep, name
        self.w = w = World()
        self.r = w.r
        kw = {}
        if method:
            w.method = self.r.new(METHOD, w.core, w.given(method))
        self.own = []
        for n, v in (('config', config), ('inits', inits)):
            if v is not None:
                kw[n] = w.given(v)
                self.own.append((n, kw[n], self.r.snap(kw[n])))
        if label:
            kw['label'] = C(label)
        self.label = label
        self.defaults = self.globals()
        mc = w.table(self.r.get(w.method, 'config'))
        self.want = Expected(w, config or {}, inits or {}, mc)
        self.ran = None
        if route is None:
            self.sim = self.r.new(SIM, w.method, **kw)
        else:
            self.sim = self.r.meth(w.source(route), 'to_simulation', **kw)
        self.log = '%s(%s)' % (route + '.to_simulation' if route else
                               'Simulation', self.text(config=config,
                                                       inits=inits))

    def globals(self):
        m = self.r.m
        return [self.r.snap(m.modglobal('pyphs.config', 'CONFIG_' + n))
                for n in DEFAULTS]

    @staticmethod
    def text(**kw):
        return ', '.join('%s=%s' % (k, norm(v) if not isinstance(v, dict)
                                    else '{%s}' % show(normed(v)))
                         for k, v in kw.items() if v is not None)

    def init(self, config=None, inits=None, subs=None, nt=4):
        w, r = self.w, self.r
        kw = {}
        for n, v in (('config', config), ('inits', inits), ('subs', subs)):
            if v is not None:
                kw[n] = w.given(v)
                self.own.append((n, kw[n], r.snap(kw[n])))
        self.nt = nt
        self.log += '; init(%s)' % self.text(config=config, inits=inits,
                                             subs=subs)
        r.meth(self.sim, 'init', nt=C(nt), **kw)
        self.want.init(config, inits, subs)

    def process(self):
        self.log += '; process()'
        self.r.meth(self.sim, 'process')
        self.ran = len(self.w.events)

    def check(self):
        rep, w, r, want = self.rep, self.w, self.r, self.want
        ev = w.events
        cons = '%s %s: %s' % (F, self.name, self.log)
        sim = self.sim
        for p in r.m.pending:
            if p[0] is tm.TRUE:
                return rep.violated('C18.raise', cons, 'raises an exception')
            return rep.undecided('C18.raise', cons, 'may raise')
        # options
        cfg = w.table(r.get(sim, 'config'))
        same(rep, 'C18.config', cons + ' config',
             normed(cfg, drop=('load', 'nt')),
             dict((k, v) for k, v in normed(want.cfg).items()
                  if k != 'load'))
        me = r.get(sim, 'method')
        mc = normed(w.table(r.get(me, 'config')))
        same(rep, 'C18.method', cons + ' method.config', mc,
             want.part('METHOD'))
        builds = [k for k, e in enumerate(ev) if e[0] == 'method' and
                  e[1] == me]
        last = builds[-1]
        same(rep, 'C18.method', cons + ' construction of the method',
             normed(ev[last][2]), want.part('METHOD'))
        subs = dict((k, v) for k, v in w.table(r.get(me, 'subs')).items()
                    if k is not w.fs())
        same(rep, 'C18.subs', cons + ' method.subs', normed(subs),
             normed(want.subs))
        same(rep, 'C18.label', cons + ' label', norm(r.get(sim, 'label')),
             norm(C(self.label) if self.label else r.snap(r.get(
                 me, 'label'))))
        # what the run executes
        lang = want.cfg['lang']
        lang = lang.args[0] if isinstance(lang, tm.T) else lang
        kind = {'python': 'nums', 'c++': 'cpp'}[lang]
        runs = [k for k, e in enumerate(ev) if e[0] == kind]
        if not runs:
            return rep.violated('C18.run', cons, 'nothing was built to run '
                                'in %s' % lang)
        k = runs[-1]
        e = ev[k]
        if lang == 'python':
            cmpd = (('object', e[1] == r.get(sim, 'nums')),
                    ('method', e[2] == me))
            msubs = dict((a, b) for a, b in e[4].items() if a is not w.fs())
            rate = e[4].get(w.fs())
            conf, inits = e[6], e[5]
            mconf = e[3]
            if self.ran is not None:
                if k >= self.ran:
                    rep.holds('C18.start', cons + ' initial state')
                else:
                    rep.violated('C18.start', cons + ' initial state',
                                 'the numerical evaluation keeps the final '
                                 'state of the previous run')
            if rate is not None:
                same(rep, 'C18.run', cons + ' sampling rate', norm(rate),
                     norm(want.cfg['fs']))
            same(rep, 'C18.run', cons + ' parameter values',
                 normed(msubs), normed(want.subs))
        else:
            src = r.snap(r.get(sim, 'src_path'))
            cmpd = (('folder', C(e[2]) is src), ('method', e[1] == me))
            mconf, inits, conf = e[3], e[5], e[6]
            have = w.table(w.texts)
            t = 'PARAMETERS ' + ' ; '.join(sorted(
                '%s = %s' % (tm.pp(a), norm(b))
                for a, b in want.subs.items()))
            same(rep, 'C18.run', cons + ' parameters of the class',
                 sorted(tm.pp(a) for a in e[4] if a is not w.fs()),
                 sorted(map(tm.pp, want.subs)))
            for n in ('parameters.cpp', 'parameters.h'):
                same(rep, 'C18.run', cons + ' ' + n,
                     norm(have.get(e[2] + '/' + n, tm.NONE)), norm(C(t)))
            same(rep, 'C18.run', cons + ' core.cpp', norm(have.get(
                e[2] + '/core.cpp', tm.NONE)), norm(C('CORE')))
            same(rep, 'C18.run', cons + ' folder', e[2].startswith(
                str(want.cfg['path']).rstrip('/') + '/'), True)
        for n, ok in cmpd:
            same(rep, 'C18.run', cons + ' built for the current ' + n, ok,
                 True)
        same(rep, 'C18.run', cons + ' options of the method it is built for',
             normed(mconf), want.part('METHOD'))
        if k > last:
            rep.holds('C18.run', cons + ' is built after the method')
        else:
            rep.violated('C18.run', cons + ' order', 'built before the '
                         'method was rebuilt')
        num = dict(want.part('NUMERIC'))
        full = dict(normed(dict((a, b) for a, b in w.table(
            r.m.modglobal('pyphs.config', 'CONFIG_NUMERIC')).items())))
        full.update(normed(conf))
        same(rep, 'C18.run', cons + ' numerical options', full, num)
        same(rep, 'C18.run', cons + ' initial values', normed(inits),
             normed(want.inits))
        # data
        d = r.get(sim, 'data')
        names = [C(n) for n in ('u', 'p')] + [
            C(n) if isinstance(n, str) else n.args[0]
            for n in (want.cfg['dnames'] if not isinstance(
                want.cfg['dnames'], tm.T) else want.cfg['dnames'].args)]
        same(rep, 'C18.data', cons + ' data.names',
             norm(r.snap(r.get(d, 'names'))), norm(tm.seq(*map(tm.it,
                                                              names))))
        p = r.snap(r.get(d, 'h5path'))
        same(rep, 'C18.data', cons + ' folder of the data',
             tm.isc(p) and p.args[0].startswith(
                 str(want.cfg['path']).rstrip('/') + '/'), True)
        same(rep, 'C18.data', cons + ' data.fs', norm(r.snap(r.get(
            d, 'fs'))), norm(want.cfg['fs']))
        same(rep, 'C18.data', cons + ' method of the data',
             r.get(d, 'method') == me, True)
        if hasattr(self, 'nt'):
            same(rep, 'C18.data', cons + ' data.nt', norm(r.snap(
                r.get(d, 'nt'))), norm(C(self.nt)))
            load = {'start': 0, 'stop': self.nt, 'step': 1}
            load.update(want.cfg['load'] if isinstance(
                want.cfg['load'], dict) else {})
            for n in ('start', 'stop', 'step'):
                same(rep, 'C18.load', cons + ' data.' + n,
                     norm(r.snap(r.get(d, n))), norm(C(load[n])))
        # the caller's dictionaries
        for n, v, before in self.own:
            same(rep, 'C18.caller', cons + ' given ' + n,
                 tm.pp(r.snap(v)), tm.pp(before))
        same(rep, 'C18.caller', cons + ' default options',
             list(map(tm.pp, self.globals())),
             list(map(tm.pp, self.defaults)))
        rep.visited |= r.m.visited


def session(rep, name, first, *ops):
    """operations: dictionaries (arguments of init) or 'process'"""
    try:
        s = Session(rep, name, **first)
        for o in ops:
            if o == 'process':
                s.process()
            else:
                s.init(**o)
    except Raised as e:
        rep.violated('C18.raise', '%s %s: %r %r' % (F, name, first, ops),
                     'raises %s' % tm.pp(e.exc)[:200])
        return
    s.check()


def T(s, n=2):
    return sym('%s%d' % (s, n), 'num')


OPTIONS = (
    ('fs', {'fs': 96000}), ('maxit', {'maxit': 3}), ('eps', {'eps': 0.125}),
    ('grad', {'grad': 'theta'}), ('theta', {'theta': 0.5}),
    ('split', {'split': False}), ('epsdg', {'epsdg': 0.25}),
    ('lang', {'lang': 'c++'}), ('path', {'path': '/new'}),
    ('dnames', {'dnames': ('x', 'y')}), ('timer', {'timer': False}),
    ('load', {'load': {'start': 1, 'stop': 3, 'step': 2}}),
    ('start', {'load': {'start': 1}}), ('stop', {'load': {'stop': 2}}),
    ('load and rate', {'load': {'step': 2}, 'fs': 8000}),
    ('cmake', {'cmake': '/opt/cmake'}),
    ('two', {'fs': 44100, 'split': False}),
)


def single(rep):
    """one init"""
    for base in ({'path': '/w'}, {'path': '/w', 'lang': 'c++'}):
        lab = base.get('lang', 'python')
        session(rep, lab, dict(config=base))
        session(rep, lab, dict(config=base), dict())
        for n, o in OPTIONS:
            if n == 'lang':
                o = {'lang': 'python' if lab == 'c++' else 'c++'}
            session(rep, '%s, %s given' % (lab, n),
                    dict(config=dict(base, **o)), dict())
            session(rep, '%s, %s changed' % (lab, n), dict(config=base),
                    dict(config=o))
        for n, kw in VALUES:
            session(rep, '%s, %s' % (lab, n), dict(config=base), kw)


K, L = tm.named('k'), tm.named('l')
VALUES = (
    ('parameter', dict(subs={K: C(7)})),
    ('other parameter', dict(subs={L: C(8)})),
    ('parameters', dict(subs={K: C(7), L: C(8)})),
    ('initial state', dict(inits={'x': [1, 2]})),
    ('initial values', dict(inits={'x': [1, 2], 'w': [3]})),
)


def given(rep):
    """options of the method, and others given at construction"""
    for lang in ('python', 'c++'):
        base = {'path': '/w', 'lang': lang}
        session(rep, lang + ', options of the method', dict(
            method={'grad': 'theta', 'theta': 0.5}, config=base), dict())
        session(rep, lang + ', options of the method, and other ones', dict(
            method={'grad': 'theta', 'theta': 0.5},
            config=dict(base, theta=0.25)), dict())
        session(rep, lang + ', options of the method, later other ones',
                dict(method={'grad': 'theta', 'theta': 0.5}, config=base),
                dict(config={'split': False}))
        session(rep, lang + ', initial values', dict(
            config=base, inits={'x': [1, 2]}), dict())
        session(rep, lang + ', initial values, again', dict(
            config=base, inits={'x': [1, 2]}), dict(inits={'x': [1, 2]}))
        session(rep, lang + ', initial values, others', dict(
            config=base, inits={'x': [1, 2]}), dict(inits={'x': [1, 4]}))
        session(rep, lang + ', initial values, one of two', dict(
            config=base, inits={'x': [1, 2], 'w': [5]}),
            dict(inits={'x': [2, 2], 'w': [5]}))
        session(rep, lang + ', initial values, one of two', dict(
            config=base, inits={'x': [1, 2], 'w': [5]}),
            dict(inits={'x': [1, 2], 'w': [6]}))
        session(rep, lang + ', initial values of another variable', dict(
            config=base, inits={'x': [1, 2]}), dict(inits={'w': [2]}))
        session(rep, lang + ', label', dict(config=base, label='own'),
                dict())
        session(rep, lang + ', new folder', dict(
            config=dict(base, path='/fresh')), dict())
        session(rep, lang + ', no folder', dict(
            config=dict(base, path=None)), dict())
        session(rep, lang + ', later no folder', dict(config=base),
                dict(config={'path': None}))


STEPS = (
    ('rate', dict(config={'fs': 96000})),
    ('method', dict(config={'grad': 'trapez'})),
    ('back', dict(config={'fs': 48000, 'grad': 'discret'})),
    ('c++', dict(config={'lang': 'c++'})),
    ('python', dict(config={'lang': 'python'})),
    ('parameter', dict(subs={K: C(7)})),
    ('new parameter', dict(subs={L: C(8)})),
    ('state', dict(inits={'x': [1, 2]})),
    ('all', dict(config={'split': False, 'maxit': 2}, subs={K: C(9)},
                 inits={'w': [4]})),
    ('folder', dict(config={'path': '/new'})),
    ('nothing', dict()),
)


def pairs(rep, k, lang):
    base = {'path': '/w', 'lang': lang}
    n, a = STEPS[k]
    for o, b in STEPS:
        session(rep, '%s, %s then %s' % (lang, n, o), dict(config=base), a,
                b)


def again(rep):
    """a run, then another one"""
    base = {'path': '/w'}
    for n, a in STEPS:
        if n == 'c++':
            continue
        session(rep, 'second run, ' + n, dict(config=base), dict(),
                'process', a)
        session(rep, 'third run, ' + n, dict(
            config=base, inits={'x': [5, 6]}), a, 'process', dict(),
            'process', a)


def triples(rep, k):
    n, a = STEPS[k]
    for (o, b), (p, c) in itertools.product(STEPS, STEPS):
        session(rep, '%s, %s, %s' % (n, o, p), dict(config={'path': '/w'}),
                a, b, c)


def refused(rep):
    """unknown options and languages"""
    def attempt(what, f):
        cons = '%s %s' % (F, what)
        try:
            f()
        except Raised:
            return rep.holds('C18.refused', cons)
        rep.violated('C18.refused', cons, 'is accepted')
    for lang in ('python', 'c++'):
        base = {'path': '/w', 'lang': lang}

        for bad in ({'rate': 1}, {'fs': 10, 'Split': True}):
            attempt('%s, Simulation(config with %s)' % (lang, list(bad)),
                    lambda: Session(rep, '', config=dict(base, **bad)))
            attempt('%s, init(config with %s)' % (lang, list(bad)),
                    lambda: Session(rep, '', config=base).init(config=bad))
    attempt('Simulation(lang fortran)', lambda: Session(
        rep, '', config={'path': '/w', 'lang': 'fortran'}))
    attempt('init(lang fortran)', lambda: Session(
        rep, '', config={'path': '/w'}).init(config={'lang': 'fortran'}))


def loading(rep):
    """two simulations do not share their loading options; those given are
    the ones of the data"""
    for lang in ('python', 'c++'):
        s = Session(rep, lang, config={'path': '/w', 'lang': lang})
        r, w = s.r, s.w
        s.init(nt=6)
        b = r.new(SIM, r.new(METHOD, w.core), w.given({
            'path': '/w', 'lang': lang}))
        r.meth(b, 'init', nt=C(6))
        d = r.get(s.sim, 'data')
        r.m.setattr(r.st, d, 'stop', C(4))
        r.m.setattr(r.st, d, 'start', C(2))
        r.m.setattr(r.st, d, 'step', C(3))
        o = r.get(b, 'data')
        same(rep, 'C18.load', '%s %s: options of another simulation' % (
            F, lang), [norm(r.snap(r.get(o, n))) for n in (
                'start', 'stop', 'step')], [norm(C(x)) for x in (0, 6, 1)])
        same(rep, 'C18.caller', '%s %s: default options' % (F, lang),
             list(map(tm.pp, s.globals())), list(map(tm.pp, s.defaults)))


def inputs(rep):
    """inputs and parameters given to init, those of a second init, and
    parameter values given to the generated C++ files"""
    def table(n, k, nt):
        return [[sym('%s%d_%d_%d' % (n, k, t, i), 'num')
                 for i in range(c17.DIMS[n])] for t in range(nt)]
    for lang in ('python', 'c++'):
        for first in ('', 'up', 'u', 'p'):
            for second in ('up', 'u', 'p', ''):
                cons = '%s %s: init with %s, then %s' % (
                    F, lang, first or 'none', second or 'none')
                try:
                    s = Session(rep, lang, config={'path': '/w',
                                                   'lang': lang})
                    r = s.r
                    for k, given in enumerate((first, second)):
                        nt = 3 + k
                        want = dict((n, table(n, k, nt) if n in given else
                                     [[tm.ZERO] * c17.DIMS[n]] * nt)
                                    for n in 'up')
                        r.meth(s.sim, 'init', **dict(
                            [(n, litlist(r, [litlist(r, row)
                                             for row in want[n]]))
                             for n in given] + [('nt', C(nt))] *
                            (given == '')))
                    d = r.get(s.sim, 'data')
                    for n in 'up':
                        rep.same('C18.inputs', '%s: data.%s' % (cons, n),
                                 c17.plain(r, r.meth(d, n)),
                                 c17.shaped(want[n]))
                    rep.visited |= r.m.visited
                except Raised as e:
                    rep.violated('C18.inputs', cons, 'raises %s' %
                                 tm.pp(e.exc)[:200])
    for given in ({K: C(11)}, None):
        s = Session(rep, 'C++ parameters', config={'path': '/w',
                                                   'lang': 'c++'})
        s.init()
        r, w = s.r, s.w
        cons = '%s init_parameters(%s)' % (F, 'values' if given else '')
        r.meth(s.sim, 'init_parameters', **({'subs': w.given(given)} if
                                            given else {}))
        want = given or {K: C(3)}
        subs = w.table(r.get(r.get(s.sim, 'method'), 'subs'))
        same(rep, 'C18.inputs', cons + ' method.subs', normed(
            dict((a, b) for a, b in subs.items() if a is not w.fs())),
            normed(want))
        have = w.table(w.texts)
        src = r.snap(r.get(s.sim, 'src_path')).args[0]
        for n in ('parameters.cpp', 'parameters.h'):
            same(rep, 'C18.inputs', cons + ' ' + n, norm(have.get(
                src + '/' + n, tm.NONE)), norm(C('PARAMETERS %s = %s' % (
                    tm.pp(K), norm(want[K])))))
        rep.visited |= r.m.visited


ROUTES = ('Core', 'Method', 'Graph', 'Netlist')


def routes(rep):
    """simulations and methods asked from a core, a method, a graph or a
    netlist"""
    for route in ROUTES:
        for lang in ('python', 'c++'):
            base = {'path': '/w', 'lang': lang}
            for n, o in (('', {}), ('options of the method', {
                    'grad': 'theta', 'theta': 0.5}), ('options', {
                        'fs': 8000, 'split': False, 'maxit': 7,
                        'dnames': ('x', 'y')})):
                session(rep, '%s %s %s' % (route, lang, n), dict(
                    config=dict(base, **o), route=route), dict())
            session(rep, '%s %s initial values' % (route, lang), dict(
                config=base, inits={'x': [1, 2]}, route=route), dict())
        session(rep, route + ' no option', dict(route=route), dict())
        if route == 'Method':
            continue
        for o in ({}, {'grad': 'theta', 'theta': 0.5}, {'split': False}):
            cons = '%s %s.to_method(%s)' % (F, route, Session.text(config=o))
            w = World()
            try:
                me = w.r.meth(w.source(route), 'to_method',
                              config=w.given(o))
            except Raised as e:
                rep.violated('C18.route', cons, 'raises %s' %
                             tm.pp(e.exc)[:200])
                continue
            want = dict(w.table(w.r.m.modglobal('pyphs.config',
                                                'CONFIG_METHOD')))
            want.update(o)
            same(rep, 'C18.route', cons, normed(w.table(w.r.get(
                me, 'config'))), normed(want))
            rep.visited |= w.r.m.visited


def erase(rep):
    """data found in the folder are erased, or kept with erase=False"""
    for route in (None,) + ROUTES:
        for lang in ('python', 'c++'):
            cons = '%s %s %s' % (F, route or 'Simulation', lang)
            try:
                s = Session(rep, lang, config={'path': '/w', 'lang': lang})
                s.init(nt=5)
                r, w = s.r, s.w
                d = r.get(s.sim, 'data')
                r.meth(d, 'h5dump_vecs', C(3), w.mkd([(n, litlist(r, [
                    sym('%s_%d' % (n, k), 'num') for k in range(
                        c17.DIMS[n])])) for n in c17.NAMES]))
                kept = c17.plain(r, r.meth(d, 'x'))
                cfg = w.given({'path': '/w', 'lang': lang})
                for keep in (True, False):
                    kw = dict(config=cfg, erase=C(not keep))
                    b = r.new(SIM, r.new(METHOD, w.core), **kw) \
                        if route is None else r.meth(
                            w.source(route), 'to_simulation', **kw)
                    if not keep:
                        r.meth(b, 'init', nt=C(5))
                    got = c17.plain(r, r.meth(r.get(b, 'data'), 'x'))
                    if keep:
                        rep.same('C18.erase', cons + ', erase=False', got,
                                 kept)
                    else:
                        rep.same('C18.erase', cons + ', erase=True', got,
                                 c17.shaped([[tm.ZERO] * c17.NX] * 5))
                rep.visited |= r.m.visited
            except Raised as e:
                rep.violated('C18.erase', cons, 'raises %s' %
                             tm.pp(e.exc)[:200])


def run(rep, tier):
    n = range(len(STEPS))
    jobs = [single, given, again, refused, loading, inputs, routes,
            erase] + [
        lambda rep, k=k, lang=lang: pairs(rep, k, lang)
        for k in n for lang in ('python', 'c++')]
    if tier != 'quick':
        jobs += [lambda rep, k=k: triples(rep, k) for k in n]
    cm.parallel(rep, jobs)
