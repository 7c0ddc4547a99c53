"""Data of a simulation: what is written is what is read. The inputs and
parameters given to a simulation and the values of each time step are stored
at their time step and under their name (zeros when absent), whatever the
size of the chunks; reading with a slice of times and a slice of components,
or with the current loading options (start, stop, step, as indices or times),
gives exactly the selected values; derived data (times, dx/dt, a, b,
arguments, energy, dissipated and source powers, variation of the energy) are
those of the selected time steps; every reader leaves the file as open or
closed as it found it; data saved before are read again with the same layout,
or refused when the dimensions differ.

Decided on files of 5 to 7 time steps of a method with 2 storages, 1
dissipation, 2 ports, 1 parameter and 1 observer, with arbitrary values; h5py
and numpy are modelled."""
from fractions import Fraction
from . import common as cm
from .common import ref, litcore, litlist
from . import c09, c12
from .. import terms as tm, nd
from ..interp import Raised
from ..rig import CORE
from ..terms import mk, C, sym

FLOOR = 150
F = 'pyphs/numerics/simulations/'
H5 = 'pyphs.numerics.simulations.h5data.h5data.H5Data'
TOOLS = 'pyphs.numerics.simulations.h5data.tools.'
METHOD = 'pyphs.numerics.numerical_method._method.Method'
NX, NW, NY, NP, NO = 2, 1, 2, 1, 1
DIMS = {'x': NX, 'dx': NX, 'dxH': NX, 'w': NW, 'z': NW, 'u': NY, 'y': NY,
        'p': NP}
NAMES = ('x', 'dx', 'dxH', 'w', 'z', 'y')
FS = Fraction(10)
INDS = {'H': (0, 3, 8), 'pd': (4, 7), 'o': (1, 7)}
CONST = {'H': (), 'pd': (), 'o': ()}


def pyconst(v):
    return C(v)


def mkd(r, **kw):
    return r.m.alloc(r.st, tm.mkdict(*[tm.pair(C(k), v)
                                       for k, v in kw.items()]))


def fresh(inds=INDS, nobs=NO):
    """(rig, file system, method)"""
    r = c09.rig()
    m = r.m
    nd.use(m)
    m.reclimit = 12
    m.budget = 10 ** 8
    files = r.m.alloc(r.st, tm.mkdict())
    fs = mkd(r, files=files, open=C(0))
    File = mk('cls', 'ref.h5.File')

    def opened(mm, st, args, kw):
        mode = kw.get('mode', args[1] if len(args) > 1 else C('r'))
        return mm.call(File, [fs, args[0], mode], {}, st)
    m.extmodels['h5py.File'] = opened
    m.models['ref.h5.value'] = value
    e = m.extmodels

    def isfile(mm, st, args, kw):
        p = mm.snapshot(st, args[0])
        if not tm.isc(p):
            return None
        if p.args[0] in ('/w', '/w/data'):
            return tm.TRUE
        return tm.isin(p, mm.snapshot(st, files))

    def remove(mm, st, args, kw):
        mm.call(mm.getattr(st, files, 'pop'), [args[0]], {}, st)
        return tm.NONE
    def join(mm, st, args, kw):
        v = [mm.snapshot(st, a) for a in args]
        if all(tm.isc(x) for x in v):
            return C('/'.join(x.args[0].rstrip('/') for x in v))
    e['os.path.join'] = join
    e['os.path.exists'] = isfile
    e['os.path.isfile'] = isfile
    e['os.path.isdir'] = isfile
    e['os.remove'] = remove
    e['os.unlink'] = remove
    for n in ('os.mkdir', 'os.makedirs', 'warnings.warn', 'time.sleep',
              'os.chdir', 'shutil.rmtree'):
        e[n] = lambda mm, st, args, kw: tm.NONE
    e['time.time'] = lambda mm, st, args, kw: sym('now', 'num')
    e['os.getcwd'] = lambda mm, st, args, kw: C('/cwd')

    def chain(mm, st, args, kw):
        rows = mm.snapshot(st, args[0])
        a = nd.nested(rows)
        if a is None:
            return None
        return mm.call(mk('cls', 'ref.h5.Chain'),
                       [nd.relist(mm, st, nd.unnest(a))], {}, st)
    e['itertools.chain.from_iterable'] = chain

    def fromiter(mm, st, args, kw):
        n = kw.get('count', args[2] if len(args) > 2 else C(-1))
        return mm.call(mm.getfn('ref.h5.fromiter'), [args[0], n], {}, st)
    e['numpy.fromiter'] = fromiter
    for n in ('encode', 'decode'):
        m.methmodels[n] = lambda mm, st, obj, args, kw: obj
    me = method(r, nobs)

    def evaluation(mm, st, args, kw):
        n = mm.snapshot(st, kw.get('names', args[1] if len(args) > 1
                                   else tm.NONE))
        if n.op != 'seq' or len(n.args) != 1:
            return None
        n = n.args[0].args[0]
        name = n.args[0]
        v = mm.alloc(st, tm.seq(*[tm.it(C(k)) for k in inds[name]]))
        return mm.call(mk('cls', 'ref.h5.Evaluation'),
                       [n, v, mm.getfn('ref.h5.value'),
                        C(nobs) if name == 'o' else tm.NONE], {}, st)
    m.models[CORE + '.to_evaluation'] = evaluation
    return r, fs, me


def value(m, st, args, kw):
    n, a, k = [m.snapshot(st, x) for x in args]
    return mk('call', sym('value', 'func:num'), n, k,
              *[g.args[0] for g in a.args])


def method(r, nobs=NO):
    c = c12.bare(r, METHOD)
    r.call(r.fn(CORE + '.__init__'), c, C('lab'))
    for a, n in (('x', NX), ('w', NW), ('u', NY), ('y', NY), ('p', NP)):
        r.set(c, a, litlist(r, [tm.named('%s%d' % (a, k))
                                for k in range(n)]))
    r.set(c, 'observers', r.m.alloc(r.st, tm.mkdict(*[
        tm.pair(tm.named('o%d' % k), sym('obs%d' % k, 'num'))
        for k in range(nobs)])))
    r.set(c, 'fs', tm.named('F_S'))
    r.set(c, '_core', c)
    return c


def config(r, **kw):
    m = r.m
    c = r.m.alloc(r.st, tm.mkdict())
    for n in ('SIMULATION', 'NUMERIC', 'METHOD', 'CPP'):
        d = m.modglobal('pyphs.config', 'CONFIG_' + n)
        if d is not None:
            r.meth(c, 'update', d)
    kw.setdefault('path', C('/w'))
    kw.setdefault('fs', C(FS))
    kw['load'] = mkd(r, start=C(0), stop=tm.NONE, step=C(1))
    kw.setdefault('dnames', tm.seq(*[tm.it(C(n)) for n in NAMES]))
    r.meth(c, 'update', mkd(r, **kw))
    return c


def grid(name, nt, n):
    return [[sym('%s_%d_%d' % (name, t, k), 'num') for k in range(n)]
            for t in range(nt)]


def lists(r, g):
    return litlist(r, [litlist(r, row) if isinstance(row, list) else row
                       for row in g])


def plain(r, v):
    """arrays, lists as nested sequences"""
    t = r.snap(v)
    a = nd.nested(t)
    if a is not None and t.op in ('nd', 'seq', 'mlit', 'zeros'):
        return tm.seq(tm.it(tm.seq(*[tm.it(C(s)) for s in nd.shape(a)])),
                      tm.it(nd.unnest(a)))
    return t


def shaped(g):
    """expected value: nested python lists of terms"""
    def f(x):
        return tm.seq(*[tm.it(f(y)) for y in x]) if isinstance(x, list) else x

    def s(x):
        return [len(x)] + (s(x[0]) if x else []) if isinstance(x, list) \
            else []
    return tm.seq(tm.it(tm.seq(*[tm.it(C(k)) for k in s(g)])), tm.it(f(g)))


def empty(*shape):
    a = nd.nd(shape, [])
    return tm.seq(tm.it(tm.seq(*[tm.it(C(s)) for s in shape])),
                  tm.it(nd.unnest(a)))


class Case(object):
    """data of nt time steps, written through the public functions"""

    def __init__(self, nt=7, inds=INDS, nobs=NO, opened=False):
        self.r, self.fs, self.me = fresh(inds, nobs)
        r = self.r
        self.nt, self.inds, self.nobs = nt, inds, nobs
        self.cfg = config(r)
        self.g = {n: grid(n, nt, DIMS[n]) for n in DIMS}
        self.d = r.new(H5, self.me, self.cfg, erase=tm.TRUE)
        r.meth(self.d, 'init_data', C(nt), lists(r, self.g['u']),
               lists(r, self.g['p']))
        for t in range(nt):
            r.meth(self.d, 'h5dump_vecs', C(t), mkd(r, **{
                n: litlist(r, self.g[n][t]) for n in NAMES}))
        if opened:
            r.meth(self.d, 'h5open')
        self.base = r.st.copy()

    def files(self):
        """handles that are open"""
        return self.r.snap(self.r.m.getitem(self.r.st, self.fs, C('open')))

    def args(self, t):
        g = self.g
        return g['x'][t] + g['dx'][t] + g['w'][t] + g['u'][t] + g['p'][t]

    def obs(self, t):
        a = self.args(t)
        return [self.val('o', [a[i] for i in self.inds['o']] or
                         [tm.ZERO], k) for k in range(self.nobs)]

    def val(self, name, args, k=0):
        return mk('call', sym('value', 'func:num'), C(name), C(k), *args)

    def expr(self, name, t):
        a = self.args(t) + self.obs(t)
        return self.val(name, [a[i] for i in self.inds[name]] or [tm.ZERO])

    def dtx(self, t):
        return [tm.mul(e, C(FS)) for e in self.g['dx'][t]]

    def row(self, name, t):
        g = self.g
        if name in g:
            return g[name][t]
        if name == 'dtx':
            return self.dtx(t)
        if name == 'a':
            return g['dxH'][t] + g['z'][t] + g['u'][t]
        if name == 'b':
            return self.dtx(t) + g['w'][t] + g['y'][t]
        if name == 'args':
            return self.args(t)
        if name == 'o':
            return self.obs(t)
        if name == 'args_o':
            return self.args(t) + self.obs(t)
        if name == 't':
            return tm.div(C(t), C(FS))
        if name == 'E':
            return self.expr('H', t)
        if name == 'pd':
            return self.expr('pd', t)
        if name in ('ps', 'DxhDtx'):
            a, b = (g['u'][t], g['y'][t]) if name == 'ps' else \
                (g['dxH'][t], self.dtx(t))
            v = tm.ZERO
            for x, y in zip(a, b):
                v = tm.add(v, tm.mul(x, y))
            return v
        raise KeyError(name)


def attempt(rep, rule, cons, case, f, want, files=None):
    """the value of f() on a copy of the state"""
    r = case.r
    r.st = case.base.copy()
    r.m.steps = 0
    r.m.pending = []
    before = case.files()
    try:
        v = f(r)
        got = plain(r, v)
        after = case.files()
    except Raised as e:
        rep.visited |= r.m.visited
        return rep.violated(rule, cons, 'raises %s' % tm.pp(e.exc)[:200])
    rep.visited |= r.m.visited
    for p in r.m.pending:
        if p[0] is tm.TRUE:
            return rep.violated(rule, cons, 'raises an exception')
        return rep.undecided(rule, cons, 'may raise')
    if want is not None:
        rep.same(rule, cons, got, want)
    rep.same('C17.file', cons + ': open files', after,
             before if files is None else files)


def sl(*v):
    return mk('slice', *[C(x) if x is not None else tm.NONE for x in v])


def run(rep, tier):
    jobs = [layout, chunks, readers, derived, opened, options, again,
            sequences, process, constant, sound]
    cm.parallel(rep, [prepared(j) for j in jobs])


def prepared(job):
    """the job; writing the data it starts from must not raise"""
    def run(rep):
        try:
            job(rep)
        except Raised as e:
            rep.violated('C17.write', F + 'h5data/h5data.py:H5Data (data of '
                         '%s)' % job.__name__, 'raises %s' %
                         tm.pp(e.exc)[:200])
    run.__name__ = job.__name__
    return run


# ---------------------------------------------------------------- writing

def layout(rep):
    """time steps and names do not disturb each other"""
    c = Case(5)
    for n in DIMS:
        attempt(rep, 'C17.write', F + 'h5data/h5data.py:H5Data %s' % n, c,
                lambda r: r.meth(c.d, n), shaped(c.g[n]))
    # a later write changes its time step only
    new = {n: [sym('new_%s_%d' % (n, k), 'num') for k in range(DIMS[n])]
           for n in NAMES}
    for t in (0, 2, 4):
        for n in DIMS:
            def f(r):
                r.meth(c.d, 'h5dump_vecs', C(t), mkd(r, **{
                    k: litlist(r, new[k]) for k in NAMES}))
                return r.meth(c.d, n)
            want = [list(row) for row in c.g[n]]
            if n in new:
                want[t] = new[n]
            attempt(rep, 'C17.write', F + 'h5data/h5data.py:H5Data.'
                    'h5dump_vecs at %d: %s' % (t, n), c, f, shaped(want))
    # some of the names
    for n in DIMS:
        def f(r):
            r.meth(c.d, 'h5dump_vecs', C(1), mkd(r, w=litlist(r, new['w']),
                                                 y=litlist(r, new['y'])))
            return r.meth(c.d, n)
        want = [list(row) for row in c.g[n]]
        if n in ('w', 'y'):
            want[1] = new[n]
        attempt(rep, 'C17.write', F + 'h5data/h5data.py:H5Data.h5dump_vecs '
                'of w and y: %s' % n, c, f, shaped(want))
    # sequences
    for lo, hi in ((0, 5), (1, 4), (0, 2)):
        for n in DIMS:
            def f(r):
                r.meth(c.d, 'h5dump_seqs', mkd(r, z=lists(r, grid(
                    'newz', hi - lo, 1)), x=lists(r, grid(
                        'newx', hi - lo, 2))), sl(lo, hi, None))
                return r.meth(c.d, n)
            want = [list(row) for row in c.g[n]]
            if n in ('z', 'x'):
                want[lo:hi] = grid('new' + n, hi - lo, DIMS[n])
            attempt(rep, 'C17.write', F + 'h5data/h5data.py:H5Data.'
                    'h5dump_seqs [%d:%d]: %s' % (lo, hi, n), c, f,
                    shaped(want))


def chunks(rep):
    """any size of chunk"""
    c = Case(1)
    r = c.r
    f = r.fn(TOOLS + 'set_dataset_from_iterable')
    for nt, rows in ((5, None), (5, (1, 4, None)), (5, (0, 5, 2)),
                     (4, (1, None, None)), (6, (0, 6, 1)), (5, (2, 2, None))):
        for cols in (None, (1, 3, None), (0, 1, None), (2, None, None)):
            for chunk in (1, 2, 3, 7):
                if cols and cols[1] is None and cols[0]:
                    continue
                R = list(range(nt))[slice(*rows)] if rows else range(nt)
                K = list(range(3))[slice(*cols)] if cols else range(3)
                old = grid('old', nt, 3)
                new = grid('new', len(R), len(K))

                def g(r):
                    ds = r.call(mk('cls', 'ref.h5.File'), c.fs, C('/t'),
                                C('w'))
                    d = r.meth(ds, 'create_dataset', C('global'),
                               data=lists(r, old))
                    r.call(f, d, lists(r, new), sl(*rows) if rows else
                           tm.NONE, sl(*cols) if cols else tm.NONE,
                           chunksize=C(chunk))
                    v = r.m.getitem(r.st, d, sl(None, None, None))
                    r.meth(ds, 'close')
                    return v
                want = [list(x) for x in old]
                for i, t in enumerate(R):
                    for j, k in enumerate(K):
                        want[t][k] = new[i][j]
                attempt(rep, 'C17.chunks', F + 'h5data/tools.py:'
                        'set_dataset_from_iterable rows %s, columns %s, '
                        'chunks of %d' % (rows, cols, chunk), c, g,
                        shaped(want))


# ---------------------------------------------------------------- reading

TSL = ((None, None, None), (1, None, None), (None, 5, None), (2, 6, None),
       (None, None, 2), (1, 7, 3), (0, 6, 2), (5, 6, None), (3, 3, None))


def readers(rep):
    c = Case(7)
    d = 'h5data/h5data.py:H5Data '
    for n in ('x', 'u', 'p', 'y', 'dxH'):
        for ts in TSL:
            for vs in (None, 0, DIMS[n] - 1, (0, 1, None), (None, None, None),
                       (1, None, None), (None, 1, None), (0, 2, 2),
                       (1, 2, None), (0, 2, None), (0, None, 2),
                       (None, 2, 1)):
                rows = c.g[n][slice(*ts)]
                if vs is None:
                    want = [list(x) for x in rows]
                elif isinstance(vs, int):
                    want = [x[vs] for x in rows]
                else:
                    if vs[1] is not None and vs[1] > DIMS[n]:
                        continue
                    want = [x[slice(*vs)] for x in rows]
                if not want or isinstance(want[0], list) and not want[0]:
                    continue
                v = tm.NONE if vs is None else C(vs) if isinstance(vs, int) \
                    else sl(*vs)
                t = '%s[%s, %s]' % (n, ts, vs)
                attempt(rep, 'C17.read', F + d + t, c,
                        lambda r: r.meth(c.d, n, sl(*ts), v), shaped(want))
                if vs is None or ts == (1, 7, 3):
                    attempt(rep, 'C17.getitem', F + d + '__getitem__ ' + t,
                            c, lambda r: r.m.getitem(
                                r.st, c.d, tm.seq(tm.it(C(n)),
                                                  tm.it(sl(*ts)),
                                                  tm.it(v))), shaped(want))
        attempt(rep, 'C17.getitem', F + d + '__getitem__ ' + n, c,
                lambda r: r.m.getitem(r.st, c.d, C(n)), shaped(c.g[n]))
        attempt(rep, 'C17.getitem', F + d + '__getitem__ %s[3]' % n, c,
                lambda r: r.m.getitem(r.st, c.d, tm.seq(
                    tm.it(C(n)), tm.it(C(3)))), shaped([c.g[n][3]]))
        attempt(rep, 'C17.read', F + d + '%s[0]' % n, c,
                lambda r: r.meth(c.d, n, C(0)), shaped([c.g[n][0]]))
        attempt(rep, 'C17.read', F + d + '%s, postprocess' % n, c,
                lambda r: r.meth(c.d, n, sl(1, 3, None), postprocess=r.fn(
                    'ref.h5.twice')), shaped(
                [[tm.mul(C(2), e) for e in row] for row in c.g[n][1:3]]))


SERIES = ('t', 'dtx', 'a', 'b', 'args', 'o', 'args_o', 'E', 'pd', 'ps')


def series(c, n, ts):
    return [c.row(n, t) for t in range(*slice(*ts).indices(c.nt))]


def energies(rep, c, suffix=''):
    d = 'h5data/h5data.py:H5Data.'
    for ts in ((None, None, None), (1, 6, None), (0, 7, 2), (0, 6, 2),
               (2, 7, 3), (3, None, None)):
        lo, hi, st = slice(*ts).indices(c.nt)
        for n in SERIES:
            attempt(rep, 'C17.derived', F + d + '%s%s%s' % (n, ts, suffix),
                    c, lambda r: r.meth(c.d, n, sl(*ts)),
                    shaped(series(c, n, ts)))
        attempt(rep, 'C17.derived', F + d + 'dtE%s DxhDtx%s' % (ts, suffix),
                c, lambda r: r.meth(c.d, 'dtE', sl(*ts), DtE=C('DxhDtx')),
                shaped(series(c, 'DxhDtx', ts)))
        # finite differences of the energy; at the last time step the
        # variation predicted by the gradient
        E = series(c, 'E', ts)
        k = tm.div(C(FS), C(st))
        want = [tm.mul(tm.sub(b, a), k) for a, b in zip(E, E[1:])]
        want.append(series(c, 'DxhDtx', ts)[-1])
        attempt(rep, 'C17.derived', F + d + 'dtE%s deltaH%s' % (ts, suffix),
                c, lambda r: r.meth(c.d, 'dtE', sl(*ts), DtE=C('deltaH')),
                shaped(want))


def derived(rep):
    energies(rep, Case(7))


def opened(rep):
    energies(rep, Case(7, opened=True), ', opened')


def constant(rep):
    """expressions without arguments, no observer"""
    c = Case(7, CONST, 1)
    energies(rep, c, ', constant expressions')
    c = Case(7, dict(INDS, H=(0,), o=()), 0)
    d = 'h5data/h5data.py:H5Data.'
    for ts in ((None, None, None), (1, 7, 2)):
        n = len(range(*slice(*ts).indices(7)))
        attempt(rep, 'C17.derived', F + d + 'o%s, no observer' % (ts,), c,
                lambda r: r.meth(c.d, 'o', sl(*ts)), empty(n, 0))
        for k in ('args_o', 'E', 'pd'):
            attempt(rep, 'C17.derived', F + d + '%s%s, no observer' % (k, ts),
                    c, lambda r: r.meth(c.d, k, sl(*ts)),
                    shaped(series(c, k, ts)))


# ---------------------------------------------------------------- options

def options(rep):
    c = Case(7)
    d = 'h5data/h5data.py:H5Data.'

    def setall(r, **kw):
        for k, v in kw.items():
            r.m.setattr(r.st, c.d, k, v)
    fr = lambda a, b: C(Fraction(a, b))
    good = [({}, (0, 7, 1)), ({'start': C(2)}, (2, 7, 1)),
            ({'stop': C(5)}, (0, 5, 1)), ({'step': C(3)}, (0, 7, 3)),
            ({'stop': C(6), 'start': C(1), 'step': C(2)}, (1, 6, 2)),
            ({'start': C(3), 'stop': C(4)}, (3, 4, 1)),
            ({'tstart': fr(1, 2)}, (5, 7, 1)),
            ({'tstop': fr(3, 10)}, (0, 4, 1)),
            ({'tstop': fr(6, 10), 'tstart': fr(1, 5)}, (2, 7, 1)),
            ({'start': C(2), 'tstart': tm.NONE}, (0, 7, 1)),
            ({'stop': C(7)}, (0, 7, 1)),
            ({'start': C(0)}, (0, 7, 1)),
            ({'start': C(6)}, (6, 7, 1))]
    for kw, (lo, hi, st) in good:
        label = ', '.join('%s=%s' % (k, tm.pp(v)) for k, v in kw.items()) \
            or 'defaults'

        def f(r, n=None):
            setall(r, **kw)
            return tm.seq(*[tm.it(r.get(c.d, n)) for n in
                            ('start', 'stop', 'step', 'tstart', 'tstop')])
        want = shaped([C(lo), C(hi), C(st), tm.div(C(lo), C(FS)),
                       tm.div(C(hi - 1), C(FS))])
        attempt(rep, 'C17.options', F + d + label, c, f, want)
        for n in ('x', 't', 'E', 'b'):
            def f(r):
                setall(r, **kw)
                return r.meth(c.d, n)
            attempt(rep, 'C17.options', F + d + '%s: %s' % (label, n), c, f,
                    shaped([c.row(n, t) for t in range(lo, hi, st)]))
    # what a slice leaves open is taken from the options
    for ts, rows in (((None, None, None), range(1, 6, 2)),
                     ((3, None, None), range(3, 6, 2)),
                     ((None, 4, None), range(1, 4, 2)),
                     ((None, None, 1), range(1, 6)),
                     ((0, None, 3), range(0, 6, 3)),
                     ((0, 7, None), range(0, 7, 2)),
                     ((0, 7, 1), range(7))):
        for n in ('y', 't', 'E', 'a'):
            def f(r):
                setall(r, start=C(1), stop=C(6), step=C(2))
                return r.meth(c.d, n, sl(*ts))
            attempt(rep, 'C17.options', F + d + '1:6:2, %s[%s]' % (n, ts),
                    c, f, shaped([c.row(n, t) for t in rows]))
    # twice: back to the whole range
    def f(r):
        setall(r, start=C(2), stop=C(4), step=C(2))
        setall(r, start=tm.NONE, stop=tm.NONE, step=tm.NONE)
        return r.meth(c.d, 'x')
    attempt(rep, 'C17.options', F + d + 'reset: x', c, f, shaped(c.g['x']))
    for kw in ({'start': C(7)}, {'start': C(-1)}, {'stop': C(8)},
               {'stop': C(0)}, {'step': C(0)}, {'step': C(-1)},
               {'start': C(3), 'stop': C(3)}, {'stop': C(3), 'start': C(3)},
               {'start': C(3), 'stop': C(2)},
               {'tstart': fr(7, 10)}, {'tstart': fr(-1, 10)},
               {'tstop': fr(7, 10)}, {'tstop': fr(-1, 10)},
               {'start': C(3), 'tstop': fr(2, 10)},
               {'stop': C(3), 'tstart': fr(3, 10)}):
        label = ', '.join('%s=%s' % (k, tm.pp(v)) for k, v in kw.items())
        refused(rep, 'C17.refuse', F + d + label, c,
                lambda r: setall(r, **kw))


def refused(rep, rule, cons, case, f):
    r = case.r
    r.st = case.base.copy()
    r.m.steps = 0
    r.m.pending = []
    try:
        f(r)
        ok = [p[0] for p in r.m.pending]
        if any(p is tm.TRUE for p in ok):
            rep.holds(rule, cons)
        elif ok:
            rep.undecided(rule, cons, 'may be accepted')
        else:
            rep.violated(rule, cons, 'accepted')
    except Raised as e:
        rep.holds(rule, cons)
    rep.visited |= r.m.visited


# ----------------------------------------------------------- other histories

def again(rep):
    """a new reader of the same file"""
    c = Case(5)
    box = {}
    for n in DIMS:
        def f(r):
            d = r.new(H5, c.me, config(r), erase=tm.FALSE)
            return r.meth(d, n)
        attempt(rep, 'C17.again', F + 'h5data/h5data.py:H5Data of an existing '
                'file: ' + n, c, f, shaped(c.g[n]))

    def f(r):
        d = r.new(H5, c.me, config(r), erase=tm.FALSE)
        return r.get(d, 'nt')
    attempt(rep, 'C17.again', F + 'h5data/h5data.py:H5Data of an existing '
            'file: nt', c, f, C(5))
    for what in ('x', 'p'):
        def f(r):
            me = method(r)
            r.set(me, what, litlist(r, [tm.named('%s%d' % (what, k))
                                        for k in range(DIMS[what] + 1)]))
            r.new(H5, me, config(r), erase=tm.FALSE)
        refused(rep, 'C17.again', F + 'h5data/h5data.py:H5Data of a file with '
                'other dimensions (%s)' % what, c, f)
    # erase forgets
    for n in ('u', 'x'):
        def f(r):
            cfg = config(r)
            d = r.new(H5, c.me, cfg, erase=tm.TRUE)
            r.meth(d, 'init_data', C(3))
            return r.meth(d, n)
        attempt(rep, 'C17.again', F + 'h5data/h5data.py:H5Data, erased: ' + n,
                c, f, shaped([[tm.ZERO] * 2] * 3))
    # a second simulation of another length
    for nt in (3, 6):
        U = grid('v', nt, NY)
        for n, want in (('u', U), ('x', [[tm.ZERO] * NX] * nt),
                        ('p', [[tm.ZERO]] * nt)):
            def f(r):
                r.meth(c.d, 'init_data', C(nt), lists(r, U))
                return r.meth(c.d, n)
            attempt(rep, 'C17.again', F + 'h5data/h5data.py:H5Data.init_data '
                    'again, %d time steps: %s' % (nt, n), c, f, shaped(want))


def sequences(rep):
    """forms of the inputs and of the parameters"""
    nt = 4
    U, P = grid('u', nt, NY), grid('p', nt, NP)
    zero = lambda n: [[tm.ZERO] * n] * nt
    U1 = [row[0] for row in U]

    def arr(r, g):
        return r.m.alloc(r.st, nd.nested(r.snap(lists(r, g))))
    flat = [row[0] for row in P]
    cases = (
        ('nt only', lambda r: (C(nt), tm.NONE, tm.NONE), zero(NY), zero(NP)),
        ('u list', lambda r: (tm.NONE, lists(r, U), tm.NONE), U, zero(NP)),
        ('u array', lambda r: (tm.NONE, arr(r, U), tm.NONE), U, zero(NP)),
        ('p list', lambda r: (tm.NONE, tm.NONE, lists(r, P)), zero(NY), P),
        ('p array', lambda r: (tm.NONE, tm.NONE, arr(r, P)), zero(NY), P),
        ('p flat array', lambda r: (C(nt), tm.NONE, arr(r, flat)), zero(NY),
         P),
        ('u and p', lambda r: (tm.NONE, lists(r, U), arr(r, P)), U, P),
        ('nt, u and p', lambda r: (C(nt), arr(r, U), lists(r, P)), U, P))
    r, fs, me = fresh()
    c = Case.__new__(Case)
    c.r, c.fs, c.me = r, fs, me
    c.d = r.new(H5, me, config(r), erase=tm.TRUE)
    c.base = r.st.copy()
    for label, args, u, p in cases:
        for n, want in (('u', u), ('p', p), ('x', zero(NX)), ('y', zero(NY))):
            def f(r):
                r.meth(c.d, 'init_data', *args(r))
                return r.meth(c.d, n)
            attempt(rep, 'C17.sequences', F + 'h5data/h5data.py:H5Data.'
                    'init_data %s: %s' % (label, n), c, f, shaped(want))
    refused(rep, 'C17.sequences', F + 'h5data/h5data.py:H5Data.init_data '
            'without length', c, lambda r: r.meth(c.d, 'init_data'))
    refused(rep, 'C17.sequences', F + 'h5data/h5data.py:H5Data.init_data, '
            'flat input for two ports', c,
            lambda r: r.meth(c.d, 'init_data', C(nt), arr(r, U1)))


# ---------------------------------------------------------------- the loop

def process(rep):
    """Simulation.process in python: the data of time step n are the values
    after the update with the n-th input and parameter"""
    SIM = 'pyphs.numerics.simulations.simulation.Simulation'
    nt = 4
    for opts in (dict(), dict(start=C(1), stop=C(3), step=C(2))):
        c = Case(nt)
        r = c.r
        s = c12.bare(r, SIM)
        r.set(s, 'config', c.cfg)
        r.set(s, 'data', c.d)
        r.set(s, 'method', c.me)
        r.set(s, 'label', C('lab'))
        nums = r.new('ref.h5.Nums', mkd(r, **{n: C(DIMS[n]) for n in DIMS}),
                     r.fn('ref.h5.value'))
        r.set(s, 'nums', nums)
        c.base = r.st.copy()
        hist = [[C(t + 1)] + c.g['u'][t] + c.g['p'][t] for t in range(nt)]
        for n in DIMS:
            def f(r):
                for k, v in opts.items():
                    r.m.setattr(r.st, c.d, k, v)
                r.meth(s, 'process')
                return r.meth(c.d, n, sl(0, nt, 1))
            want = c.g[n] if n in ('u', 'p') else [
                [c.val(n, hist[t], k) for k in range(DIMS[n])]
                for t in range(nt)]
            attempt(rep, 'C17.process', F + 'simulation.py:Simulation.process'
                    '%s: %s' % (', loading options' if opts else '', n), c, f,
                    shaped(want))


def sound(rep):
    """wavwrite exports the selected signal"""
    c = Case(7)
    seen = []

    def wav(m, st, args, kw):
        names = ('sig', 'fs', 'path', 'fs_out', 'normalize', 'timefades')
        d = dict(zip(names, args))
        d.update(kw)
        seen.append(d)
        return d.get('sig')
    c.r.m.models['pyphs.misc.signals.waves.wavwrite'] = wav
    d = F + 'h5data/h5data.py:H5Data.wavwrite '
    for n, i, lo, hi in (('y', 1, None, None), ('x', 0, 2, 6),
                         ('dtx', 1, None, 4)):
        del seen[:]

        def f(r):
            if lo is not None:
                r.m.setattr(r.st, c.d, 'start', C(lo))
            if hi is not None:
                r.m.setattr(r.st, c.d, 'stop', C(hi))
            r.m.setattr(r.st, c.d, 'step', C(2))
            r.meth(c.d, 'wavwrite', C(n), C(i), gain=sym('gain', 'num'))
            if len(seen) != 1:
                return tm.NONE
            s = seen[0]
            return tm.seq(tm.it(s.get('sig', tm.NONE)),
                          tm.it(s.get('fs', tm.NONE)),
                          tm.it(s.get('fs_out', tm.NONE)))
        g = sym('gain', 'num')
        want = [tm.mul(g, c.row(n, t)[i]) for t in range(lo or 0, hi or 7)]
        want = tm.seq(tm.it(tm.seq(*[tm.it(e) for e in want])), tm.it(C(FS)),
                      tm.it(C(FS)))

        def g2(r):
            v = r.snap(f(r))
            if v.op == 'seq':
                a = nd.nested(v.args[0].args[0])
                if a is not None:
                    v = tm.seq(tm.it(nd.unnest(a)), *v.args[1:])
            return v
        r = c.r
        r.st = c.base.copy()
        try:
            got = g2(r)
        except Raised as e:
            rep.violated('C17.sound', d + n, 'raises %s' % tm.pp(e.exc)[:200])
            continue
        rep.visited |= r.m.visited
        rep.same('C17.sound', d + n, got, want)
        rep.same('C17.file', d + n + ': open files', c.files(), C(0))
