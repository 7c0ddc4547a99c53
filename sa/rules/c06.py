"""Separation of the linear and nonlinear parts: components whose derivative
columns involve no state come first, both groups keep their order, every
companion (gradient, dissipation function, rows and columns of M) follows,
and Q, bl, Zl and the dimensions describe exactly the linear part.

Decided for up to 3 storages and 2 dissipations (3 in the thorough tier) with
every pattern of nonlinear entries of the derivatives, arbitrary numbers of
ports and connectors and arbitrary expressions."""
import itertools
import re
from . import common as cm
from .common import agree, ref
from ..rig import CORE, symbols as _symbols
from .c03 import observables, notzero
from .. import terms as tm, models
from ..terms import mk, C, sym

FLOOR = 30
F = 'pyphs/core/structure/splits.py:'
tm.ATTR_KIND['tail'] = 'nat'


def deriv(t):
    """(f, [v..]) for nested derivatives f.diff(v1).diff(v2)"""
    vs = []
    while t.op == 'call' and t.args[0].op in ('meth', 'attr') and \
            t.args[0].args[1] == 'diff' and len(t.args) == 2:
        vs.append(t.args[1])
        t = t.args[0].args[0]
    return t, tuple(reversed(vs))


def named(s):
    """the symbol, or the symbols of a range 'w(:2)'"""
    k = re.fullmatch(r'(.*)\((\d*):(\d+)\)', s)
    if k is None:
        return tm.named(s)
    return tm.seq(*[tm.it(tm.named(k[1] + str(i)))
                    for i in range(int(k[2] or 0), int(k[3]))])


def symbols(m, st, args, kw):
    """a symbol is its name"""
    if len(args) == 1 and not kw and tm.isc(args[0]):
        if isinstance(args[0].args[0], str) and ' ' not in args[0].args[0]:
            return named(args[0].args[0])
    if len(args) == 1 and not kw:
        v = m.deref(st, args[0])
        if v is not None and v.op == 'seq' and v.args and all(
                e.op == 'it' and tm.isc(e.args[0])
                and isinstance(e.args[0].args[0], str)
                and ' ' not in e.args[0].args[0] for e in v.args):
            return tm.seq(*[tm.it(tm.named(e.args[0].args[0]))
                            for e in v.args])
    return _symbols(m, st, args, kw)


def setup(nx, nw, dep, dxH=False):
    """core with nx storages, nw dissipations; dep(f, vars) is the set of
    symbols of a derivative (None: unknown)"""
    r, c, base = cm.corerig('c06', dxH=dxH, models={CORE + '.symbols':
                                                    symbols})
    r.m.numexpr = True
    r.m.setorder = True      # sets of symbols are only tested for members
    X = [tm.named('x%d' % k) for k in range(nx)]
    Wd = [tm.named('w%d' % k) for k in range(nw)]
    Z = [sym('z%d' % k, 'num') for k in range(nw)]

    def lst(ts):
        return r.m.alloc(r.st, tm.seq(*[tm.it(t) for t in ts]))
    r.set(c, 'x', lst(X))
    r.set(c, 'w', lst(Wd))
    r.set(c, 'z', lst(Z))
    if dxH:
        r.set(c, '_dxH', lst([sym('g%d' % k, 'num') for k in range(nx)]))
    tot = tm.add(C(nx + nw), tm.add(tm.length(mk('attr', base, 'y')),
                                    tm.length(mk('attr', base, 'cy'))))
    name = 'M%d_%d' % (nx, nw)
    models.SYMSHAPES[name] = lambda t: (tot, tot)
    r.set(c, 'M', r.m.alloc(r.st, sym(name, 'mat')))
    d = r.get(c, 'dims')
    for a in ('_xl', '_wl', '_xnl_mono'):
        r.set(d, a, C(0))

    def hook(m, st, t):
        f, vs = deriv(t)
        if not vs and not (f.op == 'sym' and f.args[0][:2] in ('mx', 'mw')):
            return None
        s = dep(f, vs)
        return None if s is None else tm.mkset(*[tm.it(tm.named(e)) for e in
                                                 sorted(s)])
    r.m.attrhooks['free_symbols'] = hook
    return r, c, base


def entries(px, pw):
    """symbols of the entries of given criterion matrices"""
    def dep(f, vs):
        n = f.args[0] if f.op == 'sym' else '?'
        if vs or n[:2] not in ('mx', 'mw'):
            return {'q'}
        i, j = int(n[2]), int(n[3])
        return {'q', 'r'} if (i, j) in (px if n[1] == 'x' else pw) else {'r'}
    return dep


def num(v):
    return v.args[0][1:] if tm.isname(v) else '?'


def pats(n):
    """symmetric patterns of nonlinear second derivatives"""
    ij = [(i, j) for i in range(n) for j in range(i, n)]
    for bits in itertools.product((0, 1), repeat=len(ij)):
        yield frozenset(p for p, b in zip(ij, bits) if b)


def patw(n):
    ij = [(i, j) for i in range(n) for j in range(n)]
    for bits in itertools.product((0, 1), repeat=len(ij)):
        yield frozenset(p for p, b in zip(ij, bits) if b)


def deps(px, pw, vx, vw):
    def dep(f, vs):
        v = [str(num(t)) for t in vs]
        if len(v) == 2 and all(e[0] == 'x' for e in v):
            k = tuple(sorted(int(e[1:]) for e in v))
            return {vx, 'p'} if k in px else {'p'}
        if len(v) == 1 and v[0][0] == 'w' and f.op == 'sym' and \
                f.args[0][0] == 'z':
            k = int(f.args[0][1:]), int(v[0][1:])
            return {vw, 'p'} if k in pw else {'p', 'x0'}
        return None
    return dep


def run(rep, tier):
    g = rep.guard
    cases = []
    for n in (0, 1, 2, 3):
        for p in pats(n):
            cases.append((n, 0, p, frozenset(), 'x0', 'w0'))
    for n in (1, 2):
        for p in patw(n):
            cases.append((0, n, frozenset(), p, 'x0', 'w0'))
    if tier == 'thorough':
        for p in patw(3):
            if len(p) <= 4:
                cases.append((0, 3, frozenset(), p, 'x0', 'w0'))
    for vx, vw in (('x0', 'w1'), ('x1', 'w0'), ('dx0', 'dx1'), ('w0', 'w0'),
                   ('w1', 'dx0')):
        for px, pw in (({(0, 0)}, {(0, 0)}), ({(1, 1)}, {(0, 0)}),
                       ({(0, 1)}, {(1, 1)}), ({(0, 0)}, {(0, 1)})):
            cases.append((2, 2, frozenset(px), frozenset(pw), vx, vw))
    for n in (1, 2):
        for p in patw(n):
            if n < 2 or len(p) < 4:
                cons = F + 'linear_nonlinear(criterion) (%d storages %s)' % (
                    n, sorted(p))
                g('C06.criterion', cons, criterion, rep, cons, n, 0, p,
                  frozenset())
                cons = F + 'linear_nonlinear(criterion) (%d dissipations ' \
                    '%s)' % (n, sorted(p))
                g('C06.criterion', cons, criterion, rep, cons, 1, n,
                  frozenset(), p)
    for px, pw in (({(0, 1), (2, 0)}, ()), ({(1, 0)}, {(0, 0)}),
                   ({(2, 2), (0, 0)}, {(1, 1)})):
        cons = F + 'linear_nonlinear(criterion) (3 storages %s, 2 ' \
            'dissipations %s)' % (sorted(px), sorted(pw))
        g('C06.criterion', cons, criterion, rep, cons, 3, 2, px, pw)
    for nx, nw, px, pw, vx, vw in cases:
        cons = F + 'linear_nonlinear (%d storages %s, %d dissipations %s)' \
            % (nx, sorted(px), nw, sorted(pw))
        g('C06.split', cons, split, rep, cons, nx, nw, px, pw, vx, vw)


def split(rep, cons, nx, nw, px, pw, vx, vw):
    r, c, base = setup(nx, nw, deps(px, pw, vx, vw),
                       dxH=len(px) % 2 == 1)
    f = ref(r, 'split.linear_nonlinear')
    agree(rep, 'C06.split', cons, r, lambda r: r.meth(c, 'linear_nonlinear'),
          lambda r: r.call(f, c), observables(r, c), ret=False, norm=notzero)


def criterion(rep, cons, nx, nw, px, pw):
    r, c, base = setup(nx, nw, entries(px, pw), dxH=len(px) % 2 == 1)

    def mat(p, n, k):
        if n == 0:
            return tm.mk('zeros', C(0), C(0))
        return mk('mlit', *[tuple(sym('%s%d%d' % (p, i, j), 'num')
                                  for j in range(n)) for i in range(n)])

    def args(r, names):
        return r.m.alloc(r.st, tm.seq(*[tm.it(tm.named(e)) for e in names]))

    def crit(r):
        a = [r.m.alloc(r.st, mat('mx', nx, r)), args(r, ['q']),
             r.m.alloc(r.st, mat('mw', nw, r)), args(r, ['q', 's'])]
        return a

    def repo(r):
        a = crit(r)
        t = [tm.seq(tm.it(a[0]), tm.it(a[1])),
             tm.seq(tm.it(a[2]), tm.it(a[3]))]
        return r.meth(c, 'linear_nonlinear',
                      r.m.alloc(r.st, tm.seq(*[tm.it(e) for e in t])))
    f = ref(r, 'split.with_criterion')
    agree(rep, 'C06.criterion', cons, r, repo,
          lambda r: r.call(f, c, *crit(r)), observables(r, c), ret=False,
          norm=notzero)
