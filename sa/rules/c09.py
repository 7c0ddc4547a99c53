"""Building and combining cores: adding storages, dissipations, ports,
parameters and observers appends exactly the given symbols and expressions
(one or several); the sum of two cores lists the components of the first then
of the second, block by block, with the two structures uncoupled, and carries
the expressions, substitutions, observers, connectors and forced dissipations
of both; the operands are left as they were.

Decided for literal dimensions (0 to 2 of each kind, several combinations)
and arbitrary expressions and matrix entries."""
from . import common as cm
from .common import agree, attr, ref, litcore, litlist
from ..rig import Rig, CORE
from .. import terms as tm
from ..terms import mk, C, sym

FLOOR = 60
F = 'pyphs/core/core.py:Core.'
OBS = ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'z', 'H', 'M', '_dxH', 'subs',
       'observers', 'connectors', 'force_wnl', 'label')
DIMS = [((1, 1, 1, 0), (1, 0, 1, 1)), ((2, 1, 0, 1), (1, 1, 1, 2)),
        ((0, 1, 2, 0), (2, 0, 0, 1)), ((0, 0, 1, 0), (0, 0, 2, 0)),
        ((1, 2, 1, 1), (2, 1, 1, 1)), ((2, 0, 0, 0), (0, 2, 0, 0)),
        ((0, 0, 0, 0), (1, 1, 0, 0))]


def rig():
    r = Rig()
    r.m.numexpr = True
    r.m.setorder = True
    return r


def dress(r, c, name, n, nw):
    r.set(c, 'subs', r.m.alloc(r.st, tm.mkdict(*[
        tm.pair(tm.named('s%s%d' % (name, k)), sym('v%s%d' % (name, k),
                                                   'num'))
        for k in range(n)])))
    r.set(c, 'observers', r.m.alloc(r.st, tm.mkdict(*[
        tm.pair(tm.named('o%s%d' % (name, k)), sym('e%s%d' % (name, k),
                                                   'num'))
        for k in range(n)])))
    r.set(c, 'connectors', litlist(r, [sym('con%s%d' % (name, k), 'dict')
                                       for k in range(n)]))
    r.set(c, 'force_wnl', litlist(r, [tm.named('w%s%d' % (name, k))
                                      for k in range(nw)]))


def values(r, c):
    out = [(a, r.val(c, a)) for a in OBS]
    d = r.get(c, 'dims')
    return out + [('dims.' + a, r.val(d, a)) for a in ('_xl', '_wl')]


def run(rep, tier):
    g = rep.guard
    ds = DIMS if tier == 'thorough' else DIMS[:5]
    for k, (a, b) in enumerate(ds):
        for dx in ((False, False), (True, False), (False, True),
                   (True, True)):
            if k and dx != (k % 2 == 0, k % 3 == 0):
                continue
            cons = F + '__add__ (%s + %s%s)' % (
                a, b, ', gradients %s' % (dx,) if any(dx) else '')
            g('C09.add', cons, add, rep, cons, a, b, dx)
    for f, n in (('add_storages', 2), ('add_dissipations', 2),
                 ('add_ports', 2), ('add_parameters', 1),
                 ('add_observer', 0)):
        for k in ((None, 0, 1, 3) if n else (2,)):
            cons = F + '%s (%s)' % (f, 'one' if k is None else
                                    'list of %d' % k)
            g('C09.build', cons, build, rep, cons, f, n, k)
    for f in ('allsymbs', 'freesymbols'):
        g('C09.symbols', F + f, symbs, rep, F + f, f)
    for a, b in ((2, 1), (1, 2), (0, 1)):
        for f in ('add_dissipations', 'add_ports'):
            cons = F + '%s (%d and %d)' % (f, a, b)
            g('C09.refuse', cons, refuse, rep, cons, f, a, b)


def add(rep, cons, a, b, dx):
    r = rig()
    c1 = litcore(r, 'A', *a, np=1, dxH=dx[0])
    c2 = litcore(r, 'B', *b, np=2, dxH=dx[1])
    dress(r, c1, 'A', 1, 1)
    dress(r, c2, 'B', 2, 1)
    before = values(r, c1), values(r, c2)
    s = r.meth(c1, '__add__', c2)
    if r.m.objcls.get(s) != CORE:
        rep.undecided('C09.add', cons, 'result is not a known core')
        return
    got = dict(values(r, s))
    e = r.new(CORE, C('A'))
    r.call(ref(r, 'building.add'), e, c1, c2)
    want = dict(values(r, e))
    # structure: entry by entry
    want['M'] = structure(a, b)
    want['label'] = C('A')
    for k in OBS:
        rep.same('C09.add', '%s: %s' % (cons, k), got[k], want[k])
    for k in ('dims._xl', 'dims._wl'):
        rep.same('C09.add', '%s: %s' % (cons, k), got[k], C(0))
    for n, c, v in (('first', c1, before[0]), ('second', c2, before[1])):
        for (k, w), (_, x) in zip(v, values(r, c)):
            rep.same('C09.operands', '%s: %s of the %s' % (cons, k, n), x, w)
    for k in ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'z', 'subs', 'observers',
              'connectors', 'force_wnl'):
        v = r.get(s, k)
        rep.check('C09.alias', '%s: %s' % (cons, k),
                  v is not r.get(c1, k) and v is not r.get(c2, k),
                  'the sum shares the container of an operand')
    rep.visited |= r.m.visited


def structure(a, b):
    ia, ib, rows = 0, 0, []
    for na, nb in zip(a, b):
        rows += [('A', ia + k) for k in range(na)]
        rows += [('B', ib + k) for k in range(nb)]
        ia, ib = ia + na, ib + nb
    if not rows:
        return mk('zeros', C(0), C(0))
    return mk('mlit', *[tuple(
        sym('M%s_%d_%d' % (p, i, j), 'num') if p == q else C(0)
        for q, j in rows) for p, i in rows])


def build(rep, cons, f, n, k):
    r = rig()
    c = litcore(r, 'A', 1, 1, 1, 0, np=1)
    dress(r, c, 'A', 2, 0)

    def args(r):
        if n == 0:
            return [r.m.alloc(r.st, tm.mkdict(*[
                tm.pair(tm.named('ob%d' % i), sym('ex%d' % i, 'num'))
                for i in range(k)]))]
        out = []
        for p in range(n):
            nm = [tm.named('sA0')] if f == 'add_parameters' else []
            if p == 1 and f == 'add_storages':
                out.append(sym('energy', 'num'))
                continue
            ts = [(nm + [tm.named('a%d%d' % (p, i))]
                   if p == 0 or f == 'add_ports' else
                   [sym('f%d' % i, 'num')])[0]
                  if i == 0 else tm.named('a%d%d' % (p, i))
                  if p == 0 or f == 'add_ports' else sym('f%d' % i, 'num')
                  for i in range(k or 1)]
            out.append(ts[0] if k is None else litlist(r, ts[:k]))
        return out
    q = ref(r, 'building.' + f)
    agree(rep, 'C09.build', cons, r, lambda r: r.meth(c, f, *args(r)),
          lambda r: r.call(q, c, *args(r)), [(a, attr(c, a)) for a in OBS],
          ret=False)


def symbs(rep, cons, f):
    r = rig()
    c = litcore(r, 'A', 2, 1, 1, 1, np=1)
    dress(r, c, 'A', 2, 1)
    r.set(c, 'bl', litlist(r, [sym('bl0', 'num')]))
    r.set(c, 'Q', cm.litmat(r, 'Q', 1, 1))
    r.set(c, 'Zl', cm.litmat(r, 'Zl', 1, 1))

    def hook(m, st, t):
        if tm.isname(t):
            return tm.mkset(tm.it(t))
        if t.op == 'sym':
            return tm.mkset(tm.it(tm.named('fs_' + t.args[0])),
                            tm.it(tm.named('shared')))
        if t.op == 'mlit':
            s = []
            for row in t.args:
                for e in row:
                    s += list(hook(m, st, e).args)
            return tm.mkset(*s)
        if t.op == 'zeros' or tm.isc(t):
            return tm.mkset()
    r.m.attrhooks['free_symbols'] = hook
    q = ref(r, 'building.' + f)
    agree(rep, 'C09.symbols', cons, r, lambda r: r.meth(c, f),
          lambda r: r.call(q, c), [(a, attr(c, a)) for a in OBS])


def refuse(rep, cons, f, a, b):
    """lists of different lengths are refused and nothing is added"""
    r = rig()
    c = litcore(r, 'A', 1, 1, 1, 0)
    before = values(r, c)
    r.m.pending = []
    r.meth(c, f, litlist(r, [tm.named('a%d' % k) for k in range(a)]),
           litlist(r, [tm.named('b%d' % k) for k in range(b)]))
    raised = tm.FALSE
    for p in r.m.pending:
        raised = tm.or_(raised, p[0])
    rep.same('C09.refuse', cons + ': raises', raised, tm.TRUE)
    rep.visited |= r.m.visited
