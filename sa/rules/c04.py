"""Connecting ports: turning a port into a connector moves its row and column
of M and its symbols together to the end; adding a connector stores the two
ports in the given order and moves both; connecting eliminates exactly the
connector variables with u0 = -alpha*y1, u1 = alpha*y0 (lossless), for cores
of arbitrary dimensions."""
import itertools
from . import common as cm
from .common import agree, attr, ref
from .c03 import observables, notzero
from .. import terms as tm, models
from ..terms import mk, C, sym

FLOOR = 20
F = 'pyphs/core/'


def run(rep, tier):
    cons = F + 'structure/connectors.py:port2connector'
    rep.guard('C04.port', cons, port, rep, cons)
    for case in ('i<j', 'i>j'):
        for alpha in (sym('alpha', 'num'), tm.NONE):
            cons = F + 'core.py:Core.add_connector (%s, alpha %s)' % (
                case, 'given' if alpha is not tm.NONE else 'default')
            rep.guard('C04.add', cons, add, rep, cons, case, alpha)
    orders = [(0, 1), (1, 0)]
    orders += list(itertools.permutations(range(4))) \
        if tier == 'thorough' else [(0, 1, 2, 3), (2, 0, 3, 1), (1, 3, 0, 2),
                                    (3, 2, 1, 0)]
    for o in orders:
        cons = F + 'core.py:Core.connect (%d connectors, order %s)' % (
            len(o) // 2, ''.join(map(str, o)))
        rep.guard('C04.connect', cons, connect, rep, cons, o)


for _k in 'abc':
    tm.ATTR_KIND['y' + _k] = tm.ATTR_KIND['u' + _k] = 'seq'
    tm.LEN_CANON['u' + _k] = 'y' + _k
tm.DISTINCT_ATTR |= {p + k for p in 'uy' for k in 'abcij'}


def ports(r, c, base, n):
    """the ports are a + [i] (+ b + [j]) + c, of arbitrary lengths"""
    at = []
    for v in 'uy':
        parts, pos = [], tm.ZERO
        for k in range(n + 1):
            s = mk('attr', base, v + 'abc'[k])
            parts.append(tm.splice(s))
            pos = tm.add(pos, tm.length(s))
            if k < n:
                parts.append(tm.it(mk('attr', base, v + 'ij'[k])))
                at.append(pos)
                pos = tm.add(pos, C(1))
        r.set(c, v, r.m.alloc(r.st, tm.seq(*parts)))
    M = sym('Mports%d' % n, 'mat')
    tot = tm.length(mk('attr', base, 'cy'))
    for v in 'xw':
        tot = tm.add(tot, tm.length(mk('attr', base, v)))
    tot = tm.add(tot, pos)
    models.SYMSHAPES['Mports%d' % n] = lambda t: (tot, tot)
    r.set(c, 'M', M)
    return at[:n]


def port(rep, cons):
    r, c, base = cm.corerig(dxH=True)
    i, = ports(r, c, base, 1)
    g = r.fn('pyphs.core.core.port2connector')
    f = ref(r, 'moves.port2connector')
    agree(rep, 'C04.port', cons, r, lambda r: r.call(g, c, i),
          lambda r: r.call(f, c, i), observables(r, c), ret=False,
          norm=notzero)


def add(rep, cons, case, alpha):
    r, c, base = cm.corerig(dxH=True)
    at = ports(r, c, base, 2)
    i, j = at if case == 'i<j' else at[::-1]
    f = ref(r, 'connect.add_connector')
    pair = tm.seq(tm.it(i), tm.it(j))
    agree(rep, 'C04.add', cons, r,
          lambda r: r.meth(c, 'add_connector', pair, alpha),
          lambda r: r.call(f, c, i, j, alpha), observables(r, c), ret=False,
          norm=notzero)


def connect(rep, cons, order):
    r, c, base = cm.corerig(dxH=True)
    n = len(order)
    cy = tm.seq(*[tm.it(C('y%d' % k)) for k in range(n)])
    cu = tm.seq(*[tm.it(C('u%d' % k)) for k in range(n)])
    M = sym('M%d' % n, 'mat')

    def shape(t):
        s = C(n)
        for a in 'xwy':
            s = tm.add(s, tm.length(mk('attr', base, a)))
        return s, s
    models.SYMSHAPES['M%d' % n] = shape
    r.set(c, 'cy', r.m.alloc(r.st, cy))
    r.set(c, 'cu', r.m.alloc(r.st, cu))
    r.set(c, 'M', M)
    cons_ = []
    for k in range(0, n, 2):
        a, b = order[k:k + 2]
        cons_.append(tm.it(tm.mkdict(
            tm.pair(C('u'), tm.seq(tm.it(C('u%d' % a)), tm.it(C('u%d' % b)))),
            tm.pair(C('y'), tm.seq(tm.it(C('y%d' % a)), tm.it(C('y%d' % b)))),
            tm.pair(C('alpha'), sym('alpha%d' % k, 'num')))))
    r.set(c, 'connectors', r.m.alloc(r.st, tm.seq(*cons_)))
    tot = shape(None)[0]
    m = {}
    for k in (C(0), C(1)):
        m[tm.idx(mk('attr', M, 'shape'), k)] = tot

    def norm(t):
        return tm.subst(notzero(t), m)
    f = ref(r, 'connect.connect')
    agree(rep, 'C04.connect', cons, r, lambda r: r.meth(c, 'connect'),
          lambda r: r.call(f, c), observables(r, c), ret=False, norm=norm)
