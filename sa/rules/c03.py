"""Displacing a component permutes all the places that describe it with one
and the same permutation: symbols, their paired expressions, and the rows and
columns of M (offset by the preceding blocks); nothing else changes.  Decided
for symbolic indices in the three cases i<j, i>j, i=j and cores of arbitrary
dimensions."""
from . import common as cm
from .common import agree, attr, ref
from .. import terms as tm
from ..terms import mk, C, sym, ZERO

FLOOR = 60
F = 'pyphs/core/structure/moves.py:'
OBS = ('x', '_dxH', 'w', 'z', 'u', 'y', 'cu', 'cy', 'p', 'H', 'M', 'Zl', 'Q',
       'bl', 'subs', 'observers', 'connectors', 'force_wnl')
K, D = sym('k', 'nat'), sym('d', 'nat')
FAR = tm.add(K, tm.add(D, C(1)))
CASES = {'i<j': (K, FAR), 'i>j': (FAR, K), 'i=j': (K, K)}


def sizes(r, c, base):
    M, Zl = mk('attr', base, 'M'), mk('attr', base, 'Zl')
    tot = r.snap(r.meth(r.get(c, 'dims'), 'tot'))
    wl = mk('attr', mk('attr', base, 'dims'), '_wl')
    m = {}
    for k in (ZERO, C(1)):
        m[tm.idx(mk('attr', M, 'shape'), k)] = tot
        m[tm.idx(mk('attr', Zl, 'shape'), k)] = wl

    def norm(t):
        return tm.subst(notzero(t), m)
    return norm


def notzero(t):
    """the tests X.is_zero only skip work on null matrices: take them as
    false"""
    m = {}
    for u in tm.walk(t):
        if u.op == 'truth' and u.args[0].op == 'attr' and \
                u.args[0].args[1] == 'is_zero':
            m[u] = tm.FALSE
    return tm.subst(t, m) if m else t


def observables(r, c):
    d = r.get(c, 'dims')
    return [(a, attr(c, a)) for a in OBS] + [
        ('dims.' + a, attr(d, a)) for a in ('_xl', '_wl', '_xnl_mono')]


def run(rep, tier):
    for name in ('move_storage', 'move_dissipative', 'move_port',
                 'move_connector'):
        for case in sorted(CASES):
            cons = '%s%s (%s)' % (F, name, case)
            rep.guard('C03.move', cons, move, rep, cons, name, case)
    for name, q in (('square', 'movesquarematrixcolnrow'),
                    ('columns', 'movematrixcols')):
        for case in sorted(CASES):
            cons = '%s%s (%s)' % (F, q, case)
            rep.guard('C03.matrix', cons, matrix, rep, cons, name, q, case)


def move(rep, cons, name, case):
    r, c, base = cm.corerig(dxH=True)
    norm = sizes(r, c, base)
    I, j = CASES[case]
    f = ref(r, 'moves.' + name)
    agree(rep, 'C03.move', cons, r, lambda r: r.meth(c, name, I, j),
          lambda r: r.call(f, c, I, j), observables(r, c), ret=False,
          norm=norm)


def matrix(rep, cons, name, q, case):
    r, c, base = cm.corerig(dxH=True)
    I, j = CASES[case]
    m = sym('m', 'mat')
    f = ref(r, 'moves.' + name)
    g = r.m.getfn('pyphs.core.structure.moves.' + q)
    if g is None:
        return
    agree(rep, 'C03.matrix', cons, r, lambda r: r.call(g, m, I, j),
          lambda r: r.call(f, m, I, j))
