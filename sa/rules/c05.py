"""Derivatives and algebra of expressions: gradient, jacobian and hessian
differentiate every component with respect to every variable in order
(functions along rows, variables along columns); matrix-vector products,
vector sums, inverses and free symbols take every entry into account."""
from . import common as cm
from .common import agree, ref
from ..rig import Rig
from .. import terms as tm, models
from ..terms import mk, C, sym

FLOOR = 15
F = 'pyphs/core/maths/'
MATHS = 'pyphs.core.maths.'


def lits(p, n):
    return tm.seq(*[tm.it(sym('%s%d' % (p, k), 'num')) for k in range(n)])


def lmat(p, n, m):
    return mk('mlit', *[tuple(sym('%s%d%d' % (p, i, j), 'num')
                              for j in range(m)) for i in range(n)])


def run(rep, tier):
    g = rep.guard
    r = Rig()
    r.m.numexpr = True
    f, V, H = mk('attr', sym('in', 'obj'), 'z'), \
        mk('attr', sym('in', 'obj'), 'x'), sym('H', 'num')
    models.SYMSHAPES['A'] = lambda t: (sym('nA', 'nat'), tm.length(V))
    A = sym('A', 'mat')
    T = []
    for n, vec, fun in (('any length', V, f), ('3', lits('v', 3),
                                               lits('f', 2)),
                        ('0', tm.EMPTY, tm.EMPTY)):
        T += [('gradient', n, (H, vec), 'gradient'),
              ('jacobian', n, (fun, vec), 'jacobian'),
              ('hessian', n, (H, vec), 'hessian')]
    T += [('matvecprod', 'any size', (A, V), 'matvecprod'),
          ('matvecprod', '2x3', (lmat('a', 2, 3), lits('v', 3)),
           'matvecprod'),
          ('sumvecs', 'two', (lits('a', 2), lits('b', 2)), 'sum2'),
          ('sumvecs', 'three', (lits('a', 3), lits('b', 3), lits('c', 3)),
           'sum3'),
          ('inverse', '2x2', (lmat('a', 2, 2),), 'inverse')]
    for q, n, args, name in T:
        cons = F + '%s (%s)' % (q, n)
        g('C05.' + q, cons, one, rep, 'C05.' + q, cons, r, MATHS + q, args,
          name)
    q = 'pyphs.core.tools.free_symbols'
    D = tm.mkdict(tm.pair(C('k'), sym('e0', 'num')),
                  tm.pair(C('l'), sym('e1', 'num')))
    for n, a, name in (('scalar', H, 'free_symbols'),
                       ('vector', lits('e', 3), 'free_symbols_seq'),
                       ('matrix', lmat('e', 2, 2), 'free_symbols_mat'),
                       ('dict', D, 'free_symbols_dict'),
                       ('None', tm.NONE, 'empty')):
        cons = 'pyphs/core/tools/_free_symbols.py:free_symbols (%s)' % n
        g('C05.free', cons, one, rep, 'C05.free', cons, r, q, (a,), name)
    for n, d in (('dxH', True), ('dxH', False), ('jacz', False),
                 ('hessH', False)):
        cons = 'pyphs/core/core.py:Core.%s' % n
        g('C05.core', cons, core, rep, cons, n, d)
    cons = 'pyphs/core/core.py:Core.freesymbols'
    g('C05.freesymbols', cons, freesymbols, rep, cons)


def one(rep, rule, cons, r, q, args, name):
    f, h = r.fn(q), ref(r, 'calculus.' + name)
    agree(rep, rule, cons, r,
          lambda r: r.call(f, *[r.m.alloc(r.st, a) if tm.kind(a) in (
              'seq', 'dict', 'mat') else a for a in args]),
          lambda r: r.call(h, *args))


def core(rep, cons, n, d):
    r, c, base = cm.corerig(dxH=d)
    h = ref(r, 'calculus.' + n)
    agree(rep, 'C05.core', cons, r, lambda r: r.meth(c, n),
          lambda r: r.call(h, c))


def freesymbols(rep, cons):
    r, c, base = cm.corerig('c05')
    r.m.numexpr = True
    r.set(c, 'z', r.m.alloc(r.st, lits('z', 2)))
    for a in ('M', 'Q', 'Zl', 'bl'):
        r.set(c, a, r.m.alloc(r.st, lmat(a, 1, 2)))
    h = ref(r, 'calculus.freesymbols')
    agree(rep, 'C05.freesymbols', cons, r, lambda r: r.meth(c,
                                                            'freesymbols'),
          lambda r: r.call(h, c))
