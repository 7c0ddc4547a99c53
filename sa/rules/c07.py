"""Reduction of the linear dissipations: after the separation of the linear
part, reduce_z eliminates exactly the linear dissipations that are not forced
to be kept, by solving w_l = M_ll z_l + M_lo a_o with z_l = Zl w_l; everything
else is kept in order.

Decided for cores of arbitrary dimensions with an empty force_wnl, and for up
to 3 linear and 1 nonlinear dissipations with every choice of forced ones."""
import itertools
from . import common as cm
from .common import agree, attr, ref
from .c03 import observables, notzero
from .. import terms as tm, models
from ..terms import mk, C, sym

FLOOR = 20
F = 'pyphs/core/structure/R.py:'
LNL = 'pyphs.core.structure.splits.linear_nonlinear'


def noop(m, st, args, kw):
    return tm.NONE


def obs(r, c):
    # Zl describes the linear part, which is empty afterwards
    return [o for o in observables(r, c) if o[0] != 'Zl']


def run(rep, tier):
    g = rep.guard
    cons = F + 'reduce_z (no forced dissipation)'
    g('C07.reduce', cons, plain, rep, cons)
    for nl in (1, 2, 3):
        for nn in (0, 1):
            for k in range(nl + nn + 1):
                for s in itertools.combinations(range(nl + nn), k):
                    cons = F + 'reduce_z (%d linear, %d nonlinear, forced '\
                        '%s)' % (nl, nn, list(s))
                    g('C07.forced', cons, forced, rep, cons, nl, nn, s)


def plain(rep, cons):
    r, c, base = cm.corerig('c07', models={LNL: noop})
    r.set(c, 'force_wnl', r.m.alloc(r.st, tm.EMPTY))
    f = ref(r, 'reduce.reduce_plain')
    agree(rep, 'C07.reduce', cons, r, lambda r: r.meth(c, 'reduce_z'),
          lambda r: r.call(f, c), obs(r, c), ret=False, norm=norm)


def forced(rep, cons, nl, nn, s):
    r, c, base = cm.corerig('c07', models={LNL: noop})
    W = [tm.named('w%d' % k) for k in range(nl + nn)]

    def lst(ts):
        return r.m.alloc(r.st, tm.seq(*[tm.it(t) for t in ts]))
    r.set(c, 'w', lst(W))
    r.set(c, 'z', lst([sym('z%d' % k, 'num') for k in range(nl + nn)]))
    r.set(c, 'force_wnl', lst([W[k] for k in s]))
    d = r.get(c, 'dims')
    r.set(d, '_wl', C(nl))
    tot = tm.add(C(nl + nn), tm.add(tm.length(mk('attr', base, 'x')), tm.add(
        tm.length(mk('attr', base, 'y')), tm.length(mk('attr', base, 'cy')))))
    name = 'M7_%d' % (nl + nn)
    models.SYMSHAPES[name] = lambda t: (tot, tot)
    models.SYMSHAPES['Zl%d' % nl] = lambda t: (C(nl), C(nl))
    r.set(c, 'M', r.m.alloc(r.st, sym(name, 'mat')))
    r.set(c, 'Zl', r.m.alloc(r.st, mk('mlit', *[
        tuple(sym('q%d%d' % (i, j), 'num') for j in range(nl))
        for i in range(nl)])))
    f = ref(r, 'reduce.reduce_z')
    agree(rep, 'C07.forced', cons, r, lambda r: r.meth(c, 'reduce_z'),
          lambda r: r.call(f, c), obs(r, c), ret=False, norm=norm)


def norm(t):
    """the inverse of an empty matrix is itself"""
    t = notzero(t)
    for u in list(tm.walk(t)):
        if u.op == 'eq' and u.args[1] is tm.ZERO and u.args[0].op == 'attr' \
                and u.args[0].args[1] == '_wl':
            t = tm.assume(t, u, False)
    return t
