"""Discrete gradients: each evaluation of the gradient is the announced one
(finite differences along each coordinate, midpoint corrected along dx, theta
rule, trapezoid) so that the discrete gradients satisfy
grad.dx = H(x+dx) - H(x) wherever dx is above the tolerance; the numerical
method applies them to the linear, separable and non-separable parts in
order, and evaluates the structure and the dissipation functions at the same
point, once.

Decided for up to 3 variables and arbitrary energies, tolerances and theta."""
from . import common as cm
from .common import agree, attr, ref, litcore, litlist, litmat
from .c06 import symbols
from ..rig import Rig, CORE
from .. import terms as tm
from ..terms import mk, C, sym

FLOOR = 30
F = 'pyphs/numerics/numerical_method/'
Q = 'pyphs.numerics.numerical_method._discrete_calculus.'
QM = 'pyphs.numerics.numerical_method._method.'


def subs(m, st, obj, args, kw):
    """e.subs(..) as an uninterpreted function of e and the pairs"""
    if kw:
        return None
    t = m.snapshot(st, obj)
    if len(args) == 2:
        d = tm.mkdict(tm.pair(m.snapshot(st, args[0]),
                              m.snapshot(st, args[1])))
    elif len(args) == 1:
        d = m.snapshot(st, args[0])
        if d.op in ('seq', 'fm'):
            d = m.todict(d)
    else:
        return None
    if d.op != 'dict' or any(e.op != 'pair' for e in d.args):
        return None
    ps = sorted(e for e in d.args if e.args[0] is not e.args[1])

    def one(e):
        if tm.isc(e):
            return e
        for p in ps:
            if p.args[0] is e:
                return p.args[1]
        if tm.isname(e) or not ps:
            return e
        return mk('call', sym('subsd', 'func:num'), e, tm.mkdict(*ps))
    if t.op == 'mlit':
        return m.alloc(st, mk('mlit', *[tuple(one(e) for e in r)
                                        for r in t.args]))
    if t.op == 'zeros':
        return m.alloc(st, t)
    if tm.kind(t) == 'num':
        return one(t)
    return None


def piecewise(m, st, args, kw):
    out = None
    for a in reversed(args):
        a = m.snapshot(st, a)
        if a.op != 'seq' or len(a.args) != 2:
            return None
        v, c = a.args[0].args[0], m.truth(a.args[1].args[0]) \
            if hasattr(m, 'truth') else tm.as_bool(a.args[1].args[0])
        if out is None:
            if c is not tm.TRUE:
                return None
            out = v
        else:
            out = tm.ite(c, v, out)
    return out


def rig():
    r = Rig(models={CORE + '.symbols': symbols})
    r.m.numexpr = True
    r.m.setorder = True
    r.m.methmodels['subs'] = subs
    r.m.extmodels['sympy.Piecewise'] = piecewise
    return r


def names(r, p, n):
    return litlist(r, [tm.named('%s%d' % (p, k)) for k in range(n)])


def run(rep, tier):
    g = rep.guard
    for n in (0, 1, 2, 3):
        for f, q, extra in (
                ('discrete_gradient_monovar', 'monovar', 'tol'),
                ('discrete_gradient_multivar', 'multivar', 'tol'),
                ('gradient_theta', 'theta_rule', 'theta'),
                ('gradient_trapez', 'trapez', None)):
            cons = F + '_discrete_calculus.py:%s (%d variables)' % (f, n)
            g('C11.gradient', cons, gradient, rep, cons, f, q, extra, n)
    for f in ('discrete_gradient_multivar', 'discrete_gradient_monovar'):
        for n in (1, 2, 3):
            cons = F + '_discrete_calculus.py:%s (energy, %d)' % (f, n)
            g('C11.energy', cons, energy, rep, cons, f, n)
    for grad in ('discret', 'theta', 'trapez'):
        for l, mo, mu in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0),
                          (0, 0, 2), (1, 1, 0), (1, 0, 2), (2, 1, 2),
                          (1, 2, 2), (0, 2, 1)):
            cons = F + '_method.py:build_gradient_evaluation (%s; %d ' \
                'linear, %d separable, %d others)' % (grad, l, mo, mu)
            g('C11.method', cons, method, rep, cons, grad, l, mo, mu)
        for nx, nw in ((0, 1), (1, 1), (2, 2)):
            cons = F + '_method.py:build_structure_evaluation (%s; %d, %d)' \
                % (grad, nx, nw)
            g('C11.structure', cons, structure, rep, cons, grad, nx, nw)


def gradient(rep, cons, f, q, extra, n):
    r = rig()
    fn, rf = r.fn(Q + f), ref(r, 'discrete.' + q)

    def args(r):
        return [sym('H', 'num'), names(r, 'x', n), names(r, 'dx', n)] + \
            ([sym(extra, 'num')] if extra else [])
    agree(rep, 'C11.gradient', cons, r, lambda r: r.call(fn, *args(r)),
          lambda r: r.call(rf, *args(r)))


def energy(rep, cons, f, n):
    """sum(grad_i dx_i) with every dx above the tolerance"""
    r = rig()
    x, dx = names(r, 'x', n), names(r, 'dx', n)
    H = sym('H', 'num')
    out = r.snap(r.call(r.fn(Q + f), H, x, dx, sym('tol', 'num')))
    rep.visited |= r.m.visited
    if out.op != 'seq' or len(out.args) != n:
        rep.undecided('C11.energy', cons, 'not a list')
        return

    def above(t):
        for u in sorted(x for x in tm.walk(t) if x.op == 'lt'):
            t = tm.assume(t, u, False)
        return t
    g = [above(e.args[0]) for e in out.args]
    ds = [tm.named('dx%d' % k) for k in range(n)]

    def inc(ks):
        d = tm.mkdict(*[tm.pair(tm.named('x%d' % k), tm.add(
            tm.named('x%d' % k), tm.named('dx%d' % k))) for k in ks])
        return tm.sub(mk('call', sym('subsd', 'func:num'), H, d), H)
    if 'mono' in f:
        for k in range(n):
            rep.same('C11.energy', '%s: component %d' % (cons, k),
                     tm.mul(g[k], ds[k]), inc([k]))
        return
    s = tm.ZERO
    for a, b in zip(g, ds):
        s = tm.add(s, tm.mul(a, b))
    # (n2)**-1 * n2 = 1
    n2 = tm.ZERO
    for d in ds:
        n2 = tm.add(n2, tm.mul(d, d))
    want = inc(range(n))
    # s*n2, cancelling the inverse of n2 in each monomial
    tot = tm.ZERO
    for sc, mt, co in tm._items(s):
        t, hit = C(co), False
        for f, e in sc:
            if f is n2 and e == -1:
                hit = True
            else:
                t = tm.mul(t, tm.power(f, C(e)))
        tot = tm.add(tot, t if hit else tm.mul(t, n2))
    rep.same('C11.energy', cons, tot if n > 1 else s,
             tm.mul(want, n2) if n > 1 else want)


def config(r, grad):
    return r.m.alloc(r.st, tm.mkdict(
        tm.pair(C('grad'), C(grad)), tm.pair(C('theta'), C(0.25)),
        tm.pair(C('epsdg'), sym('tol', 'num')),
        tm.pair(C('split'), tm.TRUE)))


def target(r, nx, nw, grad):
    c = litcore(r, 'A', nx, nw, 1, 0)
    r.set(c, 'config', config(r, grad))
    return c


def method(rep, cons, grad, l, mo, mu):
    r = rig()
    n = l + mo + mu
    c = target(r, n, 1, grad)
    d = r.get(c, 'dims')
    r.set(d, '_xl', C(l))
    r.set(d, '_xnl_mono', C(mo))
    r.set(c, 'Q', litmat(r, 'Q', l, l))
    r.set(c, 'bl', litlist(r, [sym('b%d' % k, 'num') for k in range(l)]))
    f, q = r.fn(QM + 'build_gradient_evaluation'), \
        ref(r, 'discrete.gradient_evaluation')
    agree(rep, 'C11.method', cons, r, lambda r: r.call(f, c),
          lambda r: r.call(q, c), [(a, attr(c, a)) for a in
                                   ('_dxH', 'x', 'H', 'M', 'z')], ret=False)


def structure(rep, cons, grad, nx, nw):
    r = rig()
    c = target(r, nx, nw, grad)
    r.set(c, '_dxH', litlist(r, [sym('d%d' % k, 'num') for k in range(nx)]))
    f, q = r.fn(QM + 'build_structure_evaluation'), \
        ref(r, 'discrete.structure_evaluation')
    agree(rep, 'C11.structure', cons, r, lambda r: r.call(f, c),
          lambda r: r.call(q, c), [(a, attr(c, a)) for a in
                                   ('_dxH', 'x', 'H', 'M', 'z')], ret=False)
