"""Numerical evaluation of the expressions of a core."""
from . import common as cm
from .common import agree, attr, ref, litlist, litmat
from . import c10
from .c13 import shape
from .c06 import symbols
from ..rig import CORE
from .. import terms as tm
from ..terms import mk, C, sym

FLOOR = 30
F = 'pyphs/numerics/tools/'
Q = 'pyphs.numerics.tools.'
EVAL = Q + '_evaluation.Evaluation'


def symlambdify(m, st, args, kw):
    """sympy.lambdify(args, expr): function of the values of args"""
    a = m.snapshot(st, args[0])
    e = m.snapshot(st, args[1])
    return mk('partial', sym('numeric', 'func:%s' % (
        'num' if tm.kind(e) == 'num' else 'mat')), (a, e), ())


def numeric(m, st, args, kw):
    a, e, v = [m.snapshot(st, x) for x in args]
    return mk('call', sym('numeric', 'func:%s' % (
        'num' if tm.kind(e) == 'num' else 'mat')), a, e,
        *[g.args[0] for g in v.args])


def array(m, st, args, kw):
    t = m.deref(st, args[0])
    if t.op in ('seq', 'mlit'):
        return m.alloc(st, m.snapshot(st, t))
    if tm.kind(t) in ('num', 'mat') or t.op == 'call':
        return t
    return None


def transpose(m, st, t):
    """.T of literal nested sequences"""
    t = m.snapshot(st, t)
    if t.op != 'seq' or any(g.op != 'it' for g in t.args):
        return None
    rows = [g.args[0] for g in t.args]
    if not any(r.op == 'seq' for r in rows):
        return m.alloc(st, t)
    if not all(r.op == 'seq' and all(g.op == 'it' for g in r.args)
               for r in rows) or len({len(r.args) for r in rows}) != 1:
        return None
    return m.alloc(st, tm.seq(*[tm.it(tm.seq(*[r.args[k] for r in rows]))
                                for k in range(len(rows[0].args))]))


def dim(m, st, t):
    t = m.snapshot(st, t)
    return shape(m, st, t) if t.op == 'seq' else None


def setup(deps):
    r, c = c10.setup(deps, True)
    m = r.m
    m.fancy = True
    m.reclimit = 12
    m.models[CORE + '.symbols'] = symbols
    for n in ('array', 'asarray'):
        m.extmodels['numpy.' + n] = array
    m.extmodels['sympy.lambdify'] = symlambdify
    m.extmodels['sympy.Matrix'] = array
    m.models['ref.evaluation.numeric'] = numeric
    m.attrhooks['T'] = transpose
    m.attrhooks['shape'] = dim
    r.set(c, 'subs', c10.dictof(
        r, (tm.named(c10.S1), sym('v1', 'num')), (tm.named(c10.S2), C(7))))
    r.set(c, 'observers', c10.dictof(
        r, (tm.named('o0'), sym('e0', 'num')),
        (tm.named('o1'), sym('e1', 'num'))))
    # connectors are closed before any evaluation
    for a in ('cu', 'cy'):
        r.set(c, a, litlist(r, []))
    r.set(c, 'M', litmat(r, 'MA', 4, 4))
    return r, c


DEPS = ({}, {'HA': ('xA0', 'xA1'), 'zA0': ('wA0', 'sA1'),
             'gA0': ('xA0', 'pA1'), 'gA1': ('xA1', 'sA2'),
             'e0': ('xA1', 'wA0'), 'e1': ('uA0', 'o0'),
             'MA_0_2': ('pA0',), 'MA_3_1': ('xA1',), 'v1': ()},
        {'HA': ('sA1', 'xA1'), 'zA0': ('wA0',), 'gA0': ('pA0', 'uA0'),
         'gA1': (), 'e0': ('sA1',), 'e1': ('sA2', 'xA0'),
         'MA_1_0': ('sA1',), 'MA_2_2': ('wA0',), 'v1': ()})


def run(rep, tier):
    g = rep.guard
    for k, deps in enumerate(DEPS):
        for name in ('H', 'z', 'dxH', 'M', 'o', 'x', 'dx', 'w', 'u'):
            for vec in (False, True):
                cons = F + '_evaluation.py:Evaluation %s (symbols %d%s)' % (
                    name, k, ', vectorized' if vec else '')
                g('C14.evaluation', cons, evaluation, rep, cons, deps, name,
                  vec)
    for sl in ((0, 1, None), (1, None, None), (None, None, -1),
               (None, 1, None)):
        cons = F + '_evaluation.py:Evaluation x, dxH, slice %s' % (sl,)
        g('C14.slice', cons, sliced, rep, cons, sl)
    g('C14.refuse', 'slices', refuse, rep)
    for k, deps in enumerate(DEPS):
        g('C14.lambdify', str(k), lambdify, rep, k, deps)
    g('C14.norm', 'norm', norm, rep)


def values(r, n, vec):
    """2 samples of n values; (arguments of the call, rows)"""
    v = [[sym('t%d_%d' % (s, k), 'num') for k in range(n)]
         for s in range(2 if vec else 1)]
    if vec:
        return [litlist(r, [v[0][k], v[1][k]]) for k in range(n)], \
            litlist(r, [litlist(r, row) for row in v])
    return v[0], litlist(r, v[0])


CORE_OBS = ('x', 'w', 'u', 'y', 'p', 'z', 'H', 'M', '_dxH', 'subs',
            'observers')


def expected(r, c, name):
    """(expression of the substituted core, its arguments, their indices)"""
    sub = r.call(ref(r, 'evaluation.substituted'), c)
    e = r.get(sub, name)
    if r.snap(e).op in ('bound', 'fn', 'closure') or \
            name in ('dx', 'dxH'):
        e = r.meth(sub, name)
    allargs = r.call(ref(r, 'evaluation.arguments'), sub)
    fs = r.m.attrhooks['free_symbols'].__self__.names(r.snap(e))
    fs = r.m.alloc(r.st, tm.mkset(*[tm.it(x) for x in fs]))
    inds = r.call(ref(r, 'evaluation.position'), fs, allargs)
    args = r.call(ref(r, 'evaluation.pick'), allargs, inds)
    return e, args, inds


def evaluation(rep, cons, deps, name, vec, sl=None):
    r, c = setup(deps)
    f = r.fn('ref.evaluation.numeric')
    V = tm.TRUE if vec else tm.FALSE
    kw = {}
    if sl is not None:
        kw['vslice'] = mk('slice', *[tm.NONE if x is None else C(x)
                                     for x in sl])
    e, args, inds = expected(r, c, name)
    n = len(r.snap(args).args)
    if sl is not None:
        es = r.snap(e)
        e = r.m.alloc(r.st, tm.seq(*es.args[slice(*sl)]))
    call, rows = values(r, n, vec)
    es = r.snap(e)
    q = 'vector' if es.op == 'seq' else 'scalar'
    if n == 0 and vec:
        q = 'constants' if q == 'vector' else 'lambdified'
    ev = []

    def repo(r):
        o = r.new(EVAL, c, litlist(r, [C(name)]), V, **kw)
        ev[:] = [o]
        return r.meth(o, name, *call)

    def want(r):
        o = c10.dictof(r)
        ev[:] = [None]
        if q == 'constants':
            return r.call(ref(r, 'evaluation.constants'), e, f)
        if q == 'lambdified':
            return r.call(ref(r, 'evaluation.lambdified'), args, e,
                          litlist(r, []), f)
        return r.call(ref(r, 'evaluation.' + q), args, e, rows, f, V)
    obs = [('arguments', lambda r: r.get(ev[0], name + '_args')
            if ev[0] is not None else args),
           ('indices', lambda r: r.get(ev[0], name + '_inds')
            if ev[0] is not None else inds)]
    obs += [('core.%s afterwards' % a, attr(c, a)) for a in CORE_OBS]
    agree(rep, 'C14.evaluation' if sl is None else 'C14.slice', cons, r,
          repo, want, obs, raises=True)


def sliced(rep, cons, sl):
    for name in ('x', 'dxH'):
        evaluation(rep, cons + ' ' + name, DEPS[1], name, True, sl)


def refuse(rep):
    r, c = setup(DEPS[1])
    sl = mk('slice', C(0), C(1), tm.NONE)
    for names, bad in ((('x', 'z'), True), (('H',), True), (('x',), False)):
        f = ref(r, 'evaluation.' + ('refused' if bad else 'accepted'))
        agree(rep, 'C14.refuse', F + '_evaluation.py:Evaluation slice of %s'
              % (names,), r,
              lambda r: r.new(EVAL, c, litlist(r, [C(n) for n in names]),
                              vslice=sl),
              lambda r: r.call(f), (), ret=False, raises=True)


def lambdify(rep, k, deps):
    r, c = setup(deps)
    f = r.fn('ref.evaluation.numeric')
    lam = r.fn(Q + '_lambdify.lambdify')
    al = ('xA0', 'xA1', 'wA0', 'pA0', 'pA1', 'uA0')
    s = r.get(c, 'subs')
    sub = r.m.attrhooks['free_symbols'].__self__
    vec = litlist(r, [sym('gA0', 'num'), sym('gA1', 'num')])
    for label, e in (('H', r.get(c, 'H')), ('M', r.get(c, 'M')),
                     ('list', vec)):
        es = r.snap(e)
        d = r.snap(s)
        if es.op == 'seq':
            w = tm.seq(*[tm.it(sub.one(g.args[0], d)) for g in es.args])
        else:
            w = sub.one(es, d)
        free = sub.names(w)
        for drop in (None,) + al:
            names = [x for x in al if x != drop]
            bad = not free <= {tm.named(x) for x in names}
            args = litlist(r, [tm.named(x) for x in names])
            vals = [sym('t_%d' % j, 'num') for j in range(len(names))]
            cons = F + '_lambdify.py:lambdify %s (symbols %d%s)' % (
                label, k, ', without %s' % drop if drop else '')

            def repo(r):
                return r.call(r.call(lam, args, e, subs=s,
                                     theano=tm.FALSE), *vals)
            if bad:
                agree(rep, 'C14.lambdify', cons, r, repo,
                      lambda r: r.call(ref(r, 'evaluation.refused')), (),
                      ret=False, raises=True)
            else:
                agree(rep, 'C14.lambdify', cons, r, repo,
                      lambda r: r.call(f, args, w, litlist(r, vals)),
                      [('the expression of the caller', lambda r: e)],
                      raises=True)


def norm(rep):
    r, c = setup({})
    sq = sym('sqrt', 'func:num')

    def sqrt(m, st, args, kw):
        return mk('call', sq, m.snapshot(st, args[0]))

    def einsum(m, st, args, kw):
        t = [m.snapshot(st, a) for a in args]
        if len(t) == 3 and t[0] is C('i,i') and t[1].op == 'seq' == \
                t[2].op:
            s = tm.ZERO
            for a, b in zip(t[1].args, t[2].args):
                s = tm.add(s, tm.mul(a.args[0], b.args[0]))
            return s
        return None

    def dot(m, st, args, kw):
        return einsum(m, st, [C('i,i')] + list(args), kw)
    r.m.extmodels['numpy.sqrt'] = sqrt
    r.m.extmodels['numpy.einsum'] = einsum
    r.m.extmodels['numpy.dot'] = dot
    r.m.models['ref.evaluation.sqrt'] = sqrt
    for n in range(4):
        x = litlist(r, [sym('v_%d' % k, 'num') for k in range(n)])
        agree(rep, 'C14.norm', F + '_operators.py:norm of %d values' % n, r,
              lambda r: r.call(r.fn(Q + '_operators.norm'), x),
              lambda r: r.call(ref(r, 'evaluation.norm2'), x,
                               mk('ext', 'numpy.sqrt')))
