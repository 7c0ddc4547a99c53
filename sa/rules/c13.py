"""Execution of a numerical method by Numeric."""
from . import common as cm
from .common import agree, attr, ref, litcore, litlist, litmat
from . import c11, c12
from ..rig import Rig, CORE
from .. import terms as tm
from ..terms import mk, C, sym

FLOOR = 30
F = 'pyphs/numerics/numerical_core/_numerical_core.py:'
NUM = 'pyphs.numerics.numerical_core._numerical_core.Numeric'
LAM = 'pyphs.numerics.tools._lambdify.lambdify'


def lam(m, st, args, kw):
    """lambdify(args, expr, subs): a function of the values of args"""
    a = [m.snapshot(st, x) for x in args[:2]]
    s = kw.get('subs', args[2] if len(args) > 2 else tm.NONE)
    s = m.snapshot(st, s)
    return mk('partial', sym('evaluate', 'func:%s' % (
        'num' if tm.kind(a[1]) == 'num' else 'mat')), (a[0], a[1], s), ())


def array(m, st, args, kw):
    """1d arrays are sequences"""
    t = m.snapshot(st, args[0])
    if kw or len(args) != 1:
        return None
    if t.op == 'seq' and all(g.op == 'it' and tm.kind(g.args[0]) in
                             ('num', '?') for g in t.args):
        return m.alloc(st, t)
    if t.op == 'call':
        return t
    return None


def zeros(m, st, args, kw):
    t = m.snapshot(st, args[0])
    if t.op == 'seq' and len(t.args) == 1 and t.args[0].op == 'it':
        t = t.args[0].args[0]
    if kw or not tm.isnum(t):
        return None
    return m.alloc(st, tm.seq(*[tm.it(tm.ZERO)] * int(t.args[0])))


def shape(m, st, t):
    if t.op == 'seq' and all(g.op == 'it' for g in t.args):
        return tm.seq(tm.it(C(len(t.args))))
    return None


def setup(split, nx, nw, dims, inits=None, nobs=1):
    r, core, me, trace, before = c12.built('discret', split, nx, nw, dims,
                                           nobs)
    m = r.m
    m.fancy = True
    m.models[LAM] = lam
    m.extmodels['numpy.array'] = array
    m.extmodels['numpy.asarray'] = array
    m.extmodels['numpy.zeros'] = zeros
    m.attrhooks['shape'] = shape
    # short names for the expressions
    for n in r.snap(r.get(me, 'funcs_names')).args:
        n = n.args[0].args[0]
        e = r.snap(r.get(me, n + '_expr'))
        if e.op == 'seq':
            v = litlist(r, [sym('%s_%d' % (n, k), 'num')
                            for k in range(len(e.args))])
        elif tm.kind(e) == 'mat':
            s = tm.mshape(e)
            v = litmat(r, n, int(s[0].args[0]), int(s[1].args[0]))
        else:
            v = sym(n, 'num')
        r.set(me, n + '_expr', v)
    return r, me


def call4(m, st, args, kw):
    a = [m.snapshot(st, x) for x in args[:3]]
    vs = [g.args[0] for g in m.snapshot(st, args[3]).args]
    return mk('call', sym('evaluate', 'func:%s' % (
        'num' if tm.kind(a[1]) == 'num' else 'mat')), a[0], a[1], a[2], *vs)


def run(rep, tier):
    g = rep.guard
    g('C13.refuse', 'Numeric', refuse, rep)
    for split, nx, nw, dims in ((False, 1, 1, ((0, 0),)),
                                (True, 1, 1, ((1, 1), (1, 1))),
                                (True, 2, 1, ((0, 1), (1, 1))),
                                (True, 2, 2, ((1, 0), (1, 1)))):
        t = '%d storages, %d dissipations, %s' % (
            nx, nw, 'linear parts %d+%d' % dims[-1] if split else
            'no split')
        g('C13.update', t, update, rep, t, split, nx, nw, dims)
        g('C13.init', t, initial, rep, t, split, nx, nw, dims)


def values(r, nu, me):
    out = [('args', attr(nu, 'args'))]
    for a in ('funcs_names', 'ops_names'):
        for n in r.snap(r.get(me, a)).args:
            n = n.args[0].args[0]
            out.append((n, attr(nu, '_' + n)))
    return out


def update(rep, t, split, nx, nw, dims):
    r, me = setup(split, nx, nw, dims)
    nu = r.new(NUM, me)
    r.m.models['ref.execution.lam'] = call4
    f = r.fn('ref.execution.lam')
    obs = values(r, nu, me)
    for u, p in ((True, True), (True, False), (False, True)):
        U = litlist(r, [sym('u_0', 'num')]) if u else tm.NONE
        P = litlist(r, [sym('p_0', 'num')]) if p else tm.NONE
        cons = F + 'Numeric.update (%s)%s%s' % (
            t, '' if u else ', no input', '' if p else ', no parameter')
        agree(rep, 'C13.update', cons, r,
              lambda r: r.meth(nu, 'update', U, P),
              lambda r: r.call(ref(r, 'execution.update'), nu, U, P, f),
              obs, ret=False)


def initial(rep, t, split, nx, nw, dims):
    r, me = setup(split, nx, nw, dims)
    r.m.models['ref.execution.lam'] = call4
    f = r.fn('ref.execution.lam')
    st = r.st.copy()
    x0 = litlist(r, [sym('x_%d' % k, 'num') for k in range(nx)])
    for label, ks in (('no initial value', ()), ('x given', ('x',)),
                      ('x and u given, dx reset', ('x', 'u', 'dx'))):
        vals = {'x': x0, 'u': litlist(r, [sym('u_0', 'num')]),
                'dx': tm.NONE}
        inits = r.m.alloc(r.st, tm.mkdict(*[tm.pair(C(k), vals[k])
                                           for k in ks]))
        box = []

        def repo(r):
            box[:] = [r.new(NUM, me, inits)]

        def want(r):
            nu = c12.bare(r, NUM)
            r.set(nu, 'method', me)
            r.call(r.fn('ref.execution.fs'), me)
            box[:] = [nu]
            r.call(ref(r, 'execution.initial'), nu, inits, f)
        obs = [('args', lambda r: r.get(box[0], 'args')),
               ('subs', lambda r: r.get(me, 'subs'))]
        deps = r.meth(me, 'update_actions_deps')
        an = [g.args[0] for g in r.snap(r.get(me, 'args_names')).args]
        for d in r.snap(deps).args:
            d = d.args[0]
            if d in an:
                continue
            obs.append((d.args[0], lambda r, d=d.args[0]:
                        r.get(box[0], '_' + d)))
        agree(rep, 'C13.init', F + 'Numeric (%s), %s' % (t, label), r,
              repo, want, obs, ret=False)


def refuse(rep):
    r, me = setup(False, 2, 1, ((0, 0),))
    for label, key, n, bad in (('unknown configuration', 'foo', 2, True),
                               ('x too short', None, 1, True),
                               ('x too long', None, 3, True),
                               ('known configuration', 'fs', 2, False)):
        x = litlist(r, [sym('x_%d' % k, 'num') for k in range(n)])
        d = r.m.alloc(r.st, tm.mkdict(tm.pair(C('x'), x)))
        c = r.m.alloc(r.st, tm.mkdict(tm.pair(C(key), sym('v', 'num')))) \
            if key else tm.NONE
        f = ref(r, 'execution.' + ('refused' if bad else 'accepted'))
        agree(rep, 'C13.refuse', F + 'Numeric: ' + label, r,
              lambda r: r.new(NUM, me, d, tm.NONE, c),
              lambda r: r.call(f), (), ret=False, raises=True)
