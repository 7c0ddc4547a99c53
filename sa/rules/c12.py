"""The system solved at each time step and the schedule that solves it."""
from . import common as cm
from .common import agree, attr, ref, litcore, litlist, litmat
from . import c11
from ..rig import Rig, CORE
from .. import terms as tm
from ..terms import mk, C, sym

FLOOR = 30
F = 'pyphs/numerics/numerical_method/_method.py:'
QM = 'pyphs.numerics.numerical_method._method.'
S = ('', 'l', 'nl')


def bare(r, qual):
    """an instance whose constructor has not been called"""
    o = r.m.new()
    r.m.objcls[o] = qual
    return o


def target(r, xl, xn, wl, wn, ny):
    c = bare(r, QM + 'Method')
    r.call(r.fn(CORE + '.__init__'), c, C('A'))
    nx, nw = xl + xn, wl + wn
    for a, p, n in (('x', 'x', nx), ('w', 'w', nw), ('u', 'u', ny),
                    ('y', 'y', ny), ('p', 'p', 1)):
        r.set(c, a, litlist(r, [tm.named('%s%d' % (p, k))
                                for k in range(n)]))
    r.set(c, 'z', litlist(r, [sym('z%d' % k, 'num') for k in range(nw)]))
    r.set(c, 'H', sym('H', 'num'))
    r.set(c, '_dxH', litlist(r, [sym('g%d' % k, 'num') for k in range(nx)]))
    n = nx + nw + ny
    r.set(c, 'M', litmat(r, 'M', n, n))
    d = r.get(c, 'dims')
    r.set(d, '_xl', C(xl))
    r.set(d, '_wl', C(wl))
    r.set(d, '_xnl_mono', C(0))
    r.set(c, 'fs', tm.named('F_S'))
    r.set(c, 'config', c11.config(r, 'discret'))
    for a in ('args_names', 'funcs_names', 'ops_names', 'update_actions'):
        r.set(c, a, litlist(r, []))
    r.set(c, 'Operation', mk('cls', 'pyphs.numerics.tools._operation.'
                             'Operation'))
    return c


def run(rep, tier):
    g = rep.guard
    for d in ((1, 1, 1, 1, 1), (2, 0, 1, 0, 1), (0, 2, 0, 1, 1),
              (0, 0, 1, 1, 0), (1, 2, 2, 1, 2), (1, 0, 0, 1, 2)):
        t = 'storages %d+%d, dissipations %d+%d, %d ports' % d
        g('C12.system', t, system, rep, t, d)
    for l in (0, 1, 2):
        for nl in (0, 1, 2):
            t = '%d linear, %d nonlinear' % (l, nl)
            g('C12.schedule', t, schedule, rep, t, l, nl)
    for grad in ('discret', 'theta', 'trapez'):
        for split, nx, nw, dims in (
                (False, 1, 1, ((0, 0),)), (False, 2, 1, ((0, 0),)),
                (True, 1, 1, ((0, 0), (1, 1))),
                (True, 1, 1, ((1, 1), (1, 0))),
                (True, 2, 1, ((0, 1), (1, 1))),
                (True, 2, 2, ((1, 0), (2, 1)))):
            if tier == 'quick' and grad != 'discret' and (
                    nx, nw) != (2, 1):
                continue
            t = '%s, %d storages, %d dissipations, %s' % (
                grad, nx, nw, 'linear parts %d+%d then %d+%d' % (
                    dims[0] + dims[1]) if split else 'no split')
            g('C12.build', t, build, rep, t, grad, split, nx, nw, dims)


def system(rep, t, d):
    r = c11.rig()
    r.m.reclimit = 12
    c = target(r, *d)
    r.call(r.fn(QM + 'set_structure'), c)
    ge = r.fn('pyphs.misc.tools.geteval')

    def one(name, q, *a):
        cons = F + name + ' (%s)' % t
        rf = ref(r, 'scheme.' + q)
        agree(rep, 'C12.system', cons, r, lambda r: r.call(ge, c, C(name)),
              lambda r: r.call(rf, c, *[C(e) for e in a]))
    for a in S:
        one('v' + a, 'v', a)
        one('f' + a, 'f', a)
        rf = ref(r, 'scheme.mass')
        agree(rep, 'C12.system', F + 'I(%s) (%s)' % (a, t), r,
              lambda r: r.meth(c, 'I', C(a)), lambda r: r.call(rf, c, C(a)))
        one('Mv%sy' % a, 'blocky', a)
        one('tempF' + a, 'residual', a)
        one('G' + a, 'explicit', a)
        for b in S:
            if (a == '') != (b == ''):
                continue
            one('Mv%sv%s' % (a, b), 'block', a, b)
            one('jactempF' + a + b, 'jacresidual', a, b)
            if a:
                one('jacG' + a + b, 'jacexplicit', a, b)


# ------------------------------------------------------------------ schedule
# what each function reads (after the split: the derivatives with respect to
# the linear part do not depend on v, G and its derivatives only on vnl)
CST = ('x', 'u', 'p', 'o')
READS = {'jactempFll': CST, 'jactempFnll': CST,
         'Gl': CST + ('vnl',), 'Gnl': CST + ('vnl',),
         'jacGlnl': CST + ('vnl',), 'jacGnlnl': CST + ('vnl',),
         'ud_o': ('x', 'u', 'p', 'dx', 'w'),
         'dxH': CST + ('vl', 'vnl'), 'z': CST + ('vl', 'vnl'),
         'y': CST + ('vl', 'vnl')}


VL0, VN0 = sym('vl_0', 'mat'), sym('vnl_0', 'mat')


class Unknown(Exception):
    pass


class Sched(object):
    """execution of a schedule over terms"""

    def __init__(self, r, c):
        self.r, self.c = r, c
        self.ops = {}

    def fun(self, name, env):
        if name not in READS:
            raise Unknown('function %s' % name)
        return mk('call', sym(name, 'func:mat'),
                  *[self.read(v, env) for v in READS[name]])

    def read(self, name, env):
        if name in ('dx', 'w'):
            # of the previous time step until vl or vnl is set
            if env['vl'] is VL0 and env['vnl'] is VN0:
                return sym(name + '_0', 'mat')
            return mk('call', sym(name, 'func:mat'), env['vl'], env['vnl'])
        if name in env:
            return env[name]
        return sym('initial ' + name, 'mat')

    def op(self, name, seen=()):
        if name not in self.ops:
            try:
                o = self.r.get(self.c, name + '_op')
            except Exception:
                o = None
            self.ops[name] = o if o is not None and o.op == 'new' else None
        return self.ops[name]

    def value(self, a, env):
        r = self.r
        if tm.isc(a):
            v = a.args[0]
            if isinstance(v, str):
                return self.read(v, env)
            return a
        if a.op != 'new':
            if tm.isnum(a):
                return a
            raise Unknown('argument %s' % tm.pp(a, 4))
        kind = r.snap(r.get(a, 'operation'))
        args = r.snap(r.get(a, 'args'))
        if not tm.isc(kind) or args.op != 'seq' or \
                any(g.op != 'it' for g in args.args):
            raise Unknown('operation %s' % tm.pp(kind, 3))
        raw = r.m.getk(r.st, r.get(a, 'args'))
        raw = raw if raw.op == 'seq' else args
        vs = [self.value(g.args[0], env) for g in raw.args]
        return self.apply(kind.args[0], vs)

    def apply(self, kind, vs):
        if kind == 'add':
            out = vs[0]
            for v in vs[1:]:
                out = tm.add(out, v)
            return out
        if kind in ('prod', 'dot'):
            if kind == 'prod' and sum(tm.kind(v) == 'mat' for v in vs) > 1:
                return mk('call', sym('elementwise', 'func:mat'), *vs)
            out = vs[0]
            for v in vs[1:]:
                out = tm.mul(out, v)
            return out
        if kind == 'inv' and len(vs) == 1:
            return tm.inv(vs[0])
        if kind == 'copy' and len(vs) == 1:
            return vs[0]
        if kind == 'norm' and len(vs) == 1:
            return norm(vs[0])
        raise Unknown('operation %s' % kind)

    def evaluate(self, name, env):
        o = self.op(name)
        return self.value(o, env) if o is not None else self.fun(name, env)

    def execs(self, commands, env):
        env = dict(env)
        for c in commands:
            if isinstance(c, tuple):
                a, b = c
            else:
                a = b = c
            env[a] = self.evaluate(b, env)
        return env

    def loop(self, commands, env, entry):
        """(generic entry, state after one iteration, invariant buffers)"""
        V = sym('vnl_k', 'mat')
        keep = set(env)
        gen = {b: tm.subst(t, {env['vnl']: V}) if env['vnl'].op == 'sym'
               else t for b, t in env.items()}
        for _ in range(len(env) + 2):
            start = {b: gen[b] if b in keep else sym('some ' + b, 'mat')
                     for b in gen}
            start['vnl'] = V
            out = self.execs(commands, start)
            bad = [b for b in keep if b != 'vnl' and out[b] is not
                   tm.subst(gen[b], {V: out['vnl']})]
            if not bad:
                return start, out, keep
            keep -= set(bad)
        raise Unknown('loop')


def norm(v):
    return mk('call', sym('norm', 'func:num'), v)


def commands(t):
    """list of names and (target, source) pairs"""
    out = []
    if t.op != 'seq':
        raise Unknown('commands')
    for g in t.args:
        e = g.args[0] if g.op == 'it' else None
        if e is not None and tm.isc(e) and isinstance(e.args[0], str):
            out.append(e.args[0])
        elif e is not None and e.op == 'seq' and len(e.args) == 2 and \
                all(h.op == 'it' and tm.isc(h.args[0]) for h in e.args):
            out.append(tuple(h.args[0].args[0] for h in e.args))
        else:
            raise Unknown('command %s' % tm.pp(g, 4))
    return out


def schedule(rep, t, l, nl):
    rule = 'C12.schedule'
    r = c11.rig()
    r.m.reclimit = 12
    c = target(r, min(l, 1), min(nl, 1), max(l - 1, 0), max(nl - 1, 0), 1)
    r.set(c, 'observers', r.m.alloc(r.st, tm.mkdict(
        tm.pair(tm.named('o0'), sym('obs0', 'num')))))
    r.call(r.fn(QM + 'set_structure'), c)
    r.call(r.fn(QM + 'set_execactions'), c)
    rep.visited |= r.m.visited
    acts = r.snap(r.get(c, 'update_actions'))
    s = Sched(r, c)
    env = {v: sym(v + '_0', 'mat') for v in ('x', 'u', 'p', 'o', 'vl',
                                             'vnl')}
    x1 = tm.add(env['x'], sym('dx_0', 'mat'))
    o1 = mk('call', sym('ud_o', 'func:mat'), x1, env['u'], env['p'],
            sym('dx_0', 'mat'), sym('w_0', 'mat'))
    cst = (x1, env['u'], env['p'], o1)

    def f(name, *a):
        return mk('call', sym(name, 'func:mat'), *(cst + a))

    def G(V):
        if not l:
            return f('Gnl', V)
        return tm.sub(f('Gnl', V), tm.mul(tm.mul(
            f('jactempFnll'), tm.inv(f('jactempFll'))), f('Gl', V)))

    def J(V):
        if not l:
            return f('jacGnlnl', V)
        return tm.sub(f('jacGnlnl', V), tm.mul(tm.mul(
            f('jactempFnll'), tm.inv(f('jactempFll'))), f('jacGlnl', V)))
    V = env['vnl']
    vnl = V
    loops = 0
    for g in acts.args:
        a = g.args[0]
        kind = a.args[0].args[0].args[0]
        if kind == 'exec':
            env = s.execs(commands(a.args[1].args[0]), env)
            continue
        loops += 1
        b = a.args[1].args[0]
        body, res, step = [h.args[0] for h in b.args]
        res, step = res.args[0], step.args[0]
        rep.same(rule, F + 'residual before the iterations (%s)' % t,
                 s.read(res, env), norm(G(V)))
        rep.same(rule, F + 'states before the iterations (%s): x' % t,
                 env['x'], x1)
        start, out, keep = s.loop(commands(body), env, V)
        Vk = start['vnl']
        new = tm.sub(Vk, tm.mul(tm.inv(J(Vk)), G(Vk)))
        for what, got, want in (
                ('Newton update', out['vnl'], new),
                ('residual', s.read(res, out), norm(G(new))),
                ('step', s.read(step, out), norm(tm.sub(G(new), G(Vk))))):
            rep.same(rule, F + 'iterations (%s): %s' % (t, what), got, want)
        env = start
        vnl = Vk
    rep.check(rule, F + 'number of iterative actions (%s)' % t,
              loops == (1 if nl else 0), '%d' % loops)
    vl = env['vl'] if not l else \
        tm.mul(C(-1), tm.mul(tm.inv(f('jactempFll')), f('Gl', vnl)))
    for n, want in (('x', x1), ('o', o1), ('vnl', vnl), ('vl', vl)):
        rep.same(rule, F + 'after the time step (%s): %s' % (t, n),
                 env[n], want)
    for n in ('dxH', 'z', 'y'):
        rep.same(rule, F + 'after the time step (%s): %s' % (t, n),
                 s.read(n, env), f(n, vl, vnl))


# -------------------------------------------------------------- construction
def freesyms(m, st, obj):
    """the names in an expression; an arbitrary expression e depends on its
    own name fs_e only"""
    t = m.snapshot(st, obj)
    if tm.kind(t) not in ('num', 'mat'):
        return None
    out = set()
    for u in tm.walk(t):
        if tm.isname(u):
            out.add(u)
        elif u.op == 'sym' and u.args[1] == 'num':
            out.add(tm.named('fs_' + u.args[0]))
    return tm.mkset(*[tm.it(u) for u in sorted(out)])


def recorder(trace, effects):
    def f(m, st, args, kw):
        k = len(trace)
        trace.append((args, dict(kw)))
        if k < len(effects):
            effects[k](m, st, args[0])
        return tm.NONE
    return f


def split_model(r, trace, dims):
    """linear_nonlinear as an arbitrary classification of the components:
    the k-th call announces dims[k] = (linear storages, linear
    dissipations); the order of components is left as it is"""
    def f(m, st, args, kw):
        k = min(len(trace), len(dims) - 1)
        crit = kw.get('criterion', args[1] if len(args) > 1 else tm.NONE)
        trace.append(m.snapshot(st, crit))
        old, r.st = r.st, st
        c, (n, w) = args[0], dims[k]
        d = r.get(c, 'dims')
        r.set(d, '_xl', C(n))
        r.set(d, '_wl', C(w))
        r.set(c, 'Q', litmat(r, 'Q%d' % k, n, n))
        r.set(c, 'bl', litlist(r, [sym('b%d_%d' % (k, i), 'num')
                                   for i in range(n)]))
        r.st = old
        return tm.NONE

    def mono(m, st, args, kw):
        old, r.st = r.st, st
        r.set(r.get(args[0], 'dims'), '_xnl_mono', C(0))
        r.st = old
        return tm.NONE
    for q in (CORE, 'pyphs.core.structure.splits'):
        r.m.models[q + '.linear_nonlinear'] = f
        r.m.models[q + '.monovar_multivar'] = mono


def built(grad, split, nx, nw, dims, nobs=1):
    r = c11.rig()
    r.m.reclimit = 12
    r.m.attrhooks['free_symbols'] = freesyms
    trace = []
    split_model(r, trace, dims)
    r.m.models[CORE + '.substitute'] = lambda m, st, args, kw: tm.NONE
    core = litcore(r, 'A', nx, nw, 1, 0, np=1)
    r.set(core, 'observers', r.m.alloc(r.st, tm.mkdict(*[
        tm.pair(tm.named('oA%d' % k), sym('obs%d' % k, 'num'))
        for k in range(nobs)])))
    cfg = r.m.alloc(r.st, tm.mkdict(
        tm.pair(C('grad'), C(grad)), tm.pair(C('theta'), C(0.25)),
        tm.pair(C('split'), C(split))))
    before = r.st.copy()
    me = r.new(QM + 'Method', core, cfg)
    return r, core, me, trace, before


def build(rep, t, grad, split, nx, nw, dims):
    """everything a method holds after construction follows from the final
    classification of its components"""
    rule = 'C12.build'
    r, core, me, trace, before = built(grad, split, nx, nw, dims)
    rep.visited |= r.m.visited
    if r.m.pending:
        rep.undecided(rule, t, 'may raise')
        return
    if len(trace) != (2 if split else 0):
        rep.undecided(rule, t, '%d splits' % len(trace))
        return
    # the same data, rebuilt from the copied core by the reference
    q = bare(r, QM + 'Method')
    r.call(r.fn(CORE + '.__init__'), q, C('A'))
    for a in ('x', 'w', 'u', 'y', 'p', 'z', 'H', 'M', 'observers'):
        v = r.get(core, a)
        s = r.snap(v)
        r.set(q, a, r.m.alloc(r.st, s) if s.op in ('seq', 'mlit', 'zeros',
                                                   'dict') else s)
    d = r.get(q, 'dims')
    n, w = dims[-1] if split else (0, 0)
    for a, v in (('_xl', n), ('_wl', w), ('_xnl_mono', 0)):
        r.set(d, a, C(v))
    k = len(trace) - 1
    r.set(q, 'Q', litmat(r, 'Q%d' % k, n, n))
    r.set(q, 'bl', litlist(r, [sym('b%d_%d' % (k, i), 'num')
                               for i in range(n)]))
    r.set(q, 'fs', tm.named(fsname(r)))
    r.set(q, 'config', r.get(me, 'config'))
    # structure evaluated with the gradient at the time of its evaluation
    fin = {a: (r.get(q, a)) for a in ('Q', 'bl')}
    if split:
        n0, w0 = dims[0]
        r.set(d, '_xl', C(n0))
        r.set(d, '_wl', C(w0))
        r.set(q, 'Q', litmat(r, 'Q0', n0, n0))
        r.set(q, 'bl', litlist(r, [sym('b0_%d' % i, 'num')
                                   for i in range(n0)]))
    r.call(ref(r, 'discrete.gradient_evaluation'), q)
    r.call(ref(r, 'discrete.structure_evaluation'), q)
    if split:
        criterion(rep, rule, t, r, q, trace)
        r.set(d, '_xl', C(n))
        r.set(d, '_wl', C(w))
        for a, v in fin.items():
            r.set(q, a, v)
        r.call(ref(r, 'discrete.gradient_evaluation'), q)
    for a in ('_dxH', 'M', 'z', 'x', 'w', 'u', 'y', 'p', 'H'):
        rep.same(rule, F + 'Method (%s): %s' % (t, a), r.snap(r.get(me, a)),
                 r.snap(r.get(q, a)))
    ge = r.fn('pyphs.misc.tools.geteval')
    for name, f, a in (('tempF', 'residual', ('',)),
                       ('tempFl', 'residual', ('l',)),
                       ('tempFnl', 'residual', ('nl',)),
                       ('jactempFll', 'jacresidual', ('l', 'l')),
                       ('Gnl', 'explicit', ('nl',)),
                       ('jacGnlnl', 'jacexplicit', ('nl', 'nl')),
                       ('vl', 'v', ('l',)), ('vnl', 'v', ('nl',))):
        rep.same(rule, F + 'Method (%s): %s' % (t, name),
                 r.snap(r.call(ge, me, C(name))),
                 r.snap(r.call(ref(r, 'scheme.' + f), q,
                               *[C(e) for e in a])))


    accessors(rep, t, r, me)
    now, r.st = r.st, before
    old = [(a, r.snap(r.get(core, a))) for a in KEPT]
    r.st = now
    for a, v in old:
        rep.same(rule, F + 'Method (%s): core.%s unchanged' % (t, a),
                 r.snap(r.get(core, a)), v)


KEPT = ('x', 'w', 'u', 'y', 'p', 'z', 'H', 'M', '_dxH', 'observers', 'subs')


def criterion(rep, rule, t, r, q, trace):
    """the explicit components are those in which the residual is affine
    with constant derivatives"""
    rep.same(rule, F + 'Method (%s): first split' % t, trace[0], tm.NONE)
    j = r.call(ref(r, 'scheme.criterion'), q)
    got = trace[1]
    if got.op != 'seq' or len(got.args) < 2:
        rep.undecided(rule, t, 'criterion')
        return
    rep.same(rule, F + 'Method (%s): criterion of the second split' % t,
             tm.seq(*got.args[:2]), r.snap(j))


def accessors(rep, t, r, me):
    """arguments and indices of the functions"""
    rule = 'C12.arguments'
    ge = r.fn('pyphs.misc.tools.geteval')
    al = r.meth(me, 'args')
    rep.same(rule, F + 'Method.args (%s)' % t, r.snap(al),
             r.snap(r.call(ref(r, 'scheme.args'), me)))
    rep.same(rule, F + 'dims.args (%s)' % t,
             r.snap(r.meth(r.get(me, 'dims'), 'args')),
             tm.length(r.snap(al)))
    an, fn_ = [[g.args[0] for g in r.snap(r.get(me, a)).args]
               for a in ('args_names', 'funcs_names')]
    f = ref(r, 'scheme.find')
    for n in an + fn_:
        if not tm.isc(n):
            rep.undecided(rule, t, 'name')
            continue
        n = n.args[0]
        e = r.get(me, n + '_expr')
        rep.same(rule, F + '%s_expr (%s)' % (n, t), r.snap(e), r.snap(
            r.call(ge, me, C('output' if n == 'y' else n))))
        want = r.snap(r.call(f, e, al))
        got = tm.seq(*[tm.it(r.snap(r.get(me, n + s)))
                       for s in ('_args', '_inds')])
        rep.same(rule, F + '%s_args, %s_inds (%s)' % (n, n, t), got, want)
        if C(n) in an:
            rep.same(rule, F + '%s_args (%s): order' % (n, t),
                     r.snap(r.get(me, n + '_args')), r.snap(e))
    # every name of the schedule is known to the numerical objects
    have = set(n.args[0] for n in an + fn_ if tm.isc(n)) | set(
        g.args[0].args[0] for g in r.snap(r.get(me, 'ops_names')).args)
    deps = r.snap(r.meth(me, 'update_actions_deps'))
    if deps.op != 'seq' or any(g.op != 'it' for g in deps.args):
        rep.undecided(rule, t, 'dependencies')
        return
    deps = [g.args[0].args[0] for g in deps.args]
    pos = {}
    for k, n in enumerate(deps):
        pos.setdefault(n, k)
    for n in sorted(names_used(r.snap(r.get(me, 'update_actions')))):
        rep.check(rule, F + 'update_actions_deps (%s): %s' % (t, n),
                  n in pos and n in have, 'missing')
    for n in sorted(set(g.args[0].args[0] for g in
                        r.snap(r.get(me, 'ops_names')).args)):
        ds = r.snap(r.get(me, n + '_deps'))
        want = sorted(opnames(r, r.get(me, n + '_op')))
        rep.same(rule, F + '%s_deps (%s)' % (n, t), ds,
                 tm.mkset(*[tm.it(C(d)) for d in want]))
        if n in pos:
            rep.check(rule, F + 'dependencies of %s (%s)' % (n, t),
                      all(d in pos and d in have for d in want),
                      'missing')


def names_used(t):
    out = set()
    for g in t.args:
        kind, b = [h.args[0] for h in g.args[0].args]
        parts = [b] if kind.args[0] == 'exec' else [b.args[0].args[0]]
        if kind.args[0] != 'exec':
            out |= set(h.args[0].args[0] for h in b.args[1:])
        for p in parts:
            for c in commands(p):
                out |= set(c) if isinstance(c, tuple) else {c}
    return out


def opnames(r, o):
    out = set()
    args = r.m.getk(r.st, r.get(o, 'args'))
    if args.op != 'seq':
        args = r.snap(args)
    for g in args.args:
        a = g.args[0]
        if tm.isc(a) and isinstance(a.args[0], str):
            out.add(a.args[0])
        elif a.op == 'new':
            out |= opnames(r, a)
    return out


def fsname(r):
    import ast
    for s in r.m.prog.modules['pyphs.config'].tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) \
                and getattr(s.targets[0], 'id', '') == 'FS_SYMBS':
            return s.value.value
    return 'F_S'
