"""From a graph to its core: the interconnection matrix of the core built
from a graph is the one imposed by the laws of Kirchhoff. For every
distribution of potentials and every circulation of fluxes, with e the
difference of potentials (source minus target) and f the flux of each edge,
b = M a where a storage, port or connector edge that is flux-controlled has
b = f and a = e, and one that is effort-controlled has b = e and a = f. The
law of a dissipative edge is the one given for its control; ratios of
gyrators and transformers follow e1 = -alpha f2, e2 = alpha f1 and
e1 = -alpha e2, f2 = alpha f1, whatever their control; variables keep their
pairing (x, w and z, u and y, cu and cy); energy, substitutions, parameters
and observers are those of the graph; building the core again gives the same
core; a graph whose sources contradict each other raises an exception.

Decided by interpretation of Graph.to_core on a list of graphs (with
arbitrary laws, ratios and values), against the equations of Kirchhoff."""
from fractions import Fraction
from . import common as cm
from . import c06, c09
from ..rig import CORE
from .. import terms as tm, nd
from ..interp import Raised
from ..terms import mk, C, sym

FLOOR = 60
GRAPH = 'pyphs.graphs.graph.Graph'
F = 'pyphs/graphs/graph.py:Graph.to_core'
D = '#'

# name, source, target, kind: Sf/Se storage (flux/effort controlled), R
# dissipation, Rf/Re dissipation with given control, Pf/Pe port; G/T gyrator,
# transformer: name, (A1, A2, B1, B2), ratio
CIRCUITS = {
    'series RLC': [('I', 'A', D, 'Pf'), ('R', 'A', 'B', 'R'),
                   ('L', 'B', 'C', 'Se'), ('K', 'C', D, 'Sf')],
    'series RLC, edges reversed': [
        ('I', D, 'A', 'Pf'), ('R', 'B', 'A', 'R'),
        ('L', 'B', 'C', 'Se'), ('K', D, 'C', 'Sf')],
    'parallel RLC': [('I', 'A', D, 'Pe'), ('R', 'A', D, 'R'),
                     ('L', D, 'A', 'Se'), ('K', 'A', D, 'Sf')],
    'parallel in series': [
        ('I', 'A', D, 'Pf'), ('R', 'A', 'B', 'R'), ('L', 'B', D, 'Se'),
        ('K', 'B', D, 'Sf')],
    'ladder': [('I', 'A', D, 'Pf'), ('R1', 'A', 'B', 'R'),
               ('K1', D, 'B', 'Sf'), ('R2', 'B', 'C', 'R'),
               ('K2', 'C', D, 'Sf'), ('L', 'C', D, 'Se')],
    'bridge': [('I', 'A', D, 'Pf'), ('R1', 'A', 'B', 'R'),
               ('R2', 'C', 'A', 'R'), ('K1', 'B', D, 'Sf'),
               ('K2', D, 'C', 'Sf'), ('L', 'B', 'C', 'Se')],
    'two ports': [('I', 'A', D, 'Pf'), ('O', 'B', D, 'Pe'),
                  ('R', 'A', 'B', 'R'), ('K', 'B', D, 'Sf'),
                  ('G', 'A', D, 'R')],
    'given controls': [('I', 'A', D, 'Pf'), ('R', 'A', 'B', 'Re'),
                       ('K', 'B', D, 'Sf'), ('S', 'B', 'C', 'Re'),
                       ('M', 'C', D, 'Sf')],
    'star': [('I', 'A', D, 'Pf'), ('R', 'A', 'N', 'R'),
             ('L', 'N', 'B', 'Se'), ('K', 'N', D, 'Sf'),
             ('S', 'B', D, 'R')],
    'observers of a flux': [
        ('I', 'A', D, 'Pe'), ('K', 'A', D, 'Sf'), ('R', 'A', 'B', 'Rf'),
        ('L', 'B', D, 'Se')],
    'gyrator, efforts': [('I', 'A', D, 'Pf'), ('O', 'B', D, 'Pf'),
                         ('g', ('A', D, 'B', D), 'G')],
    'gyrator, fluxes': [('I', 'A', D, 'Pe'), ('O', 'B', D, 'Pe'),
                        ('g', ('A', D, 'B', D), 'G')],
    'transformer, effort first': [
        ('I', 'A', D, 'Pf'), ('O', 'B', D, 'Pe'),
        ('t', ('A', D, 'B', D), 'T')],
    'transformer, flux first': [
        ('I', 'A', D, 'Pe'), ('O', 'B', D, 'Pf'),
        ('t', ('A', D, 'B', D), 'T')],
    'gyrator, loaded': [
        ('I', 'A', D, 'Pf'), ('R', 'A', 'B', 'R'), ('L', 'B', 'C', 'Se'),
        ('g', ('C', D, D, 'E'), 'G'), ('M', 'E', D, 'Se'),
        ('S', 'E', D, 'Re')],
    'transformer, reversed': [
        ('I', 'A', D, 'Pf'), ('R', 'A', 'B', 'R'), ('K', 'B', D, 'Sf'),
        ('t', (D, 'B', 'C', D), 'T'), ('S', 'C', 'E', 'R'),
        ('M', 'E', D, 'Sf')],
    'transformer then gyrator': [
        ('I', 'A', D, 'Pf'), ('t', ('B', D, 'C', D), 'T'),
        ('g', ('A', D, 'B', D), 'G'), ('R', 'C', D, 'R')],
    'gyrator then transformer, loaded': [
        ('I', 'A', D, 'Pe'), ('R', 'A', 'B', 'R'), ('K', 'A', D, 'Sf'),
        ('g', ('C', D, 'E', D), 'G'), ('t', ('B', D, 'C', D), 'T'),
        ('S', 'E', 'H', 'R'), ('L', 'H', D, 'Se')],
    'two transformers': [
        ('I', 'A', D, 'Pf'), ('t', ('B', D, 'C', D), 'T'),
        ('s', ('A', D, D, 'B'), 'T'), ('R', 'C', D, 'R')],
    'two gyrators in parallel': [
        ('I', 'A', D, 'Pf'), ('g', ('A', D, 'B', D), 'G'),
        ('h', ('C', D, 'A', D), 'G'), ('R', 'B', D, 'Rf'),
        ('K', 'C', D, 'Sf')],
}
QUICK = tuple(CIRCUITS)
CONFLICTS = {
    'two efforts in parallel': [('I', 'A', D, 'Pf'), ('O', 'A', D, 'Pf'),
                                ('R', 'A', D, 'R')],
    'gyrator between an effort and a flux': [
        ('I', 'A', D, 'Pf'), ('O', 'B', D, 'Pe'),
        ('g', ('A', D, 'B', D), 'G')],
    'transformer between efforts': [
        ('I', 'A', D, 'Pf'), ('O', 'B', D, 'Pf'),
        ('t', ('A', D, 'B', D), 'T')],
}


def rig():
    r = c09.rig()
    m = r.m
    nd.use(m)
    m.models[CORE + '.symbols'] = c06.symbols
    m.alias.update({'networkx.MultiDiGraph': 'ref.nx.MultiDiGraph',
                    'networkx.Graph': 'ref.nx.Graph'})

    def inc(m, st, args, kw):
        f = m.getfn('ref.nx.incidence')
        v = m.call(f, [args[0]], {}, st)
        return m.alloc(st, nd.arr(m, st, v))
    m.extmodels['networkx.linalg.incidence_matrix'] = inc
    m.extmodels['warnings.warn'] = lambda m, st, args, kw: tm.NONE
    m.attrhooks['is_zero'] = iszero
    m.reclimit = 12
    m.budget = 10 ** 8
    return r


def iszero(m, st, t):
    """of a matrix of numbers"""
    M = numbers(t)
    if M is None:
        return None
    return tm.FALSE if any(x for row in M for x in row) else tm.TRUE


def tup(*a):
    return tm.seq(*[tm.it(x) for x in a])


def dct(r, **kw):
    return r.m.alloc(r.st, tm.mkdict(*[tm.pair(C(k), v)
                                       for k, v in kw.items()]))


def flatten(circuit):
    """edges (label, source, target, kind, link, ratio)"""
    out = []
    for e in circuit:
        if len(e) == 4:
            pre = {'S': 'x', 'R': 'w', 'P': 'y'}[e[3][0]]
            out.append((pre + e[0], e[1], e[2], e[3], None))
        else:
            n, (a, b, c, d), k = e
            out.append(('y%s1' % n, a, b, k, 1))
            out.append(('y%s2' % n, c, d, k, 2))
    return out


def build(r, circuit):
    """the graph, with one core"""
    g = r.new(GRAPH, label=C('net'))
    core = r.get(g, 'core')
    edges = []
    nm = tm.named

    def edge(label, u, v, **kw):
        edges.append(tup(C(u), C(v), dct(r, label=nm(label), **kw)))
    ports = 0
    for e in circuit:
        if len(e) == 3:
            n, (a, b, c, d), k = e
            al = nm('ratio' + n)
            ys = ['y%s%d' % (n, i) for i in (1, 2)]
            us = ['u%s%d' % (n, i) for i in (1, 2)]
            r.meth(core, 'add_ports', tup(*map(nm, us)), tup(*map(nm, ys)))
            r.meth(core, 'add_connector', tup(C(ports), C(ports + 1)), al)
            for y, o, (u, v), x in ((ys[0], ys[1], (a, b), al),
                                    (ys[1], ys[0], (c, d), tm.NONE)):
                edge(y, u, v, type=C('connector'), connector_type=C(
                    {'G': 'gyrator', 'T': 'transformer'}[k]), alpha=x,
                    ctrl=C('?'), link=nm(o))
            continue
        n, u, v, k = e
        if k[0] == 'S':
            r.meth(core, 'add_storages', cm.litlist(r, [nm('x' + n)]),
                   sym('H' + n, 'num'))
            edge('x' + n, u, v, type=C('storage'), ctrl=C(k[1]),
                 link=tm.NONE)
        elif k[0] == 'R':
            ez, fz = sym('e_' + n, 'num'), sym('f_' + n, 'num')
            given = k[1:]
            z = dct(r, **{a + '_ctrl': b for a, b in (('e', ez), ('f', fz))
                          if given in ('', a)})
            r.meth(core, 'add_dissipations', cm.litlist(r, [nm('w' + n)]),
                   cm.litlist(r, [ez if given == 'e' else fz]))
            edge('w' + n, u, v, type=C('dissipative'), ctrl=C(given or '?'),
                 z=z, link=tm.NONE)
        else:
            r.meth(core, 'add_ports', cm.litlist(r, [nm('u' + n)]),
                   cm.litlist(r, [nm('y' + n)]))
            edge('y' + n, u, v, type=C('port'), ctrl=C(k[1]), link=tm.NONE)
            ports += 1
    r.set(core, 'subs', r.m.alloc(r.st, tm.mkdict(
        tm.pair(nm('s0'), sym('v0', 'num')))))
    r.meth(core, 'add_parameters', nm('p0'))
    r.meth(core, 'add_observer', dctt(r, nm('o0'), sym('obs', 'num')))
    r.meth(g, 'add_edges_from', cm.litlist(r, edges))
    return g


def dctt(r, k, v):
    return r.m.alloc(r.st, tm.mkdict(tm.pair(k, v)))


def cycles(edges):
    """basis of the circulations of fluxes (label -> value)"""
    nodes = sorted({e[1] for e in edges} | {e[2] for e in edges})
    rows = [[Fraction((e[1] == n) - (e[2] == n)) for e in edges]
            for n in nodes]
    piv, k = [], 0
    for j in range(len(edges)):
        p = next((i for i in range(k, len(rows)) if rows[i][j]), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        rows[k] = [x / rows[k][j] for x in rows[k]]
        for i in range(len(rows)):
            if i != k and rows[i][j]:
                rows[i] = [x - rows[i][j] * y
                           for x, y in zip(rows[i], rows[k])]
        piv.append(j)
        k += 1
    out = []
    for j in range(len(edges)):
        if j not in piv:
            f = {e[0]: Fraction(0) for e in edges}
            f[edges[j][0]] = Fraction(1)
            for i, p in enumerate(piv):
                f[edges[p][0]] = -rows[i][j]
            out.append(f)
    return out


def states(edges):
    """pairs (e, f) that span the solutions of the laws of Kirchhoff"""
    nodes = sorted({e[1] for e in edges} | {e[2] for e in edges})
    zero = {e[0]: Fraction(0) for e in edges}
    out = [(zero, f) for f in cycles(edges)]
    for n in nodes:
        out.append(({e[0]: Fraction((e[1] == n) - (e[2] == n))
                     for e in edges}, zero))
    return out


def numbers(t):
    """rows of a matrix of numbers (None otherwise)"""
    if t.op == 'zeros' and all(tm.isnum(a) for a in t.args):
        n, m = [int(a.args[0]) for a in t.args]
        return [[Fraction(0)] * m for _ in range(n)]
    if t.op != 'mlit':
        return None
    out = []
    for row in t.args:
        if not all(tm.isnum(x) for x in row):
            return None
        out.append([Fraction(x.args[0]) for x in row])
    return out


def names(t):
    """names of the symbols of a literal list"""
    if t.op != 'seq':
        return None
    out = []
    for g in t.args:
        if g.op != 'it' or not tm.isname(g.args[0]):
            return None
        out.append(tm.pp(g.args[0]).lstrip('$'))
    return out


def run(rep, tier):
    jobs = []
    for n in (CIRCUITS if tier == 'thorough' else QUICK):
        jobs.append(lambda rep, n=n: one(rep, n, CIRCUITS[n]))
    for n in CONFLICTS:
        jobs.append(lambda rep, n=n: conflict(rep, n, CONFLICTS[n]))
    cm.parallel(rep, jobs)


def conflict(rep, name, circuit):
    r = rig()
    g = build(r, circuit)
    cons = '%s: %s' % (F, name)
    try:
        r.meth(g, 'to_core')
    except Raised as e:
        rep.visited |= r.m.visited
        return rep.holds('C15.conflict', cons)
    rep.visited |= r.m.visited
    sure(rep, r, cons)
    rep.violated('C15.conflict', cons, 'a core is built although the sources '
                 'contradict each other')


def sure(rep, r, cons):
    """exceptions that may be raised and are not known to be"""
    if any(tm.isc(p[0]) is False for p in r.m.pending):
        rep.undecided('C15.interpretation', cons, 'conditional exceptions')


def one(rep, name, circuit):
    r = rig()
    g = build(r, circuit)
    cons = '%s: %s' % (F, name)
    edges = flatten(circuit)
    con = any(len(e) == 3 for e in circuit)
    old = observe(r, r.get(g, 'core'))
    try:
        first = observe(r, r.meth(g, 'to_core', connect=tm.FALSE))
    except Raised as e:
        rep.visited |= r.m.visited
        return rep.violated('C15.core', cons, 'raises %s' % tm.pp(e.exc))
    rep.visited |= r.m.visited
    judge(rep, cons, edges, circuit, old, first)
    rep.same('C15.label', cons, first['label'], C('net'))
    c = r.meth(g, 'to_core', C('other'), connect=tm.FALSE)
    rep.check('C15.new', cons, c is not r.get(g, 'core'), 'the core of the '
              'graph itself is returned')
    again = observe(r, c)
    judge(rep, cons + ' (again)', edges, circuit, old, again)
    rep.same('C15.label', cons + ' (again)', again['label'], C('other'))
    if con:
        last = observe(r, r.meth(g, 'to_core'))
        connected(rep, cons + ' (connected)', edges, circuit, last)
    sure(rep, r, cons)


OBS = ('x', 'w', 'z', 'u', 'y', 'cu', 'cy', 'M', 'H', 'subs', 'p',
       'observers', 'connectors', 'label')


def observe(r, c):
    return {a: r.val(c, a) for a in OBS}


def judge(rep, cons, edges, circuit, old, got):
    for a in ('H', 'subs', 'p', 'observers'):
        rep.same('C15.contents', '%s: %s' % (cons, a), got[a], old[a])
    lab = {}
    for a, pre in (('x', 'S'), ('w', 'R'), ('y', 'P'), ('cy', 'GT')):
        lab[a] = names(got[a])
        want = sorted(e[0] for e in edges if e[3][0] in pre)
        if lab[a] is None:
            return rep.undecided('C15.variables', cons + ': ' + a,
                                 tm.pp(got[a], 9)[:500])
        if not rep.check('C15.variables', cons + ': ' + a,
                         sorted(lab[a]) == want,
                         'derived %s ; required (in any order) %s' % (
                             lab[a], want)):
            return
    for a, b in (('u', 'y'), ('cu', 'cy')):
        rep.same('C15.pairs', '%s: %s' % (cons, a), got[a], tup(*[
            tm.named('u' + n[1:]) for n in lab[b]]))
    ctrl = {}
    for e in edges:
        if e[3][0] in 'SP':
            ctrl[e[0]] = e[3][1]
    z = got['z']
    if z.op != 'seq' or len(z.args) != len(lab['w']):
        return rep.undecided('C15.law', cons + ': z', tm.pp(z, 9)[:500])
    for n, t in zip(lab['w'], z.args):
        given = [e[3][1:] for e in edges if e[0] == n][0]
        for c in 'ef':
            if t.args[0] is sym('%s_%s' % (c, n[1:]), 'num') and \
                    given in ('', c):
                ctrl[n] = c
        if not rep.check('C15.law', '%s: %s' % (cons, n), n in ctrl,
                         'the law is %s' % tm.pp(t.args[0], 9)):
            return
    ks = got['connectors']
    for e in circuit:
        if len(e) != 3:
            continue
        y1, y2 = 'y%s1' % e[0], 'y%s2' % e[0]
        u1, u2 = 'u' + y1[1:], 'u' + y2[1:]
        al = tm.named('ratio' + e[0])
        inv = tm.mul(C(-1), tm.power(al, C(-1)))
        found = None
        for k in ks.args if ks.op == 'seq' else ():
            d = k.args[0]
            if tm.idx(d, C('y')) is tup(tm.named(y1), tm.named(y2)) and \
                    tm.idx(d, C('u')) is tup(tm.named(u1), tm.named(u2)):
                found = tm.idx(d, C('alpha'))
        if found is al:
            ctrl[y1], ctrl[y2] = {'G': 'ff', 'T': 'fe'}[e[2]]
        elif found is inv:
            ctrl[y1], ctrl[y2] = {'G': 'ee', 'T': 'ef'}[e[2]]
        else:
            return rep.violated('C15.ratio', '%s: %s' % (cons, e[0]),
                                'the connectors are %s' % tm.pp(ks, 9)[:700])
        rep.holds('C15.ratio', '%s: %s' % (cons, e[0]))
    M = numbers(got['M'])
    order = lab['x'] + lab['w'] + lab['y'] + lab['cy']
    if M is None:
        return rep.undecided('C15.structure', cons, tm.pp(got['M'], 9)[:700])
    kirchhoff(rep, 'C15.structure', cons, edges, order, ctrl, M)


def kirchhoff(rep, rule, cons, edges, order, ctrl, M):
    if len(M) != len(order) or any(len(r) != len(order) for r in M):
        return rep.violated(rule, cons, 'shape of M: %d rows for %d '
                            'variables' % (len(M), len(order)))
    for e, f in states(edges):
        a = [f[n] if ctrl[n] == 'e' else e[n] for n in order]
        b = [e[n] if ctrl[n] == 'e' else f[n] for n in order]
        for i, n in enumerate(order):
            v = sum(x * y for x, y in zip(M[i], a))
            if v != b[i]:
                return rep.violated(
                    rule, '%s: row of %s' % (cons, n), 'e=%s, f=%s: M a is '
                    '%s instead of %s' % (
                        {k: str(x) for k, x in e.items() if x},
                        {k: str(x) for k, x in f.items() if x}, v, b[i]))
    for n in order:
        rep.holds(rule, '%s: row of %s' % (cons, n))


def connected(rep, cons, edges, circuit, got):
    """after the elimination of the connectors: same laws, with the ratio
    replaced by numbers"""
    lab = [n for a in ('x', 'w', 'y') for n in names(got[a]) or []]
    rep.same('C15.pairs', cons + ': cu', got['cu'], tup())
    rep.same('C15.pairs', cons + ': cy', got['cy'], tup())
    ctrl = {}
    for e in edges:
        if e[3][0] in 'SP':
            ctrl[e[0]] = e[3][1]
    for n, t in zip(names(got['w']) or [], got['z'].args):
        for c in 'ef':
            if t.args[0] is sym('%s_%s' % (c, n[1:]), 'num'):
                ctrl[n] = c
    M = got['M']
    want = sorted(e[0] for e in edges if e[3][0] in 'SPR')
    if sorted(lab) != want or set(ctrl) != set(want):
        return rep.undecided('C15.connected', cons, tm.pp(M, 9)[:700])
    for ratio in (Fraction(3), Fraction(-2, 5)):
        vals = matrix(M, {'ratio' + n: v for n, v in
                          ratios(circuit, ratio).items()})
        if vals is None:
            return rep.undecided('C15.connected', cons,
                                 tm.pp(M, 12)[:900])
        sols = coupled(edges, circuit, ratio)
        ok = True
        for e, f in sols:
            a = [f[n] if ctrl[n] == 'e' else e[n] for n in lab]
            b = [e[n] if ctrl[n] == 'e' else f[n] for n in lab]
            for i, n in enumerate(lab):
                v = sum(x * y for x, y in zip(vals[i], a))
                if v != b[i] and ok:
                    ok = False
                    rep.violated('C15.connected', '%s: row of %s' % (
                        cons, n), 'ratio %s, e=%s, f=%s: M a is %s instead '
                        'of %s' % (ratio, {k: str(x) for k, x in e.items()},
                                   {k: str(x) for k, x in f.items()}, v,
                                   b[i]))
        if ok:
            rep.holds('C15.connected', '%s, ratio %s' % (cons, ratio))


def ratios(circuit, ratio):
    """a different one for each connector"""
    cs = [e[0] for e in circuit if len(e) == 3]
    return {n: ratio + k for k, n in enumerate(cs)}


def coupled(edges, circuit, first):
    """solutions of the laws of Kirchhoff and of the connectors"""
    basis = states(edges)
    eqs = []
    for c in circuit:
        if len(c) != 3:
            continue
        a, b = 'y%s1' % c[0], 'y%s2' % c[0]
        ratio = ratios(circuit, first)[c[0]]
        if c[2] == 'G':
            eqs.append([e[a] + ratio * f[b] for e, f in basis])
            eqs.append([e[b] - ratio * f[a] for e, f in basis])
        else:
            eqs.append([e[a] + ratio * e[b] for e, f in basis])
            eqs.append([f[b] - ratio * f[a] for e, f in basis])
    out = []
    for v in kernel(eqs, len(basis)):
        e = {k: sum(x * s[0][k] for x, s in zip(v, basis))
             for k in basis[0][0]}
        f = {k: sum(x * s[1][k] for x, s in zip(v, basis))
             for k in basis[0][0]}
        out.append((e, f))
    return out


def kernel(rows, n):
    rows = [list(map(Fraction, r)) for r in rows]
    piv, k = [], 0
    for j in range(n):
        p = next((i for i in range(k, len(rows)) if rows[i][j]), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        rows[k] = [x / rows[k][j] for x in rows[k]]
        for i in range(len(rows)):
            if i != k and rows[i][j]:
                rows[i] = [x - rows[i][j] * y
                           for x, y in zip(rows[i], rows[k])]
        piv.append(j)
        k += 1
    out = []
    for j in range(n):
        if j in piv:
            continue
        v = [Fraction(0)] * n
        v[j] = Fraction(1)
        for i, p in enumerate(piv):
            v[p] = -rows[i][j]
        out.append(v)
    return out


def evaluate(t, env):
    """value of an arithmetic expression (None: not one)"""
    if tm.isnum(t):
        return Fraction(t.args[0])
    if tm.isname(t):
        return env.get(tm.pp(t).lstrip('$'))
    if t.op != 'poly':
        return None
    out = Fraction(0)
    for sc, mt, co in t.args[0]:
        if mt:
            return None
        v = Fraction(co)
        for f, e in sc:
            x = evaluate(f, env)
            if x is None or e != int(e) or (x == 0 and e < 0):
                return None
            v *= x ** int(e)
        out += v
    return out


def eye(n):
    return [[Fraction(i == j) for j in range(n)] for i in range(n)]


def product(a, b):
    if len(a[0]) != len(b):
        return None
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def inverse(a):
    n = len(a)
    rows = [list(r) + e for r, e in zip(a, eye(n))]
    for j in range(n):
        p = next((i for i in range(j, n) if rows[i][j]), None)
        if p is None:
            return None
        rows[j], rows[p] = rows[p], rows[j]
        rows[j] = [x / rows[j][j] for x in rows[j]]
        for i in range(n):
            if i != j and rows[i][j]:
                rows[i] = [x - rows[i][j] * y
                           for x, y in zip(rows[i], rows[j])]
    return [r[n:] for r in rows]


def matrix(t, env):
    """value of a matrix expression (None: not known)"""
    if t.op == 'mlit':
        out = [[evaluate(x, env) for x in r] for r in t.args]
        return None if any(x is None for r in out for x in r) else out
    if t.op == 'eye' and tm.isnum(t.args[0]):
        return eye(int(t.args[0].args[0]))
    if t.op == 'zeros':
        return numbers(t)
    if t.op == 'inv':
        a = matrix(t.args[0], env)
        return None if a is None else inverse(a)
    if t.op == 'poly':
        out = None
        for sc, mt, co in t.args[0]:
            k = evaluate(mk('poly', ((sc, (), co),)), env)
            v = None
            for f in mt:
                f = matrix(f, env)
                if f is None:
                    return None
                v = f if v is None else product(v, f)
                if v is None:
                    return None
            if k is None or v is None:
                return None
            v = [[k * x for x in r] for r in v]
            if out is None:
                out = v
            elif len(out) != len(v) or len(out[0]) != len(v[0]):
                return None
            else:
                out = [[x + y for x, y in zip(a, b)] for a, b in zip(out, v)]
        return out
    return None
