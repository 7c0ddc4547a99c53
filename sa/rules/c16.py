"""Components of the dictionary: the graph and the core of a component are
those of its documentation - edges from and to the documented nodes with the
documented control, the energy of storages and the law of dissipations as
functions of the variables and of the arguments. Arguments may be numbers
(value in the substitutions of the core, for a symbol that belongs to this
component), named numbers (value of that symbol) or names (parameter of the
core); arguments that are not given take the documented default value.

Decided by interpretation of the constructors with arguments of each form;
the expressions derived from the source are compared with the formulas of
the documentation by evaluation at points, with 60 digits."""
import random
from fractions import Fraction
from decimal import Decimal
from . import common as cm
from . import c11, c15
from .c15 import dct, tup, names
from .. import terms as tm, numeric
from ..interp import Raised
from ..report import Vanished
from ..rig import program
from ..terms import C, mk

FLOOR = 400
DIC = 'pyphs.dictionary.'
ODD = 'R*w', 'w/R'
IND = '(1+tanh((%s)/GMIN))/2'


def st(ctrl, src, dst, H):
    return dict(edges=[('x', src, dst, 'storage', ctrl, None, None)], H=H)


def lin(e, f):
    return dict(edges=[('w', 0, 1, 'dissipative', '?', e, f)], H='0')


def sat(k, a, b):
    return ('%s*(x**2/2 + %s*(-8*%s/(pi*(4-pi))*(pi**2*x**2/(8*%s**2) + '
            'log(cos(pi*x/(2*%s))))))' % (k, a, b, b, b))


CUBIC = 'F1*x**2/(2*xref) + F3*x**4/(4*xref**3)'
FELT_H = 'L*F/(B+1)*(x/L)**(B+1) if x > 0 else 0'
FELT_R = 'A*L/B*(x/L)**(B-1)*w if x > 0 else 0*w'
IPK = ('(w1/Kp*log(1+exp(Kp*(1/mu+(w2+Vct)/sqrt(Kvb+w1**2)))))**Ex*2/Kg*' +
       IND % 'w1/Kp*log(1+exp(Kp*(1/mu+(w2+Vct)/sqrt(Kvb+w1**2))))' +
       ' + (w1+w2)*GMIN')
IGK = '(w2-Va)/Rgk*' + IND % 'w2-Va' + ' + (w1+w2)*GMIN'
IBC = '(Is*(exp(w1/(mu*Vt))-1) + GMIN*w1)'
IBE = '(Is*(exp(w2/(mu*Vt))-1) + GMIN*w2)'


def res(w, src, dst, R):
    return (w, src, dst, 'dissipative', '?', '%s/(%s)' % (w, R),
            '%s*(%s)' % (w, R))


def src(kinds, default, one=False):
    return dict(port=kinds, default=default, one=one)


# class: number of nodes, parameters, description (edges: variable, source,
# target, type, control, law if effort-controlled (the flux), law if
# flux-controlled (the effort); nodes: index, '#' or name of an internal one)
COMPONENTS = {
    'electronics.Capacitor': (2, 'C', st('f', 0, 1, 'x**2/(2*C)')),
    'electronics.Inductor': (2, 'L', st('e', 0, 1, 'x**2/(2*L)')),
    'electronics.Resistor': (2, 'R', lin('w/R', 'R*w')),
    'electronics.Potentiometer': (3, 'R A E', dict(edges=[
        res('w1', 0, 1, '1+R*A**E'), res('w2', 1, 2, '1+R*(1-A**E)')],
        H='0')),
    'electronics.Diode': (2, 'Is mu R v0', dict(edges=[
        ('w1', 0, 'i', 'dissipative', '?', 'Is*(exp(w1/(mu*v0))-1)',
         'mu*v0*log(1+w1/Is)'),
        res('w2', 'i', 1, 'R'), res('w3', 0, 'i', '1/GMIN')], H='0')),
    'electronics.Bjt': (3, 'Is betaR betaF Vt mu Rb Rc Re', dict(edges=[
        ('w1', 'b', 'c', 'dissipative', 'e',
         '(betaR+1)/betaR*%s - %s' % (IBC, IBE), None),
        ('w2', 'b', 'e', 'dissipative', 'e',
         '(betaF+1)/betaF*%s - %s' % (IBE, IBC), None),
        res('w3', 0, 'b', 'Rb'), res('w4', 1, 'c', 'Rc'),
        res('w5', 2, 'e', 'Re')], H='0')),
    'electronics.Triode': (3, 'mu Ex Kg Kp Kvb Vct Va Rgk', dict(edges=[
        ('w1', 1, 0, 'dissipative', 'e', IPK, None),
        ('w2', 2, 0, 'dissipative', 'e', IGK, None)], H='0')),
    'electronics.Source': (2, '', src({'voltage': 'f', 'current': 'e'},
                                      'voltage')),
    'mechanics.Stiffness': (2, 'K', st('e', 0, 1, 'K*x**2/2')),
    'mechanics.Mass': (1, 'M', st('f', '#', 0, 'x**2/(2*M)')),
    'mechanics.Damper': (2, 'A', lin('A*w', 'w/A')),
    'mechanics.Springcubic': (2, 'F1 F3 xref', st('e', 0, 1, CUBIC)),
    'mechanics.Springsat': (2, 'K0 Ksat xsat', st('e', 0, 1, sat(
        'K0', 'Ksat', 'xsat'))),
    'mechanics.Felt': (2, 'L F A B', dict(edges=[
        ('x', 0, 1, 'storage', 'e', None, None),
        ('w', 0, 1, 'dissipative', 'e', FELT_R, None)], H=FELT_H)),
    'mechanics.Source': (2, '', src({'force': 'e', 'velocity': 'f'},
                                    'force')),
    'mechanics_dual.Stiffness': (2, 'K', st('f', 0, 1, 'K*x**2/2')),
    'mechanics_dual.Mass': (2, 'M', st('e', 0, 1, 'x**2/(2*M)')),
    'mechanics_dual.Damper': (2, 'A', lin('w/A', 'A*w')),
    'mechanics_dual.Springcubic': (2, 'F1 F3 xref', st('f', 0, 1, CUBIC)),
    'mechanics_dual.Springsat': (2, 'K0 Ksat xsat', st('f', 0, 1, sat(
        'K0', 'Ksat', 'xsat'))),
    'mechanics_dual.Felt': (2, 'L F A B', dict(edges=[
        ('x', 0, 'i', 'storage', 'f', None, None),
        ('w', 'i', 1, 'dissipative', 'f', None, FELT_R)], H=FELT_H)),
    'mechanics_dual.Source': (2, '', src({'force': 'f', 'velocity': 'e'},
                                         'force')),
    'magnetics.Capacitor': (2, 'C', st('f', 0, 1, 'x**2/(2*C)')),
    'magnetics.Capacitorsat': (2, 'C0 Csat phisat', st('f', 0, 1, sat(
        '1/C0', 'Csat', 'phisat'))),
    'magnetics.Resistor': (2, 'R', lin('w/R', 'R*w')),
    'magnetics.Source': (2, '', src({'mmf': 'f', 'fluxvar': 'e'}, 'mmf')),
    'thermics.Capacitor': (1, 'C T0', st('f', '#', 0, 'C*T0*exp(x/C)')),
    'thermics.Transfer': (2, 'R', dict(edges=[
        ('w1', '#', 0, 'dissipative', 'e', 'R*(w1-w2)/w1', None),
        ('w2', '#', 1, 'dissipative', 'e', 'R*(w2-w1)/w2', None)], H='0',
        temperature={'w1': 'gx0', 'w2': 'gx1'})),
    'thermics.Source': (1, '', src({'temperature': 'f', 'entropyvar': 'e'},
                                   'temperature', one=True)),
    'connectors.Gyrator': (4, 'alpha', dict(connector='gyrator')),
    'connectors.Transformer': (4, 'alpha', dict(connector='transformer')),
}
SELF = ('thermics.Capacitor', 'thermics.Source')
NODES = ('nA', 'nB', 'nC', 'nD')
VALUES = [Fraction(v) for v in (3, '2.5', 7, '0.75', 11, '1.25', 5, '0.375')]


def rig():
    r = c15.rig()
    m = r.m
    m.numexpr = True
    m.methmodels['subs'] = c11.subs
    m.extmodels['sympy.Piecewise'] = c11.piecewise

    def same(m, st, obj, args, kw):
        return obj if not args and not kw else None
    for n in ('evalf', 'simplify'):
        m.methmodels[n] = same
    return r


def run(rep, tier):
    jobs = []
    for q in COMPONENTS:
        jobs.append(lambda rep, q=q: component(rep, q))
    jobs.append(ports)
    jobs.append(observer)
    cm.parallel(rep, jobs)


def public(r, q):
    """the class behind a public name"""
    c = program().find_class(DIC + q)
    if c is None:
        raise Vanished(DIC + q)
    return mk('cls', '%s.%s' % (c[0].name, c[1].name))


def construct(r, q, label, nodes, **kw):
    return r.call(public(r, q), C(label), tup(*map(C, nodes)), **kw)


def arguments(form, pars, label):
    """the arguments, and for each parameter its expected state"""
    out = {}
    for i, p in enumerate(pars):
        v = C(VALUES[i])
        if form == 'number' or form == 'first' and i == 0 \
                or form == 'last' and i == len(pars) - 1:
            out[p] = v
        elif form == 'named':
            out[p] = tup(C('P' + p), v)
        elif form == 'string':
            out[p] = C('P' + p)
        elif form == 'mixed':
            out[p] = [v, tup(C('P' + p), v), C('P' + p)][i % 3]
    return out


FORMS = ('number', 'named', 'string', 'mixed', 'default', 'first', 'last')


def component(rep, q):
    n, pars, desc = COMPONENTS[q]
    F = 'dictionary %s' % q
    if 'port' in desc:
        return rep.guard('C16.source', F, source, rep, q, F, n, desc)
    seen = {}
    for form in FORMS:
        if len(pars.split()) < 2 and form in ('mixed', 'first', 'last'):
            continue
        cons = '%s, arguments: %s' % (F, form)
        rep.guard('C16.component', cons, one, rep, q, cons, n,
                  pars.split(), desc, form, seen)


def label_of(q, nodes, other=False):
    if q in SELF:
        return nodes[0]
    return 'Dev2' if other else 'Dev1'


def one(rep, q, cons, n, pars, desc, form, seen):
    r = rig()
    nodes = NODES[:n]
    label = label_of(q, nodes)
    args = arguments(form, pars, label)
    try:
        g = construct(r, q, label, nodes, **args)
    except Raised as e:
        rep.visited |= r.m.visited
        return rep.violated('C16.construct', cons, 'raises %s'
                            % tm.pp(e.exc))
    rep.visited |= r.m.visited
    c15.sure(rep, r, cons)
    core = r.get(g, 'core')
    got = {a: r.val(core, a) for a in ('x', 'w', 'z', 'u', 'y', 'cu', 'cy',
                                       'H', 'subs', 'p', 'connectors')}
    subs = entries(got['subs'])
    prs = names(got['p'])
    if prs is None and got['p'].op == 'seq' and all(
            i.op == 'it' and tm.kind(i.args[0]) == 'num'
            for i in got['p'].args):
        return rep.violated('C16.arguments', cons, 'the parameters of the '
                            'core are %s' % tm.pp(got['p'], 9)[:300])
    if subs is None or prs is None:
        return rep.undecided('C16.arguments', cons, tm.pp(got['subs'], 9))
    where = parameters(rep, cons, pars, args, subs, prs, label, seen, r, g,
                       form)
    if where is None:
        return
    if form == 'number' and q not in SELF:
        other(rep, q, cons, n, args, got, subs, where)
    if 'connector' in desc:
        return connector(rep, cons, r, g, got, nodes, desc, label, where)
    edges = edgelist(r, g)
    if edges is None:
        return rep.undecided('C16.edges', cons, 'edges')
    var = match(rep, cons, edges, desc, nodes, label)
    if var is None:
        return
    for a, t in (('x', 'storage'), ('w', 'dissipative')):
        want = sorted(var[e[0]] for e in desc['edges'] if e[3] == t)
        have = names(got[a])
        if have is None:
            return rep.undecided('C16.variables', cons, tm.pp(got[a], 9))
        if not rep.check('C16.variables', '%s: %s' % (cons, a),
                         sorted(have) == want, 'core.%s is %s, the edges '
                         'are those of %s' % (a, have, want)):
            return
    rename = {k: [v] for k, v in var.items()}
    for k, i in desc.get('temperature', {}).items():
        rename[k].append('gx' + nodes[int(i[2:])])
    rename.update({p: [s] for p, s in where.items()})
    fixed = {s: v for s, v in subs.items() if s not in where.values()}
    for s in fixed:
        rename[s] = [s]
    pts = points(pars, [e[0] for e in desc['edges']], fixed)

    def law(rule, what, t, text):
        ok, why = numeric.agree(t, text, pts, rename)
        c = '%s: %s' % (cons, what)
        if ok:
            rep.holds(rule, c)
        elif ok is None:
            rep.undecided(rule, c, why + ' in ' + tm.pp(t)[:300])
        else:
            rep.violated(rule, c, '%s ; derived %s ; documented %s' % (
                why, tm.pp(t)[:600], text))
        return ok
    law('C16.energy', 'H', got['H'], desc['H'])
    for e in desc['edges']:
        if e[3] != 'dissipative':
            continue
        d = edges[var[e[0]]][2]
        z = tm.idx(d, C('z'))
        for c, text in (('e', e[5]), ('f', e[6])):
            if text is not None:
                law('C16.law', 'edge %s, %s-controlled' % (e[0], c),
                    tm.idx(z, C(c + '_ctrl')), text)
        i = names(got['w']).index(var[e[0]])
        if got['z'].op != 'seq' or len(got['z'].args) <= i:
            rep.undecided('C16.law', cons + ': z', tm.pp(got['z'], 9)[:300])
            continue
        t = got['z'].args[i].args[0]
        res = [numeric.agree(t, text, pts, rename) for text in e[5:7]
               if text is not None]
        c = '%s: z of %s' % (cons, e[0])
        if any(a for a, _ in res):
            rep.holds('C16.law', c)
        elif any(a is None for a, _ in res):
            rep.undecided('C16.law', c, tm.pp(t)[:300])
        else:
            rep.violated('C16.law', c, '%s ; derived %s' % (
                res[0][1], tm.pp(t)[:600]))


def entries(d):
    """substitutions: name -> number"""
    if d.op != 'dict':
        return None
    out = {}
    for p in d.args:
        if p.op != 'pair' or not tm.isname(p.args[0]):
            return None
        v = p.args[1]
        out[tm.pp(p.args[0])[1:]] = Fraction(v.args[0]) if tm.isnum(v) \
            else v
    return out


def edgelist(r, g):
    """label -> (source, target, data)"""
    v = r.snap(r.meth(g, 'edges', data=tm.TRUE))
    if v.op != 'seq':
        return None
    out = {}
    for i in v.args:
        e = i.args[0]
        if e.op != 'seq' or len(e.args) != 3 or not all(
                tm.isc(x.args[0]) for x in e.args[:2]):
            return None
        lab = tm.idx(e.args[2].args[0], C('label'))
        if not tm.isname(lab):
            return None
        out[tm.pp(lab)[1:]] = (e.args[0].args[0].args[0],
                               e.args[1].args[0].args[0],
                               e.args[2].args[0])
    return out


def parameters(rep, cons, pars, args, subs, prs, label, seen, r, g, form):
    """symbol that stands for each parameter"""
    where = {}
    defaults = None
    for i, p in enumerate(pars):
        c = '%s: %s' % (cons, p)
        a = args.get(p)
        if a is None:
            if defaults is None:
                defaults = documented(r, g)
            a = defaults.get(p)
            if a is None:
                rep.undecided('C16.default', c, 'documented default')
                return None
        if tm.isc(a) and isinstance(a.args[0], str):
            s = a.args[0]
            ok = s in prs and s not in subs
            if not rep.check('C16.arguments', c, ok, '%s is not a parameter '
                             'of the core: p is %s, subs %s' % (
                                 s, prs, subs)):
                return None
        elif a.op == 'seq':
            s = a.args[0].args[0].args[0]
            v = Fraction(a.args[1].args[0].args[0])
            if not rep.check('C16.arguments', c, subs.get(s) == v,
                             '%s should be %s: subs is %s' % (s, v, subs)):
                return None
        else:
            v = Fraction(a.args[0])
            s = seen.get(p)
            if s is None:
                ss = [k for k in subs if subs[k] == v]
                s = ss[0] if len(ss) == 1 else None
                if s is not None:
                    seen[p] = s
            rule = 'C16.arguments' if p in args else 'C16.default'
            if not rep.check(rule, c, s is not None and subs.get(s) == v,
                             'value %s of %s (%s) not found: subs is %s' % (
                                 v, p, s, subs)):
                return None
        where[p] = s
    if len(set(where.values())) != len(pars):
        rep.violated('C16.arguments', cons, 'parameters share symbols: %s'
                     % where)
        return None
    return where


def documented(r, g):
    """default values in the metadata of the class"""
    md = r.get(g, 'metadata')
    ps = r.snap(r.m.getitem(r.st, md, C('parameters')))
    out = {}
    if ps.op != 'seq':
        return out
    for p in ps.args:
        k, v = [p.args[0].args[i].args[0] for i in (0, 3)]
        out[k.args[0]] = v
    return out


def other(rep, q, cons, n, args, got, subs, where):
    """another component of the same class shares nothing"""
    r = rig()
    g = construct(r, q, 'Dev2', NODES[:n], **args)
    core = r.get(g, 'core')
    o = {a: r.val(core, a) for a in ('x', 'w', 'u', 'y', 'cu', 'cy')}
    for a in o:
        rep.check('C16.distinct', '%s: %s' % (cons, a), not (
            set(names(o[a]) or ()) & set(names(got[a]) or ())),
            'two components have variables in common: %s' % tm.pp(o[a], 9))
    mine = set(where.values())
    rep.check('C16.distinct', cons + ': arguments', not (
        mine & set(entries(r.val(core, 'subs')))),
        'two components have symbols of arguments in common: %s' % mine)


def match(rep, cons, edges, desc, nodes, label):
    """variable of the description -> label of the edge"""
    want = desc['edges']
    if len(edges) != len(want):
        rep.violated('C16.edges', cons, 'edges %s' % sorted(edges))
        return None
    names_ = {'#': '#'}
    names_.update(dict(enumerate(nodes)))
    inner = sorted({e[i] for e in want for i in (1, 2)
                    if e[i] not in names_})

    def place(k, left, got, bind):
        if k == len(want):
            yield dict(got), dict(bind)
            return
        v, s, d, t, c = want[k][:5]
        for lab in left:
            a, b, data = edges[lab]
            if tm.idx(data, C('type')) is not C(t) or \
                    tm.idx(data, C('ctrl')) is not C(c):
                continue
            b2 = dict(bind)
            ok = True
            for x, y in ((s, a), (d, b)):
                if x in inner:
                    if b2.setdefault(x, y) != y or y in names_.values():
                        ok = False
                elif names_[x] != y:
                    ok = False
            if ok and len(set(b2.values())) == len(b2):
                yield from place(k + 1, [x for x in left if x != lab],
                                 {**got, v: lab}, b2)
    # edges between the same nodes are told apart by the order of labels
    sols = list(place(0, list(edges), {}, {}))
    if not sols:
        rep.violated('C16.edges', cons, 'edges %s ; documented %s' % (
            [(k, e[0], e[1], tm.pp(tm.idx(e[2], C('ctrl'))))
             for k, e in edges.items()], [e[:5] for e in want]))
        return None
    got, bind = sols[0]
    rep.holds('C16.edges', cons)
    for x, y in bind.items():
        rep.check('C16.distinct', '%s: internal node' % cons,
                  label in str(y), 'internal node %s is not specific to '
                  'the component' % y)
    rep.check('C16.edges', cons + ': link', all(
        tm.idx(e[2], C('link')) is tm.NONE for e in edges.values()),
        'edges are linked')
    if len(sols) > 1:
        return disambiguate(sols, desc, edges)
    return got


def disambiguate(sols, desc, edges):
    """parallel edges: by the laws they mention"""
    for got, bind in sols:
        ok = True
        for e in desc['edges']:
            if e[3] != 'dissipative':
                continue
            t = tm.idx(edges[got[e[0]]][2], C('z'))
            text = e[5] or e[6]
            for f in ('exp', 'log'):
                if (f in text) != (f + '(' in tm.pp(tm.idx(t, C(
                        'e_ctrl' if e[5] else 'f_ctrl')), 99)) \
                        and f == 'exp':
                    ok = False
        if ok:
            return got
    return sols[0][0]


def points(pars, vs, fixed):
    rnd = random.Random(3)
    out = []
    for k in range(48):
        env = {p: Decimal(rnd.randint(300, 2500)) / 1000 for p in pars}
        s = Decimal((1, 1, 10)[k % 3]) / Decimal((1, 3, 10)[k % 3])
        for v in vs:
            env[v] = Decimal(rnd.randint(-1000, 1400)) / 1000 * s
        for a, b in fixed.items():
            env[a] = numeric.dec(b) if isinstance(b, Fraction) \
                else Decimal(1)
        if k < 6:
            for v in vs:
                env[v] = abs(env[v])
        out.append(env)
    return out


def connector(rep, cons, r, g, got, nodes, desc, label, where):
    edges = edgelist(r, g)
    cy, cu = names(got['cy']), names(got['cu'])
    if not edges or cy is None or cu is None:
        return rep.undecided('C16.connector', cons, 'edges')
    al = tm.named(where['alpha'])
    ends = {(e[0], e[1]): k for k, e in edges.items()}
    a, b = ends.get(nodes[:2]), ends.get(nodes[2:])
    if not rep.check('C16.connector', cons + ': edges', None not in (a, b)
                     and len(edges) == 2, str(sorted(ends))):
        return
    for x, y, ratio in ((a, b, al), (b, a, tm.NONE)):
        d = edges[x][2]
        for key, want in (('type', C('connector')), ('ctrl', C('?')),
                          ('connector_type', C(desc['connector'])),
                          ('link', tm.named(y)), ('alpha', ratio)):
            rep.same('C16.connector', '%s: %s, %s' % (cons, x, key),
                     tm.idx(d, C(key)), want)
    rep.check('C16.connector', cons + ': variables', sorted(cy) ==
              sorted([a, b]) and len(set(cu)) == 2, 'cy is %s, cu %s' % (cy, cu))
    ks = got['connectors']
    if ks.op != 'seq' or len(ks.args) != 1:
        return rep.undecided('C16.connector', cons, tm.pp(ks, 9)[:300])
    d = ks.args[0].args[0]
    rep.same('C16.connector', cons + ': alpha', tm.idx(d, C('alpha')), al)
    rep.same('C16.connector', cons + ': y', tm.idx(d, C('y')),
             tup(tm.named(a), tm.named(b)))
    rep.same('C16.connector', cons + ': u', tm.idx(d, C('u')),
             tup(*[tm.named(cu[cy.index(k)]) for k in (a, b)
                   if k in cy[:len(cu)]]))


def source(rep, q, F, n, desc):
    nodes = NODES[:n]
    label = label_of(q, nodes)
    cases = [(k, {'type': C(k)}) for k in desc['port']]
    cases += [(k, {'type': C(k.upper())}) for k in desc['port']]
    cases += [(k, {'type': C(k), 'const': C(Fraction(9, 2))})
              for k in desc['port']]
    cases.append((desc['default'], {}))
    cases.append((desc['default'], {'const': C(4)}))
    for kind, args in cases:
        cons = '%s (%s)' % (F, ', '.join('%s=%s' % (k, tm.pp(v))
                                         for k, v in args.items()))
        rep.guard('C16.source', cons, port, rep, cons, q, label, nodes,
                  desc['port'][kind], args, ('#', nodes[0])
                  if desc['one'] else nodes)
    bad = dict(type=C('nothing'))
    refused(rep, F + ' of unknown type', q, label, nodes, bad)
    if q in SELF:
        refused(rep, F + ' with another label', q, 'other', nodes, {})


def refused(rep, cons, q, label, nodes, args):
    def f():
        r = rig()
        try:
            construct(r, q, label, nodes, **args)
        except Raised:
            rep.visited |= r.m.visited
            return rep.holds('C16.refused', cons)
        if any(p[0] is tm.TRUE for p in r.m.pending):
            return rep.holds('C16.refused', cons)
        c15.sure(rep, r, cons)
        rep.violated('C16.refused', cons, 'no exception')
    rep.guard('C16.refused', cons, f)


def port(rep, cons, q, label, nodes, ctrl, args, ends):
    r = rig()
    try:
        g = construct(r, q, label, nodes, **args)
    except Raised as e:
        return rep.violated('C16.construct', cons, 'raises %s'
                            % tm.pp(e.exc))
    rep.visited |= r.m.visited
    c15.sure(rep, r, cons)
    core = r.get(g, 'core')
    u, y = names(r.val(core, 'u')), names(r.val(core, 'y'))
    if not rep.check('C16.source', cons + ': port', u is not None and
                     y is not None and len(u) == len(y) == 1 and u != y,
                     'u=%s, y=%s' % (u, y)):
        return
    for a in ('x', 'w', 'cy'):
        rep.same('C16.source', '%s: %s' % (cons, a), r.val(core, a), tup())
    rep.check('C16.distinct', cons, label in u[0] and label in y[0],
              'variables %s, %s' % (u, y))
    edges = edgelist(r, g)
    if edges is None:
        return rep.undecided('C16.source', cons, 'edges')
    if not rep.check('C16.source', cons + ': edge', list(edges) == y and
                     edges[y[0]][:2] == tuple(ends),
                     'edges %s' % [(k,) + e[:2] for k, e in edges.items()]):
        return
    d = edges[y[0]][2]
    for k, v in (('type', C('port')), ('ctrl', C(ctrl)), ('link', tm.NONE)):
        rep.same('C16.source', '%s: %s' % (cons, k), tm.idx(d, C(k)), v)
    want = tm.mkdict()
    if 'const' in args:
        want = tm.mkdict(tm.pair(tm.named(u[0]), args['const']))
    rep.same('C16.source', cons + ': constant', r.val(core, 'subs'), want)
    want = tm.mkdict()
    if q == 'thermics.Source' and ctrl == 'f':
        want = tm.mkdict(tm.pair(tm.named('gx' + label), tm.named(u[0])))
    rep.same('C16.source', cons + ': observers', r.val(core, 'observers'),
             want)


def ports(rep):
    """edges.Port"""
    for nodes, ends in ((('nA',), ('#', 'nA')), (('nA', 'nB'),) * 2):
        for ctrl in ('e', 'f', '?', None):
            for const in (None, 3):
                args = {}
                if ctrl:
                    args['ctrl'] = C(ctrl)
                if const:
                    args['const'] = C(const)
                cons = 'dictionary edges.Port, %d nodes, %s' % (
                    len(nodes), sorted(args))
                rep.guard('C16.source', cons, port, rep, cons,
                          'edges.Port', 'Dev1', nodes, ctrl or '?', args,
                          ends)
    refused(rep, 'dictionary edges.Port of unknown control', 'edges.Port',
            'Dev1', ('nA',), dict(ctrl=C('x')))
    refused(rep, 'dictionary thermics.Capacitor with another label',
            'thermics.Capacitor', 'other', ('nA',), {})


def observer(rep):
    cons = 'dictionary edges.Observerec'
    rep.guard('C16.observer', cons, _observer, rep, cons)


def _observer(rep, cons):
    r = rig()
    g = construct(r, 'edges.Observerec', 'Dev1', ('nA', 'nB'))
    rep.visited |= r.m.visited
    core = r.get(g, 'core')
    edges = edgelist(r, g)
    x = names(r.val(core, 'x'))
    if not edges or not x:
        return rep.undecided('C16.observer', cons, 'edges')
    d = edges[x[0]]
    rep.check('C16.observer', cons + ': edge', len(edges) == len(x) == 1
              and d[:2] == ('nA', 'nB'), str(list(edges)))
    rep.same('C16.observer', cons + ': control', tm.idx(d[2], C('ctrl')),
             C('e'))
    subs = entries(r.val(core, 'subs'))
    k = list(subs or ())
    if len(k) != 1:
        return rep.undecided('C16.observer', cons, 'substitutions')
    rep.check('C16.observer', cons + ': energy', isinstance(
        subs[k[0]], Fraction) and 0 < subs[k[0]] < Fraction(1, 10 ** 9)
        or not isinstance(subs[k[0]], Fraction), 'coefficient %s' % subs)
    ok, why = numeric.agree(r.val(core, 'H'), 'K*x**2/2',
                            points(['K'], ['x'], {}),
                            {'K': k, 'x': x})
    if ok is None:
        rep.undecided('C16.observer', cons + ': H', why)
    else:
        rep.check('C16.observer', cons + ': H', ok, why)
    want = {'q_Dev1': tm.named(x[0]), 'dtq_Dev1': tm.mul(
        tm.named('d' + x[0]), tm.named('F_S'))}
    rep.same('C16.observer', cons + ': observers', r.val(core, 'observers'),
             tm.mkdict(*[tm.pair(tm.named(a), b) for a, b in want.items()]))
