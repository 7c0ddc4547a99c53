"""Substitution, simplification and removal of inverses reach every place
that holds an expression (energy, dissipation functions, structure, gradient,
linear parts, observers, symbols, remaining substitutions), replace exactly
the given symbols, drop them from the core's substitutions, and leave the
caller's dictionary alone.

Decided for a core of literal dimensions with arbitrary expressions whose
free symbols are chosen in every position among the substituted ones."""
from . import common as cm
from .common import agree, attr, ref, litcore, litlist
from .c09 import rig
from .. import terms as tm
from ..interp import Raised
from ..terms import mk, C, sym

FLOOR = 60
F = 'pyphs/core/'
OBS = ('x', 'w', 'u', 'y', 'cu', 'cy', 'p', 'z', 'H', 'M', '_dxH', 'Q', 'Zl',
       'bl', 'subs', 'observers', 'connectors', 'force_wnl', 'label')


class Subs(object):
    """e.subs(d): restricted to the free symbols of e"""

    def __init__(self, deps):
        self.deps = deps

    def names(self, t):
        if tm.isname(t):
            return {t}
        if t.op == 'sym':
            return {tm.named(n) for n in self.deps.get(t.args[0], ())}
        out = set()
        if t.op == 'call' and t.args[0].op == 'sym' and \
                t.args[0].args[0] == 'subsd':
            ks = {e.args[0] for e in t.args[2].args}
            out = self.names(t.args[1]) - ks
            for e in t.args[2].args:
                out |= self.names(e.args[1])
            return out
        if t.op == 'mlit':
            for row in t.args:
                for e in row:
                    out |= self.names(e)
            return out
        for u in t.args:
            if isinstance(u, tm.T):
                out |= self.names(u)
        return out

    def hook(self, m, st, t):
        if t.op in ('seq', 'dict', 'set', 'new', 'ite'):
            return None
        return tm.mkset(*[tm.it(n) for n in self.names(t)])

    def one(self, t, d):
        if tm.isname(t):
            for e in d.args:
                if e.args[0] is t:
                    return e.args[1]
            return t
        if t.op == 'mlit':
            return mk('mlit', *[tuple(self.one(e, d) for e in r)
                                for r in t.args])
        if t.op == 'zeros' or tm.isc(t):
            return t
        free = self.names(t)
        es = [e for e in d.args if e.args[0] in free]
        if not es:
            return t
        return mk('call', sym('subsd', 'func:num'), t,
                  tm.mkdict(*sorted(es)))

    def subs(self, m, st, obj, args, kw):
        if len(args) != 1 or kw:
            return None
        t, d = m.deref(st, obj), m.snapshot(st, args[0])
        if t in NUMBERS:
            raise Raised(mk('exc', 'AttributeError'))
        if d.op != 'dict' or any(
                e.op != 'pair' or not tm.isname(e.args[0])
                for e in d.args) or tm.kind(t) not in ('num', 'mat'):
            return None
        r = self.one(t, d)
        return m.alloc(st, r) if tm.kind(r) == 'mat' else r


def scalar(name):
    """model of a function of one expression"""
    def f(m, st, args, kw):
        if not args:
            return None
        t = m.snapshot(st, args[0])
        if tm.isc(t) or tm.isname(t):
            return t
        if tm.kind(t) != 'num':
            return None
        return mk('call', sym(name, 'func:num'), t)
    return f


def setup(deps, dxH):
    r = rig()
    r.m.models[SIMP] = scalar('simp')
    r.m.models[INV] = scalar('noinv')
    s = Subs(deps)
    r.m.attrhooks['free_symbols'] = s.hook
    r.m.methmodels['subs'] = s.subs
    c = litcore(r, 'A', 2, 1, 1, 1, np=2, dxH=dxH)
    r.set(c, 'bl', litlist(r, [sym('bl0', 'num')]))
    r.set(c, 'Q', cm.litmat(r, 'Q', 1, 1))
    r.set(c, 'Zl', cm.litmat(r, 'Zl', 1, 1))
    return r, c


PLACES = ['HA', 'zA0', 'gA0', 'gA1', 'bl0', 'Q_0_0', 'Zl_0_0', 'MA_0_1',
          'MA_4_2', 'e0', 'e1', 'v1']
S1, S2, S3 = 'sA1', 'sA2', 'ext'


def variants():
    """which of the substituted symbols each place contains"""
    yield {p: (S1, S2, S3, 'xA0') for p in PLACES}
    yield {p: (S1,) for p in PLACES}
    for k in range(3):
        yield {p: ((), (S1, S3), (S2,))[(i + k) % 3]
               for i, p in enumerate(PLACES)}


# numbers (not expressions) in dictionaries
NUMBERS = (C(7), C(3))


def dictof(r, *ps):
    return r.m.alloc(r.st, tm.mkdict(*[tm.pair(a, b) for a, b in ps]))


def run(rep, tier):
    g = rep.guard
    for n, deps in enumerate(variants()):
        deps = dict(deps, v1=(), v2=(S1, S3))
        for mode in ('subs', 'selfexprs', 'selfall', 'both', 'simplify'):
            for dxH in (False, True):
                if dxH != (n % 2 == 0) and tier == 'quick':
                    continue
                cons = F + 'tools/_substitutions.py:substitute_core (%s, ' \
                    'symbols %d%s)' % (mode, n, ', gradient' if dxH else '')
                g('C10.substitute', cons, substitute, rep, cons, deps, mode,
                  dxH)
    for f, q in (('simplify', 'simplify_core'),
                 ('subsinverse', 'subsinverse_core')):
        for dxH in (False, True):
            cons = F + 'core.py:Core.%s%s' % (f, ' (gradient)' if dxH else '')
            g('C10.' + f, cons, whole, rep, cons, f, q, dxH)


SIMP = 'pyphs.core.tools._simplify.timeout_simplify'
INV = 'pyphs.core.tools._subsinverse.subsinverse_scalar'


def world(r, c, mode):
    r.set(c, 'subs', dictof(r, (tm.named(S1), sym('v1', 'num')),
                            (tm.named(S2), C(7)),
                            (tm.named('keep'), sym('v2', 'num'))))
    r.set(c, 'observers', dictof(r, (tm.named('o0'), sym('e0', 'num')),
                                 (tm.named('o1'), sym('e1', 'num'))))
    given = tm.NONE
    if mode in ('subs', 'both', 'simplify'):
        given = dictof(r, (tm.named(S3), C(3)),
                       (tm.named('pA1'), tm.named('renamed')),
                       *([] if mode == 'both' else
                         [(tm.named(S1), sym('v3', 'num'))]))
    return given


def substitute(rep, cons, deps, mode, dxH):
    r, c = setup(deps, dxH)
    given = world(r, c, mode)
    sa = mode in ('selfall', 'both')
    se = mode == 'selfexprs'
    kw = {}
    if given is not tm.NONE:
        kw['subs'] = given
    if sa:
        kw['selfall'] = tm.TRUE
    if se:
        kw['selfexprs'] = tm.TRUE
    if mode == 'simplify':
        kw['simplify'] = tm.TRUE
    q = ref(r, 'substitution.substitute')
    obs = [(a, attr(c, a)) for a in OBS]
    if given is not tm.NONE:
        obs.append(('the dictionary of the caller', lambda r: given))
    agree(rep, 'C10.substitute', cons, r,
          lambda r: r.meth(c, 'substitute', **kw),
          lambda r: r.call(q, c, given, tm.TRUE if sa else tm.FALSE,
                           tm.TRUE if se else tm.FALSE,
                           tm.TRUE if mode == 'simplify' else tm.FALSE),
          obs, ret=False)


def whole(rep, cons, f, q, dxH):
    r, c = setup({}, dxH)
    world(r, c, '')
    q = ref(r, 'substitution.' + q)
    agree(rep, 'C10.' + f, cons, r, lambda r: r.meth(c, f),
          lambda r: r.call(q, c),
          [(a, attr(c, a)) for a in OBS if a != 'subs'], ret=False)
