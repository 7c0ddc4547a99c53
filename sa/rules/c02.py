"""Every accessor of a core uses one and the same block layout: states, then
dissipations, then ports, then connectors, each state/dissipation block being
its linear part followed by its nonlinear part; dimensions, index ranges,
labels, the vectors a and b, the linear/nonlinear selections and the block
accessors of M, J and R agree with it for cores of arbitrary dimensions."""
from . import common as cm
from .common import agree, attr, meth, ref
from .. import terms as tm
from ..terms import mk, C, sym, length, ZERO

FLOOR = 60
F = 'pyphs/core/'
DIMS = ('x', 'w', 'y', 'cy', 'p', 'xl', 'xnl', 'wl', 'wnl', 'xnl_mono',
        'xnl_multi', 'l', 'nl', 'tot', 'o')
INDS = ('x', 'w', 'y', 'cy', 'xl', 'xnl', 'wl', 'wnl')
PARTS = ('xl', 'xnl', 'wl', 'wnl', 'zl', 'znl', 'dxl', 'dxnl', 'dxHl',
         'dxHnl')


def run(rep, tier):
    g = rep.guard
    for n in DIMS:
        g('C02.dims', F + 'structure/dimensions.py:Dimensions.' + n, entry,
          rep, 'C02.dims', F + 'structure/dimensions.py:Dimensions.' + n,
          'dims', n, 'dims')
    for n in INDS:
        g('C02.inds', F + 'structure/indices.py:Indices.' + n, entry, rep,
          'C02.inds', F + 'structure/indices.py:Indices.' + n, 'inds', n,
          'inds')
    for n in PARTS:
        g('C02.parts', F + 'core.py:Core.' + n, entry, rep, 'C02.parts',
          F + 'core.py:Core.' + n, None, n, 'parts')
    for part in 'MJR':
        for a in INDS:
            for b in INDS:
                cons = F + 'core.py:Core.%s%s%s' % (part, a, b)
                g('C02.block', cons, block, rep, cons, part, a, b)
    for n in ('a', 'b', 'labels', 'dx', 'dtx', 'g', 'o', 'dxH'):
        for d in (False, True):
            cons = F + 'core.py:Core.' + n
            g('C02.vector', cons, vector, rep, cons, n, d)
    g('C02.output', F + 'structure/output.py:output_function', output, rep)
    g('C02.pd', F + 'core.py:Core.pd', pd, rep)
    g('C02.symbols', F + 'core.py:Core.symbols', symbols, rep)
    g('C02.label', F + 'core.py:Core.labels(i)', label, rep)


def entry(rep, rule, cons, holder, n, table):
    r, c, base = cm.corerig()
    o = r.get(c, holder) if holder else c
    f = ref(r, 'layout.' + table)
    agree(rep, rule, cons, r, lambda r: r.meth(o, n),
          lambda r: r.m.getitem(r.st, r.call(f, c), C(n)))


def block(rep, cons, part, a, b):
    r, c, base = cm.corerig()
    f = ref(r, 'layout.block')
    agree(rep, 'C02.block', cons, r, lambda r: r.meth(c, part + a + b),
          lambda r: r.call(f, c, C(part), C(a), C(b)))


def vector(rep, cons, n, dxH):
    r, c, base = cm.corerig(dxH=dxH)
    f = ref(r, 'layout.' + n)
    agree(rep, 'C02.vector', cons, r, lambda r: r.meth(c, n),
          lambda r: r.call(f, c))


def label(rep):
    r, c, base = cm.corerig()
    i = sym('i', 'num')
    f = ref(r, 'layout.label')
    agree(rep, 'C02.label', F + 'core.py:Core.labels(i)', r,
          lambda r: r.meth(c, 'labels', i), lambda r: r.call(f, c, i))


def output(rep):
    r, c, base = cm.corerig(dxH=True)
    f = ref(r, 'layout.output')
    agree(rep, 'C02.output', F + 'structure/output.py:output_function', r,
          lambda r: r.meth(c, 'output'), lambda r: r.call(f, c),
          norm=lambda t: under_pos(t, base))


def under_pos(t, base):
    for n in 'xwy':
        L = length(mk('attr', base, n))
        t = tm.assume(t, tm.eq(ZERO, L), False)
    return tm.assume(t, tm.eq(ZERO, tm.add(tm.add(length(mk(
        'attr', base, 'x')), length(mk('attr', base, 'w'))), length(mk(
            'attr', base, 'y')))), False)


def pd(rep):
    r, c, base = cm.corerig(dxH=True)
    f = ref(r, 'layout.pd')
    agree(rep, 'C02.pd', F + 'core.py:Core.pd', r,
          lambda r: r.meth(c, 'pd'), lambda r: r.call(f, c),
          norm=lambda t: under_pos(t, base))


def symbols(rep):
    from ..rig import Rig, CORE
    r = Rig()
    del r.m.models[CORE + '.symbols']
    c, base = r.core()
    f = ref(r, 'layout.symbols')
    n = sym('name', 'str')
    agree(rep, 'C02.symbols', F + 'core.py:Core.symbols', r,
          lambda r: r.meth(c, 'symbols', n), lambda r: r.call(f, n))
