"""A copy of a core, and a core saved and loaded again, carry every piece of
data of the original (symbols, expressions, structure, gradient, connectors,
substitutions, observers, forced dissipations, linear dimensions, label), the
copy shares no mutable container with the original, its accessors look at the
copy, and the original is left as it was."""
from . import common as cm
from .common import attr
from ..rig import SYMB, EXPR, CORE
from .. import terms as tm
from ..terms import mk, C, sym

FLOOR = 60
F = 'pyphs/core/core.py:Core.'
DATA = SYMB + EXPR + ('M', 'subs', 'observers', 'connectors', 'force_wnl',
                      '_dxH', 'label', 'extra_s', 'extra_e')
MUTABLE = SYMB + ('z', 'M', 'Q', 'Zl', 'bl', 'subs', 'observers',
                  'connectors', 'force_wnl', '_dxH', 'symbs_names',
                  'exprs_names', 'extra_s')
DIMS = ('_xl', '_wl', '_xnl_mono')
tm.ATTR_KIND.update({'extra_s': 'seq', 'extra_e': 'num'})


def source(key, dxH):
    r, c, base = cm.corerig(key, dxH=dxH, ext={'shelve.open': shelf})
    r.meth(c, 'setsymb', C('extra_s'), r.m.alloc(r.st, mk('attr', base,
                                                          'extra_s')))
    r.meth(c, 'setexpr', C('extra_e'), mk('attr', base, 'extra_e'))
    for a in MUTABLE:
        v = r.get(c, a)
        if v is not tm.NONE and v.op != 'new':
            r.set(c, a, r.m.alloc(r.st, v))
    return r, c, base


SHELF = {}


def shelf(m, st, args, kw):
    """a file is a dictionary identified by its path"""
    k = m.snapshot(st, args[0])
    if k not in SHELF:
        SHELF[k] = m.alloc(st, mk('dict'))
    return SHELF[k]


def run(rep, tier):
    g = rep.guard
    for dxH in (False, True):
        s = ' (gradient given)' if dxH else ''
        g('C08.copy', F + '__copy__' + s, copied, rep, F + '__copy__' + s,
          dxH)
        for lab in (None, 'other'):
            cons = F + 'save, load' + s + (' with a label' if lab else '')
            g('C08.file', cons, filed, rep, cons, dxH, lab)


def values(rep, rule, cons, r, c, want, wantd, label=None, skip=()):
    for a in DATA:
        if a in skip:
            continue
        w = want[a]
        if a == 'label' and label is not None:
            w = label
        rep.same(rule, '%s: %s' % (cons, a), r.val(c, a), w)
    d = r.get(c, 'dims')
    for a in DIMS:
        rep.same(rule, '%s: dims.%s' % (cons, a), r.val(d, a), wantd[a])


def copied(rep, cons, dxH):
    r, c, base = source('c08', dxH)
    want = {a: r.val(c, a) for a in DATA}
    wantd = {a: r.val(r.get(c, 'dims'), a) for a in DIMS}
    refs = {a: r.get(c, a) for a in MUTABLE}
    r.m.pending = []
    c2 = r.call(mk('ext', 'copy.copy'), c)
    if r.m.objcls.get(c2) != CORE:
        rep.undecided('C08.copy', cons, 'result is not a known core')
        return
    values(rep, 'C08.copy', cons, r, c2, want, wantd)
    values(rep, 'C08.original', cons + ' original', r, c, want, wantd)
    for a in MUTABLE:
        if refs[a] is tm.NONE:
            continue
        v = r.get(c2, a)
        if v.op in ('new', 'glob'):
            rep.check('C08.alias', '%s: %s' % (cons, a), v is not refs[a],
                      'the copy and the original share the container')
        else:
            rep.undecided('C08.alias', '%s: %s' % (cons, a), 'not located')
    # accessors and dimensions of the copy look at the copy
    for k, (o, n) in enumerate(((c2, c), (c, c2))):
        st = r.st.copy()
        X = r.m.alloc(r.st, tm.seq(tm.it(sym('n0', 'num')),
                                   tm.it(sym('n1', 'num'))))
        r.set(o, 'x', X)
        r.set(r.get(o, 'dims'), '_xl', C(1))
        who = 'copy' if k == 0 else 'original'
        rep.same('C08.bound', '%s: dims.x of the %s' % (cons, who),
                 r.snap(r.meth(r.get(o, 'dims'), 'x')), C(2))
        rep.same('C08.bound', '%s: xl of the %s' % (cons, who),
                 r.snap(r.meth(o, 'xl')), tm.seq(tm.it(sym('n0', 'num'))))
        rep.same('C08.bound', '%s: dims.x of the other' % cons,
                 r.snap(r.meth(r.get(n, 'dims'), 'x')),
                 tm.length(want['x']))
        rep.same('C08.bound', '%s: inds of the %s' % (cons, who),
                 r.snap(r.meth(r.get(o, 'inds'), 'xnl')),
                 tm.seq(tm.it(C(1)), tm.it(C(2))))
        r.st = st
    rep.visited |= r.m.visited


def filed(rep, cons, dxH, lab):
    SHELF.clear()
    r, c, base = source('c08', dxH)
    want = {a: r.val(c, a) for a in DATA}
    wantd = {a: r.val(r.get(c, 'dims'), a) for a in DIMS}
    folder = sym('folder', 'str')
    label = C(lab) if lab else tm.NONE
    r.m.pending = []
    r.meth(c, 'save', folder, label)
    values(rep, 'C08.original', cons + ' original', r, c, want, wantd)
    c2 = r.new(CORE, want['label'])
    r.meth(c2, 'load', folder, label)
    if len(SHELF) == 1:
        rep.holds('C08.file', cons + ': path')
    elif len(SHELF) == 2 and rep.same('C08.file', cons + ': path',
                                      *SHELF) is False:
        return
    else:
        rep.undecided('C08.file', cons, 'files not identified')
        return
    values(rep, 'C08.file', cons, r, c2, want, wantd,
           label if lab else None, ('extra_s', 'extra_e'))
    rep.visited |= r.m.visited
