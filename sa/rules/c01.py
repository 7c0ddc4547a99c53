"""The structure matrix splits into a skew-symmetric interconnection J and a
symmetric dissipation R with M = J - R, and every block mutator changes the
addressed block (and its transposed counterpart) and nothing else.

Decided by interpreting the accessors and mutators that Core.__init__ installs
over a symbolic core of arbitrary dimensions; matrices are noncommutative
polynomials in M, its transpose and its blocks."""
from ..rig import Rig, mk, C, sym
from ..terms import *            # noqa
from ..terms import mT, add, sub, neg, mul, blk, NONE, ZERO, TRUE, pp

FLOOR = 60
MAIN = ('x', 'w', 'y', 'cy')
FINE = ('xl', 'xnl', 'wl', 'wnl', 'y', 'cy')
FILE = 'pyphs/core/core.py'


def rng(r, c, name):
    v = r.snap(r.meth(r.get(c, 'inds'), name))
    return v.args[0].args[0], v.args[1].args[0]


def run(rep, tier):
    rep.guard('C01.decomposition', FILE + ':Core.J/R', decomposition, rep)
    names = MAIN
    for part in 'MJR':
        for a in names:
            for b in names:
                cons = '%s:Core.set_%s%s%s' % (FILE, part, a, b)
                rep.guard('C01.setter', cons, setter, rep, cons, part, a, b,
                          names)
    fine = [(a, b) for a in FINE for b in FINE]
    if tier == 'quick':
        fine = [('xl', 'xnl'), ('wl', 'wnl'), ('xnl', 'wl'), ('wnl', 'y'),
                ('xl', 'xl'), ('cy', 'wnl')]
    for part in 'MJR':
        for a, b in fine:
            cons = '%s:Core.set_%s%s%s' % (FILE, part, a, b)
            rep.guard('C01.setter', cons, setter, rep, cons, part, a, b,
                      FINE)


def decomposition(rep):
    r = Rig()
    c, base = r.core()
    M = mk('attr', base, 'M')
    J = r.snap(r.meth(c, 'J'))
    R = r.snap(r.meth(c, 'R'))
    rep.same('C01.skew', FILE + ':Core.J', mT(J), neg(J))
    rep.same('C01.symmetric', FILE + ':Core.R', mT(R), R)
    rep.same('C01.sum', FILE + ':Core.J - Core.R', sub(J, R), M)
    rep.visited |= r.m.visited


def blocks(r, c, names, fam):
    return {(i, j): r.snap(r.meth(c, fam + i + j)) for i in names
            for j in names}


_S = {}


def setter(rep, cons, part, a, b, names):
    if 'r' not in _S:
        _S['r'] = Rig()
        _S['c'] = _S['r'].core()
        _S['st'] = _S['r'].st
    r, (c, base) = _S['r'], _S['c']
    r.st = _S['st'].copy()
    r.m.steps = 0
    M = mk('attr', base, 'M')
    # the matrix already has the size of the core: no reset
    tot = r.snap(r.meth(r.get(c, 'dims'), 'tot'))
    size = mk('seq', mk('it', tot), mk('it', tot))
    if names not in _S:
        _S[names] = dict((f, blocks(r, c, names, f)) for f in 'MJR')
    before = _S[names]
    new = sym('mat', 'mat')
    r.m.pending = []
    r.m.steps = 0
    r.meth(c, 'set_%s%s%s' % (part, a, b), new)
    sizes = {idx(mk('attr', M, 'shape'), ZERO): tot,
             idx(mk('attr', M, 'shape'), C(1)): tot}
    after = dict((f, blocks(r, c, names if f == 'M' else
                            tuple(dict.fromkeys((a, b))), f)) for f in 'MJR')
    rep.visited |= r.m.visited

    def norm(t):
        return subst(t, sizes)
    for (i, j), v in after['M'].items():
        if (i, j) not in ((a, b), (b, a)):
            rep.same('C01.setter.frame', '%s leaves M%s%s' % (cons, i, j),
                     norm(v), before['M'][i, j])
    if part == 'M':
        rep.same('C01.setter.value', cons, norm(after['M'][a, b]), new)
        if a != b:
            rep.same('C01.setter.frame', cons + ' leaves M%s%s' % (b, a),
                     norm(after['M'][b, a]), before['M'][b, a])
        return
    if a == b:
        want = sub(new, before['R'][a, a]) if part == 'J' else \
            sub(before['J'][a, a], new)
        rep.same('C01.setter.value', cons, norm(after['M'][a, a]), want)
        return
    other = 'R' if part == 'J' else 'J'
    rep.same('C01.setter.value', cons, norm(after[part][a, b]), new)
    rep.same('C01.setter.value', cons + ' transposed',
             norm(after[part][b, a]), neg(mT(new)) if part == 'J'
             else mT(new))
    for k in ((a, b), (b, a)):
        rep.same('C01.setter.other', '%s keeps %s%s%s' % ((cons, other) + k),
                 norm(after[other][k]), before[other][k])
