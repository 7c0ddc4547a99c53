"""Abstract objects on which the rules analyse the repository's functions."""
import sys
from . import terms as tm
from . import models
from .terms import *            # noqa
from .terms import mk, C, sym
from .program import Program
from .calls import Machine
from .interp import St, W, Abort

sys.setrecursionlimit(30000)

tm.ATTR_KIND.update({
    'x': 'seq', 'w': 'seq', 'u': 'seq', 'y': 'seq', 'cu': 'seq', 'cy': 'seq',
    'p': 'seq', 'z': 'seq', 'M': 'mat', 'Q': 'mat', 'Zl': 'mat', 'bl': 'mat',
    'H': 'num', '_xl': 'num', '_wl': 'num', '_xnl_mono': 'num',
    'subs': 'dict', 'observers': 'dict', 'connectors': 'seq',
    'force_wnl': 'seq', 'dxHlist': 'seq', 'shape': 'seq', 'label': 'str',
})
tm.LEN_CANON.update({'z': 'w', 'u': 'y', 'cu': 'cy', 'dxHlist': 'x'})


def _split(a, b):
    def f(base):
        db = mk('attr', base, 'dims')
        return tm.add(mk('attr', db, a), mk('attr', db, b))
    return f


# len(x) = (linear part) + (nonlinear part): both are free naturals
tm.LEN_ATTR.update({'x': _split('_xl', 'nxnl'), 'w': _split('_wl', 'nwnl')})
tm.NONNEG_ATTR.update({'_xl', '_wl', 'nxnl', 'nwnl'})
for _a in ('nxnl', 'nwnl'):
    tm.ATTR_KIND[_a] = 'num'



def _tot(b):
    r = tm.ZERO
    for a in ('x', 'w', 'y', 'cy'):
        r = tm.add(r, tm.length(mk('attr', b, a)))
    return r, r


def _dim(*names):
    def f(b):
        d = mk('attr', b, 'dims')
        return [mk('attr', d, n) if isinstance(n, str) else C(n)
                for n in names]
    return f


models.SHAPES.update({'M': _tot, 'Zl': _dim('_wl', '_wl'),
                      'Q': _dim('_xl', '_xl'), 'bl': _dim('_xl', 1)})

SYMB = ('x', 'w', 'u', 'y', 'cu', 'cy', 'p')
EXPR = ('H', 'z', 'Q', 'Zl', 'bl')

_PROG = []


def program():
    if not _PROG:
        _PROG.append(Program())
    return _PROG[0]


CORE = 'pyphs.core.core.Core'


def symbols(m, st, args, kw):
    """Core.symbols(name): a symbol determined by the name; a sequence of
    names gives the sequence of symbols (Core.symbols itself is analysed by
    the rule C02.symbols)"""
    if len(args) != 1 or kw:
        return None
    a = m.snapshot(st, args[0])

    def one(t):
        return mk('call', sym('symbols', 'fn'), t)

    def f(t):
        if tm.kind(t) == 'seq':
            out = []
            for g in tm.segs(t):
                if g.op == 'it':
                    out.append(tm.it(one(g.args[0])))
                elif g.op == 'fm':
                    out.append(tm.fm(g.args[0], g.args[1],
                                     tm.seq(tm.it(one(g.args[2].args[0].args[0])))
                                     if g.args[2].op == 'seq' and
                                     len(g.args[2].args) == 1 and
                                     g.args[2].args[0].op == 'it'
                                     else one(g.args[2])))
                else:
                    return one(t)
            return m.alloc(st, tm.seq(*out))
        return one(t)
    return tm.lift([a], f)


class Rig(object):
    """a machine plus a symbolic state"""

    def __init__(self, opaque=(), models=None, **kw):
        mods = {CORE + '.symbols': symbols}
        mods.update(models or {})
        self.m = Machine(program(), opaque, mods, **kw)
        self.st = St()

    def new(self, qual, *args, **kw):
        return self.m.call(mk('cls', qual), list(args), kw, self.st)

    def call(self, f, *args, **kw):
        return self.m.call(f, list(args), kw, self.st)

    def meth(self, obj, name, *args, **kw):
        return self.m.call(self.m.getattr(self.st, obj, name), list(args),
                           kw, self.st)

    def get(self, obj, name):
        return self.m.getattr(self.st, obj, name)

    def snap(self, t):
        return self.m.snapshot(self.st, t)

    def val(self, obj, name):
        return self.snap(self.get(obj, name))

    def set(self, obj, name, v):
        self.st.d[('a', obj, name)] = v

    def fn(self, qual):
        f = self.m.getfn(qual)
        if f is None:
            raise Vanished(qual)
        return f

    def core(self, name='core', dxH=False):
        """Core() with symbolic contents (attributes of the symbol `name`)"""
        c = self.new(CORE)
        base = sym(name, 'obj')
        for a in SYMB + EXPR + ('M', 'subs', 'observers', 'connectors',
                                'force_wnl', 'label'):
            self.set(c, a, mk('attr', base, a))
        if dxH:
            self.set(c, '_dxH', mk('attr', base, 'dxHlist'))
        d = self.get(c, 'dims')
        db = mk('attr', base, 'dims')
        for a in ('_xl', '_wl', '_xnl_mono'):
            self.set(d, a, mk('attr', db, a))
        return c, base


class Vanished(Exception):
    """a public anchor of a rule no longer exists"""
