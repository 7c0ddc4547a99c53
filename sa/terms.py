"""Hash-consed terms and their algebraic normal forms.

This is the value domain of the analysis: a Herbrand (value-numbering) domain
extended with the algebraic laws listed in DESIGN.md.  Two program values that
receive the same term are equal on every execution; nothing is ever executed.
"""
import hashlib
from fractions import Fraction

_TABLE = {}


class T:
    __slots__ = ('op', 'args', 'key', '_fb', '_h')

    def __repr__(self):
        return pp(self)

    def __lt__(self, other):
        return (self.op, self.key) < (other.op, other.key)


def _k(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_k(e) for e in a) + ')'
    return type(a).__name__[0] + ':' + repr(a)


def mk(op, *args):
    """Raw interning constructor."""
    ident = (op, tuple((type(a).__name__, a) if not isinstance(a, (T, tuple))
                       else a for a in args))
    t = _TABLE.get(ident)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        s = op + '|' + '|'.join(_k(a) for a in args)
        t.key = hashlib.sha1(s.encode('utf8', 'replace')).hexdigest()[:16]
        t._fb = None
        t._h = None
        _TABLE[ident] = t
    return t


# --------------------------------------------------------------------------
# traversal

def subterms_of(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, tuple):
        for e in a:
            for s in subterms_of(e):
                yield s


def walk(t, seen=None):
    """Every distinct subterm of t (t included)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        for a in u.args:
            stack.extend(subterms_of(a))


def free_bv(t):
    """Free bound variables / phis of t (frozenset of T)."""
    if t._fb is None:
        if t.op in ('bv', 'phi'):
            t._fb = frozenset([t])
        else:
            s = frozenset()
            for a in t.args:
                for u in subterms_of(a):
                    s |= free_bv(u)
            if t.op in BINDERS:
                s -= binder_vars(t)
            t._fb = s
    return t._fb


# binders: the bound variables are the T's in args[0]
BINDERS = {'fm', 'Sum', 'joinm', 'fold', 'loop', 'anyf', 'last', 'mmap',
           'mrow'}


def binder_vars(t):
    return frozenset(subterms_of(t.args[0]))


def height(t):
    """Binder height: used to name bound variables canonically."""
    if t._h is None:
        h = 0
        for a in t.args:
            for u in subterms_of(a):
                h = max(h, height(u))
        if t.op in BINDERS:
            h += 1
        t._h = h
    return t._h


_fresh = [0]


def fresh_bv():
    _fresh[0] += 1
    return mk('bv', 'f%d' % _fresh[0])


def fresh_phi(kind='?'):
    _fresh[0] += 1
    return mk('phi', 'f%d' % _fresh[0], kind)


def subst(t, m):
    """Capture-free substitution followed by renormalisation."""
    memo = {}
    keys = frozenset(m)

    def go(u):
        if u in m:
            return m[u]
        r = memo.get(u)
        if r is not None:
            return r
        if not (free_bv(u) & keys) and not _has_nonvar(u, keys):
            memo[u] = u
            return u
        if u.op in BINDERS:
            bvs = list(subterms_of(u.args[0]))
            fr = tuple(fresh_bv() if b.op == 'bv' else
                       fresh_phi(b.args[1]) for b in bvs)
            ren = dict(zip(bvs, fr))
            newargs = tuple(_map(a, lambda v: go(subst(v, ren)) if
                                 (free_bv(v) & frozenset(bvs)) else go(v))
                            for a in u.args[1:])
            r = rebuild(u.op, (fr,) + newargs)
        else:
            r = rebuild(u.op, tuple(_map(a, go) for a in u.args))
        memo[u] = r
        return r
    return go(t)


def _has_nonvar(u, keys):
    nonvars = [k for k in keys if k.op not in ('bv', 'phi')]
    if not nonvars:
        return False
    for s in walk(u):
        if s in nonvars:
            return True
    return False


def _map(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map(e, f) for e in a)
    return a


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


# --------------------------------------------------------------------------
# constants and kinds

def C(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return mk('c', v)
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = int(v)
        return mk('c', v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('c', v)
        fr = Fraction(repr(v))
        return C(fr)
    if isinstance(v, int):
        return mk('c', v)
    if isinstance(v, bytes):
        return mk('c', v)
    if v is Ellipsis:
        return mk('c', 'Ellipsis')
    if isinstance(v, complex):
        return mk('c', repr(v))
    raise TypeError(v)


TRUE, FALSE, NONE = C(True), C(False), C(None)
ZERO, ONE = C(0), C(1)


def isc(t):
    return t.op == 'c'


def isnum(t):
    return t.op == 'c' and not isinstance(t.args[0], (bool, str, bytes)) \
        and t.args[0] is not None


def sym(name, kind='?'):
    return mk('sym', name, kind)


# attribute-name -> kind of the initial value (set by rules)
ATTR_KIND = {}
LEN_CANON = {}     # attribute name -> attribute name with the same length
DISTINCT_ATTR = {'x', 'w', 'u', 'y', 'cu', 'cy', 'p'}   # no repeated element
NONNEG_ATTR = {'_xl', '_wl', '_xnl_mono', 'shape'}

MAT_OPS = {'blk', 'mT', 'mstore', 'zeros', 'eye', 'diag', 'hstack', 'vstack',
           'mlit', 'inv', 'mperm', 'msub', 'colvec', 'mapply', 'matfun',
           'mmap', 'mrow'}


def kind(t):
    op = t.op
    if op == 'c':
        v = t.args[0]
        if isinstance(v, str):
            return 'str'
        if isinstance(v, bool):
            return 'bool'
        if v is None:
            return 'none'
        return 'num'
    if op in ('seq', 'fm', 'sl', 'keys', 'tolist'):
        return 'seq'
    if op in ('str', 'joinm'):
        return 'str'
    if op in MAT_OPS:
        return 'mat'
    if op == 'sym' or op == 'phi':
        return t.args[1]
    if op == 'attr':
        return ATTR_KIND.get(t.args[1], '?')
    if op == 'poly':
        for (sc, mt, co) in t.args[0]:
            if mt:
                return 'mat'
        return 'num'
    if op == 'ite':
        k = kind(t.args[1])
        if k in ('none', '?'):
            k2 = kind(t.args[2])
            if k2 not in ('none', '?'):
                return k2
        return k
    if op == 'dict':
        return 'dict'
    if op == 'set':
        return 'set'
    if op in ('fn', 'bound', 'cls', 'ext', 'builtin', 'meth'):
        return 'fn'
    if op in ('len', 'Sum', 'pow'):
        return 'num'
    if op == 'slice':
        return 'slice'
    if op == 'call' and t.args[0].op == 'ext':
        return EXT_KIND.get(t.args[0].args[0], '?')
    if op == 'call' and t.args[0].op in ('meth', 'attr') and \
            t.args[0].args[1] in ('diff', 'doit'):
        k = kind(t.args[0].args[0])
        return 'num' if k == '?' else k
    if op == 'call' and t.args[0].op == 'sym':
        return t.args[0].args[1][5:] if \
            str(t.args[0].args[1]).startswith('func:') else '?'
    if op in ('lt', 'eq', 'in', 'isinst', 'hasattr', 'any', 'not', 'truth',
              'raises'):
        return 'bool'
    if op == 'last':
        return kind(t.args[2])
    return '?'


EXT_KIND = {}


# --------------------------------------------------------------------------
# MTBDD ite

LIMIT = [4000]


class Blowup(Exception):
    pass


def as_bool(t):
    """Boolean-valued normal form: a BDD over atoms."""
    if t is TRUE or t is FALSE:
        return t
    op = t.op
    if op == 'ite':
        return ite(t.args[0], as_bool(t.args[1]), as_bool(t.args[2]))
    if op in ('lt', 'eq', 'in', 'isinst', 'hasattr', 'any', 'truth',
              'raises'):
        return ite(t, TRUE, FALSE)
    if op == 'c':
        return C(bool(t.args[0]))
    if op == 'seq':
        if any(s.op == 'it' for s in t.args):
            return TRUE
        if not t.args:
            return FALSE
    if op in ('str',):
        if any(isinstance(p, str) and p for p in t.args):
            return TRUE
    if op in ('fn', 'cls', 'ext', 'builtin', 'bound', 'meth', 'new', 'slice'):
        return TRUE
    k = kind(t)
    if k == 'seq':
        return gt0(length(t))
    if k == 'num':
        return not_(eq(t, ZERO))
    if op == 'dict':
        if not t.args:
            return FALSE
        if any(e.op == 'pair' for e in t.args):
            return TRUE
    return ite(mk('truth', t), TRUE, FALSE)


def _top(t):
    return t.args[0] if t.op == 'ite' else None


def cofactor(t, atom, val):
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def ite(c, a, b):
    """c: atom or BDD."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != 'ite':
        if c.op not in ('lt', 'eq', 'in', 'isinst', 'hasattr', 'any',
                        'truth', 'raises'):
            c = as_bool(c)
            return ite(c, a, b)
        # c is an atom
        tops = [x for x in (c, _top(a), _top(b)) if x is not None]
        v = min(tops, key=lambda x: (x.op, x.key))
        if v is c:
            hi, lo = cofactor(a, c, True), cofactor(b, c, False)
            if hi is lo:
                return hi
            return mk('ite', c, hi, lo)
        hi = ite(c, cofactor(a, v, True), cofactor(b, v, True))
        lo = ite(c, cofactor(a, v, False), cofactor(b, v, False))
        if hi is lo:
            return hi
        return mk('ite', v, hi, lo)
    return _ite3(c, a, b, {})


def _ite3(c, a, b, memo):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != 'ite':
        return ite(as_bool(c), a, b)
    k = (c, a, b)
    r = memo.get(k)
    if r is not None:
        return r
    tops = [x for x in (_top(c), _top(a), _top(b)) if x is not None]
    v = min(tops, key=lambda x: (x.op, x.key))
    hi = _ite3(cofactor(c, v, True), cofactor(a, v, True),
               cofactor(b, v, True), memo)
    lo = _ite3(cofactor(c, v, False), cofactor(a, v, False),
               cofactor(b, v, False), memo)
    r = hi if hi is lo else mk('ite', v, hi, lo)
    memo[k] = r
    if len(memo) > LIMIT[0]:
        raise Blowup('ite')
    return r


def lift(args, f):
    """Apply f to ite-free arguments, distributing over ite's."""
    tops = [a.args[0] for a in args if a.op == 'ite']
    if not tops:
        return f(*args)
    v = min(tops, key=lambda x: (x.op, x.key))
    hi = lift([cofactor(a, v, True) for a in args], f)
    lo = lift([cofactor(a, v, False) for a in args], f)
    return ite(v, hi, lo)


def not_(t):
    return ite(as_bool(t), FALSE, TRUE)


def and_(a, b):
    return ite(as_bool(a), as_bool(b), FALSE)


def or_(a, b):
    return ite(as_bool(a), TRUE, as_bool(b))


def leaves(t):
    """(path, leaf) pairs of an MTBDD; path = tuple of (atom, bool)."""
    if t.op == 'ite':
        for p, l in leaves(t.args[1]):
            yield ((t.args[0], True),) + p, l
        for p, l in leaves(t.args[2]):
            yield ((t.args[0], False),) + p, l
    else:
        yield (), t


def assume(t, atom, val):
    """Restrict atom to val everywhere in t (also under binders); atom may
    be a BDD that is a literal, or a conjunction when val is true."""
    if atom.op != 'ite':
        return subst(t, {atom: TRUE if val else FALSE})
    a, hi, lo = atom.args
    if not val and {hi, lo} == {TRUE, FALSE}:
        hi, lo, val = lo, hi, True
    if val:
        if lo is FALSE:
            t = subst(t, {a: TRUE})
            return t if hi is TRUE else assume(t, hi, True)
        if hi is FALSE:
            t = subst(t, {a: FALSE})
            return t if lo is TRUE else assume(t, lo, True)
    return t


# --------------------------------------------------------------------------
# comparisons

def nonneg(t):
    """t is known to be a non-negative integer."""
    if isnum(t):
        return t.args[0] >= 0
    if t.op == 'len':
        return True
    if t.op == 'attr' and t.args[1] in NONNEG_ATTR:
        return True
    if t.op == 'idx' and t.args[0].op == 'attr' and \
            t.args[0].args[1] == 'shape':
        return True
    if t.op in ('sym', 'bv') and (t.op == 'bv' or t.args[1] == 'nat'):
        return True
    if t.op == 'poly':
        return all(not mt and co > 0 and all(nonneg(f) for f, e in sc)
                   for sc, mt, co in t.args[0])
    return False


def gt0(n):
    if isnum(n):
        return C(n.args[0] > 0)
    if nonneg(n):
        return not_(eq(n, ZERO))
    return lt(ZERO, n)


def lt(a, b):
    return lift([a, b], _lt)


def _lt(a, b):
    if isnum(a) and isnum(b):
        return C(a.args[0] < b.args[0])
    if kind(a) in ('str', 'seq') or kind(b) in ('str', 'seq'):
        return as_bool(mk('lt', a, b))
    d = sub(b, a)          # a < b  <=>  d > 0
    if isnum(d):
        return C(d.args[0] > 0)
    if nonneg(d):
        return not_(eq(d, ZERO))
    # b < 1 for a natural b
    nd = sub(ONE, d)
    if d.op == 'poly' and nonneg(nd):
        return eq(nd, ZERO)
    return as_bool(mk('lt', ZERO, d))


def le(a, b):
    return not_(lt(b, a))


def ground(t):
    return isc(t) or t.op == 'seq' and all(
        e.op == 'it' and ground(e.args[0]) for e in t.args)


def isname(t):
    """a sympy symbol of known name"""
    return t.op == 'sym' and t.args[0][:1] == '$'


def named(name):
    return sym('$' + name, 'num')


def eq(a, b):
    return lift([a, b], _eq)


_DISTINCT = {'fn', 'cls', 'ext', 'builtin', 'bound', 'seq', 'dict', 'new',
             'slice'}


def _eq(a, b):
    if a is b:
        return TRUE
    if isname(a) and isname(b):
        return FALSE
    if isc(a) and isc(b):
        if isinstance(a.args[0], bool) != isinstance(b.args[0], bool):
            return C(a.args[0] == b.args[0])
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x is NONE and (y.op in _DISTINCT or
                          kind(y) in ('seq', 'str', 'num', 'mat', 'dict',
                                      'fn', 'set', 'bool', 'obj')):
            return FALSE
        if isc(x) and isinstance(x.args[0], bool) and kind(y) == 'bool':
            return as_bool(y) if x.args[0] else not_(y)
        if isc(x) and isinstance(x.args[0], str):
            if kind(y) in ('num', 'seq', 'mat', 'dict', 'fn'):
                return FALSE
            if y.op == 'str':
                pre = y.args[0] if isinstance(y.args[0], str) else ''
                if not x.args[0].startswith(pre):
                    return FALSE
    if a.op == 'seq' and b.op == 'seq':
        if all(s.op == 'it' for s in a.args + b.args):
            if len(a.args) != len(b.args):
                return FALSE
            r = TRUE
            for s, u in zip(a.args, b.args):
                r = and_(r, eq(s.args[0], u.args[0]))
            return r
    if a.op == 'dict' and b.op == 'dict':
        if all(g.op == 'pair' and (isc(g.args[0]) or isname(g.args[0]))
               for g in a.args + b.args):
            p, q = [dict((g.args[0], g.args[1]) for g in t.args)
                    for t in (a, b)]
            if set(p) != set(q):
                return FALSE
            r = TRUE
            for k in p:
                r = and_(r, eq(p[k], q[k]))
            return r
    if kind(a) == 'num' and kind(b) == 'num' and not isc(a) and not isc(b):
        d = sub(a, b)
        if isnum(d):
            return C(d.args[0] == 0)
        d2 = neg(d)
        a, b = min(d, d2), ZERO
    elif kind(a) == 'num' and isnum(b) and b.args[0] != 0 or \
            kind(b) == 'num' and isnum(a) and a.args[0] != 0:
        d = sub(a, b)
        if isnum(d):
            return C(d.args[0] == 0)
        d2 = neg(d)
        a, b = min(d, d2), ZERO
    if b is ZERO and a.op == 'poly' and (
            nonneg(sub(a, ONE)) or nonneg(sub(neg(a), ONE))):
        return FALSE
    if b < a:
        a, b = b, a
    return mk('ite', mk('eq', a, b), TRUE, FALSE)


def isin(a, s):
    return lift([a, s], _isin)


def _isin(a, s):
    if s.op in ('seq', 'set'):
        r = FALSE
        for seg in s.args:
            if seg.op == 'it':
                r = or_(r, eq(a, seg.args[0]))
            elif seg.op == 'sp':
                r = or_(r, isin(a, seg.args[0]))
            elif seg.op in ('seq', 'set'):
                r = or_(r, isin(a, seg))
            else:
                r = or_(r, as_bool(mk('in', a, seg)))
        return r
    if s.op == 'keys' and s.args[0].op == 'dict':
        s = s.args[0]
    if s.op == 'keys':
        s = s.args[0]
    if s.op == 'dict':
        r = FALSE
        for e in s.args:
            if e.op == 'pair':
                r = or_(r, eq(a, e.args[0]))
            elif e.op == 'sp':
                r = or_(r, isin(a, e.args[0]))
            else:
                r = or_(r, as_bool(mk('in', a, e)))
        return r
    if isc(a) and isc(s) and isinstance(s.args[0], str) and \
            isinstance(a.args[0], str):
        return C(a.args[0] in s.args[0])
    return as_bool(mk('in', a, s))


# --------------------------------------------------------------------------
# numeric polynomials (scalars commute, matrix factors keep their order)

def _items(t):
    if t.op == 'poly':
        return t.args[0]
    if isnum(t):
        v = t.args[0]
        return () if v == 0 else (((), (), v),)
    if t is TRUE:
        return (((), (), 1),)
    if t is FALSE:
        return ()
    if kind(t) == 'mat':
        return (((), (t,), 1),)
    if t.op == 'pow' and isnum(t.args[1]) and isinstance(t.args[1].args[0],
                                                         int):
        return ((((t.args[0], t.args[1].args[0]),), (), 1),)
    return ((((t, 1),), (), 1),)


def _mkpoly(d):
    items = [(sc, mt, co) for (sc, mt), co in d.items() if co != 0]
    if not items:
        return ZERO
    if any(len(x[1]) == 1 and x[1][0].op == 'mlit' for x in items):
        items = _litjoin(items)
    items.sort(key=lambda it: (_k(it[0]), _k(it[1])))
    if len(items) == 1:
        sc, mt, co = items[0]
        if not sc and not mt:
            return C(co)
        if co == 1:
            if not sc and len(mt) == 1:
                return mt[0]
            if not mt and len(sc) == 1:
                f, e = sc[0]
                if e == 1:
                    return f
    return mk('poly', tuple((sc, mt, co) for sc, mt, co in items))


def add(a, b):
    return lift([a, b], _add)


def _add(a, b):
    ka, kb = kind(a), kind(b)
    if ka == 'seq' or kb == 'seq':
        return seq(splice(a), splice(b))
    if ka == 'str' or kb == 'str':
        return strcat(a, b)
    d = {}
    for it in (_items(a), _items(b)):
        for sc, mt, co in it:
            d[(sc, mt)] = d.get((sc, mt), 0) + co
    return _mkpoly(d)


def neg(a):
    return mul(C(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    return lift([a, b], _mul)


def _mul(a, b):
    ka, kb = kind(a), kind(b)
    if ka == 'seq' and kb != 'seq' and kb != 'mat':
        return rep(a, b)
    if kb == 'seq' and ka != 'seq' and ka != 'mat':
        return rep(b, a)
    if ka == 'str' and isnum(b) and isc(a):
        return C(a.args[0] * b.args[0])
    if kb == 'str' and isnum(a) and isc(b):
        return C(b.args[0] * a.args[0])
    if ka == 'str' or kb == 'str':
        return mk('strrep', a, b)
    if ka == 'mat' and kb == 'mat' and (a.op == 'zeros' or b.op == 'zeros'):
        la, lb = _litrows(a), _litrows(b)
        if la and lb and la[1] == lb[0]:
            return mk('zeros', C(la[0]), C(lb[1]))
    d = {}
    for sc1, mt1, c1 in _items(a):
        for sc2, mt2, c2 in _items(b):
            m = _mulmono(sc1, sc2)
            mt = _simpmat(mt1 + mt2)
            if mt is None:
                continue
            k = (m, mt)
            d[k] = d.get(k, 0) + c1 * c2
    return _mkpoly(d)


def _simpmat(mt):
    """Simplify a product of matrix factors: eye is neutral, M*inv(M)=1."""
    out = []
    for f in mt:
        if f.op == 'eye':
            if len(mt) > 1:
                if out or f is not mt[-1]:
                    continue
            out.append(f)
            continue
        if f.op == 'zeros':
            return None
        if f.op == 'mlit' and out and out[-1].op == 'mlit' and \
                len(out[-1].args[0]) == len(f.args):
            out[-1] = mlitmul(out[-1], f)
            continue
        if out and (out[-1].op == 'inv' and out[-1].args[0] is f or
                    f.op == 'inv' and f.args[0] is out[-1]):
            out.pop()
            if not out:
                pass
            continue
        out.append(f)
    if len(out) > 1:
        out = [f for f in out if f.op != 'eye'] or out[:1]
    if not out and mt:
        return (mk('eye', mk('dim', mt[0])),)
    return tuple(out)


def mlitmul(a, b):
    rows = []
    for r in a.args:
        row = []
        for j in range(len(b.args[0])):
            e = ZERO
            for k, x in enumerate(r):
                e = add(e, mul(x, b.args[k][j]))
            row.append(e)
        rows.append(tuple(row))
    return mk('mlit', *rows)


def _litjoin(items):
    """literal matrices of a sum are added up"""
    lits = [x for x in items if len(x[1]) == 1 and x[1][0].op == 'mlit']
    if not lits or len(lits) == 1 and not lits[0][0] and lits[0][2] == 1:
        return items
    shapes = set((len(x[1][0].args), len(x[1][0].args[0])) for x in lits)
    if len(shapes) != 1:
        return items
    n, m = shapes.pop()
    rows = [[ZERO] * m for _ in range(n)]
    for sc, (lit,), co in lits:
        f = _mkpoly({(sc, ()): co})
        for i in range(n):
            for j in range(m):
                rows[i][j] = add(rows[i][j], mul(f, lit.args[i][j]))
    rest = [x for x in items if x not in lits]
    return rest + [((), (mk('mlit', *[tuple(r) for r in rows]),), 1)]


def _mulmono(s1, s2):
    d = dict(s1)
    for f, e in s2:
        d[f] = d.get(f, 0) + e
        if d[f] == 0:
            del d[f]
    return tuple(sorted(d.items(), key=lambda fe: (fe[0].op, fe[0].key)))


def power(a, b):
    return lift([a, b], _power)


def _power(a, b):
    if isnum(b) and isinstance(b.args[0], int):
        n = b.args[0]
        if n == 0:
            return ONE
        if isnum(a):
            if a.args[0] == 0:
                return ZERO if n > 0 else mk('pow', a, b)
            return C(Fraction(a.args[0]) ** n)
        if kind(a) == 'mat':
            if n == -1:
                return inv(a)
            r = a
            for _ in range(abs(n) - 1):
                r = mul(r, a)
            return r if n > 0 else inv(r)
        its = _items(a)
        if len(its) == 1:
            sc, mt, co = its[0]
            if not mt:
                return _mkpoly({(tuple((f, e * n) for f, e in sc), ()):
                                Fraction(co) ** n})
        if 0 < n <= 4:
            r = a
            for _ in range(n - 1):
                r = mul(r, a)
            return r
        return _mkpoly({(((a, n),), ()): 1})
    if isnum(a) and isnum(b):
        try:
            return C(float(a.args[0]) ** float(b.args[0]))
        except Exception:
            pass
    return mk('pow', a, b)


def div(a, b):
    if isnum(b) and b.args[0] != 0:
        return mul(a, C(Fraction(1) / Fraction(b.args[0])))
    return mul(a, power(b, C(-1)))


def inv(a):
    return lift([a], _inv)


def _inv(a):
    if a.op == 'inv':
        return a.args[0]
    if a.op == 'eye':
        return a
    return mk('inv', a)


def Sum(bvs, n, body):
    """sum over bv<n of body, linear in the body."""
    (v,) = bvs
    if body.op == 'ite' and v not in free_bv(body.args[0]):
        return ite(body.args[0], Sum(bvs, n, body.args[1]),
                   Sum(bvs, n, body.args[2]))
    its = _items(body)
    out = ZERO
    for sc, mt, co in its:
        dep = tuple((f, e) for f, e in sc if v in free_bv(f))
        ind = tuple((f, e) for f, e in sc if v not in free_bv(f))
        if any(v in free_bv(f) for f in mt):
            inner = _mkpoly({(dep, mt): 1})
            outer = _mkpoly({(ind, ()): co})
        else:
            inner = _mkpoly({(dep, ()): 1})
            outer = _mkpoly({(ind, mt): co})
        if v not in free_bv(inner):
            out = add(out, mul(outer, mul(inner, n)))
        else:
            out = add(out, mul(outer, canon_binder('Sum', (v,), (n, inner))))
    return out


def canon_binder(op, bvs, rest):
    """Name the bound variables canonically (by binder height)."""
    h = 0
    for a in rest:
        for u in subterms_of(a):
            h = max(h, height(u))
    h += 1
    new = []
    ren = {}
    for i, b in enumerate(bvs):
        if b.op == 'bv':
            nb = mk('bv', 'h%d.%d' % (h, i))
        else:
            nb = mk('phi', 'h%d.%d' % (h, i), b.args[1])
        new.append(nb)
        if nb is not b:
            ren[b] = nb
    if ren:
        rest = tuple(_map(a, lambda u: _rename(u, ren)) for a in rest)
    return mk(op, tuple(new), *rest)


def _rename(u, ren):
    if not (free_bv(u) & frozenset(ren)):
        return u
    return subst(u, ren)


# --------------------------------------------------------------------------
# strings

def strcat(*parts):
    return lift(list(parts), _strcat)


def _strcat(*parts):
    out = []
    for p in parts:
        if isc(p) and isinstance(p.args[0], str):
            ps = [p.args[0]]
        elif p.op == 'str':
            ps = list(p.args)
        else:
            ps = [p]
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            else:
                out.append(q)
    if not out:
        return C('')
    if len(out) == 1 and isinstance(out[0], str):
        return C(out[0])
    if len(out) == 1 and out[0].op in ('sym', 'attr', 'phi', 'idx', 'call',
                                       'meth', 'joinm', 'bv'):
        if kind(out[0]) == 'str':
            return out[0]
    return mk('str', *out)


def tostr(t, spec=''):
    """str(t)"""
    return lift([t], lambda u: _tostr(u, spec))


def _tostr(t, spec):
    if spec:
        return mk('str', mk('fmt', t, spec))
    if isc(t):
        v = t.args[0]
        if isinstance(v, (str,)):
            return t
        if isinstance(v, Fraction):
            return C(repr(float(v)))
        return C(str(v))
    if isname(t):
        return C(t.args[0][1:])
    if kind(t) == 'str':
        return t
    return mk('str', mk('fmt', t, ''))


def joinm(bvs, n, body):
    (v,) = bvs
    return canon_binder('joinm', bvs, (n, body))


# --------------------------------------------------------------------------
# sequences

def it(x):
    return mk('it', x)


def splice(s):
    """segment for a sequence-valued term"""
    if s.op in ('seq', 'fm'):
        return s
    return mk('sp', s)


EMPTY = mk('seq')


def seq(*parts):
    """Concatenation of segments (it / sp / fm / seq)."""
    flat = []
    for s in parts:
        if s.op == 'seq':
            flat.extend(s.args)
        elif s.op == 'sp':
            u = s.args[0]
            if u.op == 'seq':
                flat.extend(u.args)
            elif u.op == 'fm':
                flat.append(u)
            elif u.op == 'ite':
                # distribute
                return lift_segs(flat, s, parts)
            elif u is NONE:
                flat.append(s)
            else:
                flat.append(s)
        else:
            flat.append(s)
    # merge adjacent complementary slices
    out = []
    for s in flat:
        if out and s.op == 'sp' and s.args[0].op == 'sl' and \
                out[-1].op == 'sp' and out[-1].args[0].op == 'sl':
            b1, lo1, hi1, st1 = out[-1].args[0].args
            b2, lo2, hi2, st2 = s.args[0].args
            if b1 is b2 and st1 is NONE and st2 is NONE and hi1 is lo2 \
                    and hi1 is not NONE and nonneg(hi1):
                out.pop()
                m = sl(b1, lo1, hi2, NONE)
                out.append(mk('sp', m) if m.op not in ('seq', 'fm') else m)
                if out[-1].op == 'seq':
                    u = out.pop()
                    out.extend(u.args)
                continue
        if out and s.op == 'fm' and out[-1].op == 'fm' and \
                s.args[2].op == 'seq':
            # [f(k) for k<a] + [f(k+a) for k<b] = [f(k) for k<a+b]
            (v1,), n1, b1 = out[-1].args
            (v2,), n2, b2 = s.args
            if height(b1) == height(b2) or len(b1.args) == len(b2.args):
                if subst(b1, {v1: add(v2, n1)}) is b2:
                    out.pop()
                    m = fm((v1,), add(n1, n2), b1)
                    out.extend(segs(m) if m.op != 'ite' else
                               [mk('sp', m)])
                    continue
        if out:
            m = _absorb(out[-1], s)
            if m is not None:
                out.pop()
                # the merged segment may merge with the one before
                while out:
                    n = _join(out[-1], m)
                    if n is None:
                        break
                    out.pop()
                    m = n
                out.append(m)
                continue
        out.append(s)
    if len(out) == 1 and out[0].op == 'sp':
        return out[0].args[0]
    if len(out) == 1 and out[0].op == 'fm':
        return out[0]
    return mk('seq', *out)


def _slice_of(g):
    if g.op == 'sp' and g.args[0].op == 'sl' and g.args[0].args[3] is NONE:
        return g.args[0].args[:3]
    return None


def _absorb(a, b):
    """an element next to the slice (or map) it continues"""
    if b.op == 'it' and a.op != 'it':
        e = b.args[0]
        c = _slice_of(a)
        if c and e.op == 'idx' and e.args[0] is c[0] and e.args[1] is c[2]:
            return mk('sp', mk('sl', c[0], c[1], add(c[2], ONE), NONE))
        if a.op == 'fm':
            (v,), n, body = a.args
            if body.op == 'seq' and len(body.args) == 1 and \
                    body.args[0].op == 'it' and \
                    subst(body.args[0].args[0], {v: n}) is e:
                m = canon_binder('fm', (v,), (add(n, ONE), body))
                return m
    elif a.op == 'it' and b.op != 'it':
        e = a.args[0]
        c = _slice_of(b)
        if c and c[1] is not NONE and e.op == 'idx' and e.args[0] is c[0] \
                and add(e.args[1], ONE) is c[1]:
            lo = NONE if e.args[1] is ZERO else e.args[1]
            if lo is NONE and c[2] is NONE:
                return mk('sp', c[0])
            return mk('sp', mk('sl', c[0], lo, c[2], NONE))
        if b.op == 'fm':
            (v,), n, body = b.args
            if body.op == 'seq' and len(body.args) == 1 and \
                    body.args[0].op == 'it' and \
                    subst(body.args[0].args[0], {v: C(-1)}) is e:
                w = fresh_bv()
                m = fm((w,), add(n, ONE), subst(body, {v: sub(w, ONE)}))
                return m if m.op == 'fm' else splice(m)
    return None


def _join(a, b):
    m = _absorb(a, b)
    if m is not None:
        return m
    c, d = _slice_of(a), _slice_of(b)
    if c and d and c[0] is d[0] and c[2] is d[1] and c[2] is not NONE and \
            nonneg(c[2]):
        m = sl(c[0], c[1], d[2], NONE)
        return mk('sp', m)
    return None


def lift_segs(flat, s, segs):
    vals = [g.args[0] if g.op == 'sp' else g for g in segs]

    def f(*vs):
        return seq(*[splice(v) if g.op == 'sp' else g
                     for g, v in zip(segs, vs)])
    idx = [i for i, g in enumerate(segs) if g.op == 'sp']
    args = [vals[i] for i in idx]

    def f2(*vs):
        m = dict(zip(idx, vs))
        return seq(*[splice(m[i]) if i in m else g
                     for i, g in enumerate(segs)])
    return lift(args, f2)


def segs(s):
    if s.op == 'seq':
        return s.args
    if s.op == 'fm':
        return (s,)
    return (mk('sp', s),)


def fm(bvs, n, body):
    """concatenation over bv<n of the sequence body"""
    (v,) = bvs
    if n is ZERO:
        return EMPTY
    if n.op == 'ite':
        return ite(n.args[0], fm(bvs, n.args[1], body),
                   fm(bvs, n.args[2], body))
    if body.op == 'ite' and v not in free_bv(body.args[0]):
        return ite(body.args[0], fm(bvs, n, body.args[1]),
                   fm(bvs, n, body.args[2]))
    if body is EMPTY:
        return EMPTY
    if isnum(n) and n.args[0] <= 12 and isinstance(n.args[0], int):
        return seq(*[splice(subst(body, {v: C(i)}))
                     for i in range(n.args[0])])
    # identity map
    if body.op == 'seq' and len(body.args) == 1 and body.args[0].op == 'it':
        e = body.args[0].args[0]
        if e.op == 'idx' and v not in free_bv(e.args[0]):
            b = e.args[0]
            if e.args[1] is v and length(b) is n:
                return b
            c = sub(e.args[1], v) if kind(b) == 'seq' else v
            if v not in free_bv(c) and nonneg(c):
                # a contiguous selection is a slice
                return sl(b, c, add(c, n), NONE)
    # fm over i of fm over j<m(i) stays nested
    return canon_binder('fm', bvs, (n, body))


def fm_open(t):
    """(bv, n, body) of an fm with a fresh variable"""
    v = t.args[0][0]
    return v, t.args[1], t.args[2]


def length(s):
    return lift([s], _length)


def _length(s):
    if s.op == 'seq':
        r = ZERO
        for g in s.args:
            r = add(r, _seglen(g))
        return r
    if s.op == 'fm':
        return _seglen(s)
    if isc(s) and isinstance(s.args[0], str):
        return C(len(s.args[0]))
    if s.op == 'dict' and all(e.op == 'pair' and isc(e.args[0])
                              for e in s.args):
        return C(len(s.args))
    if s.op == 'set' and (all(e.op == 'it' and isc(e.args[0])
                              for e in s.args) or
                          all(e.op == 'it' and isname(e.args[0])
                              for e in s.args)):
        return C(len(set(s.args)))
    if s.op == 'dict' and all(e.op == 'pair' and isname(e.args[0])
                              for e in s.args):
        return C(len(s.args))
    if s.op == 'sl':
        b, lo, hi, st = s.args
        if st is NONE:
            if lo is NONE and nonneg(hi):
                return hi          # assumes hi <= len
            if hi is NONE and nonneg(lo):
                return sub(length(b), lo)
            if nonneg(lo) and nonneg(hi):
                return sub(hi, lo)
    if s.op == 'attr' and s.args[1] in LEN_CANON:
        return _length(mk('attr', s.args[0], LEN_CANON[s.args[1]]))
    if s.op == 'attr' and s.args[1] in LEN_ATTR:
        return LEN_ATTR[s.args[1]](s.args[0])
    if s.op == 'call' and s.args[0].op == 'ext':
        f = LEN_EXT.get(s.args[0].args[0])
        if f is not None:
            r = f(s)
            if r is not None:
                return r
    if s.op == 'call' and s.args[0].op == 'sym' and \
            s.args[0].args[0] in LEN_FUN:
        return LEN_FUN[s.args[0].args[0]](s)
    return mk('len', s)


LEN_EXT = {}
LEN_ATTR = {}
LEN_FUN = {}


def _seglen(g):
    if g.op == 'it':
        return ONE
    if g.op == 'sp':
        return length(g.args[0])
    if g.op == 'fm':
        v, n, body = g.args[0][0], g.args[1], g.args[2]
        lb = length(body) if body.op != 'ite' else None
        if lb is not None and v not in free_bv(lb):
            return mul(n, lb)
        if lb is not None:
            return Sum((v,), n, lb)
        if body.op == 'ite':
            ls = set(length(l) for _, l in leaves(body))
            if len(ls) == 1:
                l = ls.pop()
                if v not in free_bv(l):
                    return mul(n, l)
    return mk('len', g)


def rep(s, n):
    """[..] * n"""
    if isnum(n) and isinstance(n.args[0], int) and n.args[0] <= 64:
        return seq(*([splice(s)] * max(0, n.args[0])))
    return fm((fresh_bv(),), n, s)


def idx(s, k):
    return lift([s, k], _idx)


def _idx(s, k):
    if s.op in ('seq', 'fm'):
        r = _seqidx(segs(s), k)
        if r is not None:
            return r
    if s.op == 'dict':
        for e in reversed(s.args):
            if e.op == 'pair':
                if e.args[0] is k:
                    return e.args[1]
                if isc(e.args[0]) and isc(k):
                    continue
                if eq(e.args[0], k) is FALSE:
                    continue
                break
            if e.op == 'sp' and len(s.args) == 1:
                return idx(e.args[0], k)
            if e.op == 'sp' and e is s.args[0]:
                return idx(e.args[0], k)
            break
        if all(e.op == 'pair' for e in s.args) and s.args and \
                not isc(k) and k.op != 'str':
            return mk('idx', s, k)
    if s.op == 'store':
        b, k0, v0 = s.args
        e = eq(k0, k)
        if e is TRUE:
            return v0
        if e is FALSE:
            return idx(b, k)
    if s.op == 'sl':
        b, lo, hi, st = s.args
        if st is NONE and nonneg(k) and (lo is NONE or nonneg(lo)):
            return idx(b, k if lo is NONE else add(lo, k))
    if s.op == 'tup' and isnum(k):
        return s.args[k.args[0]]
    if isc(s) and isinstance(s.args[0], str) and isnum(k):
        try:
            return C(s.args[0][k.args[0]])
        except Exception:
            pass
    return mk('idx', s, k)


def _seqidx(sg, k):
    if isnum(k) and isinstance(k.args[0], int):
        n = k.args[0]
        if n >= 0:
            for g in sg:
                if g.op == 'it':
                    if n == 0:
                        return g.args[0]
                    n -= 1
                else:
                    if len(sg) == 1 and g.op == 'fm':
                        break
                    return None
        else:
            for g in reversed(sg):
                if g.op == 'it':
                    if n == -1:
                        return g.args[0]
                    n += 1
                else:
                    return None
            return None
    if len(sg) == 1 and sg[0].op == 'fm' and (nonneg(k) or k.op == 'bv' or
                                              True):
        v, n, body = fm_open(sg[0])
        if body.op == 'seq' and len(body.args) == 1 and \
                body.args[0].op == 'it':
            if isnum(k) and k.args[0] < 0:
                k = add(n, k)
            return subst(body.args[0].args[0], {v: k})
    if nonneg(k) and not isnum(k) and len(sg) > 1:
        c = cut(sg, k)
        if c is not None and c[1]:
            g = c[1][0]
            if g.op == 'it':
                return g.args[0]
            if len(c[1]) == 1 or nonneg(sub(_seglen(g), ONE)):
                return idx(g.args[0] if g.op == 'sp' else g, ZERO)
    return None


def sl(s, lo, hi, st=NONE):
    return lift([s, lo, hi, st], _sl)


def _sl(s, lo, hi, st):
    if st is ONE:
        st = NONE
    if lo is ZERO:
        lo = NONE
    if hi is not NONE and st is NONE and kind(s) == 'seq' and \
            s.op in ('attr', 'sym', 'idx') and (
                hi is length(s) or nonneg(sub(hi, length(s)))):
        hi = NONE
    if lo is NONE and hi is NONE and st is NONE:
        return s
    if isc(s) and isinstance(s.args[0], str) and all(
            x is NONE or isnum(x) for x in (lo, hi, st)):
        f = [None if x is NONE else int(x.args[0]) for x in (lo, hi, st)]
        return C(s.args[0][slice(*f)])
    if s.op == 'seq' and all(g.op == 'it' for g in s.args) and all(
            x is NONE or isnum(x) for x in (lo, hi, st)):
        f = [None if x is NONE else int(x.args[0]) for x in (lo, hi, st)]
        return seq(*s.args[slice(*f)])
    if s.op == 'fm' and st is NONE:
        v, n, body = fm_open(s)
        if body.op == 'seq' and len(body.args) == 1 and \
                body.args[0].op == 'it':
            l = ZERO if lo is NONE else lo
            h = n if hi is NONE else hi
            if h is not n and nonneg(sub(h, n)):
                h = n
            if nonneg(l) and (hi is NONE or nonneg(h)):
                w = fresh_bv()
                return fm((w,), sub(h, l), subst(body, {v: add(w, l)}))
    if s.op == 'sl' and st is NONE and s.args[3] is NONE:
        b, l0, h0, _ = s.args
        if (l0 is NONE or nonneg(l0)) and (lo is NONE or nonneg(lo)) and \
                (hi is NONE or nonneg(hi)):
            base = ZERO if l0 is NONE else l0
            nl = add(base, ZERO if lo is NONE else lo)
            if hi is NONE:
                nh = h0
            else:
                nh = add(base, hi)
            return sl(b, nl, nh, NONE)
    if s.op == 'seq' and st is NONE and hi is NONE and isnum(lo) and \
            lo.args[0] > 0:
        n = lo.args[0]
        if all(g.op == 'it' for g in s.args[:n]) and len(s.args) >= n:
            return seq(*s.args[n:])
    if s.op == 'seq' and st is NONE and lo is NONE and isnum(hi) and \
            hi.args[0] > 0:
        n = hi.args[0]
        if all(g.op == 'it' for g in s.args[:n]) and len(s.args) >= n:
            return seq(*s.args[:n])
    if s.op == 'seq' and st is NONE and lo is NONE and isnum(hi) and \
            hi.args[0] < 0:
        n = -hi.args[0]
        if all(g.op == 'it' for g in s.args[-n:]) and len(s.args) >= n:
            return seq(*s.args[:-n])
    if s.op == 'seq' and st is NONE and \
            (lo is NONE or nonneg(lo)) and (hi is NONE or nonneg(hi)):
        g = segs(s)
        if hi is not NONE:
            c = cut(g, hi)
            g = c[0] if c is not None else None
        if g is not None and lo is not NONE:
            c = cut(g, lo)
            g = c[1] if c is not None else None
        if g is not None:
            return seq(*g)
    return mk('sl', s, lo, hi, st)


def cut(g, pos):
    """split the segments g at offset pos (in range); None when the order of
    pos and the segment ends is not known"""
    left = []
    g = list(g)
    for n, e in enumerate(g):
        if pos is ZERO:
            return left, g[n:]
        if e.op == 'it':
            left.append(e)
            pos = sub(pos, ONE)
            if not nonneg(pos):
                return None
            continue
        L = _seglen(e)
        d = sub(pos, L)
        if nonneg(d):
            left.append(e)
            pos = d
            continue
        if n == len(g) - 1 or nonneg(neg(d)):
            u = e.args[0] if e.op == 'sp' else e
            if u.op not in ('attr', 'sym', 'idx', 'sl', 'fm'):
                return None
            a, b = sl(u, NONE, pos), sl(u, pos, NONE)
            if a.op == 'sl' and a.args[0].op == 'fm' or \
                    b.op == 'sl' and b.args[0].op == 'fm':
                return None
            return left + [splice(a)], [splice(b)] + g[n + 1:]
        return None
    if pos is ZERO:
        return left, []
    return None


# --------------------------------------------------------------------------
# dicts / sets

# insertion order of literal dictionaries is kept (as Python does) when this
# is set; otherwise runs of constant keys are sorted (a canonical form)
ORDERED = [False]


def sorted_dicts(t, memo=None):
    memo = {} if memo is None else memo
    if not t.args:
        return t
    if t in memo:
        return memo[t]
    args = [sorted_dicts(a, memo) if isinstance(a, type(t)) else a
            for a in t.args]
    if t.op == 'dict' and all(e.op == 'pair' and _ck(e.args[0])
                              for e in args):
        args.sort(key=lambda p: _k(p.args[0]))
    out = mk(t.op, *args) if list(args) != list(t.args) else t
    memo[t] = out
    return out


def _ck(t):
    return isc(t) or isname(t) or ground(t)


def mkdict(*entries):
    """entries: pair(k,v) | sp(dict) | fm(...it(seq k v))"""
    flat = []
    for e in entries:
        if e.op == 'sp' and e.args[0].op == 'dict':
            flat.extend(e.args[0].args)
        elif e.op == 'sp' and e.args[0].op == 'ite':
            u = e.args[0]
            i = entries.index(e)
            return ite(u.args[0],
                       mkdict(*(entries[:i] + (mk('sp', u.args[1]),) +
                                entries[i + 1:])),
                       mkdict(*(entries[:i] + (mk('sp', u.args[2]),) +
                                entries[i + 1:])))
        else:
            flat.append(e)
    out = []
    for e in flat:
        if e.op == 'pair' and _ck(e.args[0]):
            # overwrite an earlier constant key
            for i, f in enumerate(out):
                if f.op == 'pair' and f.args[0] is e.args[0]:
                    if all(g.op == 'pair' and _ck(g.args[0])
                           for g in out[i:]):
                        out[i] = e
                        e = None
                    break
            if e is None:
                continue
        elif e.op == 'pair':
            if out and out[-1].op == 'pair' and out[-1].args[0] is e.args[0]:
                out[-1] = e
                continue
        out.append(e)
    # sort runs of constant keys
    res = []
    run = []
    for e in out + [None]:
        if e is not None and e.op == 'pair' and _ck(e.args[0]):
            run.append(e)
        else:
            if not ORDERED[0]:
                run.sort(key=lambda p: _k(p.args[0]))
            res.extend(run)
            run = []
            if e is not None:
                res.append(e)
    if len(res) == 1 and res[0].op == 'sp':
        return res[0].args[0]
    return mk('dict', *res)


def pair(k, v):
    return mk('pair', k, v)


def mkset(*segments):
    items = []
    for s in segments:
        if s.op == 'sp' and s.args[0].op in ('set', 'seq'):
            items.extend(s.args[0].args)
        elif s.op == 'sp' and s.args[0].op == 'ite':
            u = s.args[0]
            i = segments.index(s)
            return ite(u.args[0],
                       mkset(*(segments[:i] + (mk('sp', u.args[1]),) +
                               segments[i + 1:])),
                       mkset(*(segments[:i] + (mk('sp', u.args[2]),) +
                               segments[i + 1:])))
        elif s.op in ('set', 'seq'):
            items.extend(s.args)
        else:
            items.append(s)
    items = sorted(set(items))
    if len(items) == 1 and items[0].op == 'sp' and \
            kind(items[0].args[0]) == 'set':
        return items[0].args[0]
    return mk('set', *items)


# --------------------------------------------------------------------------
# matrices

def mT(a):
    return lift([a], _mT)


def _mT(a):
    if kind(a) != 'mat':
        return mk('mT', a)
    if a.op == 'mT':
        return a.args[0]
    if a.op == 'eye':
        return a
    if a.op == 'zeros':
        return mk('zeros', *reversed(a.args))
    if a.op == 'diag':
        return mk('diag', *[mT(b) for b in a.args])
    if a.op == 'hstack':
        return mk('vstack', *[mT(b) for b in a.args])
    if a.op == 'vstack':
        return mk('hstack', *[mT(b) for b in a.args])
    if a.op == 'mperm':
        return mperm(mT(a.args[0]), a.args[2], a.args[1])
    if a.op == 'inv':
        return inv(mT(a.args[0]))
    if a.op == 'mlit':
        rows = a.args
        return mk('mlit', *[tuple(r[j] for r in rows)
                            for j in range(len(rows[0]))])
    if a.op == 'mmap':
        (i, j), n, m, body = a.args
        return canon_binder('mmap', (j, i), (m, n, body))
    if a.op == 'mstore':
        m, r0, r1, c0, c1, v = a.args
        return mk('mstore', mT(m), c0, c1, r0, r1, mT(v))
    if a.op == 'poly':
        out = ZERO
        for sc, mt, co in a.args[0]:
            p = _mkpoly({(sc, ()): co})
            for f in reversed(mt):
                p = mul(p, mT(f))
            out = add(out, p)
        return out
    return mk('mT', a)


# shapes of matrix-valued attributes (name -> f(base)) and symbols
# (name -> f(symbol)): (rows, columns)
SHAPES = {}
SYMSHAPES = {}


def mshape(m):
    """(rows, columns) of a matrix term, or None"""
    op = m.op
    if op == 'zeros':
        return m.args
    if op == 'eye':
        return m.args[0], m.args[0]
    if op == 'sym' and m.args[0] in SYMSHAPES:
        return SYMSHAPES[m.args[0]](m)
    if op == 'attr' and m.args[1] in SHAPES:
        return SHAPES[m.args[1]](m.args[0])
    if op == 'attr' or op == 'sym':
        if kind(m) != 'mat':
            return None
        s = mk('attr', m, 'shape')
        return idx(s, ZERO), idx(s, ONE)
    if op == 'mT':
        s = mshape(m.args[0])
        return None if s is None else (s[1], s[0])
    if op == 'mmap':
        return m.args[1], m.args[2]
    if op == 'mrow':
        return ONE, m.args[1]
    if op == 'mlit':
        return C(len(m.args)), C(len(m.args[0]) if m.args else 0)
    if op in ('mstore', 'inv', 'mstorex'):
        return mshape(m.args[0])
    if op == 'colvec' and kind(m.args[0]) == 'seq':
        return length(m.args[0]), ONE
    if op == 'blk':
        s = mshape(m.args[0])
        if s is None:
            return None
        return tuple(_extent(lo, hi, n) for lo, hi, n in (
            (m.args[1], m.args[2], s[0]), (m.args[3], m.args[4], s[1])))
    if op == 'mperm':
        s = mshape(m.args[0])
        out = []
        for k, a in enumerate(m.args[1:]):
            if kind(a) == 'seq':
                out.append(length(a))
            elif a.op == 'slice' and a.args[2] is NONE and s is not None:
                out.append(_extent(a.args[0], a.args[1], s[k]))
            else:
                return None
        return tuple(out)
    if op == 'diag':
        r, c = ZERO, ZERO
        for b in m.args:
            s = mshape(b) if b.op != 'star' else None
            if s is None:
                return None
            r, c = add(r, s[0]), add(c, s[1])
        return r, c
    if op in ('hstack', 'vstack'):
        ss = [mshape(b) for b in m.args]
        if not ss or any(s is None for s in ss):
            return None
        k = 0 if op == 'hstack' else 1
        tot = ZERO
        for s in ss:
            tot = add(tot, s[1 - k])
        return (ss[0][0], tot) if k == 0 else (tot, ss[0][1])
    if op == 'poly':
        for sc, mt, co in m.args[0]:
            if mt:
                a, b = mshape(mt[0]), mshape(mt[-1])
                if a is not None and b is not None:
                    return a[0], b[1]
        return None
    return None


def _extent(lo, hi, n):
    lo = ZERO if lo is NONE else lo
    hi = n if hi is NONE else hi
    if not nonneg(hi) and nonneg(neg(hi)):
        hi = add(n, hi)
    return sub(hi, lo)


def le_known(a, b):
    """a <= b provably (natural-number polynomials)"""
    return nonneg(sub(b, a))


def blk(m, r0, r1, c0, c1):
    return lift([m, r0, r1, c0, c1], _blk)


def _blk(m, r0, r1, c0, c1):
    if m.op == 'poly':
        out = ZERO
        for sc, mt, co in m.args[0]:
            if len(mt) != 1:
                # rows of the first factor, columns of the last
                if len(mt) == 0:
                    return mk('blk', m, r0, r1, c0, c1)
                p = _mkpoly({(sc, ()): co})
                first = blk(mt[0], r0, r1, NONE, NONE)
                last = blk(mt[-1], NONE, NONE, c0, c1)
                for f in (first,) + mt[1:-1] + (last,):
                    p = mul(p, f)
                out = add(out, p)
                continue
            out = add(out, mul(_mkpoly({(sc, ()): co}),
                               blk(mt[0], r0, r1, c0, c1)))
        return out
    if m.op == 'mT':
        return _mT_raw(blk(m.args[0], c0, c1, r0, r1))
    if m.op == 'mlit' and all(x is NONE or isnum(x)
                              for x in (r0, r1, c0, c1)):
        def py(x):
            return None if x is NONE else int(x.args[0])
        rows = m.args[py(r0):py(r1)]
        nc = len(range(len(m.args[0]))[py(c0):py(c1)])
        if not rows or not nc:
            return mk('zeros', C(len(rows)), C(nc))
        return mk('mlit', *[r[py(c0):py(c1)] for r in rows])
    if m.op == 'mmap' and all(x is NONE or nonneg(x)
                              for x in (r0, r1, c0, c1)):
        (i, j), n, q, body = m.args
        a, b = fresh_bv(), fresh_bv()
        return canon_binder('mmap', (a, b), (
            _extent(r0, r1, n), _extent(c0, c1, q),
            subst(body, {i: add(a, _z(r0)), j: add(b, _z(c0))})))
    if m.op == 'zeros':
        n, q = m.args
        if (r1 is NONE or nonneg(r1)) and (c1 is NONE or nonneg(c1)):
            return mk('zeros', _extent(r0, r1, n), _extent(c0, c1, q))
        return mk('zeros', _ext(r0, r1), _ext(c0, c1))
    if r0 is ZERO:
        r0 = NONE
    if c0 is ZERO:
        c0 = NONE
    s = mshape(m)
    if s is not None:
        if r1 is s[0]:
            r1 = NONE
        if c1 is s[1]:
            c1 = NONE
    if r0 is NONE and r1 is NONE and c0 is NONE and c1 is NONE:
        return m
    if m.op == 'mstore':
        b, a0, a1, b0, b1, v = m.args
        same_r, dis_r = _rel(r0, r1, a0, a1)
        same_c, dis_c = _rel(c0, c1, b0, b1)
        if dis_r or dis_c:
            return blk(b, r0, r1, c0, c1)
        if same_r and same_c:
            return v
    if m.op == 'blk' and all(x is NONE or nonneg(x)
                             for x in m.args[1:] + (r0, r1, c0, c1)):
        def comp(a0, a1, b0, b1):
            lo = add(_z(a0), _z(b0))
            return lo, (a1 if b1 is NONE else add(_z(a0), b1))
        return blk(m.args[0], *(comp(m.args[1], m.args[2], r0, r1) +
                                comp(m.args[3], m.args[4], c0, c1)))
    return mk('blk', m, r0, r1, c0, c1)


def mstore(m, r0, r1, c0, c1, v):
    """the block [r0:r1, c0:c1] of m replaced by v"""
    s = mshape(m)
    r0, c0 = _z(r0), _z(c0)
    if s is not None:
        if r1 is s[0]:
            r1 = NONE
        if c1 is s[1]:
            c1 = NONE
    if s is not None and isnum(s[0]) and isnum(s[1]) and \
            0 < s[0].args[0] <= 12 and 0 < s[1].args[0] <= 12 and \
            m.op in ('zeros', 'mlit') and all(
                x is NONE or isnum(x) for x in (r0, r1, c0, c1)):
        def py(x):
            return None if x is NONE else int(x.args[0])
        n, q = s[0].args[0], s[1].args[0]
        rows = [list(r) for r in m.args] if m.op == 'mlit' else \
            [[ZERO] * q for _ in range(n)]
        R, Q = range(n)[py(r0):py(r1)], range(q)[py(c0):py(c1)]
        ok = True
        if kind(v) != 'mat':
            vals = [[v] * len(Q) for _ in R] if len(R) * len(Q) == 1 \
                else None
        elif v.op == 'mlit' and (len(v.args), len(v.args[0])) == (
                len(R), len(Q)):
            vals = v.args
        elif v.op == 'zeros' and [isnum(x) and x.args[0] for x in
                                  v.args] == [len(R), len(Q)]:
            vals = [[ZERO] * len(Q) for _ in R]
        else:
            vals = None
        if vals is not None:
            for a, i in enumerate(R):
                for b, j in enumerate(Q):
                    rows[i][j] = vals[a][b]
            return mk('mlit', *[tuple(r) for r in rows])
    return mk('mstore', m, r0, r1, c0, c1, v)


def mel(m, r, c):
    return lift([m, r, c], _mel)


def _mel(m, r, c):
    if m.op == 'mlit' and isnum(r) and isnum(c):
        try:
            return m.args[r.args[0]][c.args[0]]
        except IndexError:
            pass
    if m.op == 'zeros':
        return ZERO
    if m.op == 'mmap' and nonneg(r) and nonneg(c):
        (i, j), n, q, body = m.args
        return subst(body, {i: r, j: c})
    if m.op == 'mT':
        return mel(m.args[0], c, r)
    return mk('mel', m, r, c)


def _ext(lo, hi):
    if lo is NONE:
        return hi
    if hi is NONE:
        return mk('rest', lo)
    return sub(hi, lo)


def _mT_raw(t):
    return mT(t)


def _z(x):
    return ZERO if x is NONE else x


def _rel(l0, l1, m0, m1):
    """(same, disjoint) for two index ranges"""
    same = _z(l0) is _z(m0) and l1 is m1
    dis = False
    if l1 is not NONE and le_known(l1, _z(m0)):
        dis = True
    if m1 is not NONE and le_known(m1, _z(l0)):
        dis = True
    return same, dis


def mperm(m, rows, cols):
    return lift([m, rows, cols], _mperm)


def _consts(s, n):
    """python indices of a constant selection, or None"""
    if s.op == 'slice' and all(x is NONE or isnum(x) for x in s.args):
        return list(range(n))[slice(*[None if x is NONE else int(x.args[0])
                                      for x in s.args])]
    if s.op == 'seq' and all(g.op == 'it' and isnum(g.args[0])
                             for g in s.args):
        return [int(g.args[0].args[0]) for g in s.args]
    if s.op == 'fm' and isnum(s.args[1]) and s.args[1].args[0] <= 12:
        return _consts(seq(*[splice(subst(s.args[2], {s.args[0][0]: C(k)}))
                             for k in range(int(s.args[1].args[0]))]), n)
    if isnum(s):
        return [int(s.args[0])]
    return None


def _mperm(m, rows, cols):
    if m.op == 'mlit':
        a = _consts(rows, len(m.args))
        b = _consts(cols, len(m.args[0]))
        if a and b and all(-len(m.args) <= i < len(m.args) for i in a) and \
                all(-len(m.args[0]) <= j < len(m.args[0]) for j in b):
            return mk('mlit', *[tuple(m.args[i][j] for j in b) for i in a])
    if m.op == 'mperm':
        a, b = _compose(m.args[1], rows), _compose(m.args[2], cols)
        if a is not None and b is not None:
            return mperm(m.args[0], a, b)
    if rows.op == 'fm' and cols.op == 'fm':
        a, b = consecutive(rows), consecutive(cols)
        if a is not None and b is not None:
            return blk(m, a[0], a[1], b[0], b[1])
    return mk('mperm', m, rows, cols)


def consecutive(r):
    """(lo, hi) when the sequence is lo..hi-1"""
    if r.op == 'fm':
        v, n, body = r.args[0][0], r.args[1], r.args[2]
        if body.op == 'seq' and len(body.args) == 1 and \
                body.args[0].op == 'it':
            off = sub(body.args[0].args[0], v)
            if v not in free_bv(off):
                return off, add(off, n)
    if r is EMPTY:
        return ZERO, ZERO
    return None


def _compose(p, q):
    """[p[i] for i in q] for sequences of nonnegative integers"""
    if p.op != 'seq' or q.op not in ('seq', 'fm'):
        return None
    out = []
    for g in segs(q):
        if g.op == 'it' and nonneg(g.args[0]):
            k, e = g.args[0], None
            for h in p.args:
                if h.op == 'it':
                    if k is ZERO:
                        e = h.args[0]
                        break
                    k = sub(k, ONE)
                elif h.op == 'fm' and h.args[2].op == 'seq' and \
                        len(h.args[2].args) == 1 and \
                        h.args[2].args[0].op == 'it':
                    if nonneg(k) and nonneg(sub(h.args[1], add(k, ONE))):
                        e = subst(h.args[2].args[0].args[0],
                                  {h.args[0][0]: k})
                        break
                    k = sub(k, h.args[1])
                else:
                    return None
                if not nonneg(k):
                    return None
            if e is None:
                return None
            out.append(it(e))
        elif g.op == 'fm' and g.args[2].op == 'seq' and \
                len(g.args[2].args) == 1 and g.args[2].args[0].op == 'it':
            v, e = g.args[0][0], g.args[2].args[0].args[0]
            c = sub(e, v)
            if v in free_bv(c) or not nonneg(c):
                return None
            r = sl(p, c, add(c, g.args[1]), NONE)
            if r.op == 'sl':
                return None
            out.append(splice(r))
        else:
            return None
    return seq(*out)


def _litrows(b):
    """(rows, columns, entries) of a literal matrix or None"""
    if b.op == 'mlit':
        return len(b.args), len(b.args[0]), b.args
    if b.op == 'zeros' and isnum(b.args[0]) and isnum(b.args[1]):
        n, m = int(b.args[0].args[0]), int(b.args[1].args[0])
        return n, m, [(ZERO,) * m] * n
    if b.op == 'eye' and isnum(b.args[0]):
        n = int(b.args[0].args[0])
        return n, n, [tuple(ONE if i == j else ZERO for j in range(n))
                      for i in range(n)]
    if b.op == 'poly' and kind(b) == 'mat':
        acc = None
        for sc, mt, co in b.args[0]:
            l = _litrows(mt[0]) if len(mt) == 1 else None
            if l is None:
                return None
            k = C(co)
            for f, e in sc:
                k = mul(k, power(f, C(e)))
            rows = [[mul(k, e) for e in r] for r in l[2]]
            if acc is None:
                acc = l[0], l[1], rows
            elif acc[:2] != l[:2]:
                return None
            else:
                acc = l[0], l[1], [[add(p, q) for p, q in zip(x, y)]
                                   for x, y in zip(acc[2], rows)]
        return acc
    if kind(b) == 'num' and b.op != 'star':
        return 1, 1, [(b,)]
    return None


def diag(*bs):
    ls = [_litrows(b) for b in bs]
    if any(l is None for l in ls) or not bs:
        return mk('diag', *bs)
    n, m = sum(l[0] for l in ls), sum(l[1] for l in ls)
    if n == 0 or m == 0:
        return mk('zeros', C(n), C(m))
    rows, c = [], 0
    for a, b, es in ls:
        for e in es:
            rows.append((ZERO,) * c + tuple(e) + (ZERO,) * (m - c - b))
        c += b
    return mk('mlit', *rows)


def hstack(*bs):
    ls = [_litrows(b) for b in bs]
    if len(bs) > 1 and all(l is not None for l in ls) and \
            len(set(l[0] for l in ls)) == 1:
        n, m = ls[0][0], sum(l[1] for l in ls)
        if n == 0 or m == 0:
            return mk('zeros', C(n), C(m))
        return mk('mlit', *[sum((tuple(l[2][i]) for l in ls), ())
                            for i in range(n)])
    return mk('hstack', *bs) if len(bs) != 1 else bs[0]


def vstack(*bs):
    ls = [_litrows(b) for b in bs]
    if len(bs) > 1 and all(l is not None for l in ls) and \
            len(set(l[1] for l in ls)) == 1:
        n, m = sum(l[0] for l in ls), ls[0][1]
        if n == 0 or m == 0:
            return mk('zeros', C(n), C(m))
        return mk('mlit', *[tuple(e) for l in ls for e in l[2]])
    return mk('vstack', *bs) if len(bs) != 1 else bs[0]


# --------------------------------------------------------------------------
# rebuild table (used by substitution)

def _rb_poly(items):
    out = ZERO
    for sc, mt, co in items:
        p = C(co)
        for f, e in sc:
            p = mul(p, power(f, C(e)))
        for f in mt:
            p = mul(p, f)
        out = add(out, p)
    return out


REBUILD = {
    'ite': lambda c, a, b: ite(as_bool(c), a, b),
    'poly': _rb_poly,
    'pow': power,
    'Sum': Sum,
    'fm': fm,
    'joinm': joinm,
    'fold': lambda bvs, *r: canon_binder('fold', bvs, r),
    'loop': lambda bvs, *r: canon_binder('loop', bvs, r),
    'last': lambda bvs, *r: canon_binder('last', bvs, r),
    'mmap': lambda bvs, *r: canon_binder('mmap', bvs, r),
    'mrow': lambda bvs, *r: canon_binder('mrow', bvs, r),
    'mstore': lambda *a: mstore(*a),
    'mel': lambda *a: mel(*a),
    'seq': lambda *s: seq(*s),
    'sp': lambda s: splice(s) if s.op != 'ite' else mk('sp', s),
    'idx': idx,
    'sl': sl,
    'len': lambda s: length(s) if s.op != 'fm' else _seglen(s),
    'lt': lambda a, b: lt(a, b),
    'eq': lambda a, b: eq(a, b),
    'in': lambda a, b: isin(a, b),
    'truth': lambda a: as_bool(a),
    'str': lambda *p: strcat(*[C(q) if isinstance(q, str) else
                               q for q in p]),
    'fmt': lambda t, spec: _refmt(t, spec),
    'dict': mkdict,
    'set': mkset,
    'blk': blk,
    'mT': mT,
    'inv': inv,
    'mperm': mperm,
    'diag': diag,
    'attr': lambda o, n: _rb_attr(o, n),
}


def _rb_attr(o, n):
    if n == 'shape' and o.op in ('poly', 'blk', 'mperm', 'mT', 'diag',
                                 'zeros', 'eye', 'mstore', 'inv'):
        s = mshape(o)
        if s is not None:
            return seq(it(s[0]), it(s[1]))
    return mk('attr', o, n)


def _refmt(t, spec):
    if t.op == 'ite':
        return ite(t.args[0], _refmt(t.args[1], spec),
                   _refmt(t.args[2], spec))
    if not spec and isc(t):
        return tostr(t)
    if not spec and kind(t) == 'str':
        return t
    return mk('fmt', t, spec)


# --------------------------------------------------------------------------
# printing

def pp(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(pp(e, depth) for e in t) + ')'
        return repr(t)
    if depth <= 0:
        return '..'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'c':
        return repr(a[0]) if not isinstance(a[0], Fraction) else str(a[0])
    if op == 'sym':
        return a[0]
    if op == 'attr':
        return pp(a[0], d) + '.' + str(a[1])
    if op in ('bv', 'phi'):
        return '%' + a[0]
    if op == 'ite':
        return 'ite(%s ? %s : %s)' % tuple(pp(x, d) for x in a)
    if op == 'poly':
        ms = []
        for sc, mt, co in a[0]:
            fs = [pp(f, d) + ('' if e == 1 else '^%s' % e) for f, e in sc]
            fs += [pp(f, d) for f in mt]
            cs = '' if co == 1 and fs else str(co)
            ms.append('*'.join(([cs] if cs else []) + fs))
        return '(' + ' + '.join(ms) + ')'
    if op == 'seq':
        return '[' + ', '.join(pp(s, d) for s in a) + ']'
    if op == 'it':
        return pp(a[0], d)
    if op == 'sp':
        return '*' + pp(a[0], d)
    if op == 'fm':
        return '[%s for %s<%s]' % (pp(a[2], d), pp(a[0], d), pp(a[1], d))
    if op == 'idx':
        return '%s[%s]' % (pp(a[0], d), pp(a[1], d))
    if op == 'len':
        return 'len(%s)' % pp(a[0], d)
    if op == 'ext' or op == 'builtin':
        return str(a[0])
    if op == 'call':
        return '%s(%s)' % (pp(a[0], d), ', '.join(pp(x, d) for x in a[1:]))
    if op == 'fn':
        return 'fn:' + str(a[0])
    return '%s(%s)' % (op, ', '.join(pp(x, d) for x in a))
