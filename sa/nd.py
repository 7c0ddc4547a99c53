"""Numpy arrays of literal shape with arbitrary entries.

An array is the term nd(shape, e0, e1, ...) (entries in row-major order).
Enabled by `use(machine)`."""
import ast
from fractions import Fraction
from . import terms as tm
from .terms import mk, C, seq, it, isnum, NONE, TRUE, FALSE, ZERO, ONE


def nd(shape, es):
    es = list(es)
    n = 1
    for s in shape:
        n *= s
    if n != len(es):
        raise ValueError('nd %s %d' % (shape, len(es)))
    return mk('nd', tuple(shape), *es)


def shape(t):
    return t.args[0]


def elems(t):
    return list(t.args[1:])


def size(sh):
    n = 1
    for s in sh:
        n *= s
    return n


def nested(t):
    """literal nested sequences (rectangular) to an array; None if not"""
    if t.op == 'nd':
        return t
    if t.op == 'mlit':
        return nd((len(t.args), len(t.args[0])),
                  [e for r in t.args for e in r])
    if t.op == 'zeros' and isnum(t.args[0]) and isnum(t.args[1]):
        s = (int(t.args[0].args[0]), int(t.args[1].args[0]))
        return nd(s, [ZERO] * size(s))
    if t.op == 'seq':
        if any(g.op != 'it' for g in t.args):
            return None
        if not t.args:
            return nd((0,), [])
        subs = [nested(g.args[0]) for g in t.args]
        if any(s is None for s in subs):
            return None
        if len({shape(s) for s in subs}) != 1:
            return None
        return nd((len(subs),) + shape(subs[0]),
                  [e for s in subs for e in elems(s)])
    if t.op in ('fm', 'sl', 'keys', 'dict', 'set', 'new', 'slice') or \
            tm.kind(t) in ('mat', 'seq', 'dict', 'set', 'fn', 'obj', 'none'):
        return None
    return nd((), [t])


def unnest(t):
    """array to nested sequences (0-d: the entry)"""
    sh, es = shape(t), elems(t)
    if not sh:
        return es[0]
    if len(sh) == 1:
        return seq(*[it(e) for e in es])
    k = size(sh[1:])
    return seq(*[it(unnest(nd(sh[1:], es[i * k:(i + 1) * k])))
                 for i in range(sh[0])])


def rows(t):
    sh, es = shape(t), elems(t)
    k = size(sh[1:])
    return [scalar(nd(sh[1:], es[i * k:(i + 1) * k])) for i in range(sh[0])]


def scalar(t):
    return elems(t)[0] if t.op == 'nd' and not shape(t) else t


def lit(t):
    """python value of a literal index (None unknown)"""
    if t.op == 'c':
        v = t.args[0]
        if isinstance(v, Fraction):
            return None
        return v
    return Unknown


class Unknown(object):
    pass


def index(sh, key):
    """key: term (or seq of terms). Returns (result shape, flat positions)
    or None"""
    keys = key
    out = []          # per input axis: ('all', list, keepaxis)
    ax = 0
    axes = []         # list of ('new',) or ('sel', positions, keep)
    for k in keys:
        if k is NONE:
            axes.append(('new',))
            continue
        if ax >= len(sh):
            return None
        n = sh[ax]
        if k.op == 'slice':
            v = [lit(x) for x in k.args]
            if any(x is Unknown for x in v):
                return None
            axes.append(('sel', list(range(n))[slice(*v)], True))
        elif isnum(k):
            i = int(k.args[0])
            if not -n <= i < n:
                return None
            axes.append(('sel', [i % n if n else i], False))
        else:
            a = nested(k)
            if a is None or len(shape(a)) != 1:
                return None
            es = elems(a)
            if es and all(e is TRUE or e is FALSE for e in es):
                if len(es) != n:
                    return None
                es = [C(i) for i, e in enumerate(es) if e is TRUE]
            if any(not isnum(e) for e in es):
                return None
            ii = [int(e.args[0]) for e in es]
            if any(not -n <= i < n for i in ii):
                return None
            axes.append(('fancy', [i % n for i in ii], True))
        ax += 1
    while ax < len(sh):
        axes.append(('sel', list(range(sh[ax])), True))
        ax += 1
    if sum(a[0] == 'fancy' for a in axes) > 1:
        # numpy pairs them; only the case of equal lengths
        f = [a for a in axes if a[0] == 'fancy']
        if len(axes) != 2 or len(f[0][1]) != len(f[1][1]):
            return None
        return (len(f[0][1]),), [i * sh[1] + j for i, j in zip(f[0][1],
                                                              f[1][1])]
    rsh = []
    pos = [0]
    k = 0
    for a in axes:
        if a[0] == 'new':
            rsh.append(1)
            continue
        st = size(sh[k + 1:])
        pos = [p + i * st for p in pos for i in a[1]]
        if a[2]:
            rsh.append(len(a[1]))
        k += 1
    return tuple(rsh), pos


def keyseq(m, st, k):
    k = m.snapshot(st, k)
    return k


def splitkey(raw, k):
    """index terms: a tuple index is a (non allocated) seq"""
    if raw.op == 'seq':
        return [g.args[0] for g in k.args]
    return [k]


def get(m, st, c, raw, k):
    r = index(shape(c), splitkey(raw, k))
    if r is None:
        return None
    es = elems(c)
    out = nd(r[0], [es[p] for p in r[1]])
    return scalar(out) if not r[0] else m.alloc(st, out)


def broadcast(t, sh):
    """entries of t broadcast to shape sh"""
    if t.op != 'nd':
        return [t] * size(sh)
    s = shape(t)
    es = elems(t)
    while len(s) > len(sh) and s[0] == 1:
        s = s[1:]
    if len(s) > len(sh):
        return None
    s = (1,) * (len(sh) - len(s)) + tuple(s)
    if any(a != b and a != 1 for a, b in zip(s, sh)):
        return None
    out = []
    idx = [0] * len(sh)
    for _ in range(size(sh)):
        p = 0
        for d in range(len(sh)):
            p = p * s[d] + (idx[d] if s[d] != 1 else 0)
        out.append(es[p])
        for d in reversed(range(len(sh))):
            idx[d] += 1
            if idx[d] < sh[d]:
                break
            idx[d] = 0
    return out


def common(a, b):
    if a.op != 'nd':
        return shape(b)
    if b.op != 'nd':
        return shape(a)
    s, t = shape(a), shape(b)
    n = max(len(s), len(t))
    s = (1,) * (n - len(s)) + tuple(s)
    t = (1,) * (n - len(t)) + tuple(t)
    out = []
    for x, y in zip(s, t):
        if x != y and 1 not in (x, y):
            return None
        out.append(y if x == 1 else x)
    return tuple(out)


def elementwise(f, a, b):
    sh = common(a, b)
    if sh is None:
        return None
    x, y = broadcast(a, sh), broadcast(b, sh)
    if x is None or y is None:
        return None
    return nd(sh, [f(u, v) for u, v in zip(x, y)])


def put(m, st, c, raw, k, v):
    r = index(shape(c), splitkey(raw, k))
    if r is None:
        return None
    val = m.snapshot(st, v)
    if val.op == 'seq':
        val = nested(val)
        if val is None:
            return None
    vs = broadcast(val, r[0])
    if vs is None:
        if val.op == 'nd':
            return m.raised('ValueError')
        return None
    es = elems(c)
    for p, x in zip(r[1], vs):
        es[p] = x
    return nd(shape(c), es)


OPS = {ast.Add: tm.add, ast.Sub: tm.sub, ast.Mult: tm.mul, ast.Div: tm.div,
       ast.Pow: tm.power}


def bool01(t):
    return ONE if t is TRUE else ZERO if t is FALSE else t


def binop(m, st, t, a, b):
    f = OPS.get(t)
    if f is None:
        if t is ast.BitAnd:
            f = tm.and_
        elif t is ast.MatMult:
            return dot(a, b)
        else:
            return None
    if a.op == 'seq' or b.op == 'seq':
        a, b = nested(a), nested(b)
    if a is None or b is None:
        return None
    r = elementwise(f, a, b)
    if r is None:
        return None
    return scalar(r) if not shape(r) else m.alloc(st, r)


def transpose(t):
    sh, es = shape(t), elems(t)
    if len(sh) < 2:
        return t
    if len(sh) != 2:
        return None
    return nd((sh[1], sh[0]), [es[i * sh[1] + j] for j in range(sh[1])
                               for i in range(sh[0])])


def dot(a, b):
    s, t = shape(a), shape(b)
    if len(s) == 0 or len(t) == 0:
        return elementwise(tm.mul, a, b)
    if s[-1] != t[0 if len(t) == 1 else -2] or len(s) > 2 or len(t) > 2:
        return None
    A = [elems(a)] if len(s) == 1 else [elems(a)[i * s[1]:(i + 1) * s[1]]
                                        for i in range(s[0])]
    B = [[e] for e in elems(b)] if len(t) == 1 else \
        [elems(b)[i * t[1]:(i + 1) * t[1]] for i in range(t[0])]
    out = []
    for r in A:
        for j in range(len(B[0]) if B else 0):
            v = ZERO
            for k, x in enumerate(r):
                v = tm.add(v, tm.mul(x, B[k][j]))
            out.append(v)
    sh = tuple(([s[0]] if len(s) == 2 else []) +
               ([t[1]] if len(t) == 2 else []))
    return nd(sh, out)


def total(t, axis=None):
    sh, es = shape(t), elems(t)
    if axis is None:
        v = ZERO
        for e in es:
            v = tm.add(v, bool01(e))
        return v
    if len(sh) == 1:
        return total(t)
    if len(sh) != 2:
        return None
    if axis in (1, -1):
        return nd((sh[0],), [total(r) for r in rows(t)])
    return total(transpose(t), 1)


def inverse(t):
    """inverse of a literal matrix of numbers"""
    sh = shape(t)
    es = elems(t)
    if len(sh) != 2 or sh[0] != sh[1] or any(not isnum(e) for e in es):
        return None
    n = sh[0]
    a = [[Fraction(es[i * n + j].args[0]) for j in range(n)] +
         [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = [r for r in range(c, n) if a[r][c] != 0]
        if not p:
            return 'singular'
        a[c], a[p[0]] = a[p[0]], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c and a[r][c] != 0:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return nd((n, n), [C(x) for r in a for x in r[n:]])


def cmp(f, a, b):
    if a.op == 'seq' or b.op == 'seq':
        a, b = nested(a), nested(b)
    if a is None or b is None:
        return None
    return elementwise(f, a, b)


# ------------------------------------------------------------ the machine

def arr(m, st, a):
    return nested(m.snapshot(st, a))


def attr(m, st, c, name):
    if name == 'shape':
        return seq(*[it(C(s)) for s in shape(c)])
    if name == 'T':
        r = transpose(c)
        return m.alloc(st, r) if r is not None else None
    if name == 'ndim':
        return C(len(shape(c)))
    if name == 'size':
        return C(size(shape(c)))
    if name == 'dtype':
        return mk('sym', 'dtype', '?')
    return None


def meth(m, st, obj, c, name, args, kw):
    a = [m.snapshot(st, x) for x in args]
    k = {n: m.snapshot(st, v) for n, v in kw.items()}
    if name in ('copy', 'astype', 'todense', 'toarray', '__copy__'):
        return m.alloc(st, c)
    if name == 'tolist':
        return relist(m, st, unnest(c))
    if name in ('flatten', 'ravel'):
        return m.alloc(st, nd((size(shape(c)),), elems(c)))
    if name == 'sum':
        ax = a[0] if a else k.get('axis', NONE)
        r = total(c, None if ax is NONE else int(ax.args[0]))
        return m.alloc(st, r) if r is not None and r.op == 'nd' else r
    if name == 'reshape':
        if len(a) == 1 and a[0].op == 'seq':
            a = [g.args[0] for g in a[0].args]
        if any(not isnum(x) for x in a):
            return None
        s = [int(x.args[0]) for x in a]
        if -1 in s:
            i = s.index(-1)
            o = 1
            for j, x in enumerate(s):
                if j != i:
                    o *= x
            s[i] = size(shape(c)) // o if o else 0
        if size(s) != size(shape(c)):
            return None
        return m.alloc(st, nd(s, elems(c)))
    if name == 'dot':
        b = nested(a[0])
        r = dot(c, b) if b is not None else None
        return None if r is None else scalar(r) if not shape(r) \
            else m.alloc(st, r)
    if name in ('all', 'any') and not a and not k:
        r = TRUE if name == 'all' else FALSE
        for e in elems(c):
            e = tm.as_bool(e)
            r = tm.and_(r, e) if name == 'all' else tm.or_(r, e)
        return r
    return None


def relist(m, st, t):
    if t.op == 'seq':
        return m.alloc(st, seq(*[it(relist(m, st, g.args[0]))
                                 for g in t.args]))
    return t


def _array(m, st, args, kw):
    a = arr(m, st, args[0])
    return None if a is None else m.alloc(st, a)


def _shape(m, st, x):
    s = m.snapshot(st, x)
    if isnum(s):
        return (int(s.args[0]),)
    a = nested(s)
    if a is None or any(not isnum(e) for e in elems(a)):
        return None
    return tuple(int(e.args[0]) for e in elems(a))


def _full(v):
    def f(m, st, args, kw):
        s = _shape(m, st, args[0] if args else kw['shape'])
        return None if s is None else m.alloc(st, nd(s, [v] * size(s)))
    return f


def _abs(m, st, args, kw):
    a = arr(m, st, args[0])
    if a is None or any(not isnum(e) for e in elems(a)):
        return None
    return m.alloc(st, nd(shape(a), [C(abs(e.args[0])) for e in elems(a)]))


def _nonzero(m, st, args, kw):
    a = arr(m, st, args[0])
    if a is None or len(shape(a)) != 1 or any(
            e.op != 'c' for e in elems(a)):
        return None
    ii = [i for i, e in enumerate(elems(a)) if e.args[0]]
    return seq(it(m.alloc(st, nd((len(ii),), [C(i) for i in ii]))))


def _inv(m, st, args, kw):
    a = arr(m, st, args[0])
    r = inverse(a) if a is not None else None
    if r == 'singular' or a is not None and len(set(shape(a))) > 1:
        m.raised('LinAlgError')
        return None
    return None if r is None else m.alloc(st, r)


def _hstack(m, st, args, kw):
    t = m.snapshot(st, args[0])
    if t.op != 'seq':
        return None
    a = [nested(g.args[0]) for g in t.args]
    if any(x is None for x in a):
        return None
    if all(len(shape(x)) == 1 for x in a):
        es = [e for x in a for e in elems(x)]
        return m.alloc(st, nd((len(es),), es))
    if any(len(shape(x)) != 2 for x in a) or \
            len({shape(x)[0] for x in a}) != 1:
        return None
    n = shape(a[0])[0]
    out = []
    for i in range(n):
        for x in a:
            k = shape(x)[1]
            out.extend(elems(x)[i * k:(i + 1) * k])
    return m.alloc(st, nd((n, sum(shape(x)[1] for x in a)), out))


def _einsum(m, st, args, kw):
    t = m.snapshot(st, args[0])
    if not tm.isc(t) or len(args) != 3:
        return None
    a, b = [arr(m, st, x) for x in args[1:]]
    if a is None or b is None:
        return None
    e = t.args[0].replace(' ', '')
    if e in ('i,i', 'i,i->') and len(shape(a)) == 1 == len(shape(b)):
        return scalar(dot(a, b))
    if e == 'ti,ti->t' and len(shape(a)) == 2 and shape(a) == shape(b):
        return m.alloc(st, total(elementwise(tm.mul, a, b), 1))
    if e == 'ti,ti->t' and len(shape(a)) == 2 == len(shape(b)) and \
            any(x != y and 1 not in (x, y)
                for x, y in zip(shape(a), shape(b))):
        return m.raised('ValueError')
    return None


def _dot(m, st, args, kw):
    a, b = [arr(m, st, x) for x in args[:2]]
    r = dot(a, b) if a is not None and b is not None else None
    return None if r is None else scalar(r) if not shape(r) else \
        m.alloc(st, r)


def _arange(m, st, args, kw):
    v = [m.snapshot(st, x) for x in args]
    if any(not isnum(x) for x in v):
        return None
    r = [C(x) for x in range(*[int(x.args[0]) for x in v])]
    return m.alloc(st, nd((len(r),), r))


def _ediff(m, st, args, kw):
    a = arr(m, st, args[0])
    if a is None:
        return None
    es = elems(a)
    out = [tm.sub(y, x) for x, y in zip(es, es[1:])]
    if 'to_end' in kw:
        b = arr(m, st, kw['to_end'])
        if b is None:
            return None
        out += elems(b)
    if 'to_begin' in kw:
        return None
    return m.alloc(st, nd((len(out),), out))


def _prod(m, st, args, kw):
    a = arr(m, st, args[0])
    if a is None:
        return None
    v = ONE
    for e in elems(a):
        v = tm.mul(v, e)
    return v


def _sum(m, st, args, kw):
    a = arr(m, st, args[0])
    if a is None:
        return None
    return meth(m, st, None, a, 'sum', args[1:], kw)


def _binary(f):
    def g(m, st, args, kw):
        if len(args) != 2 or kw:
            return None
        a, b = [arr(m, st, x) for x in args]
        if a is None or b is None:
            a, b = [m.snapshot(st, x) if y is None else y
                    for x, y in zip(args, (a, b))]
            if any(x.op != 'nd' and tm.kind(x) != 'num' for x in (a, b)):
                return None
        if a.op != 'nd' and b.op != 'nd':
            return f(a, b)
        r = elementwise(f, a, b)
        return None if r is None else m.alloc(st, r)
    return g


EXT = {'add': _binary(tm.add), 'subtract': _binary(tm.sub),
       'multiply': _binary(tm.mul), 'divide': _binary(tm.div), 'array': _array, 'asarray': _array, 'zeros': _full(ZERO),
       'ones': _full(ONE), 'abs': _abs, 'absolute': _abs,
       'nonzero': _nonzero, 'linalg.inv': _inv, 'hstack': _hstack,
       'einsum': _einsum, 'dot': _dot, 'arange': _arange,
       'ediff1d': _ediff, 'prod': _prod, 'sum': _sum}


def use(m):
    m.nd = True
    m.fancy = False
    tm.ORDERED[0] = True
    for n, f in EXT.items():
        m.extmodels['numpy.' + n] = f
