"""Refutation of term equalities by small models.

When two terms have different normal forms they may still denote the same
value (two ways of writing a permutation, a filtered comprehension instead of
slices, ...).  Both are then evaluated in a number of small models: every
uninterpreted symbol, attribute and function gets a value determined by a
hash, sequences get small lengths, matrices random entries.  Terms that
differ in a model are different; terms that agree in all of them are left
undecided.  Only terms are evaluated, never repository code."""
import hashlib
from fractions import Fraction
from . import terms as tm
from .terms import T, isc, isnum, kind


class Unsupported(Exception):
    pass


class Invalid(Exception):
    """the model does not satisfy the assumptions (index out of range)"""


class Seq(tuple):
    def __repr__(self):
        return 'Seq' + tuple.__repr__(self)


class Map(object):
    def __init__(self, pairs):
        self.d = {}
        for k, v in pairs:
            self.d[k] = v
        self.h = hash(frozenset(self.d.items()))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Map) and self.d == o.d

    def __repr__(self):
        return 'Map%r' % (sorted(self.d.items(), key=repr),)


class Mat(object):
    def __init__(self, n, m, rows):
        self.n, self.m = n, m
        self.rows = tuple(tuple(r) for r in rows)
        self.h = hash((n, m, self.rows))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Mat) and (self.n, self.m, self.rows) == \
            (o.n, o.m, o.rows)

    def __repr__(self):
        return 'Mat(%d,%d,%r)' % (self.n, self.m, self.rows)

    @staticmethod
    def zeros(n, m):
        if not (0 <= n <= 60 and 0 <= m <= 60):
            raise Invalid('size')
        return Mat(n, m, [[0] * m for _ in range(n)])

    def T(self):
        return Mat(self.m, self.n, zip(*self.rows) if self.n else
                   [()] * self.m)

    def block(self, r, c):
        return Mat(len(r), len(c), [[self.rows[i][j] for j in c] for i in r])

    def __add__(self, o):
        if (self.n, self.m) != (o.n, o.m):
            raise Invalid('shapes')
        return Mat(self.n, self.m, [[a + b for a, b in zip(x, y)]
                                    for x, y in zip(self.rows, o.rows)])

    def scale(self, k):
        return Mat(self.n, self.m, [[k * a for a in x] for x in self.rows])

    def __matmul__(self, o):
        if self.m != o.n:
            raise Invalid('shapes')
        cols = o.T().rows
        return Mat(self.n, o.m, [[sum(a * b for a, b in zip(x, y))
                                  for y in cols] for x in self.rows])

    def inv(self):
        if self.n != self.m:
            raise Invalid('shapes')
        n = self.n
        a = [[Fraction(v) for v in r] + [Fraction(int(i == j))
                                         for j in range(n)]
             for i, r in enumerate(self.rows)]
        for c in range(n):
            p = next((r for r in range(c, n) if a[r][c] != 0), None)
            if p is None:
                raise Invalid('singular')
            a[c], a[p] = a[p], a[c]
            q = a[c][c]
            a[c] = [v / q for v in a[c]]
            for r in range(n):
                if r != c and a[r][c] != 0:
                    f = a[r][c]
                    a[r] = [x - f * y for x, y in zip(a[r], a[c])]
        return Mat(n, n, [[fix(v) for v in r[n:]] for r in a])


def fix(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


SHAPES, SYMSHAPES = tm.SHAPES, tm.SYMSHAPES
INTERP = {'c', 'ite', 'lt', 'eq', 'in', 'truth', 'any', 'poly', 'pow', 'Sum',
          'fm', 'seq', 'it', 'sp', 'idx', 'sl', 'len', 'str', 'fmt', 'joinm',
          'join', 'dict', 'pair', 'set', 'blk', 'mT', 'inv', 'mperm', 'keys',
          'order', 'mstore', 'zeros', 'eye', 'diag', 'hstack', 'vstack',
          'mlit', 'mmap', 'mrow', 'colvec', 'mel', 'mel1', 'sdel', 'sins', 'index', 'count',
          'ddel', 'first', 'lastidx', 'minlen', 'flat', 'store', 'fold',
          'foldat', 'setdiff', 'setdifference', 'setintersection', 'sym',
          'attr', 'bv', 'phi', 'slice', 'sorted', 'floordiv', 'mtolist',
          'dim', 'rest', 'loop', 'star', 'kw', 'mdel', 'mins', 'mswap',
          'strrep', 'unInvert', 'mstorex', 'matrc'}
MAXLOOP = 400


class Model(object):
    def __init__(self, seed, hints):
        self.seed = seed
        self.hints = hints
        self.memo = {}
        self.uninterpreted = set()

    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(),
                            digest_size=8).digest()
        return int.from_bytes(d, 'big')

    def key(self, v):
        if isinstance(v, frozenset):
            return ('S',) + tuple(sorted(repr(self.key(e)) for e in v))
        if isinstance(v, Map):
            return ('D',) + tuple(sorted((repr(self.key(k)),
                                          repr(self.key(e)))
                                         for k, e in v.d.items()))
        if isinstance(v, Seq):
            return ('L',) + tuple(self.key(e) for e in v)
        if isinstance(v, Mat):
            return ('M', v.n, v.m, tuple(tuple(repr(self.key(e)) for e in r)
                                         for r in v.rows))
        if isinstance(v, tuple):
            return tuple(self.key(e) for e in v)
        return repr(v)

    # value of an uninterpreted thing identified by k, of the given kind
    def value(self, k, kd, t=None):
        if t is not None and t in self.hints:
            cand = self.hints[t]
            n = self.h('hint', k)
            if n % 2:
                c = cand[(n // 2) % len(cand)]
                if not isinstance(c, T):
                    return c
        if kd == 'nat':
            return self.h('nat', k) % 4
        if kd == 'str':
            return 's%d' % (self.h('str', k) % 100000)
        if kd == 'bool':
            return bool(self.h('bool', k) % 2)
        if kd == 'seq':
            n = 1 + self.h('len', k) % 4
            return Seq(self.value((k, i), 'num') for i in range(n))
        if kd == 'set':
            n = 1 + self.h('len', k) % 4
            return frozenset(self.value((k, i), 'num') for i in range(n))
        if kd == 'dict':
            n = 1 + self.h('len', k) % 3
            return Map((self.value((k, 'k', i), 'num'),
                        self.value((k, 'v', i), 'num')) for i in range(n))
        if kd == 'mat':
            n = 2 + self.h('n') % 3
            return self.matrix(k, n, n)
        return 1000 + self.h('val', k) % 1000003

    def matrix(self, k, n, m):
        if n > 60 or m > 60 or n < 0 or m < 0:
            raise Invalid('size')
        return Mat(n, m, [[self.h('mat', k, i, j) % 97 - 48
                           for j in range(m)] for i in range(n)])

    # coercions
    def toseq(self, v):
        if isinstance(v, Seq):
            return v
        if isinstance(v, Map):
            return Seq(v.d)
        if isinstance(v, frozenset):
            return Seq(sorted(v, key=repr))
        if isinstance(v, str):
            return Seq(v)
        if isinstance(v, Mat):
            return Seq(e for r in v.rows for e in r)
        if isinstance(v, int) and v >= 1000:
            n = 1 + self.h('len', v) % 4
            return Seq(self.value(('el', v, i), 'num') for i in range(n))
        raise Unsupported('not a sequence: %r' % (v,))

    def tomat(self, v):
        if isinstance(v, Mat):
            return v
        if v == 0 and not isinstance(v, bool):
            raise Unsupported('scalar zero as a matrix')
        raise Unsupported('not a matrix')

    def tonum(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            return v
        if isinstance(v, float):
            return Fraction(v)
        raise Unsupported('not a number: %s' % type(v).__name__)

    def toint(self, v):
        v = fix(self.tonum(v))
        if not isinstance(v, int):
            raise Invalid('not an integer')
        return v

    def truthy(self, v, t):
        if v is None or isinstance(v, bool):
            return bool(v)
        if isinstance(v, (Seq, Map, frozenset, str)):
            if isinstance(v, Map):
                return bool(v.d)
            return bool(v)
        if t.op in ('sym', 'attr', 'idx', 'call', 'mel'):
            return bool(self.h('truth', self.key(v)) % 2)
        return bool(v)

    # ------------------------------------------------------------ evaluation
    def ev(self, t, env=None):
        if env:
            fb = tm.free_bv(t)
            if fb:
                k = (t, tuple(env.get(v) for v in sorted(fb)))
            else:
                k = t
        else:
            k = t
        if k in self.memo:
            return self.memo[k]
        r = self.ev1(t, env or {})
        if isinstance(r, Fraction):
            r = fix(r)
        self.memo[k] = r
        if len(self.memo) > 200000:
            raise Unsupported('size')
        return r

    def ev1(self, t, env):
        f = getattr(self, 'op_' + t.op, None)
        if f is not None:
            return f(t, env)
        return self.opaque(t, env)

    def opaque(self, t, env, kd=None):
        """an uninterpreted operator applied to evaluated arguments"""
        def e(a):
            if isinstance(a, T):
                return self.key(self.ev(a, env))
            if isinstance(a, tuple):
                return tuple(e(x) for x in a)
            return repr(a)
        if t.op in tm.BINDERS:
            raise Unsupported(t.op)
        if t.op in ('new', 'glob', 'objdict', 'gval', 'undef', 'bottom',
                    'unbound', 'astunk'):
            raise Unsupported(t.op)
        self.uninterpreted.add(t.op)
        k = (t.op,) + tuple(e(a) for a in t.args)
        kk = kd or kind(t)
        if kk == 'mat':
            raise Unsupported('matrix ' + t.op)
        return self.value(k, kk, t)

    def op_c(self, t, env):
        return t.args[0]

    def op_bv(self, t, env):
        if t in env:
            return env[t]
        raise Unsupported('free variable')

    op_phi = op_bv

    def op_sym(self, t, env):
        if t.args[0] in SYMSHAPES:
            n, m = [self.toint(self.ev(x, env))
                    for x in SYMSHAPES[t.args[0]](t)]
            return self.matrix(t.args[0], n, m)
        return self.atom(t, t.args, env)

    def atom(self, t, k, env):
        kd = kind(t)
        if kd == 'seq':
            L = tm.length(t)
            if L.op == 'len' and L.args[0] is t:
                n = 1 + self.h('len', k) % 4
            else:
                n = self.toint(self.ev(L, env))
            if n < 0 or n > 60:
                raise Invalid('length')
            return Seq(self.value((k, i), 'num') for i in range(n))
        return self.value(k, kd, t)

    def op_attr(self, t, env):
        b, a = t.args
        if a == 'shape':
            m = self.ev(b, env)
            if isinstance(m, Mat):
                return Seq((m.n, m.m))
        if a == 'is_zero' and kind(b) == 'mat':
            m = self.ev(b, env)
            return all(e == 0 for r in m.rows for e in r)
        if a in SHAPES and kind(t) == 'mat':
            n, m = [self.toint(self.ev(x, env)) for x in SHAPES[a](b)]
            return self.matrix((self.key(self.ev(b, env)), a), n, m)
        k = (a, self.key(self.ev(b, env)))
        kd = kind(t)
        if a in tm.NONNEG_ATTR:
            kd = 'nat'
        if kd == 'seq':
            return self.atom(t, k, env)
        return self.value(k, kd, t)

    def op_ite(self, t, env):
        c = self.ev(t.args[0], env)
        return self.ev(t.args[1] if c else t.args[2], env)

    def op_lt(self, t, env):
        a, b = [self.ev(x, env) for x in t.args]
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        return self.tonum(a) < self.tonum(b)

    def op_eq(self, t, env):
        a, b = [self.ev(x, env) for x in t.args]
        return a == b

    def op_in(self, t, env):
        a, s = self.ev(t.args[0], env), t.args[1]
        if s.op in ('fm', 'it', 'sp'):
            c = self.items([s], env)
        else:
            c = self.ev(s, env)
        if isinstance(c, Map):
            return a in c.d
        if isinstance(c, str) and isinstance(a, str):
            return a in c
        return a in self.toseq(c)

    def op_truth(self, t, env):
        return self.truthy(self.ev(t.args[0], env), t.args[0])

    def op_any(self, t, env):
        s = self.items([t.args[0]], env)
        return any(bool(v) for v in s)

    def num_or_mat(self, v):
        if isinstance(v, Mat):
            return v
        return self.tonum(v)

    def op_poly(self, t, env):
        tot = None
        for sc, mt, co in t.args[0]:
            c = co
            for f, e in sc:
                v = self.num_or_mat(self.ev(f, env))
                if isinstance(v, Mat):
                    raise Unsupported('matrix as scalar')
                if e < 0 and v == 0:
                    raise Invalid('division')
                c = c * (Fraction(v) ** e if e < 0 else v ** e)
            if mt:
                m = None
                for f in mt:
                    w = self.ev(f, env)
                    if not isinstance(w, Mat):
                        raise Unsupported('scalar as matrix')
                    m = w if m is None else m @ w
                c = m.scale(c)
            if tot is None:
                tot = c
            elif isinstance(tot, Mat) and isinstance(c, Mat):
                tot = tot + c
            elif isinstance(tot, Mat) or isinstance(c, Mat):
                raise Unsupported('scalar plus matrix')
            else:
                tot = tot + c
        if isinstance(tot, Mat):
            return Mat(tot.n, tot.m, [[fix(e) for e in r] for r in tot.rows])
        return 0 if tot is None else fix(tot)

    def op_pow(self, t, env):
        a, b = [self.ev(x, env) for x in t.args]
        if isinstance(b, int) and not isinstance(a, Mat) and abs(b) < 9:
            a = self.tonum(a)
            if a == 0 and b < 0:
                raise Invalid('division')
            return Fraction(a) ** b
        return self.value(('pow', self.key(a), self.key(b)), 'num')

    def op_floordiv(self, t, env):
        a, b = [self.toint(self.ev(x, env)) for x in t.args]
        if b == 0:
            raise Invalid('division')
        return a // b

    def count(self, n, env):
        n = self.toint(self.ev(n, env))
        if n > MAXLOOP:
            raise Unsupported('iterations')
        return max(0, n)

    def op_Sum(self, t, env):
        (v,), n, body = t.args
        tot = None
        for i in range(self.count(n, env)):
            w = self.num_or_mat(self.ev(body, self.bind(env, v, i)))
            tot = w if tot is None else tot + w
        return 0 if tot is None else tot

    def bind(self, env, v, x):
        e = dict(env)
        e[v] = x
        return e

    def items(self, sg, env):
        out = []
        for g in sg:
            if g.op == 'it':
                out.append(self.ev(g.args[0], env))
            elif g.op == 'sp':
                out.extend(self.toseq(self.ev(g.args[0], env)))
            elif g.op == 'fm':
                (v,), n, body = g.args
                for i in range(self.count(n, env)):
                    out.extend(self.toseq(self.ev(body, self.bind(env, v,
                                                                  i))))
            elif g.op == 'ite':
                c = self.ev(g.args[0], env)
                out.extend(self.items([g.args[1] if c else g.args[2]], env))
            else:
                out.extend(self.toseq(self.ev(g, env)))
            if len(out) > 2000:
                raise Unsupported('length')
        return out

    def op_seq(self, t, env):
        return Seq(self.items(t.args, env))

    def op_fm(self, t, env):
        return Seq(self.items([t], env))

    def op_flat(self, t, env):
        out = []
        for e in self.items([t.args[0]], env):
            out.extend(self.toseq(e))
        return Seq(out)

    def op_it(self, t, env):
        return Seq((self.ev(t.args[0], env),))

    def op_sp(self, t, env):
        return self.ev(t.args[0], env)

    def op_idx(self, t, env):
        s, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(s, Map):
            if k in s.d:
                return s.d[k]
            if t.args[0].op in ('dict',):
                raise Invalid('key')
            return self.value(('idx', self.key(s), self.key(k)), 'num', t)
        if isinstance(s, (Seq, str)):
            if isinstance(k, str):
                return self.value(('idx', self.key(s), self.key(k)), 'num', t)
            k = self.toint(k)
            if not -len(s) <= k < len(s):
                raise Invalid('index')
            return s[k]
        if isinstance(s, frozenset):
            raise Unsupported('set index')
        if isinstance(s, Mat) and not isinstance(k, (str, Seq)):
            fl = [e for r in s.rows for e in r]
            k = self.toint(k)
            if not -len(fl) <= k < len(fl):
                raise Invalid('index')
            return fl[k]
        kd = kind(t)
        if kd == 'mat' or isinstance(s, Mat):
            raise Unsupported('matrix idx')
        return self.value(('idx', self.key(s), self.key(k)), kd, t)

    def bounds(self, lo, hi, st, n, env):
        f = []
        for x in (lo, hi, st):
            v = self.ev(x, env)
            if v is not None:
                v = self.toint(v)
            f.append(v)
        return range(n)[slice(*f)]

    def op_sl(self, t, env):
        s = self.ev(t.args[0], env)
        if isinstance(s, str):
            return ''.join(s[i] for i in self.bounds(*t.args[1:], n=len(s),
                                                     env=env))
        s = self.toseq(s)
        return Seq(s[i] for i in self.bounds(*t.args[1:], n=len(s), env=env))

    def op_len(self, t, env):
        a = t.args[0]
        if a.op in ('fm', 'it', 'sp'):
            return len(self.items([a], env))
        v = self.ev(a, env)
        if isinstance(v, Map):
            return len(v.d)
        if isinstance(v, frozenset):
            return len(v)
        return len(self.toseq(v))

    def op_minlen(self, t, env):
        return min(self.toint(self.ev(a, env)) for a in t.args)

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Fraction):
            return repr(float(v))
        return repr(v)

    def op_fmt(self, t, env):
        v = self.ev(t.args[0], env)
        if t.args[1]:
            return '<%s:%s>' % (self.text(v), t.args[1])
        return self.text(v)

    def op_str(self, t, env):
        return ''.join(p if isinstance(p, str) else
                       self.text(self.ev(p, env)) for p in t.args)

    def op_joinm(self, t, env):
        (v,), n, body = t.args
        return ''.join(self.text(self.ev(body, self.bind(env, v, i)))
                       for i in range(self.count(n, env)))

    def op_join(self, t, env):
        return self.text(self.ev(t.args[0], env)).join(
            self.text(e) for e in self.toseq(self.ev(t.args[1], env)))

    def op_dict(self, t, env):
        out = []
        for e in t.args:
            if e.op == 'pair':
                out.append((self.ev(e.args[0], env), self.ev(e.args[1], env)))
            elif e.op == 'sp':
                v = self.ev(e.args[0], env)
                if not isinstance(v, Map):
                    raise Unsupported('dict merge')
                out.extend(v.d.items())
            else:
                for p in self.items([e], env):
                    p = self.toseq(p)
                    if len(p) != 2:
                        raise Unsupported('dict entry')
                    out.append(tuple(p))
        return Map(out)

    def op_set(self, t, env):
        return frozenset(self.items(t.args, env))

    def op_keys(self, t, env):
        v = self.ev(t.args[0], env)
        return self.toseq(v)

    op_order = op_keys

    def op_setdiff(self, t, env):
        a, b = [self.toseq(self.ev(x, env)) for x in t.args]
        return frozenset(a) - frozenset(b)

    op_setdifference = op_setdiff

    def op_setintersection(self, t, env):
        a, b = [self.toseq(self.ev(x, env)) for x in t.args]
        return frozenset(a) & frozenset(b)

    def op_sdel(self, t, env):
        s = list(self.toseq(self.ev(t.args[0], env)))
        k = self.toint(self.ev(t.args[1], env))
        if not -len(s) <= k < len(s):
            raise Invalid('index')
        del s[k]
        return Seq(s)

    def op_sins(self, t, env):
        s = list(self.toseq(self.ev(t.args[0], env)))
        s.insert(self.toint(self.ev(t.args[1], env)),
                 self.ev(t.args[2], env))
        return Seq(s)

    def op_ddel(self, t, env):
        s = self.ev(t.args[0], env)
        if not isinstance(s, Map):
            raise Unsupported('ddel')
        k = self.ev(t.args[1], env)
        return Map((a, b) for a, b in s.d.items() if a != k)

    def op_store(self, t, env):
        s, k, v = [self.ev(a, env) for a in t.args]
        if isinstance(s, Map):
            return Map(list(s.d.items()) + [(k, v)])
        if isinstance(s, Seq):
            k = self.toint(k)
            if not -len(s) <= k < len(s):
                raise Invalid('index')
            s = list(s)
            s[k] = v
            return Seq(s)
        raise Unsupported('store')

    def op_index(self, t, env):
        s = self.toseq(self.ev(t.args[0], env))
        v = self.ev(t.args[1], env)
        if v not in s:
            raise Invalid('value')
        return s.index(v)

    def op_count(self, t, env):
        return self.toseq(self.ev(t.args[0], env)).count(
            self.ev(t.args[1], env))

    def op_sorted(self, t, env):
        s = self.toseq(self.ev(t.args[0], env))
        rev = False
        for k in t.args[1:]:
            if k.op == 'kw' and k.args[0] == 'reverse':
                rev = bool(self.ev(k.args[1], env))
            else:
                raise Unsupported('sort key')
        if all(isinstance(e, str) for e in s) or \
                all(isinstance(e, (int, Fraction)) for e in s):
            return Seq(sorted(s, reverse=rev))
        raise Unsupported('sort')

    def op_first(self, t, env):
        for i, e in enumerate(self.items([t.args[0]], env)):
            if e:
                return i
        return 0

    def op_lastidx(self, t, env):
        r = 0
        for i, e in enumerate(self.items([t.args[0]], env)):
            if e:
                r = i
        return r

    def op_fold(self, t, env):
        (i,), ph = t.args[0][:1], t.args[0][1:]
        n, ini, nxs, j = t.args[1:]
        vals = [self.ev(a, env) for a in ini]
        for k in range(self.count(n, env)):
            e = self.bind(env, i, k)
            for p, v in zip(ph, vals):
                e[p] = v
            vals = [self.ev(x, e) for x in nxs]
        return vals[j.args[0]]

    def op_foldat(self, t, env):
        f = t.args[0]
        if f.op != 'fold':
            raise Unsupported('foldat')
        (i,), ph = f.args[0][:1], f.args[0][1:]
        n, ini, nxs, j = f.args[1:]
        vals = [self.ev(a, env) for a in ini]
        for k in range(self.count(t.args[1], env)):
            e = self.bind(env, i, k)
            for p, v in zip(ph, vals):
                e[p] = v
            vals = [self.ev(x, e) for x in nxs]
        return vals[j.args[0]]

    # ------------------------------------------------------------- matrices
    def op_zeros(self, t, env):
        return Mat.zeros(*[self.toint(self.ev(a, env)) for a in t.args])

    def op_eye(self, t, env):
        n = self.toint(self.ev(t.args[0], env))
        if not 0 <= n <= 60:
            raise Invalid('size')
        return Mat(n, n, [[int(i == j) for j in range(n)] for i in range(n)])

    def op_dim(self, t, env):
        return self.tomat(self.ev(t.args[0], env)).n

    def op_mT(self, t, env):
        return self.tomat(self.ev(t.args[0], env)).T()

    def op_inv(self, t, env):
        v = self.ev(t.args[0], env)
        return self.tomat(v).inv()

    def op_blk(self, t, env):
        m = self.tomat(self.ev(t.args[0], env))
        r = self.bounds(t.args[1], t.args[2], tm.NONE, m.n, env)
        c = self.bounds(t.args[3], t.args[4], tm.NONE, m.m, env)
        return m.block(r, c)

    def sel(self, k, n, env):
        if k.op == 'slice':
            return self.bounds(*k.args, n=n, env=env)
        v = self.ev(k, env)
        if isinstance(v, Seq):
            out = [self.toint(e) for e in v]
        else:
            out = [self.toint(v)]
        if any(not -n <= e < n for e in out):
            raise Invalid('index')
        return out

    def op_mperm(self, t, env):
        m = self.tomat(self.ev(t.args[0], env))
        return m.block(self.sel(t.args[1], m.n, env),
                       self.sel(t.args[2], m.m, env))

    def op_mstore(self, t, env):
        m = self.tomat(self.ev(t.args[0], env))
        r = self.bounds(t.args[1], t.args[2], tm.NONE, m.n, env)
        c = self.bounds(t.args[3], t.args[4], tm.NONE, m.m, env)
        v = self.ev(t.args[5], env)
        if isinstance(v, Mat):
            if (v.n, v.m) != (len(r), len(c)):
                raise Invalid('shapes')
        else:
            v = Mat(len(r), len(c), [[v] * len(c) for _ in r])
        rows = [list(x) for x in m.rows]
        for a, i in enumerate(r):
            for b, j in enumerate(c):
                rows[i][j] = v.rows[a][b]
        return Mat(m.n, m.m, rows)

    def blocks(self, t, env):
        out = []
        for a in t.args:
            if a.op == 'star':
                out.extend(self.toseq(self.ev(a.args[0], env)))
            elif a.op in ('fm', 'sp', 'it'):
                out.extend(self.items([a], env))
            else:
                out.append(self.ev(a, env))
        return [self.tomat(b) for b in out]

    def op_diag(self, t, env):
        bs = self.blocks(t, env)
        n, m = sum(b.n for b in bs), sum(b.m for b in bs)
        rows = [[0] * m for _ in range(n)]
        r = c = 0
        for b in bs:
            for i in range(b.n):
                for j in range(b.m):
                    rows[r + i][c + j] = b.rows[i][j]
            r, c = r + b.n, c + b.m
        return Mat(n, m, rows)

    def op_hstack(self, t, env):
        bs = self.blocks(t, env)
        if not bs:
            return Mat.zeros(0, 0)
        if len(set(b.n for b in bs)) != 1:
            raise Invalid('shapes')
        return Mat(bs[0].n, sum(b.m for b in bs),
                   [sum((b.rows[i] for b in bs), ())
                    for i in range(bs[0].n)])

    def op_vstack(self, t, env):
        bs = self.blocks(t, env)
        if not bs:
            return Mat.zeros(0, 0)
        if len(set(b.m for b in bs)) != 1:
            raise Invalid('shapes')
        return Mat(sum(b.n for b in bs), bs[0].m,
                   sum((b.rows for b in bs), ()))

    def op_mmap(self, t, env):
        (i, j), n, m, body = t.args
        n, m = [self.toint(self.ev(x, env)) for x in (n, m)]
        if not (0 <= n <= 60 and 0 <= m <= 60):
            raise Invalid('size')
        rows = []
        for a in range(n):
            e = self.bind(env, i, a)
            rows.append([self.ev(body, self.bind(e, j, b))
                         for b in range(m)])
        return Mat(n, m, rows)

    def op_mrow(self, t, env):
        (j,), m, body = t.args
        m = self.toint(self.ev(m, env))
        if not 0 <= m <= 60:
            raise Invalid('size')
        return Mat(1, m, [[self.ev(body, self.bind(env, j, b))
                           for b in range(m)]])

    def op_mlit(self, t, env):
        rows = [[self.ev(e, env) for e in r] for r in t.args]
        return Mat(len(rows), len(rows[0]) if rows else 0, rows)

    def op_colvec(self, t, env):
        s = self.ev(t.args[0], env)
        if isinstance(s, Mat):
            return s
        s = self.toseq(s)
        if s and all(isinstance(e, Seq) for e in s):
            if len(set(len(e) for e in s)) != 1:
                raise Invalid('shapes')
            return Mat(len(s), len(s[0]), s)
        return Mat(len(s), 1, [(e,) for e in s])

    def op_mel(self, t, env):
        m = self.tomat(self.ev(t.args[0], env))
        i, j = [self.toint(self.ev(x, env)) for x in t.args[1:]]
        if not (-m.n <= i < m.n and -m.m <= j < m.m):
            raise Invalid('index')
        return m.rows[i][j]

    def op_mel1(self, t, env):
        m = self.tomat(self.ev(t.args[0], env))
        s = Seq(e for r in m.rows for e in r)
        k = t.args[1]
        if k.op == 'slice':
            return Seq(s[i] for i in self.bounds(*k.args, n=len(s), env=env))
        i = self.toint(self.ev(k, env))
        if not -len(s) <= i < len(s):
            raise Invalid('index')
        return s[i]

    def op_mtolist(self, t, env):
        m = self.tomat(self.ev(t.args[0], env))
        return Seq(Seq(r) for r in m.rows)

    def op_call(self, t, env):
        h = t.args[0]
        if h.op == 'ext' and h.args[0] == 'builtins.list':
            return self.toseq(self.ev(t.args[1], env))
        k = kind(t)
        if k == 'mat':
            raise Unsupported('matrix call')
        return self.opaque(t, env, k)


def hints(ts):
    """constants compared with atomic terms"""
    out = {}
    for t in ts:
        for u in tm.walk(t):
            if u.op == 'eq':
                for a, b in (u.args, u.args[::-1]):
                    if isc(b) and a.op in ('sym', 'attr', 'idx', 'call',
                                           'mel'):
                        v = b.args[0]
                        if v not in out.setdefault(a, []):
                            out[a].append(v)
                        if isinstance(v, bool) and (not v) not in out[a]:
                            out[a].append(not v)
                a, b = u.args
                if b is tm.ZERO and a.op == 'poly':
                    # atom - constant = 0
                    its = a.args[0]
                    if len(its) == 2:
                        con = [i for i in its if not i[0] and not i[1]]
                        ato = [i for i in its if len(i[0]) == 1 and
                               not i[1] and i[0][0][1] == 1]
                        if len(con) == 1 and len(ato) == 1:
                            x = ato[0][0][0][0]
                            v = fix(Fraction(-con[0][2]) / ato[0][2])
                            if v not in out.setdefault(x, []):
                                out[x].append(v)
    return out


def refute(got, want, domain=(), models=300, need=6, enough=40):
    """('differ', model, a, b) | ('agree', n) | ('unsupported', why)"""
    hs = hints([got, want] + list(domain))
    valid = wvalid = 0
    why = None
    for seed in range(models):
        m = Model(seed, hs)
        try:
            if not all(m.ev(c) for c in domain):
                why = why or 'outside the domain'
                continue
            b = m.ev(want)
        except Invalid as e:
            why = why or 'no valid model: %s' % e
            continue
        except Unsupported as e:
            return ('unsupported', str(e))
        except (RecursionError, TypeError, OverflowError,
                ZeroDivisionError) as e:
            return ('unsupported', 'error %s' % e)
        wvalid += 1
        try:
            a = m.ev(got)
        except Invalid as e:
            why = why or 'no valid model: %s' % e
            continue
        except Unsupported as e:
            return ('unsupported', str(e))
        except (RecursionError, TypeError, OverflowError,
                ZeroDivisionError) as e:
            return ('unsupported', 'error %s' % e)
        valid += 1
        if a != b:
            return ('differ', m, a, b)
        if valid >= enough:
            break
    if wvalid < need:
        return ('novalid', why or 'few models')
    if valid < need:
        return ('unsupported', why or 'few models')
    return ('agree', valid)
