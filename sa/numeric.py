"""Values of expressions at given points, with 60 digits.

`value(term, env)` evaluates a term derived from the source, `formula(text,
env)` a formula (Python syntax) written from the documentation. Both raise
Undefined at the points where the expression has no (real) value, and
Unknown for what is not understood."""
import ast
import decimal
from decimal import Decimal as Dec
from fractions import Fraction
from . import terms as tm

CTX = decimal.Context(prec=60, Emin=-10 ** 6, Emax=10 ** 6)
GMIN = Dec('1e-12')


class Undefined(Exception):
    pass


class Unknown(Exception):
    pass


def setup():
    decimal.setcontext(CTX.copy())


def exp(x):
    if x < -10 ** 5:
        return Dec(0)
    if x > 10 ** 5:
        raise Undefined('exp')
    return x.exp()


def log(x):
    if x <= 0:
        raise Undefined('log')
    return x.ln()


def sqrt(x):
    if x < 0:
        raise Undefined('sqrt')
    return x.sqrt()


def arctan(x):
    """by halving the angle, then the series"""
    n = 0
    while abs(x) > Dec('0.01'):
        x = x / (1 + (1 + x * x).sqrt())
        n += 1
    s, t, k = Dec(0), x, 1
    while abs(t) > Dec('1e-65'):
        s += t / k
        t = -t * x * x
        k += 2
    return s * 2 ** n


_PI = []


def pi():
    if not _PI:
        _PI.append(4 * arctan(Dec(1)))
    return _PI[0]


def sin(x):
    x = x % (2 * pi())
    s, t, k = Dec(0), x, 1
    while abs(t) > Dec('1e-65'):
        s += t
        t = -t * x * x / ((k + 1) * (k + 2))
        k += 2
    return s


def cos(x):
    return sin(x + pi() / 2)


def tan(x):
    return sin(x) / cos(x)


def tanh(x):
    e = exp(-2 * abs(x))
    v = (1 - e) / (1 + e)
    return v if x >= 0 else -v


def sign(x):
    return Dec((x > 0) - (x < 0))


def power(a, b):
    if b == b.to_integral_value() and abs(b) < 10 ** 4:
        if a == 0 and b < 0:
            raise Undefined('division by zero')
        if a == 0 and b == 0:
            return Dec(1)
        return a ** int(b)
    if a < 0 or a == 0 and b < 0:
        raise Undefined('power')
    return Dec(0) if a == 0 else (b * a.ln()).exp()


FUNCS = {'exp': exp, 'log': log, 'sqrt': sqrt, 'cos': cos, 'sin': sin,
         'tan': tan, 'tanh': tanh, 'abs': abs, 'Abs': abs, 'sign': sign,
         'sinh': lambda x: (exp(x) - exp(-x)) / 2,
         'cosh': lambda x: (exp(x) + exp(-x)) / 2, 'atan': arctan}


def dec(v):
    v = Fraction(v)
    return Dec(v.numerator) / Dec(v.denominator)


def value(t, env, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    v = memo[t] = _value(t, env, memo)
    return v


def _value(t, env, memo):
    op = t.op
    if tm.isnum(t):
        return dec(t.args[0])
    if tm.isname(t):
        n = tm.pp(t)[1:]
        if n not in env:
            # a symbol the documentation knows nothing of: any value
            env[n] = 1 + Dec(len(env) % 7) / 8
        return env[n]
    if op == 'c' and isinstance(t.args[0], float):
        return Dec(repr(t.args[0]))
    if op == 'poly':
        out = Dec(0)
        for fs, ms, c in t.args[0]:
            if ms:
                raise Unknown(tm.pp(t)[:80])
            p = dec(c)
            for f, e in fs:
                p *= power(value(f, env, memo), dec(e))
            out += p
        return out
    if op == 'pow':
        return power(value(t.args[0], env, memo),
                     value(t.args[1], env, memo))
    if op == 'call' and tm.pp(t.args[0]) == 'subsd':
        e2 = dict(env)
        for p in t.args[2].args:
            if p.op != 'pair' or not tm.isname(p.args[0]):
                raise Unknown(tm.pp(p)[:80])
            e2[tm.pp(p.args[0])[1:]] = value(p.args[1], env, memo)
        return value(t.args[1], e2)
    if op == 'ite':
        return value(t.args[1 if holds(t.args[0], env, memo) else 2], env,
                     memo)
    if op == 'call':
        n = tm.pp(t.args[0]).rsplit('.', 1)[-1]
        if n in FUNCS and len(t.args) == 2:
            return FUNCS[n](value(t.args[1], env, memo))
    n = tm.pp(t).rsplit('.', 1)
    if len(n) == 2 and n[1] == 'pi' and n[0] in ('sympy', 'numpy', 'math'):
        return pi()
    raise Unknown(tm.pp(t)[:200])


def holds(t, env, memo):
    op = t.op
    if t is tm.TRUE or t is tm.FALSE:
        return t is tm.TRUE
    if op == 'lt':
        return value(t.args[0], env, memo) < value(t.args[1], env, memo)
    if op == 'eq':
        return value(t.args[0], env, memo) == value(t.args[1], env, memo)
    if op == 'ite':
        return holds(t.args[1 if holds(t.args[0], env, memo) else 2], env,
                     memo)
    raise Unknown(tm.pp(t)[:200])


BIN = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
       ast.Mult: lambda a, b: a * b, ast.Pow: power}


def formula(text, env):
    def ev(e):
        if isinstance(e, ast.Constant):
            return Dec(str(e.value))
        if isinstance(e, ast.Name):
            if e.id == 'pi':
                return pi()
            if e.id == 'GMIN':
                return GMIN
            return env[e.id]
        if isinstance(e, ast.UnaryOp):
            v = ev(e.operand)
            return -v if isinstance(e.op, ast.USub) else v
        if isinstance(e, ast.BinOp):
            a, b = ev(e.left), ev(e.right)
            if isinstance(e.op, ast.Div):
                if b == 0:
                    raise Undefined('division by zero')
                return a / b
            return BIN[type(e.op)](a, b)
        if isinstance(e, ast.IfExp):
            return ev(e.body if ev(e.test) else e.orelse)
        if isinstance(e, ast.Compare):
            a, b = ev(e.left), ev(e.comparators[0])
            return a > b if isinstance(e.ops[0], ast.Gt) else a < b
        if isinstance(e, ast.Call):
            return FUNCS[e.func.id](*[ev(x) for x in e.args])
        raise Unknown(ast.dump(e))
    return ev(ast.parse(text, mode='eval').body)


def agree(term, text, points, rename, need=5):
    """True, False (with a point) or None (with a reason): does the term
    have the value of the formula wherever both are defined?
    rename: variable of the formula -> names of symbols of the term"""
    setup()
    n = 0
    for env in points:
        try:
            want = formula(text, env)
        except Undefined:
            continue
        tenv = {}
        for k, names in rename.items():
            for a in names:
                tenv[a] = env[k]
        try:
            got = value(term, tenv)
        except Unknown as e:
            return None, 'not understood: %s' % e
        except Undefined:
            return False, 'undefined at %s' % show(env)
        n += 1
        if abs(got - want) > Dec('1e-40') * max(abs(got), abs(want)) \
                + Dec('1e-45'):
            return False, '%s instead of %s at %s' % (
                float(got), float(want), show(env))
    if n < need:
        return None, 'only %d points' % n
    return True, ''


def show(env):
    return ', '.join('%s=%g' % (k, v) for k, v in sorted(env.items()))
