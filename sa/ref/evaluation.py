"""Reference definitions: numerical evaluation of the expressions of a core.

numeric(args, expr, values) is the value of expr when the symbols args take
the values."""


def numeric(args, expr, vals):
    pass


def arguments(core):
    return core.x + core.dx() + core.w + core.u + core.p + \
        list(core.observers.keys())


def substituted(core):
    core = core.__copy__()
    core.substitute(selfall=True)
    core.o = list(core.observers.values())
    return core


def position(symbs, allargs):
    out = []
    k = 0
    for a in allargs:
        if a in symbs:
            out.append(k)
        k = k + 1
    return out


def pick(allargs, inds):
    return [allargs[i] for i in inds]


def scalar(args, e, rows, f, vectorize):
    if not vectorize:
        return f(args, e, rows)
    return [f(args, e, list(r)) for r in rows]


def vector(args, es, rows, f, vectorize):
    if not vectorize:
        return [f(args, e, rows) for e in es]
    return [[f(args, e, list(r)) for e in es] for r in rows]


def constants(es, f):
    return [f([], e, []) for e in es]


def lambdified(args, expr, vals, f):
    return f(args, expr, vals)


def refused():
    raise ValueError


def accepted():
    pass


def norm2(x, sqrt):
    s = 0
    for e in x:
        s = s + e*e
    return sqrt(s)
