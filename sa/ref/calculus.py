"""Reference definitions: derivatives and algebra of expressions."""
import sympy


def gradient(f, v):
    return [f.diff(e).doit() for e in v]


def jacobian(f, v):
    m = sympy.zeros(len(f), len(v))
    for i in range(len(f)):
        for j in range(len(v)):
            m[i, j] = f[i].diff(v[j]).doit()
    return m


def hessian(f, v):
    return jacobian(gradient(f, v), v)


def matvecprod(m, v):
    if len(v) == 0:
        return [0] * m.shape[0]
    return list(m * sympy.Matrix(v))


def sum2(a, b):
    return [p + q for p, q in zip(a, b)]


def sum3(a, b, c):
    return [p + q + r for p, q, r in zip(a, b, c)]


def inverse(m):
    return m.inv()


def free_symbols(e):
    return e.free_symbols


def free_symbols_seq(s):
    out = set()
    for e in s:
        out = out | e.free_symbols
    return out


def free_symbols_mat(m):
    return free_symbols_seq(list(m))


def free_symbols_dict(d):
    return free_symbols_seq(list(d.values()))


def empty(e):
    return set()


def dxH(core):
    if core._dxH is None:
        return gradient(core.H, core.x)
    return core._dxH


def jacz(core):
    return jacobian(core.z, core.w)


def hessH(core):
    return hessian(core.H, core.x)


def freesymbols(core):
    out = set()
    for e in [core.H] + core.z + list(core.Q) + list(core.Zl) + \
            list(core.bl) + list(core.M):
        out = out | e.free_symbols
    return out
