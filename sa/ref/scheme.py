"""Reference definitions: the nonlinear system solved at each time step.

v = (dx, w) and f = (dxH, z); linear parts first; the residual is
F = (fs*dx, w) - Mvv f - Mvy u, and G = F - (dF/dvl) vl."""
import sympy


def xs(m, s):
    n, l = len(m.x), m.dims._xl
    return {'': list(range(n)), 'l': list(range(l)),
            'nl': list(range(l, n))}[s]


def ws(m, s):
    n, l = len(m.w), m.dims._wl
    return {'': list(range(n)), 'l': list(range(l)),
            'nl': list(range(l, n))}[s]


def rows(m, s):
    return xs(m, s) + [len(m.x) + i for i in ws(m, s)]


def v(m, s):
    dx = m.dx()
    return [dx[i] for i in xs(m, s)] + [m.w[i] for i in ws(m, s)]


def f(m, s):
    return [m._dxH[i] for i in xs(m, s)] + [m.z[i] for i in ws(m, s)]


def mass(m, s):
    nx, nw = len(xs(m, s)), len(ws(m, s))
    out = sympy.zeros(nx + nw, nx + nw)
    for i in range(nx):
        out[i, i] = m.fs
    for i in range(nw):
        out[nx + i, nx + i] = 1
    return out


def block(m, a, b):
    r, c = rows(m, a), rows(m, b)
    out = sympy.zeros(len(r), len(c))
    for i in range(len(r)):
        for j in range(len(c)):
            out[i, j] = m.M[r[i], c[j]]
    return out


def blocky(m, a):
    r, n = rows(m, a), len(m.x) + len(m.w)
    out = sympy.zeros(len(r), len(m.u))
    for i in range(len(r)):
        for j in range(len(m.u)):
            out[i, j] = m.M[r[i], n + j]
    return out


def residual(m, s):
    r, vv, ff = rows(m, s), v(m, s), f(m, '')
    nx, n = len(xs(m, s)), len(m.x) + len(m.w)
    out = []
    for i in range(len(r)):
        e = vv[i] * m.fs if i < nx else vv[i]
        for j in range(n):
            e = e - m.M[r[i], j] * ff[j]
        for j in range(len(m.u)):
            e = e - m.M[r[i], n + j] * m.u[j]
        out.append(e)
    return out


def jac(F, vs):
    out = sympy.zeros(len(F), len(vs))
    for i in range(len(F)):
        for j in range(len(vs)):
            out[i, j] = F[i].diff(vs[j]).doit()
    return out


def jacresidual(m, a, b):
    return jac(residual(m, a), v(m, b))


def explicit(m, s):
    F, vl = residual(m, s), v(m, 'l')
    out = []
    for e in F:
        g = e
        for s in vl:
            g = g - e.diff(s).doit() * s
        out.append(g)
    return out


def jacexplicit(m, a, b):
    return jac(explicit(m, a), v(m, b))


def criterion(m):
    nx, n = len(m.x), len(m.x) + len(m.w)
    vv, F = v(m, ''), residual(m, '')
    return [(jac(F, vv[:nx]), vv), (jac(F, vv[nx:n]), vv)]


def args(m):
    return m.x + m.dx() + m.w + m.u + m.p + list(m.observers.keys())


def find(e, names):
    """names occurring in the expression(s), in order, and their indices"""
    if isinstance(e, (list, tuple)):
        fs = set()
        for k in e:
            fs = fs | k.free_symbols
    else:
        fs = e.free_symbols
    a = [n for n in names if n in fs]
    i = [k for k in range(len(names)) if names[k] in fs]
    return (a, i)
