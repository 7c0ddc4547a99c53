"""Reference definitions: discrete gradients."""
import sympy


def at(e, x, dx, theta):
    """e at x + theta*dx"""
    return e.subs({x[i]: x[i] + theta * dx[i] for i in range(len(x))})


def monovar(H, x, dx, tol):
    """finite difference along each coordinate; second order expansion for
    |dx| below the tolerance"""
    out = []
    for i in range(len(x)):
        fd = (H.subs({x[i]: x[i] + dx[i]}) - H) / dx[i]
        g = H.diff(x[i])
        small = g + 0.5 * g.diff(x[i]) * dx[i]
        out.append(sympy.Piecewise((fd, dx[i] < -tol), (small, dx[i] < tol),
                                   (fd, True)))
    return out


def multivar(H, x, dx, tol):
    """midpoint gradient, corrected along dx so that the scalar product with
    dx is the variation of H"""
    n = len(x)
    mid = theta_rule(H, x, dx, 0.5)
    n2 = 0
    work = 0
    for i in range(n):
        n2 = n2 + dx[i]**2
        work = work + mid[i] * dx[i]
    c = (at(H, x, dx, 1) - H - work) / n2
    c = sympy.Piecewise((c, n2 < -tol**2), (0, n2 < tol**2), (c, True))
    return [mid[i] + c * dx[i] for i in range(n)]


def theta_rule(H, x, dx, theta):
    return [at(H.diff(x[i]), x, dx, theta) for i in range(len(x))]


def trapez(H, x, dx):
    return [(H.diff(x[i]) + at(H.diff(x[i]), x, dx, 1)) * 0.5
            for i in range(len(x))]


def gradient_evaluation(m):
    """linear part by the midpoint of the affine gradient, then separable
    and non-separable nonlinear parts"""
    c = m.config
    if c['grad'] == 'discret':
        l, s = m.dims._xl, m.dims._xl + m.dims._xnl_mono
        dx = m.dx()
        out = []
        for i in range(l):
            e = m.bl[i]
            for j in range(l):
                e = e + m.Q[i, j] * (m.x[j] + 0.5 * dx[j])
            out.append(e)
        out = out + monovar(m.H, m.x[l:s], dx[l:s], c['epsdg'])
        m._dxH = out + multivar(m.H, m.x[s:], dx[s:], c['epsdg'])
    elif c['grad'] == 'theta':
        m._dxH = theta_rule(m.H, m.x, m.dx(), c['theta'])
    else:
        m._dxH = trapez(m.H, m.x, m.dx())


def structure_evaluation(m):
    """the structure and the dissipation functions at x + theta*dx with the
    discrete gradient for its symbols; or the mean of both ends"""
    dx, g, d = m.dx(), m.g(), m.dxH()
    trap = m.config['grad'] == 'trapez'
    th = 1 if trap else m.config['theta']
    s = {}
    for i in range(len(m.x)):
        s[g[i]] = d[i]
    for i in range(len(m.x)):
        s[m.x[i]] = m.x[i] + th * dx[i]
    if trap:
        m.M = (m.M + m.M.subs(s)) * 0.5
        m.z = [(e + e.subs(s)) * 0.5 for e in m.z]
    else:
        m.M = m.M.subs(s)
        m.z = [e.subs(s) for e in m.z]
