"""Reference definitions: elimination of linear dissipations."""
import sympy


def forced(core):
    """linear dissipations that must be kept go to the end of the linear
    part, both groups keeping their order"""
    n = core.dims._wl
    keep = [i for i in range(n) if core.w[i] in core.force_wnl]
    elim = [i for i in range(n) if core.w[i] not in core.force_wnl]
    o = elim + keep + list(range(n, len(core.w)))
    k = len(core.x)
    core.w = [core.w[i] for i in o]
    core.z = [core.z[i] for i in o]
    core.Zl = core.Zl[elim, elim]
    full = list(range(k)) + [k + i for i in o] + \
        list(range(k + len(core.w), core.M.shape[0]))
    core.M = core.M[full, full]
    core.dims._wl = len(elim)


def reduce_z(core):
    """w_l = M_ll z_l + M_lo a_o and z_l = Zl w_l eliminate w_l, z_l"""
    core.linear_nonlinear()
    forced(core)
    eliminate(core)


def reduce_plain(core):
    core.linear_nonlinear()
    eliminate(core)


def eliminate(core):
    nx, nl = len(core.x), core.dims._wl
    nxl = core.dims._xl
    nw = len(core.w)
    ny = len(core.y)
    nc = len(core.cy)
    cuts = [(0, nxl), (nxl, nx), (nx + nl, nx + nw),
            (nx + nw, nx + nw + ny), (nx + nw + ny, nx + nw + ny + nc)]
    M = core.M
    a, b = nx, nx + nl
    D = (sympy.eye(nl) - M[a:b, a:b] * core.Zl).inv()
    Mlo = sympy.Matrix.hstack(*[M[a:b, i:j] for (i, j) in cuts])
    Mol = sympy.Matrix.vstack(*[M[i:j, a:b] for (i, j) in cuts])
    Moo = sympy.Matrix.vstack(*[
        sympy.Matrix.hstack(*[M[i:j, k:l] for (k, l) in cuts])
        for (i, j) in cuts])
    core.M = Moo + Mol * core.Zl * D * Mlo
    core.w = core.w[nl:]
    core.z = core.z[nl:]
    core.dims._wl = 0
