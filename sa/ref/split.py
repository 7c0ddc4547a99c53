"""Reference definitions: separation of linear and nonlinear parts."""
import sympy
from ref.calculus import gradient, jacobian, hessian


def touches(column, names):
    for e in column:
        for s in e.free_symbols:
            if s in names:
                return True
    return False


def stable(flags):
    """linear components first, both groups in their original order"""
    lin = [i for i in range(len(flags)) if not flags[i]]
    non = [i for i in range(len(flags)) if flags[i]]
    return lin + non, len(lin)


def pick(lst, order):
    return [lst[i] for i in order]


def reorder(core, ox, ow):
    nx, nw = len(core.x), len(core.w)
    core.x = pick(core.x, ox)
    if core._dxH is not None:
        core._dxH = pick(core._dxH, ox)
    core.w = pick(core.w, ow)
    core.z = pick(core.z, ow)
    o = ox + [nx + i for i in ow] + list(range(nx + nw, core.M.shape[0]))
    core.M = core.M[o, o]


def linear_nonlinear(core):
    """a storage is linear when its column of the hessian of H holds no
    state, increment or dissipation variable; a dissipation is linear when
    its column of the jacobian of z holds no increment or dissipation
    variable"""
    hess, jacz = hessian(core.H, core.x), jacobian(core.z, core.w)
    fx = [touches(list(hess[:, i]), core.x + core.dx() + core.w)
          for i in range(len(core.x))]
    fw = [touches(list(jacz[:, i]), core.dx() + core.w)
          for i in range(len(core.w))]
    finish(core, fx, fw)


def with_criterion(core, mx, ax, mw, aw):
    fx = [touches(list(mx[:, i]), ax) for i in range(len(core.x))]
    fw = [touches(list(mw[:, i]), aw) for i in range(len(core.w))]
    finish(core, fx, fw)


def finish(core, fx, fw):
    ox, nxl = stable(fx)
    ow, nwl = stable(fw)
    reorder(core, ox, ow)
    core.dims._xl, core.dims._wl = nxl, nwl
    xl = core.x[:nxl]
    core.Q = hessian(core.H, xl)
    g = gradient(core.H, xl)
    core.bl = []
    for i in range(nxl):
        e = g[i]
        for j in range(nxl):
            e = e - core.Q[i, j] * xl[j]
        core.bl = core.bl + [e]
    core.Zl = jacobian(core.z[:nwl], core.w[:nwl])


def monovar(core):
    """the nonlinear storages coupled to no other nonlinear storage come
    first"""
    nxl = core.dims._xl
    x = core.x[nxl:]
    hess = hessian(core.H, x)
    return hess
