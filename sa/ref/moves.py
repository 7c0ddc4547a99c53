"""Reference definitions: displacement of components, connectors."""
import sympy


def order(n, i, j):
    """indices 0..n-1 with index i moved to position j"""
    if i < j:
        return list(range(i)) + list(range(i + 1, j + 1)) + [i] + \
            list(range(j + 1, n))
    if i > j:
        return list(range(j)) + [i] + list(range(j, i)) + \
            list(range(i + 1, n))
    return list(range(n))


def pick(lst, i, j):
    if i < j:
        return lst[:i] + lst[i + 1:j + 1] + [lst[i]] + lst[j + 1:]
    if i > j:
        return lst[:j] + [lst[i]] + lst[j:i] + lst[i + 1:]
    return lst


def square(m, i, j):
    o = order(m.shape[0], i, j)
    return m[o, o]


def columns(m, i, j):
    return m[:, order(m.shape[1], i, j)]


def move_storage(core, i, j):
    core.x = pick(core.x, i, j)
    if core._dxH is not None:
        core._dxH = pick(core._dxH, i, j)
    core.M = square(core.M, i, j)


def move_dissipative(core, i, j):
    core.w = pick(core.w, i, j)
    core.z = pick(core.z, i, j)
    n = len(core.x)
    core.M = square(core.M, n + i, n + j)
    nwl = core.dims._wl
    if i < nwl and j < nwl:
        core.Zl = square(core.Zl, i, j)
    else:
        core.Zl = core.Zl[:0, :0]


def move_port(core, i, j):
    core.u = pick(core.u, i, j)
    core.y = pick(core.y, i, j)
    n = len(core.x) + len(core.w)
    core.M = square(core.M, n + i, n + j)


def move_connector(core, i, j):
    core.cu = pick(core.cu, i, j)
    core.cy = pick(core.cy, i, j)
    n = len(core.x) + len(core.w) + len(core.y)
    core.M = square(core.M, n + i, n + j)


def port2connector(core, i):
    n = len(core.x) + len(core.w)
    t = n + len(core.y) + len(core.cy)
    o = list(range(n + i)) + list(range(n + i + 1, t)) + [n + i]
    core.M = core.M[o, o]
    core.cu = core.cu + [core.u[i]]
    core.cy = core.cy + [core.y[i]]
    core.u = core.u[:i] + core.u[i + 1:]
    core.y = core.y[:i] + core.y[i + 1:]
