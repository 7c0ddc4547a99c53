"""Reference definitions: block layout of a core."""
import sympy


def dims(core):
    nx, nw, ny, ncy = len(core.x), len(core.w), len(core.y), len(core.cy)
    nxl, nwl, nm = core.dims._xl, core.dims._wl, core.dims._xnl_mono
    return {'x': nx, 'w': nw, 'y': ny, 'cy': ncy, 'p': len(core.p),
            'xl': nxl, 'xnl': nx - nxl, 'wl': nwl, 'wnl': nw - nwl,
            'xnl_mono': nm, 'xnl_multi': nx - nxl - nm,
            'l': nxl + nwl, 'nl': (nx - nxl) + (nw - nwl),
            'tot': nx + nw + ny + ncy, 'o': len(list(core.observers.keys()))}


def inds(core):
    d = dims(core)
    nx, nw, ny = d['x'], d['w'], d['y']
    nxl, nwl = d['xl'], d['wl']
    return {'x': (0, nx), 'w': (nx, nx + nw), 'y': (nx + nw, nx + nw + ny),
            'cy': (nx + nw + ny, d['tot']),
            'xl': (0, nxl), 'xnl': (nxl, nx),
            'wl': (nx, nx + nwl), 'wnl': (nx + nwl, nx + nw)}


def parts(core):
    d = dims(core)
    return {'xl': core.x[:d['xl']], 'xnl': core.x[d['xl']:],
            'wl': core.w[:d['wl']], 'wnl': core.w[d['wl']:],
            'zl': core.z[:d['wl']], 'znl': core.z[d['wl']:],
            'dxl': core.dx()[:d['xl']], 'dxnl': core.dx()[d['xl']:],
            'dxHl': core.dxH()[:d['xl']], 'dxHnl': core.dxH()[d['xl']:]}


def block(core, part, a, b):
    r, c = inds(core)[a], inds(core)[b]
    m = core.M if part == 'M' else getattr(core, part)()
    return m[r[0]:r[1], c[0]:c[1]]


def a(core):
    return list(core.dxH()) + core.z + core.u


def b(core):
    return core.dtx() + core.w + core.y


def labels(core):
    return [str(e) for e in core.x + core.w + core.y + core.cy]


def label(core, i):
    return str((core.x + core.w + core.y + core.cy)[i])


def dx(core):
    return [core.symbols('d' + str(e)) for e in core.x]


def dtx(core):
    return [core.symbols('dt' + str(e)) for e in core.x]


def g(core):
    return [core.symbols('g' + str(e)) for e in core.x]


def index(core, name, symb):
    return getattr(core, name).index(symb)


def o(core):
    return list(core.observers.keys())


def dxH(core):
    if core._dxH is not None:
        return core._dxH
    return [core.H.diff(v).doit() for v in core.x]


def output(core):
    mt = sympy.SparseMatrix
    return list(block(core, 'M', 'y', 'x') * mt(core.dxH()) +
                block(core, 'M', 'y', 'w') * mt(core.z) +
                block(core, 'M', 'y', 'y') * mt(core.u))


def pd(core):
    p = sum(w * z for w, z in zip(core.w, core.z))
    v = list(core.dxH()) + core.z + core.u
    return p + sympy.SparseMatrix(v).dot(list(core.R() * sympy.Matrix(v)))


def symbols(name):
    return sympy.symbols(name, real=True)
