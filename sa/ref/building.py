"""Reference definitions: building and combining cores."""


def add(core, one, two):
    """storages, dissipations, ports, connectors of the first then of the
    second; two uncoupled structures"""
    core.x, core.w = one.x + two.x, one.w + two.w
    core.u, core.y = one.u + two.u, one.y + two.y
    core.cu, core.cy = one.cu + two.cu, one.cy + two.cy
    core.p = one.p + two.p
    core.z = one.z + two.z
    core.H = one.H + two.H
    core.subs = {}
    core.subs.update(one.subs)
    core.subs.update(two.subs)
    core.observers = {}
    core.observers.update(one.observers)
    core.observers.update(two.observers)
    if one._dxH is not None or two._dxH is not None:
        core._dxH = one.dxH() + two.dxH()
    core.connectors = one.connectors + two.connectors
    core.force_wnl = one.force_wnl + two.force_wnl


def aslist(a):
    if isinstance(a, list):
        return a
    return [a]


def add_storages(core, x, H):
    core.x = core.x + aslist(x)
    core.H = core.H + H


def add_dissipations(core, w, z):
    core.w = core.w + aslist(w)
    core.z = core.z + aslist(z)


def add_ports(core, u, y):
    core.u = core.u + aslist(u)
    core.y = core.y + aslist(y)


def add_parameters(core, p):
    core.p = core.p + aslist(p)
    core.subs = {k: core.subs[k] for k in core.subs if k not in aslist(p)}


def add_observer(core, obs):
    core.observers.update(obs)


def free(e):
    if isinstance(e, (list, set)):
        s = set()
        for a in e:
            s = s | free(a)
        return s
    return e.free_symbols


def allsymbs(core):
    s = set()
    for a in (core.x, core.w, core.u, core.y, core.cu, core.cy, core.p):
        s = s | set(a)
    for k in core.subs:
        s = s | k.free_symbols | core.subs[k].free_symbols
    return s


def freesymbols(core):
    s = set(core.H.free_symbols)
    for e in core.z:
        s = s | e.free_symbols
    for m in (core.M, core.Q, core.Zl):
        for e in list(m):
            s = s | e.free_symbols
    for e in core.bl:
        s = s | e.free_symbols
    return s
