"""Reference definitions: connectors."""
import sympy
from ref.moves import port2connector, move_connector


def add_connector(core, i, j, alpha):
    """ports i and j become connectors; the description is stored"""
    if alpha is None:
        alpha = sympy.sympify(1.)
    core.connectors = core.connectors + [{
        'u': [core.u[i], core.u[j]], 'y': [core.y[i], core.y[j]],
        'alpha': alpha}]
    if i < j:
        port2connector(core, j)
        port2connector(core, i)
    else:
        port2connector(core, i)
        port2connector(core, j)


def connect(core):
    """u[0] = -alpha*y[1], u[1] = alpha*y[0] for each connector: elimination
    of the connector variables from b = M a"""
    n = 0
    blocks = []
    for c in core.connectors:
        for y in c['y']:
            move_connector(core, core.cy.index(y), n)
            n = n + 1
        blocks = blocks + [c['alpha'] * sympy.Matrix([[0, -1], [1, 0]])]
    S = sympy.diag(*blocks)
    k = len(core.x) + len(core.w) + len(core.y)
    Mcc = core.M[k:k + n, k:k + n]
    D = sympy.eye(n) - Mcc * S
    core.M = core.M[:k, :k] + core.M[:k, k:] * S * D.inv() * core.M[k:, :k]
    core.cu = []
    core.cy = []
    core.connectors = []
