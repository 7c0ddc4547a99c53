"""Reference definitions: execution of a numerical method.

nums.args is the vector (x, dx, w, u, p, o); '_name' holds the last value of
a function or operation."""
import numpy
from pyphs.config import CONFIG_NUMERIC


def norm(x):
    return numpy.sqrt(numpy.einsum('i,i', numpy.array(x), numpy.array(x)))


def setvalue(nums, name, value):
    m = nums.method
    if name in m.args_names:
        inds = getattr(m, name + '_inds')
        k = 0
        for i in inds:
            nums.args[i] = value[k]
            k = k + 1
    else:
        setattr(nums, '_' + name, value)


def getvalue(nums, name):
    m = nums.method
    if name in m.args_names:
        return [nums.args[i] for i in getattr(m, name + '_inds')]
    return getattr(nums, '_' + name)


def apply(kind, a):
    if kind == 'add':
        return numpy.add(a[0], a[1])
    if kind == 'prod':
        return a[0] * a[1]
    if kind == 'dot':
        return numpy.dot(a[0], a[1])
    if kind == 'inv':
        return numpy.linalg.inv(a[0])
    if kind == 'div':
        return numpy.divide(a[0], a[1])
    if kind == 'norm':
        return norm(a[0])
    if kind == 'copy':
        return a[0]
    return None


def value(nums, op):
    a = []
    for e in op.args:
        if isinstance(e, str):
            a.append(getvalue(nums, e))
        elif isinstance(e, (int, float)):
            a.append(e)
        else:
            a.append(value(nums, e))
    return apply(op.operation, a)


def evaluate(nums, name, lam):
    m = nums.method
    if name in m.ops_names:
        return value(nums, getattr(m, name + '_op'))
    vals = [nums.args[i] for i in getattr(m, name + '_inds')]
    return lam(getattr(m, name + '_args'), getattr(m, name + '_expr'),
               m.subs, vals)


def execs(nums, commands, lam):
    for c in commands:
        if isinstance(c, str):
            setvalue(nums, c, evaluate(nums, c, lam))
        else:
            setvalue(nums, c[0], evaluate(nums, c[1], lam))


def iterexecs(nums, commands, res, step, lam):
    nums.it = 0
    setvalue(nums, step, 1.)
    eps = nums.config['eps']
    while getvalue(nums, res) > eps and getvalue(nums, step) > eps and \
            nums.it < nums.config['maxit']:
        execs(nums, commands, lam)
        nums.it = nums.it + 1


def update(nums, u, p, lam):
    m = nums.method
    setvalue(nums, 'u', numpy.zeros(len(m.u)) if u is None else u)
    setvalue(nums, 'p', numpy.zeros(len(m.p)) if p is None else p)
    for a in m.update_actions:
        if a[0] == 'exec':
            execs(nums, a[1], lam)
        else:
            iterexecs(nums, a[1][0], a[1][1], a[1][2], lam)


def init(nums, name, value):
    if value is None:
        value = [0] * len(getattr(nums.method, name + '_inds'))
    setvalue(nums, name, value)

def lam(args, expr, subs, vals):
    pass


def initial(nums, inits, lam):
    """zeros, then the given values, then every function and operation"""
    m = nums.method
    n = len(m.args())
    nums.args = [0.] * n
    for k in inits:
        init(nums, k, inits[k])
    for name in m.update_actions_deps():
        if name not in m.args_names:
            build(nums, name, lam)


def build(nums, name, lam):
    m = nums.method
    if name in m.ops_names:
        for dep in getattr(m, name + '_deps'):
            if dep not in m.args_names:
                build(nums, dep, lam)
    setvalue(nums, name, evaluate(nums, name, lam))


def scalar(args, expr, subs, vals, f, sub):
    return f(args, sub(expr, subs), vals)


def fs(method):
    method.subs[method.fs] = CONFIG_NUMERIC['fs']


def refused():
    raise ValueError


def accepted():
    pass
