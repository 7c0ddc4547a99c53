"""Reference definitions: the files of h5py that are used, and the data of a
simulation.

A file system is a dictionary: path -> tree; fs['#open'] counts the handles
that are open."""
import numpy


class Attrs(object):

    def __init__(self):
        self._d = {}

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._d[k] = v


class Dataset(object):

    def __init__(self, handle, store):
        self._handle = handle
        self._store = store

    def _check(self):
        if not self._handle._open:
            raise ValueError

    def __getitem__(self, k):
        self._check()
        return self._store['value'][k]

    def __setitem__(self, k, v):
        self._check()
        self._store['value'][k] = v

    @property
    def shape(self):
        self._check()
        return self._store['value'].shape

    @property
    def dtype(self):
        return 'float'

    def resize(self, size):
        self._check()
        old = self._store['value']
        new = numpy.zeros(size)
        n = min(size[0], old.shape[0])
        new[0:n, :] = old[0:n, :]
        self._store['value'] = new


class Group(object):

    def __init__(self, store):
        self.attrs = store['attrs']


class File(object):

    def __init__(self, fs, path, mode):
        if mode == 'w':
            fs['files'][path] = {}
        elif path not in fs['files']:
            if mode != 'a':
                raise IOError
            fs['files'][path] = {}
        self._tree = fs['files'][path]
        self._fs = fs
        self._open = True
        fs['open'] = fs['open'] + 1

    def close(self):
        if self._open:
            self._fs['open'] = self._fs['open'] - 1
        self._open = False

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()

    def create_dataset(self, name, shape=None, dtype=None, data=None,
                       maxshape=None):
        if data is None:
            value = numpy.zeros(shape)
        elif shape is None:
            value = numpy.array(data)
        else:
            value = numpy.array(data).reshape(shape)
        self._tree[name] = {'value': value}
        return Dataset(self, self._tree[name])

    def create_group(self, name):
        self._tree[name] = {'attrs': Attrs()}
        return Group(self._tree[name])

    def __getitem__(self, name):
        if not self._open:
            raise ValueError
        s = self._tree[name]
        if 'attrs' in s:
            return Group(s)
        return Dataset(self, s)

    def __contains__(self, name):
        return name in self._tree


class Chain(object):
    """itertools.chain.from_iterable, consumed by numpy.fromiter"""

    def __init__(self, rows):
        out = []
        for r in rows:
            for e in r:
                out.append(e)
        self._items = out


def fromiter(it, count):
    if count < 0:
        count = len(it._items)
    if count > len(it._items):
        raise ValueError
    out = it._items[:count]
    it._items = it._items[count:]
    return numpy.array(out)


class Evaluation(object):
    """stands for Core.to_evaluation(names=[name])(arguments)"""

    def __init__(self, name, inds, f, n):
        setattr(self, name + '_inds', inds)
        setattr(self, name, self._values)
        self._name = name
        self._f = f
        self._n = n

    def _values(self, *cols):
        out = []
        for t in range(len(cols[0])):
            args = [c[t] for c in cols]
            if self._n is None:
                out.append(self._f(self._name, args, 0))
            else:
                out.append([self._f(self._name, args, k)
                            for k in range(self._n)])
        return out


def value(name, args, k):
    pass


class Nums(object):
    """stands for Numeric: the values after each update"""

    def __init__(self, dims, f):
        self._n = 0
        self._u = []
        self._p = []
        self._dims = dims
        self._f = f

    def update(self, u=None, p=None):
        self._n = self._n + 1
        self._u = u
        self._p = p

    def _vec(self, name):
        hist = [self._n] + list(self._u) + list(self._p)
        return [self._f(name, hist, k) for k in range(self._dims[name])]

    def x(self):
        return self._vec('x')

    def dx(self):
        return self._vec('dx')

    def dxH(self):
        return self._vec('dxH')

    def w(self):
        return self._vec('w')

    def z(self):
        return self._vec('z')

    def y(self):
        return self._vec('y')


# ------------------------------------------------------------ references

def rows(g, start, stop, step):
    """the rows of g (list of lists) selected by a time slice"""
    return [g[t] for t in range(start, stop, step)]


def columns(rs, cols):
    return [[r[c] for c in cols] for r in rs]


def column(rs, c):
    return [r[c] for r in rs]


def scaled(rs, a):
    return [[e*a for e in r] for r in rs]


def product(r1, r2):
    out = []
    for k in range(len(r1)):
        s = 0
        for j in range(len(r1[k])):
            s = s + r1[k][j]*r2[k][j]
        out.append(s)
    return out


def joined(a, b):
    return [a[k] + b[k] for k in range(len(a))]


def twice(v):
    return 2*v
