"""Specifications of the planted bugs; tools/seed.py makes and confirms
them."""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=demo))


CORE = '''
import sympy
from pyphs import Core
'''

seed('S01', 'C01', [('pyphs/core/core.py',
                     "                Mba = -Jab.T - Rba\n",
                     "                Mba = -Jab.T - Rab.T.T if Rba.shape "
                     "== Rab.shape else -Jab.T - Rba\n")],
     'a J block assignment between two blocks of equal size whose resistive '
     'coupling is not symmetric',
     'assigning a block of J corrupts the resistive part R', CORE + '''
c = Core()
x = c.symbols(['xa', 'xb'])
c.add_storages(x, x[0]**2 + x[1]**2)
w = c.symbols(['wa', 'wb'])
c.add_dissipations(w, [2*w[0], 3*w[1]])
c.init_M()
c.set_Rxw([[0, 5], [7, 0]])
c.set_Jxw([[1, 2], [3, 4]])
assert c.Rxw() == sympy.Matrix([[0, 5], [7, 0]]), c.Rxw()
assert c.Rwx() == sympy.Matrix([[0, 7], [5, 0]]), c.Rwx()
assert c.Jwx() == -sympy.Matrix([[1, 3], [2, 4]])
''')

seed('S02', 'C02', [('pyphs/core/structure/dimensions.py',
                     "        return self.x() - self.xl() - self.xnl_mono()\n",
                     "        return max(self.xnl() - self.xnl_mono(), "
                     "self.xl())\n")],
     'a core with linear storages and fewer multivariate nonlinear ones',
     'the number of multivariate nonlinear storages is wrong',
     CORE + '''
c = Core()
x = c.symbols(['xa', 'xb', 'xc'])
c.add_storages(x, x[0]**2 + x[1]**2 + x[2]**4)
c.linear_nonlinear()
assert (c.dims.xl(), c.dims.xnl()) == (2, 1)
assert c.dims.xnl_mono() + c.dims.xnl_multi() == c.dims.xnl()
''')

seed('S03', 'C03', [('pyphs/core/structure/moves.py',
                     "    core.y = [core.y[el] for el in new_indices]\n",
                     "    core.y = [core.y[el] for el in (new_indices if "
                     "indi <= indf else myrange(core.dims.y(), indf, indi))]"
                     "\n")],
     'a port moved towards the beginning of the list over at least two '
     'others',
     'inputs and outputs of the ports are permuted differently', CORE + '''
c = Core()
for i in range(4):
    c.add_ports(*c.symbols(['u%i' % i, 'y%i' % i]))
c.move_port(3, 1)
assert [str(e)[1:] for e in c.u] == [str(e)[1:] for e in c.y], (c.u, c.y)
''')

seed('S04', 'C04', [('pyphs/core/core.py',
                     "self.move_connector(i_dual, 2*i+1)",
                     "self.move_connector(i_dual, i+1)")],
     'at least two connectors',
     'the ports of the second connector are exchanged: its ratio changes its '
     'sign', CORE + '''
n = 6
A = sympy.Matrix(n, n, lambda i, j: 0 if i == j else
                 (1 if i < j else -1)*(1 + min(i, j) + 2*max(i, j)))
for order in ((0, 1, 2, 3), (1, 0, 3, 2), (3, 2, 1, 0)):
    c = Core()
    for i in range(n):
        c.add_ports(*c.symbols(['u%i' % i, 'y%i' % i]))
    c.init_M()
    c.M = sympy.SparseMatrix(A)
    y = list(c.y)
    ratios = (sympy.Rational(2), sympy.Rational(3))
    for (i, j), r in zip((order[:2], order[2:]), ratios):
        c.add_connector([c.y.index(y[i]), c.y.index(y[j])], r)
    c.connect()
    p, q, s, t = order
    N = sympy.zeros(n, n)
    N[p, q], N[q, p] = -ratios[0], ratios[0]
    N[s, t], N[t, s] = -ratios[1], ratios[1]
    # y = A (N y + e u)
    full = (sympy.eye(n) - A*N).inv()*A
    assert full[4, 5] == c.M[0, 1], (order, full[4, 5], c.M[0, 1])
''')

seed('S05', 'C05', [('pyphs/core/maths/_calculus.py',
                     "            Jac[i, j] = func[i].diff(vars_[j]).doit()\n",
                     "            Jac[i, j] = Jac[j, i] if nf == nv and j < i "
                     "else \\\n                func[i].diff(vars_[j])"
                     ".doit()\n")],
     'a square jacobian that is not symmetric (coupled dissipations)',
     'entries below the diagonal are copies of the ones above', CORE + '''
c = Core()
w = c.symbols(['wa', 'wb'])
c.add_dissipations(w, [2*w[0], w[0]**3 + w[1]])
assert c.jacz()[1, 0] == 3*w[0]**2, c.jacz()
''')

seed('S06', 'C06', [('pyphs/core/structure/splits.py',
                     "        jacz_col = list(jacz[:, nwl])\n",
                     "        jacz_col = list(jacz[nwl:, nwl])\n")],
     'coupled dissipation functions: a variable that is linear in its own '
     'law and in the following ones, and nonlinear in a previous one',
     'a nonlinear dissipation is counted as linear', CORE + '''
c = Core()
w = c.symbols(['wa', 'wb'])
c.add_dissipations(w, [w[0] + w[1]**3, w[1]])
c.linear_nonlinear()
assert [str(e) for e in c.wl()] == ['wa'], c.wl()
assert not c.Zl.free_symbols, c.Zl
''')

seed('S07', 'C07', [('pyphs/core/structure/R.py',
                     "                core.move_dissipative(i, core.dims.wl()-1)\n",
                     "                core.move_dissipative(i, core.dims.w()-1)\n")],
     'a forced linear dissipation together with a nonlinear one',
     'the remaining dissipations change their order', CORE + '''
c = Core()
w = c.symbols(['wa', 'wb', 'wc'])
c.add_dissipations(w, [2*w[0], 3*w[1], w[2]**3])
c.init_M()
c.force_wnl = [w[0]]
c.reduce_z()
assert [str(e) for e in c.w] == ['wa', 'wc'], c.w
''')

seed('S08', 'C08', [('pyphs/core/core.py',
                     "                            'connectors', 'force_wnl', "
                     "'subs', 'M', '_dxH',\n",
                     "                            'connectors', 'subs', 'M', "
                     "'_dxH',\n")],
     'a core with forced dissipations that is copied or saved',
     'the list of forced dissipations is lost', CORE + '''
c = Core()
w = c.symbols(['wa', 'wb'])
c.add_dissipations(w, [2*w[0], 3*w[1]])
c.init_M()
c.force_wnl = [w[0]]
d = c.__copy__()
assert d.force_wnl == [w[0]], d.force_wnl
d.reduce_z()
assert len(d.w) == 1
''')

seed('S09', 'C09', [('pyphs/core/core.py',
                     "        core.force_wnl = core1.force_wnl + core2.force_wnl\n",
                     "        core.force_wnl = core1.force_wnl or "
                     "core2.force_wnl\n")],
     'two cores that both have forced dissipations',
     'the forced dissipations of the second operand are dropped', CORE + '''
cs = []
for n in 'ab':
    c = Core()
    w = c.symbols('w' + n)
    c.add_dissipations([w], [2*w])
    c.force_wnl = [w]
    cs.append(c)
s = cs[0] + cs[1]
assert [str(e) for e in s.force_wnl] == ['wa', 'wb'], s.force_wnl
s.reduce_z()
assert len(s.w) == 2
''')

seed('S10', 'C10', [('pyphs/core/tools/_substitutions.py',
                     "    for k in expr.keys():\n"
                     "        try:\n"
                     "            expr[k] = expr[k].subs(subs)\n"
                     "        except AttributeError:\n"
                     "            pass\n",
                     "    try:\n"
                     "        for k in expr.keys():\n"
                     "            expr[k] = expr[k].subs(subs)\n"
                     "    except AttributeError:\n"
                     "        pass\n")],
     'substitutions by expressions that follow substitutions by numbers',
     'expressions after the first number are not substituted', CORE + '''
c = Core()
a, b, d = c.symbols(['a', 'b', 'd'])
x = c.symbols('x')
c.add_storages([x], a*b*x**2)
c.subs.update({a: 2.})
c.subs.update({b: 3*d})
c.substitute(subs={d: 5})
assert c.subs[b] == 15, c.subs
''')

seed('S11', 'C11', [('pyphs/numerics/numerical_method/_discrete_calculus.py',
                     "                           (0, squarred_norm_dx < "
                     "numtol**2),\n",
                     "                           (0, squarred_norm_dx < "
                     "numtol),\n")],
     'a non-separable energy and an increment whose norm lies between the '
     'tolerance and its square root',
     'the energy balance of the discrete gradient is lost', CORE + '''
from pyphs.numerics.numerical_method._discrete_calculus import \\
    discrete_gradient_multivar
x = list(Core.symbols(['x0', 'x1']))
dx = list(Core.symbols(['dx0', 'dx1']))
H = x[0]**4*x[1]**2 + x[1]**4
g = discrete_gradient_multivar(H, x, dx, 1e-3)
v = dict(zip(x + dx, (1., 2., 1e-2, 1.2e-2)))
post = H.subs(dict(zip(x, (1.01, 2.012))))
d = sum(gi.subs(v)*di.subs(v) for gi, di in zip(g, dx))
assert abs(d - (post - H.subs(v))) < 1e-12, d - (post - H.subs(v))
''')

seed('S12', 'C12', [('pyphs/numerics/numerical_method/_method.py',
                     "    method.preimplicit.append(('o', 'ud_o'))\n",
                     "    method.preimplicit.insert(0, ('o', 'ud_o'))\n")],
     'a core with an observer of a state',
     'observers are evaluated at the state of the previous step', CORE + '''
c = Core()
x = c.symbols('x')
o = c.symbols('o')
c.add_storages([x], x**2/2)
c.add_ports(*c.symbols(['u', 'y']))
c.set_Mxy([[1]])
c.set_Myx([[-1]])
c.add_observer({o: 2*x})
m = c.to_method()
n = m.to_numeric(config={'fs': 10.})
for i in range(4):
    n.update(u=[1.])
    assert abs(n.o()[0] - 2*n.x()[0]) < 1e-12, (n.o(), n.x())
''')

seed('S13', 'C13', [('pyphs/numerics/numerical_core/_numerical_core.py',
                     "            u = numpy.zeros(self.method.dims.y())\n",
                     "            u = self.u()\n")],
     'an update without input after one with an input',
     'the previous input is held instead of zero', CORE + '''
c = Core()
x = c.symbols('x')
c.add_storages([x], x**2/2)
c.add_ports(*c.symbols(['u', 'y']))
c.set_Mxy([[1]])
c.set_Myx([[-1]])
n = c.to_method().to_numeric(config={'fs': 10.})
n.update(u=[1.])
n.update()
assert n.u()[0] == 0, n.u()
''')

seed('S14', 'C14', [('pyphs/numerics/tools/_evaluation.py',
                     "        return (self.core.x + self.core.dx() + "
                     "self.core.w + self.core.u +\n"
                     "                self.core.p + "
                     "list(self.core.observers.keys()))\n",
                     "        return (self.core.x + self.core.dx() + "
                     "self.core.w + self.core.p +\n"
                     "                self.core.u + "
                     "list(self.core.observers.keys()))\n")],
     'an expression that depends on an input and on a parameter',
     'the arguments of evaluations are not in the documented order',
     CORE + '''
c = Core()
x, u, y, p, w = c.symbols(['x', 'u', 'y', 'p', 'w'])
c.add_storages([x], x**2/2)
c.add_ports([u], [y])
c.add_parameters([p])
c.set_Mxy([[p]])
c.set_Myx([[-p]])
c.set_Myy([[2*p]])
e = c.to_evaluation(names=['output'])
assert [str(a) for a in e.output_args] == ['x', 'u', 'p'], e.output_args
''')

seed('S15', 'C15', [('pyphs/graphs/build.py',
                     "        index_e_in_connector = [e_label in c['y']\n"
                     "                                for c in graph.core."
                     "connectors].index(True)\n",
                     "        index_e_in_connector = (len("
                     "new_indices_connector) - 1)//2\n")],
     'two connectors with different ratios whose edges are not analysed in '
     'the order of their creation',
     'the ratios of the connectors are exchanged', '''
import sympy
from pyphs import Graph
from pyphs.dictionary import connectors as k, electronics as e
g = Graph(label='net')
g += e.Source('in', ('A', g.datum), type='voltage')
g += k.Transformer('ta', ('B', g.datum, 'C', g.datum), alpha='ra')
g += k.Gyrator('gb', ('A', g.datum, 'B', g.datum), alpha='rb')
g += e.Resistor('R', ('C', g.datum), R=('R', 1.))
c = g.to_core(connect=False)
rel = {}
for d in c.connectors:
    rel[str(d['y'][0])] = d['alpha'].free_symbols
assert {str(s) for s in rel['yta1']} == {'ra'}, rel
assert {str(s) for s in rel['ygb1']} == {'rb'}, rel
''')

seed('S16', 'C16', [('pyphs/dictionary/electronics/_bjt.py',
                     "'e_ctrl': wR[1]/Rc", "'e_ctrl': wR[1]/Re")],
     'a transistor whose collector resistance is effort-controlled in the '
     'circuit and differs from the emitter resistance',
     'the law of the collector resistance uses the emitter resistance', '''
import sympy
from pyphs.dictionary import electronics as e
g = e.Bjt('Q', ('B', 'C', 'E'), Rc=7., Re=3.)
for u, v, d in g.edges(data=True):
    if 'rc' in str(d['label']):
        z = d['z']['e_ctrl'].subs(g.core.subs)
        assert abs(z.subs(d['label'], 14.) - 2) < 1e-12, z
        break
else:
    raise AssertionError
''')

seed('S17', 'C17', [('pyphs/numerics/simulations/h5data/h5data.py',
                     "                stop = vslice.stop+self.inds[vname][0]\n",
                     "                stop = vslice.stop+self.inds[vname][0]"
                     " if vslice.stop < self.dims[vname] "
                     "else self.inds[vname][0]+vslice.stop-"
                     "(vslice.start or 0)\n")],
     'a slice of components that starts after the first one and ends at the '
     'last one',
     'the last components are missing in what is read', '''
import os
import numpy
from pyphs import Core
c = Core(label='three')
x = c.symbols(['x0', 'x1', 'x2'])
c.add_storages(x, sum(e**2 for e in x)/2)
c.add_ports(*c.symbols(['u', 'y']))
c.set_Jxx(__import__('sympy').Matrix([[0, 1, 0], [-1, 0, 1], [0, -1, 0]]))
s = c.to_method().to_simulation(config={'lang': 'python', 'pbar': False,
                                        'path': os.getcwd()},
                                inits={'x': [1., 2., 3.]})
s.init(nt=4)
s.process()
full = s.data.x()
part = s.data.x(vslice=slice(1, 3, None))
assert part.shape == (4, 2), part.shape
assert numpy.allclose(part, full[:, 1:3])
''')

seed('S21', 'C21', [('pyphs/misc/signals/synthesis/synthesis_array.py',
     "        if parameters['offset'] != 0:",
     "        if parameters['offset'] > 0:")],
     'a negative offset',
     'the offset of the signal is silently dropped', '''
import numpy as np
from pyphs import signalgenerator
kw = dict(which='sin', tsig=0.01, fs=1000., cycle_ratio=0.5, A=2.)
s = signalgenerator(**kw)
for o in (1.5, -1.5):
    v = signalgenerator(offset=o, **kw)
    assert np.allclose(v, s + o), (o, v - s)
''')

seed('S20', 'C20', [('pyphs/numerics/cpp/functions.py',
                     "            if (m, n) in mat_dic.keys():\n",
                     "            if (n, m) in mat_dic.keys():\n")],
     'a method whose constant matrix has an entry at (m, n) and none at '
     '(n, m), e.g. a nonsymmetric coupling of the storages',
     'the generated C++ class starts with 0 instead of that constant, which '
     'no update assigns', '''
import re
import tempfile
import sympy
from pyphs import Core, method2cpp
c = Core(label='two')
x = c.symbols(['xa', 'xb'])
k = c.symbols('k')
c.add_storages(x, k*x[0]**2/2 + x[1]**2/2)
w = c.symbols('w')
c.add_dissipations(w, 2*w)
c.add_ports(c.symbols('u'), c.symbols('y'))
c.init_M()
c.set_Mxx(sympy.Matrix([[-1, 0], [-2, -1]]))
c.set_Jxy(sympy.Matrix([[1], [2]]))
c.set_Jxw(sympy.Matrix([[1], [0]]))
c.subs[k] = 3.
m = c.to_method(config={'grad': 'discret'})
with tempfile.TemporaryDirectory() as d:
    method2cpp(m, objlabel='two', path=d)
    with open(d + '/core.cpp') as f:
        text = f.read()
values = {'k': 3., 'F_S': 7.}
for i, a in enumerate(m.args()):
    values[str(a)] = 1. + i/8


def evaluate(s):
    s = re.sub(r'\\(\\*(\\w+)\\)', r'(\\1)', s)
    return float(eval(s, {}, values))


def number(e):
    e = sympy.sympify(e)
    return float(e.subs({s: values[str(s)] for s in e.free_symbols}))


seen = 0
for name in m.update_actions_deps():
    if name not in m.funcs_names:
        continue
    found = re.search(r'\\b%s_data\\[\\]\\s*=\\s*\\{([^}]*)\\}' % name, text)
    if not found:
        continue
    mat = sympy.Matrix(getattr(m, name + '_expr'))
    data = [evaluate(s) for s in found.group(1).split(',') if s.strip()]
    assert len(data) == mat.rows*mat.cols, (name, data)
    for i, j, s in re.findall(r'\\b_%s\\((\\d+),\\s*(\\d+)\\)\\s*=([^;]*);'
                              % name, text):
        data[int(j)*mat.rows + int(i)] = evaluate(s)
    for j in range(mat.cols):
        for i in range(mat.rows):
            got, exp = data[j*mat.rows + i], number(mat[i, j])
            assert abs(got - exp) < 1e-9, (name, i, j, got, exp)
            seen += exp != 0
assert seen > 5, seen
''')

seed('S18', 'C18', [('pyphs/numerics/simulations/simulation.py',
     'equal = all(v == s for (v,s) in zip(inits[k], self.inits[k])) and equal',
     'equal = all(v == s for (v,s) in zip(inits[k], self.inits[k]))')],
     'a second init with initial values of two variables, of which only the '
     'first in the dictionary has changed',
     'the new initial values are ignored: the run starts from the previous '
     'ones', '''
import tempfile
from pyphs import Core
c = Core(label='one')
c.add_storages(c.symbols('x'), c.symbols('x')**2/2)
c.add_dissipations(c.symbols('w'), 2*c.symbols('w'))
c.add_ports(c.symbols('u'), c.symbols('y'))
c.set_Jxw([[-1]])
c.set_Jxy([[-1]])
with tempfile.TemporaryDirectory() as d:
    s = c.to_simulation(config={'lang': 'python', 'path': d, 'pbar': False},
                        inits={'x': [1.], 'w': [0.5]})
    s.init(nt=2)
    assert list(s.nums.x()) == [1.]
    s.init(nt=2, inits={'x': [3.], 'w': [0.5]})
    assert list(s.nums.x()) == [3.], s.nums.x()
''')

seed('S19', 'C19', [('pyphs/graphs/netlists.py',
     "            pars += ' {}={};'.format(par, str(dic['arguments'][par]))",
     "            value = dic['arguments'][par]\n"
     "            if isinstance(value, float):\n"
     "                value = '%g' % value\n"
     "            pars += ' {}={};'.format(par, str(value))")],
     'a parameter given by a number with more than 6 significant digits',
     'the netlist that is written (and read again) has a rounded value', '''
import tempfile
from pyphs import Netlist
with tempfile.TemporaryDirectory() as d:
    net = Netlist(d + '/a.net')
    net.add_line({'dictionary': 'electronics', 'component': 'capacitor',
                  'label': 'C1', 'nodes': ('#', 'A'),
                  'arguments': {'C': 1.2345678e-9}})
    net.add_line({'dictionary': 'electronics', 'component': 'inductor',
                  'label': 'L1', 'nodes': ('#', 'A'),
                  'arguments': {'L': ('L1', 0.123456789)}})
    net.write()
    back = Netlist(d + '/a.net')
    for k in range(2):
        assert back[k] == net[k], (back[k], net[k])
''')
