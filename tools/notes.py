"""Per property: (what is analysed, oracle) for DESIGN.md"""
N = {
 'C01': ('the accessors and mutators that `Core.__init__` installs (partial '
         'objects, closures, properties) on a core whose dimensions and '
         'matrices are symbols; the matrices are noncommutative polynomials '
         'in M, its transpose and blocks',
         'the laws of the statement: M = J - R, skew-symmetry, symmetry, '
         'get-after-set, every other block unchanged (all 8 x 8 pairs of '
         'blocks for M, J and R)'),
 'C02': ('every dimension, index range, label, vector and block accessor of '
         'a core of symbolic dimensions',
         'one layout x, w, y, cy (linear then nonlinear), written in '
         '`sa/ref/core.py`'),
 'C03': ('move_storage, move_dissipative, move_port, move_connector with '
         'symbolic indices (three cases of their order)',
         'one permutation applied to symbols, expressions, rows and columns'),
 'C04': ('port2connector, add_connector, connect for up to two connectors in '
         'every order of their ports, on symbolic cores',
         'elimination of u0 = -alpha y1, u1 = alpha y0 as matrix polynomials'),
 'C05': ('gradient, jacobian, hessian, matvecprod, sumvecs, inverse, '
         'free_symbols', 'entry by entry definitions (differentiation '
         'uninterpreted)'),
 'C06': ('sep_linear, build Q/bl/Zl with every pattern of nonlinear entries '
         'for up to 3 storages and 2 dissipations', 'stable partition of the '
         'components and exact linear part'),
 'C07': ('reduce_z for symbolic dimensions (nothing forced) and every choice '
         'of forced dissipations for literal ones', 'Schur complement '
         'obtained by elimination'),
 'C08': ('Core.__copy__, pickling helpers, load', 'every datum equal and no '
         'mutable container shared (identity of abstract objects)'),
 'C09': ('add_storages/add_dissipations/add_ports/... and Core.__add__ for '
         'literal dimensions', 'block concatenation'),
 'C10': ('substitute, subsinverse, simplify, apply_subs...', 'every place '
         'holds the substituted expression (substitution uninterpreted, free '
         'symbols chosen at every place)'),
 'C11': ('discrete_gradient*, theta and trapez rules, and their use by '
         'Method', 'reference expressions and grad.dx = H(x+dx) - H(x)'),
 'C12': ('Method: set_structure, set_execactions and the functions and '
         'operations they define', 'the system of the statement; freshness '
         'of every scheduled value by propagation through the schedule (loop '
         'invariant for the iteration)'),
 'C13': ('Numeric: construction, init, set_*, update, iterate; Operation',
         'a reference executor (`sa/ref/`) with the functions of the method '
         'uninterpreted'),
 'C14': ('Evaluation, lambdify and the operators', 'the expression at the '
         'values given, in the order of the arguments'),
 'C15': ('Graph.to_core (analysis and building) on a list of circuits with '
         'arbitrary laws', 'a basis of the solutions of the equations of '
         'Kirchhoff: b = M a on each'),
 'C16': ('every constructor of the dictionary with each form of argument',
         'formulas of the documentation (`sa/rules/c16.py`), compared with '
         '60 digits at 48 points'),
 'C17': ('H5Data (layout, writers, readers, derived data, options), '
         'set_dataset_from_iterable, Simulation.process in python',
         'the arrays that were stored, selected by slices'),
 'C18': ('Simulation: construction, init, process; H5Data construction and '
         'reading options; to_simulation / to_method of Core, Method, Graph '
         'and Netlist', 'the state defined by the last values given of each '
         'option, parameter and initial value'),
 'C19': ('Netlist: read, write, line, add_line, delline, setline, +, '
         'folder; Graph built from a netlist or from its path', 'the data '
         'the text was made from; lists of lines; the union of the graphs '
         'of the components'),
 'C20': ('method2cpp and what it calls (arguments, functions, operations), '
         'the parameter table, simu2cpp with its templates and build files',
         'the update actions of the method executed in Python; the layout '
         'of the data file of H5Data'),
 'C21': ('signalgenerator and its waveforms, wavread, wavwrite, lowpass, '
         'transferFunction', 'the documented formula of each sample; the '
         'signal given'),
}
