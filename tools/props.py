"""Metadata of the properties; tools/gen.py writes properties.jsonl and
MANIFEST.json from it."""
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique,
         note):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  quant=quant, why=why, files=files, mech=mech,
                  reason=reason))


AI = ('abstract interpretation of the source over symbolic objects (value '
      'numbering with algebraic normal forms, gated joins); ')

prop('C01', 'J/R decomposition of the structure and block setters',
     'The structure matrix of a core always splits into a skew-symmetric '
     'interconnection J and a symmetric resistive part R with M = J - R. '
     'Assigning a block of M, J or R changes that block (and, for J and R, '
     'the transposed block so that skew-symmetry and symmetry are kept) to '
     'the given value, keeps the other part of the decomposition, and leaves '
     'every other block as it was.',
     ['inputs', 'histories'],
     'for all core dimensions, matrix contents, and all pairs of blocks',
     'tests set a few blocks of one small core; the laws must hold for every '
     'dimension, content and pair of blocks, including the linear and '
     'nonlinear sub-blocks',
     ['pyphs/core/core.py', 'pyphs/core/structure/R.py',
      'pyphs/core/tools/_types.py'],
     [('accessors and mutators of blocks', 'pyphs/core/core.py:Core'),
      ('J, R', 'pyphs/core/core.py:Core.J')],
     AI + 'noncommutative matrix polynomials over blocks',
     'every block accessor and setter is interpreted on a core of arbitrary '
     'symbolic dimensions; results are compared as polynomial normal forms')

prop('C02', 'One block layout for all views of a core',
     'Dimensions, index ranges, labels, the efforts and flows vectors, the '
     'linear and nonlinear selections and every block view of M, J and R '
     'follow one layout: storages, then dissipations, then ports, then '
     'connectors, storages and dissipations each having their linear part '
     'first. The output function is the port rows of M applied to (gradient '
     'of H, dissipation functions, inputs), and the dissipated power is w.z '
     'plus the quadratic form of R.',
     ['inputs', 'histories'],
     'for all cores of any dimensions with any linear/nonlinear split',
     'tests look at sizes of a few fixed cores; a view that disagrees only '
     'for some dimension (e.g. with connectors, or with both linear and '
     'nonlinear parts) passes',
     ['pyphs/core/core.py', 'pyphs/core/structure/dimensions.py',
      'pyphs/core/structure/indices.py', 'pyphs/core/structure/output.py'],
     [('dimensions', 'pyphs/core/structure/dimensions.py:Dimensions'),
      ('index ranges', 'pyphs/core/structure/indices.py:Indices'),
      ('views', 'pyphs/core/core.py:Core')],
     AI + 'comparison with reference layout definitions',
     'each accessor is interpreted on a symbolic core and compared with a '
     'reference definition of the layout')

prop('C03', 'Moving a component moves all of its data together',
     'Moving a storage, a dissipation, a port or a connector from one '
     'position to another applies one and the same permutation to its '
     'symbols, to the expressions paired with them (gradient, dissipation '
     'function, input/output pairs) and to the rows and columns of the '
     'structure, and changes nothing else in the core.',
     ['inputs', 'histories'],
     'for all positions i, j (i<j, i>j, i=j) and all core dimensions',
     'tests move one component in one or two cores; off-by-one errors or a '
     'forgotten companion list show only for particular position pairs or '
     'when blocks precede the moved one',
     ['pyphs/core/structure/moves.py', 'pyphs/misc/tools.py'],
     [('moves', 'pyphs/core/structure/moves.py:move_stor'),
      ('permutation', 'pyphs/misc/tools.py:myrange')],
     AI + 'sequence normal forms with symbolic indices',
     'all three orderings of symbolic indices, arbitrary dimensions')

prop('C04', 'Connecting ports is a lossless elimination',
     'Turning ports into a connector moves their row and column of the '
     'structure and their symbols together and records the two ports in the '
     'given order with the given ratio alpha (1 by default). Connecting '
     'eliminates exactly the connector variables by u0 = -alpha*y1, '
     'u1 = alpha*y0 for each pair (so the exchanged power u0*y0 + u1*y1 is '
     'zero) and leaves the other symbols, expressions and dimensions as '
     'they were.',
     ['inputs', 'histories'],
     'for all cores of any dimensions, positions of the two ports, and '
     'orders of several connectors',
     'the tests connect the ports of a few cores without direct coupling '
     'between the ports, in one order',
     ['pyphs/core/core.py', 'pyphs/core/structure/connectors.py'],
     [('connectors', 'pyphs/core/structure/connectors.py:port2connector'),
      ('connection', 'pyphs/core/core.py:Core.connect')],
     AI + 'block matrix normal forms, random models of terms for refutation',
     'one and two connectors, all positions and symbolic dimensions')

prop('C05', 'Derivatives and algebra of expressions',
     'gradient, jacobian and hessian differentiate every function with '
     'respect to every variable, functions along rows and variables along '
     'columns in the given order; matrix-vector products, vector sums, '
     'scalar products, inverses and the collection of free symbols use '
     'every entry exactly once.',
     ['inputs'],
     'for all lists of functions and variables (any lengths, equal or not)',
     'tests use square or single-variable cases, where transposed or '
     'truncated results coincide with the right ones',
     ['pyphs/core/maths/_calculus.py', 'pyphs/core/maths/_matrices.py',
      'pyphs/core/maths/_vectors.py', 'pyphs/core/tools/_free_symbols.py'],
     [('derivatives', 'pyphs/core/maths/_calculus.py:gradient'),
      ('algebra', 'pyphs/core/maths/_matrices.py:matvecprod')],
     AI + 'comprehension and loop summaries as matrix binders',
     'symbolic lengths where the code admits it, literal matrices otherwise')

prop('C06', 'Separation of linear and nonlinear parts',
     'linear_nonlinear puts first the storages whose column of the hessian '
     'of H involves no state, increment or dissipation variable, and first '
     'the dissipations whose column of the jacobian of z involves no '
     'increment or dissipation variable (or those selected by a given '
     'criterion); both groups keep their order; gradient, dissipation '
     'function, rows and columns of M follow their component; Q, bl and Zl '
     'are the hessian, the affine part of the gradient and the jacobian of '
     'exactly the linear part, and the dimensions count it.',
     ['inputs', 'histories'],
     'for all patterns of nonlinear entries, arbitrary expressions, ports '
     'and connectors',
     'tests split a handful of cores; the result depends on the pattern of '
     'nonlinear entries and on the order of the components',
     ['pyphs/core/structure/splits.py', 'pyphs/core/structure/moves.py'],
     [('split', 'pyphs/core/structure/splits.py:linear_nonlinear')],
     AI + 'enumeration of dependency patterns',
     'up to 3 storages and 2 dissipations with every pattern of dependent '
     'entries; numbers of ports and connectors are symbolic')

prop('C07', 'Reduction of the linear dissipations',
     'reduce_z eliminates exactly the linear dissipations that are not '
     'listed in force_wnl, by solving w_l = M_ll z_l + M_lo a_o with '
     'z_l = Zl w_l, so that the remaining components obey '
     'b_o = (M_oo + M_ol Zl (I - M_ll Zl)^-1 M_lo) a_o. Storages, ports, '
     'connectors, nonlinear and forced dissipations with their functions '
     'are kept in their order.',
     ['inputs', 'histories'],
     'for all cores of any dimensions and any choice of forced '
     'dissipations',
     'tests reduce cores without forced dissipations whose linear '
     'resistive block is diagonal',
     ['pyphs/core/structure/R.py', 'pyphs/core/structure/moves.py',
      'pyphs/core/maths/_matrices.py'],
     [('reduction', 'pyphs/core/structure/R.py:reduce_z')],
     AI + 'noncommutative matrix polynomials over blocks',
     'symbolic dimensions without forced dissipations; up to 3 linear and 1 '
     'nonlinear dissipations with every forced subset')

prop('C08', 'Copies and saved cores are complete and independent',
     'A copy of a core and a core saved to disk and loaded again carry all '
     'of its data: every registered symbol list and expression, structure, '
     'given gradient, connectors, substitutions, observers, forced '
     'dissipations, counters of the linear parts and label. The copy shares '
     'no mutable container with the original, the accessors of each look at '
     'their own data, and the original is unchanged.',
     ['inputs', 'histories'],
     'for all contents of a core and any later change of either object',
     'tests compare one or two attributes of a copy of one core',
     ['pyphs/core/core.py'],
     [('copy', 'pyphs/core/core.py:Core.__copy__'),
      ('files', 'pyphs/core/core.py:Core.save')],
     AI + 'points-to comparison of containers',
     'arbitrary symbolic contents; the file is modelled as a dictionary '
     'named by its path')

prop('C09', 'Building and combining cores',
     'add_storages, add_dissipations, add_ports, add_parameters and '
     'add_observer append exactly the given symbols and expressions, single '
     'or in lists (refusing lists of different lengths; a parameter is no '
     'longer a substitution). The sum of two cores lists, kind by kind, the '
     'components of the first then of the second, with block-diagonal '
     '(uncoupled) structures, the sum of the energies and gradients, and '
     'the dissipation functions, substitutions, observers, connectors and '
     'forced dissipations of both; the operands do not change. allsymbs and '
     'freesymbols collect every symbol in use.',
     ['inputs', 'histories'],
     'for all pairs of cores and all sequences of additions',
     'tests add a few fixed components and sum two cores of one shape',
     ['pyphs/core/core.py'],
     [('sum', 'pyphs/core/core.py:Core.__add__'),
      ('building', 'pyphs/core/core.py:Core.add_storages')],
     AI + 'literal dimensions with symbolic entries',
     'several combinations of 0 to 2 components of each kind; expressions '
     'and matrix entries are arbitrary')

prop('C10', 'Substitution and simplification reach every expression',
     'substitute, simplify and subsinverse visit every place of a core that '
     'holds an expression or symbol: H, z, M, Q, Zl, bl, a given gradient, '
     'observers, all symbol lists. substitute replaces exactly the given '
     'symbols (with selfexprs also the expression-valued substitutions of '
     'the core, with selfall all of them, expressions first), removes them '
     'from core.subs, substitutes in the remaining ones, and does not '
     'change the dictionary of the caller.',
     ['inputs', 'histories'],
     'for all expressions and all sets of substituted symbols',
     'a forgotten place shows only when the substituted symbol occurs in '
     'that place and the value is needed later',
     ['pyphs/core/tools/_substitutions.py', 'pyphs/core/tools/_simplify.py',
      'pyphs/core/tools/_subsinverse.py', 'pyphs/core/core.py'],
     [('substitution',
       'pyphs/core/tools/_substitutions.py:substitute_core'),
      ('simplification', 'pyphs/core/tools/_simplify.py:simplify_core')],
     AI + 'free-symbol tables for arbitrary expressions',
     'a core of literal dimensions; dependence of each place on the '
     'substituted symbols is varied')

prop('C11', 'Discrete gradients and the point of evaluation',
     'Each evaluation of the gradient is the announced one: finite '
     'differences along each coordinate (with the midpoint expansion below '
     'the tolerance), midpoint corrected along dx, theta rule, trapezoid; '
     'the discrete gradients satisfy grad.dx = H(x+dx) - H(x) above the '
     'tolerance. A numerical method applies the configured one to the '
     'linear, separable and non-separable storages in order, and evaluates '
     'the structure and the dissipation functions at the configured point, '
     'exactly once.',
     ['inputs'],
     'for all energies, states, increments, tolerances and theta',
     'the energy balance of a simulation hides small errors of the '
     'gradient, and tests use a few fixed systems',
     ['pyphs/numerics/numerical_method/_discrete_calculus.py',
      'pyphs/numerics/numerical_method/_method.py'],
     [('gradients', 'pyphs/numerics/numerical_method/_discrete_calculus.py:'
       'discrete_gradient_multivar'),
      ('evaluation point', 'pyphs/numerics/numerical_method/_method.py:'
       'build_gradient_evaluation')],
     AI + 'comparison with reference expressions',
     'up to 3 variables; energies, tolerances and theta arbitrary; '
     'differentiation and substitution uninterpreted')

prop('C12', 'The system solved at each time step and its schedule',
     'A numerical method solves fs*dx = Mxx dxH + Mxw z + Mxy u and '
     'w = Mwx dxH + Mww z + Mwy u: residual, blocks, jacobians and the '
     'linear/nonlinear partition are those of this system, for the final '
     'classification of the components. The update schedule first advances '
     'x by the increment of the previous step, then evaluates observers, '
     'iterates Newton steps on the nonlinear part (linear part eliminated) '
     'with up to date residual and step norms, then sets the linear part '
     'from the final nonlinear one and evaluates dxH, z, y; no stale value '
     'is used. Every function is given its arguments in the order of '
     'Method.args, which is (x, dx, w, u, p, o); building a method does not '
     'change the core.',
     ['inputs', 'histories'],
     'for all systems, parameter values and iteration counts',
     'a stale or missing term shows only when the system has both linear '
     'and nonlinear parts coupled in a particular way',
     ['pyphs/numerics/numerical_method/_method.py', 'pyphs/misc/tools.py'],
     [('system', 'pyphs/numerics/numerical_method/_method.py:set_structure'),
      ('schedule',
       'pyphs/numerics/numerical_method/_method.py:set_execactions')],
     AI + 'freshness of the scheduled values by loop-invariant propagation',
     'up to 2 storages, 2 dissipations and 2 ports with arbitrary entries; '
     'the schedule for every presence of linear and nonlinear parts, any '
     'number of iterations')

prop('C13', 'Execution of a numerical method',
     'Numeric starts from zeros except the given initial values (wrong '
     'shapes and unknown configuration keys are refused), with the '
     'configured sampling rate substituted, and with every function and '
     'operation evaluated at that state. Each update sets the given inputs '
     'and parameters (zero when absent) and then executes the update '
     'actions of the method in order: each target receives the value of its '
     'function at the current arguments or of its operation at the current '
     'values; an iteration starts with a step norm of 1 and repeats its '
     'commands while residual and step exceed the tolerance, at most maxit '
     'times.',
     ['inputs', 'histories'],
     'for all values of the state, inputs, parameters and functions, and '
     'any number of iterations',
     'a value that is not refreshed or written at the wrong index shows '
     'only in later time steps of particular systems',
     ['pyphs/numerics/numerical_core/_numerical_core.py',
      'pyphs/numerics/tools/_operation.py'],
     [('update', 'pyphs/numerics/numerical_core/_numerical_core.py:'
       'Numeric.update'),
      ('operations', 'pyphs/numerics/tools/_operation.py:Operation')],
     AI + 'comparison with a reference executor',
     'methods built from cores of up to 2 storages, 2 dissipations and 1 '
     'port; functions of the method uninterpreted; convergence is not '
     'claimed')

prop('C14', 'Numerical evaluation of the expressions of a core',
     'Evaluation (Core.to_evaluation) applies every substitution of the '
     'core, maps each requested expression to the function of exactly its '
     'free symbols, in the order (x, dx, w, u, p, observers), announces '
     'those arguments and their indices, and returns the values entry by '
     'entry: one row per sample when vectorized, the sliced entries when a '
     'slice is given. lambdify refuses expressions with symbols that are '
     'neither arguments nor substituted. The core is left unchanged.',
     ['inputs'],
     'for all expressions, values and free symbols',
     'arguments are permuted only for some sets of free symbols',
     ['pyphs/numerics/tools/_evaluation.py',
      'pyphs/numerics/tools/_lambdify.py',
      'pyphs/numerics/tools/_operators.py'],
     [('evaluation', 'pyphs/numerics/tools/_evaluation.py:Evaluation'),
      ('lambdify', 'pyphs/numerics/tools/_lambdify.py:lambdify')],
     AI + 'comparison with reference expressions',
     'a core of literal dimensions with arbitrary expressions over chosen '
     'free symbols; 2 samples; sympy.lambdify uninterpreted')

prop('C15', 'From a graph to its core',
     'The core of a graph (Graph.to_core) is the one imposed by the laws of '
     'Kirchhoff: with e the difference of potentials (source minus target) '
     'and f the flux of every edge, b = M a for all solutions, where an edge '
     'that is flux-controlled has b = f and a = e and an effort-controlled '
     'one has b = e and a = f. Storages and ports keep their control, a '
     'dissipative edge receives the law given for the control that was '
     'chosen, gyrators obey e_A = -alpha f_B, e_B = alpha f_A and '
     'transformers e_A = -alpha e_B, f_B = alpha f_A whatever their control, '
     'also after the connection. x, w/z, u/y and cu/cy keep their pairing; '
     'energy, substitutions, parameters and observers are kept; building '
     'again gives the same core; sources that contradict each other raise an '
     'exception.',
     ['inputs', 'histories'],
     'for all laws, ratios and values, on a list of circuits (series, '
     'parallel, ladder, bridge, star, reversed edges, several ports, given '
     'controls, loaded connectors)',
     'tests build a few circuits and look at no entry of the matrices; signs '
     'and permutations depend on the order of edges and on the choice of '
     'controls',
     ['pyphs/graphs/graph.py', 'pyphs/graphs/analysis.py',
      'pyphs/graphs/build.py', 'pyphs/graphs/tools.py'],
     [('construction', 'pyphs/graphs/graph.py:Graph.to_core'),
      ('analysis', 'pyphs/graphs/analysis.py:GraphAnalysis'),
      ('structure', 'pyphs/graphs/build.py:buildCore')],
     AI + 'arrays of numbers and graphs interpreted exactly, compared with '
     'a basis of the solutions of the equations of Kirchhoff',
     'the graph is literal, its contents (laws, ratios, values) arbitrary; '
     'networkx graphs and the incidence matrix are modelled')

prop('C16', 'Components realise their documentation',
     'A component of the dictionary (electronics, mechanics, mechanics_dual, '
     'magnetics, thermics, connectors, Port, Observerec) has the edges, '
     'orientations and controls of its documentation; the energy of its '
     'storages and the laws of its dissipations (both controls where both '
     'are offered, and core.z) are the documented functions of the variables '
     'and arguments. An argument given as a number is the value of a symbol '
     'specific to the component in core.subs, a (name, value) pair gives the '
     'value of that symbol, a name becomes a parameter of the core; missing '
     'arguments take the documented default. Sources set the control of '
     'their type and the constant input; unknown types and thermal '
     'components whose label is not their node are refused.',
     ['inputs'],
     'for all values of variables and arguments (compared at points with 60 '
     'digits), each form of argument',
     'tests only instantiate components with one form of argument and look '
     'at no law',
     ['pyphs/dictionary/edges/dissipatives.py',
      'pyphs/dictionary/edges/storages.py', 'pyphs/dictionary/tools.py',
      'pyphs/dictionary/electronics/_diode.py',
      'pyphs/dictionary/mechanics/_felt.py',
      'pyphs/dictionary/thermics/_transfers.py'],
     [('arguments', 'pyphs/dictionary/tools.py:Argument'),
      ('laws', 'pyphs/dictionary/edges/dissipatives.py:DissipativeNonLinear'),
      ('energies', 'pyphs/dictionary/edges/storages.py:StorageNonLinear')],
     AI + 'the derived expressions are compared with documented formulas by '
     'evaluation of the terms at points',
     'constructors are interpreted with literal labels and nodes; equality '
     'of expressions is decided at 48 points with 60 digits (a difference is '
     'definite, an agreement holds for analytic laws of this size)')

prop('C17', 'Data of a simulation',
     'The inputs and parameters given to a simulation and the values of each '
     'time step are stored at their time step and under their name (zeros '
     'when absent), whatever the size of the chunks; reading with a slice of '
     'times and a slice of components, or with the current loading options '
     '(start, stop, step, as indices or times), gives exactly the selected '
     'values. Derived data (times, dx/dt, a, b, arguments, energy, '
     'dissipated and source powers, variation of the energy, observers) are '
     'those of the selected time steps. Every reader leaves the file as open '
     'or closed as it found it, and data saved before are read again with '
     'the same layout, or refused when the dimensions differ.',
     ['inputs', 'histories'],
     'for all values, slices of time and components, loading options and '
     'sizes of chunks',
     'tests simulate a few systems and read whole data; an offset shows only '
     'for some slices, decimations or sizes of chunks',
     ['pyphs/numerics/simulations/h5data/h5data.py',
      'pyphs/numerics/simulations/h5data/tools.py',
      'pyphs/numerics/simulations/simulation.py'],
     [('storage', 'pyphs/numerics/simulations/h5data/h5data.py:H5Data'),
      ('process', 'pyphs/numerics/simulations/simulation.py:'
       'Simulation.process')],
     AI + 'h5py and numpy modelled, comparison with the arrays stored',
     'files of 5 to 7 time steps of methods of literal dimensions with '
     'arbitrary values; slices, options and sizes of chunks enumerated')

prop('C18', 'Configuration of a simulation',
     'A simulation takes the default options, those of its method and the '
     'given ones, refuses unknown options, and rebuilds its method when the '
     'options of the method (grad, theta, split, epsdg) differ; a simulation '
     'or method asked from a core, method, graph or netlist has the options '
     'it was asked with. After any sequence of init (with options, parameter '
     'values, initial values, inputs) and process, in Python or C++, the '
     'next run uses the current ones: its method, its numerical evaluation '
     'or generated C++ files and its data are those of the current options '
     'and values, it starts from the current initial values, and data are '
     'read with the current loading options. erase=False keeps the data of '
     'an existing file, and neither the dictionaries given by the caller nor '
     'the default options are modified.',
     ['inputs', 'histories'],
     'for all values of options, parameters and initial values, and all '
     'sequences of operations',
     'the tests run a few simulations once; stale state appears only after '
     'some sequences of init and process',
     ['pyphs/numerics/simulations/simulation.py',
      'pyphs/numerics/simulations/h5data/h5data.py',
      'pyphs/core/core.py', 'pyphs/numerics/numerical_method/_method.py',
      'pyphs/graphs/graph.py', 'pyphs/graphs/netlists.py'],
     [('init', 'pyphs/numerics/simulations/simulation.py:Simulation.init'),
      ('construction',
       'pyphs/numerics/simulations/simulation.py:Simulation.__init__')],
     AI + 'abstract execution of sequences of operations with files modelled '
     'and constructions recorded, compared with the state the last values '
     'given define',
     'sequences of one to two operations after construction (three in the '
     'thorough tier) among the changes of each option, parameter value and '
     'initial value; values drawn once')

prop('C19', 'Netlists',
     'Reading a netlist file gives each line its dictionary, component, '
     'label, nodes and arguments (numbers, names, named numbers, pairs of '
     'numbers, booleans) as written, whatever the spaces, comments, blank '
     'lines and final semicolon or end of line; writing a netlist, read or '
     'built with add_line, gives a file that reads back the same lines and '
     'writes again the same text. add_line, delline, setline and + change '
     'exactly the lines they designate, of this netlist only, without '
     'modifying what they are given, and the file changes only when it is '
     'written (or cleared). The graph of a netlist is made of exactly its '
     'components, each constructed once, in order, with its label, nodes '
     'and arguments, and has the label asked for or else the one of the '
     'file.',
     ['inputs', 'histories'],
     'for all names, numbers, forms of lines and sequences of operations',
     'the tests write one netlist and read it without comparison',
     ['pyphs/graphs/netlists.py', 'pyphs/graphs/graph.py'],
     [('read', 'pyphs/graphs/netlists.py:Netlist.read'),
      ('write', 'pyphs/graphs/netlists.py:print_netlist_line'),
      ('graph', 'pyphs/graphs/graph.py:Graph._build_from_netlist')],
     AI + 'abstract execution on texts whose names and numbers are opaque, '
     'compared with the lines the texts were made from',
     'files of 0 to 3 lines, 1 to 5 nodes, 0 to 5 arguments of each form; '
     'sequences of one and two operations; every component of the '
     'dictionary in C16')

prop('C20', 'Generated C++ code',
     'The C++ class generated for a method is complete and consistent '
     '(every method declared is defined alike, shapes agree) and executes '
     'the same method: after any sequence of set_x, ..., set_u, set_p (from '
     'a vector, a matrix or one value) and update(), its accessors x(), '
     'x_vector(), y(), y(i), ... return the values the update actions of '
     'the method define, with the same iterations, stopped by the same '
     'conditions (maxit, eps). It starts from the given initial values and '
     'sample rate (set_sampleRate starts again at another rate), with each '
     'parameter bound to its own value in each given set of values. The '
     'program generated for a simulation reads the inputs and parameters of '
     'each time step from its row of the data file, updates the object once '
     'and writes each stored variable where the Python reader finds it.',
     ['inputs', 'histories'],
     'for all expressions, initial values, inputs, parameters and sequences '
     'of updates',
     'the generated code is never compiled nor run by the tests',
     ['pyphs/numerics/cpp/method2cpp.py', 'pyphs/numerics/cpp/arguments.py',
      'pyphs/numerics/cpp/functions.py', 'pyphs/numerics/cpp/operations.py',
      'pyphs/numerics/cpp/simu2cpp.py',
      'pyphs/templates/cpp/simu_main.template'],
     [('class', 'pyphs/numerics/cpp/method2cpp.py:method2cpp'),
      ('program', 'pyphs/numerics/cpp/simu2cpp.py:simu2cpp')],
     AI + 'the text written by the generator is derived with opaque printed '
     'expressions, parsed as C++ and evaluated symbolically, then compared '
     'with the update actions of the method',
     'methods of literal dimensions with arbitrary expressions, whose free '
     'symbols are drawn once; 2 time steps, 0 to 2 iterations')

NF = 'pyphs/numerics/numerical_core/_numerical_core.py'
prop('C21', 'Synthesised signals and sound files',
     'signalgenerator returns int(tdeb*fs) samples of silence, ncycles '
     'cycles of int(tsig*fs) samples and int(tend*fs) samples of silence: a '
     'cycle is the asked waveform (zero, const, step, sin with its second '
     'frequency, cos, noise, sweep) with its amplitude and frequencies '
     'during cycle_ratio of the cycle, times the attack and decay envelope '
     'and the ramp over all cycles, plus the offset, then the offset alone; '
     'the background noise is everywhere. Options left out take their '
     'default values and an unknown waveform is refused. wavwrite writes '
     'each sample of a list, array or generator once and in order as a '
     '16-bit integer, faded, resampled and divided by the scale as asked, '
     'in a closed mono file of the asked rate, without modifying the '
     'signal; wavread returns the rate and the samples of the file over '
     '2**15-1. lowpass is the convolution with a windowed sinc of unit sum, '
     'and transferFunction returns, at the frequencies within the limits, '
     'the square root of the ratio of the output and input spectra.',
     ['inputs'],
     'for all values of the samples, amplitudes and frequencies',
     'the tests synthesise one cycle and never look at its samples',
     ['pyphs/misc/signals/synthesis/synthesis_array.py',
      'pyphs/misc/signals/waves.py', 'pyphs/misc/signals/processing.py',
      'pyphs/misc/signals/analysis.py'],
     [('signals',
       'pyphs/misc/signals/synthesis/synthesis_array.py:signalgenerator'),
      ('sound files', 'pyphs/misc/signals/waves.py:wavwrite'),
      ('transfer', 'pyphs/misc/signals/analysis.py:transferFunction')],
     AI + 'abstract execution on arrays of opaque samples, amplitudes and '
     'frequencies, compared sample by sample with the documented formulas; '
     'numpy, scipy and wave are modelled',
     'sample rates and durations are drawn once per option (signals of 3 to '
     '18 samples); every sample compared for all values')

na('N01', 'Newton iterations converge',
   'The Newton iterations of a time step converge to a solution of the '
   'implicit equations within the given number of iterations and tolerance.',
   ['inputs'], 'for all systems, inputs and tolerances',
   'tests run a few well conditioned systems',
   [NF, 'pyphs/numerics/numerical_method/_method.py'],
   [('iteration', NF + ':Numeric._iterexecs')],
   'convergence depends on the values of the functions and on the distance '
   'to the solution; no bound of these can be derived from the source (what '
   'each iteration computes, and when it stops, is decided by C12 and C13)')
na('N02', 'Energy balance up to rounding errors',
   'The power balance dE/dt + Pd = Ps holds in floating point up to the '
   'tolerance at every time step of a simulation.',
   ['inputs', 'histories'], 'for all systems and time steps',
   'tests look at a few simulations',
   [NF, 'pyphs/numerics/simulations/h5data/h5data.py'],
   [('balance', 'pyphs/numerics/simulations/h5data/h5data.py:H5Data.dtE')],
   'rounding errors and the residual left by the iterations are run-time '
   'quantities; the exact balance follows from C01, C11 and C12 for exact '
   'solutions')
na('N03', 'Analysis of a graph terminates with a realizable core',
   'The search for the control of every edge terminates, and finds a '
   'realizable assignment whenever one exists.',
   ['inputs'], 'for all graphs',
   'tests build a few circuits',
   ['pyphs/graphs/analysis.py'],
   [('search', 'pyphs/graphs/analysis.py:GraphAnalysis.perform')],
   'the search iterates over data-dependent lists without a measure that a '
   'static argument could bound; C15 decides the result on literal circuits '
   'only')
