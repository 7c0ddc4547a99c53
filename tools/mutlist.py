"""(check, file, [(old, new)...], 'bug'|'same')"""
L = []


def mut(check, file, expect, *edits):
    L.append((check, file, list(zip(edits[::2], edits[1::2])), expect))


# ------------------------------------------------------------------ C01
F = 'pyphs/core/core.py'
mut('C01', F, 'bug', 'Mba = -Jab.T - Rba', 'Mba = Jab.T - Rba')
mut('C01', F, 'bug', 'Mba = Jba - R.T', 'Mba = Jba - R')
mut('C01', F, 'bug', 'Mab = Jab - R\n', 'Mab = Jab + R\n')
mut('C01', F, 'bug', "Rba = getattr(self, 'R'+varj + vari)()",
    "Rba = getattr(self, 'R'+vari + varj)().T if vari[0] == varj[0] else "
    "getattr(self, 'J'+varj + vari)()")
mut('C01', F, 'same', 'Mba = -Jab.T - Rba', 'Mba = -(Jab.T + Rba)')
mut('C01', F, 'same', "            if vari != varj:\n                self.M[debj",
    "            if not vari == varj:\n                self.M[debj")

# ------------------------------------------------------------------ C03
F = 'pyphs/misc/tools.py'
OLD = '''    if indi < indf:
        deb = lis[:indi] + lis[indi+1:indf+1]
        end = lis[indf+1:]
        eli = [lis[indi], ]
        lis = deb + eli + end
    elif indi > indf:
        deb = lis[:indf]
        end = lis[indf:indi] + lis[indi+1:]
        eli = [lis[indi], ]
        lis = deb + eli + end
    return lis
'''
mut('C03', F, 'same', OLD, '    lis.insert(indf, lis.pop(indi))\n'
    '    return lis\n')
mut('C03', F, 'bug', OLD, '    e = lis.pop(indi)\n'
    '    lis.insert(indf-1, e)\n    return lis\n')
mut('C03', F, 'same', OLD, '    e = lis[indi]\n    lis.remove(e)\n'
    '    return lis[:indf] + [e] + lis[indf:]\n')
mut('C03', F, 'bug', OLD, '    return [k for k in lis if k < indf and '
    'k != indi] + [indi] + [k for k in lis if k > indf]\n')
mut('C03', F, 'same', OLD, '    del lis[indi]\n    lis[indf:indf] = [indi]\n'
    '    return lis\n')
mut('C03', F, 'same', OLD, '    r = [k for k in lis if k != indi]\n'
    '    return r[:indf] + [indi] + r[indf:]\n')
F = 'pyphs/core/structure/moves.py'
mut('C03', F, 'bug', '    core.z = [core.z[el] for el in new_indices]\n', '')
mut('C03', F, 'bug', 'moveCoreMcolnrow(core, core.dims.x()+indi, '
    'core.dims.x()+indf)', 'moveCoreMcolnrow(core, core.dims.x()+indi, '
    'core.dims.w()+indf)')
mut('C03', F, 'bug', 'return M[new_indices, new_indices]',
    'return M[new_indices, :]')

# ------------------------------------------------------------------ C04
F = 'pyphs/core/core.py'
mut('C04', F, 'bug', 'sympy.Matrix([[0, -1],\n                                              [1, 0]])',
    'sympy.Matrix([[0, 1],\n                                              [1, 0]])')
mut('C04', F, 'bug', 'self.move_connector(i_dual, 2*i+1)',
    'self.move_connector(i_dual, i+1)')
mut('C04', F, 'bug', "i_dual = getattr(self, 'cy').index(c['y'][1])",
    "i_dual = i_primal + 1 if i_primal + 1 < len(self.cy) else i_primal - 1")
mut('C04', F, 'bug', 'M_connectors = G_connectors*Mswitch*iN_connectors*O_connectors',
    'M_connectors = G_connectors*iN_connectors*Mswitch*O_connectors')
mut('C04', F, 'bug', 'self.Mcycy() * Mswitch)', 'Mswitch * self.Mcycy())')
mut('C04', F, 'bug', '        sorted_indices.sort()\n        sorted_indices.reverse()\n',
    '        sorted_indices.sort()\n')
mut('C04', F, 'bug', "            setattr(self, 'connectors', list())\n", "")
mut('C04', F, 'bug', "all_alpha.append(c['alpha'])", "all_alpha.insert(0, c['alpha'])")
mut('C04', F, 'same', '        sorted_indices.sort()\n        sorted_indices.reverse()\n',
    '        sorted_indices = sorted(sorted_indices, reverse=True)\n')
mut('C04', F, 'same', "            i_primal = getattr(self, 'cy').index(c['y'][0])\n            self.move_connector(i_primal, 2*i)\n            i_dual = getattr(self, 'cy').index(c['y'][1])\n            self.move_connector(i_dual, 2*i+1)\n",
    "            for k, y in enumerate(c['y']):\n                self.move_connector(self.cy.index(y), 2*i+k)\n")
F = 'pyphs/core/structure/connectors.py'
mut('C04', F, 'bug', 'core.dims.tot())', 'core.dims.tot()-core.dims.cy()-1)')
mut('C04', F, 'bug', "core.cu += [core.u[i], ]", "core.cu = [core.u[i], ] + core.cu")
mut('C04', F, 'same', "    for name in ['u', 'y']:\n        attr = getattr(core, name)\n        symb = attr[i]\n        attr.remove(symb)",
    "    core.u.pop(i)\n    del core.y[i]\n")
mut('C04', F, 'same', "core.dims.tot())", "core.dims.tot()-1)")

# ------------------------------------------------------------------ C05
F = 'pyphs/core/maths/_calculus.py'
mut('C05', F, 'bug', 'Jac[i, j] = func[i].diff(vars_[j]).doit()', 'Jac[i, j] = func[j].diff(vars_[i]).doit()')
mut('C05', F, 'bug', 'for i in range(nf):\n        for j in range(nv):', 'for i in range(nf):\n        for j in range(i, nv):')
mut('C05', F, 'bug', 'grad = gradient(scalar_func, vars_, simplify=False)', 'grad = gradient(scalar_func, vars_[::-1], simplify=False)')
mut('C05', F, 'same', '    grad = [0, ]*nvars\n    for i in range(nvars):\n        grad[i] = scalar_func.diff(vars_[i]).doit()\n', '    grad = []\n    for v in vars_:\n        grad.append(scalar_func.diff(v).doit())\n')
mut('C05', F, 'same', 'for i in range(nf):\n        for j in range(nv):\n            Jac[i, j] = func[i].diff(vars_[j]).doit()', 'for j, v in enumerate(vars_):\n        for i, f in enumerate(func):\n            Jac[i, j] = f.diff(v).doit()')
F = 'pyphs/core/maths/_vectors.py'
mut('C05', F, 'bug', 'v0 = [e1 + e2 for e1, e2 in zip(v0, v)]', 'v0 = [e1-e2 for e1, e2 in zip(v0, v)]')
mut('C05', F, 'bug', '    v0 = args.pop()\n', '    v0 = args[-1]\n')
mut('C05', 'pyphs/core/tools/_free_symbols.py', 'bug', '    for k in expr.keys():\n        symbs = symbs.union(free_symbols_expr(expr[k]))', '    for k in expr.keys():\n        symbs = free_symbols_expr(expr[k])')
mut('C05', 'pyphs/core/core.py', 'bug', 'symbs.update(free_symbols(self.M))', 'pass')
mut('C05', 'pyphs/core/core.py', 'bug', 'return jacobian(self.z, self.w)', 'return jacobian(self.w, self.z)')

# ------------------------------------------------------------------ C06
F = 'pyphs/core/structure/splits.py'
mut('C06', F, 'bug', '(core.x + core.dx() + core.w, core.dx() + core.w)',
    '(core.x + core.w, core.dx() + core.w)')
mut('C06', F, 'bug', 'bl = [a-b for', 'bl = [a+b for')
mut('C06', F, 'bug', 'hess_col = list(hess[:, nxl])',
    'hess_col = list(hess[nxl:, nxl])')
mut('C06', F, 'bug', "setattr(core.dims, '_xl', nxl)\n    # Ham",
    "setattr(core.dims, '_xl', min(nxl, 2))\n    # Ham")
mut('C06', F, 'same', 'if symbs.isdisjoint(arg):\n            # do nothing '
    'and increment counter\n            nxl',
    'if not any(s in arg for s in symbs):\n            nxl')
mut('C06', F, 'same', "    setattr(core.dims, '_wl', nwl)\n"
    "    core.setexpr('Zl', jacobian(core.zl(), core.wl()))",
    "    core.dims._wl = nwl\n    zl, wl = core.z[:nwl], core.w[:nwl]\n"
    "    core.setexpr('Zl', jacobian(zl, wl))")
mut('C06', F, 'same', 'bl = [a-b for a, b in zip(gradient(core.H, '
    'core.xl()), matvecprod(Q, core.xl()))]',
    'gl, ql = gradient(core.H, core.xl()), matvecprod(Q, core.xl())\n'
    '    bl = []\n    for i in range(len(gl)):\n'
    '        bl.append(gl[i] - ql[i])')

# ------------------------------------------------------------------ C07
F = 'pyphs/core/structure/R.py'
mut('C07', F, 'bug', 'core.M = Mnlwl*core.Zl*Dl*Mwlnl + Mnl',
    'core.M = Mnlwl*Dl*core.Zl*Mwlnl + Mnl')
mut('C07', F, 'bug', 'core.Mywl(),\n' + 41*' ' + 'core.Mcywl())',
    'core.Mcywl(),\n                                           core.Mywl())')
mut('C07', F, 'bug', 'core.w = core.w[core.dims.wl():]',
    'core.w = core.w[core.dims.wl() + nforced:]')
mut('C07', F, 'bug', 'core.dims._wl -= nforced',
    'core.dims._wl -= min(nforced, 1)')
mut('C07', F, 'same', 'core.M = Mnlwl*core.Zl*Dl*Mwlnl + Mnl',
    'ZD = core.Zl*Dl\n    core.M = Mnl + Mnlwl*(ZD*Mwlnl)')

# ------------------------------------------------------------------ C08
F = 'pyphs/core/core.py'
mut('C08', F, 'bug', "'force_wnl', 'subs', 'M', '_dxH'",
    "'subs', 'M', '_dxH'")
mut('C08', F, 'bug', "        core.label = copy.copy(self.label)\n", "")
mut('C08', F, 'bug', "            try:\n                setattr(target, attr_name, attr.copy())\n"
    "            except AttributeError:\n                setattr(target, attr_name, copy.copy(attr))\n        core.label",
    "            if isinstance(attr, dict):\n                setattr(target, attr_name, attr)\n"
    "            else:\n                setattr(target, attr_name, copy.copy(attr))\n        core.label")
mut('C08', F, 'bug', "path = os.path.join(folder, label, filename)",
    "path = os.path.join(folder, self.label, filename)")
mut('C08', F, 'bug', "        dico['label'] = label\n",
    "        dico['label'] = self.label\n")
mut('C08', F, 'same', "folder = os.path.join(folder, label)\n",
    "folder = os.path.join(os.path.join(folder), label)\n")
mut('C08', F, 'same', "        core.label = copy.copy(self.label)\n",
    "        core.label = self.label\n")

# ------------------------------------------------------------------ C09
F = 'pyphs/core/core.py'
mut('C09', F, 'bug', 'core.force_wnl = core1.force_wnl + core2.force_wnl',
    'core.force_wnl = core1.force_wnl or core2.force_wnl')
mut('C09', F, 'bug', "core.setexpr('z', core1.z + core2.z)",
    "core.setexpr('z', core2.z + core1.z)")
mut('C09', F, 'bug', 'sympy.diag(Mij1, Mij2)',
    'sympy.diag(Mij1, Mij2 if vari != "cy" else Mij2*0)')
mut('C09', F, 'bug', 'core.subs.update(core2.subs)\n',
    'core.subs.update(core1.subs)\n')
mut('C09', F, 'bug', '        core.observers.update(core1.observers)\n',
    '        core.observers = core1.observers\n')
mut('C09', F, 'bug', '            if par in self.subs:\n'
    '                self.subs.pop(par)\n', '            pass\n')
mut('C09', F, 'bug', '        symbs.update(free_symbols(self.M))\n', '')
mut('C09', F, 'same', 'core.connectors = core1.connectors + core2.connectors',
    'core.connectors = list(core1.connectors)\n'
    '        core.connectors.extend(core2.connectors)')
mut('C09', F, 'same', '            if par in self.subs:\n'
    '                self.subs.pop(par)\n',
    '            self.subs.pop(par, None)\n')

# ------------------------------------------------------------------ C10
F = 'pyphs/core/tools/_substitutions.py'
mut('C10', F, 'bug', "['M', '_dxH', 'observers']", "['M', 'observers']")
mut('C10', F, 'bug', "['M', '_dxH', 'observers']", "['M', '_dxH']")
mut('C10', F, 'bug', "list(core.symbs_names)", "[]")
mut('C10', F, 'bug', "        subs = dict(subs)\n", "        pass\n")
mut('C10', F, 'bug', "            core.subs.pop(k)\n", "            pass\n")
mut('C10', F, 'bug', "        substitute_core(core, selfexprs=True)\n", "")
mut('C10', F, 'bug', "    core.subs = substitute_dict(core.subs, subs)\n", "")
mut('C10', F, 'same', "            core.subs.pop(k)\n",
    "            core.subs.pop(k, None)\n")
mut('C10', F, 'same', "    return expr.subs(subs)\n",
    "    return expr.applyfunc(lambda e: e.subs(subs))\n")
mut('C10', 'pyphs/core/tools/_simplify.py', 'bug',
    "['M', '_dxH', 'observers']", "['M', 'observers']")
mut('C10', 'pyphs/core/tools/_simplify.py', 'bug',
    "        vec[i] = simplify_scalar(e, **kwargs)\n",
    "        vec[i] = simplify_scalar(e, **kwargs) if i else e\n")
mut('C10', 'pyphs/core/tools/_subsinverse.py', 'bug',
    "list(core.exprs_names)", "['H', 'z']")

# ------------------------------------------------------------------ C11
F = 'pyphs/numerics/numerical_method/_discrete_calculus.py'
mut('C11', F, 'bug', '0.5 * dxh_continuous.diff(x[i]).doit()*dx[i]',
    'dxh_continuous.diff(x[i]).doit()*dx[i]')
mut('C11', F, 'bug', 'dxHd = gradient_theta(H, x, dx, theta=0.5)',
    'dxHd = gradient_theta(H, x, dx)')
mut('C11', F, 'bug', '        subs[xi] = xi+dxi\n',
    '        subs[xi] = xi+dxi if i == 0 else xi\n')
mut('C11', F, 'same', 'for i in range(nx):\n        dxHd[i] += corr*dx[i]',
    'for i, d in enumerate(dx):\n        dxHd[i] = dxHd[i] + d*corr')
F = 'pyphs/numerics/numerical_method/_method.py'
mut('C11', F, 'bug', "method.dxnl()[method.dims.xnl_mono():],",
    "method.dx()[method.dims.xnl_mono():],")
mut('C11', F, 'bug', "mtype(method.dxl())) +\n            mtype(method.bl)\n",
    "mtype(method.dxl()))\n")
mut('C11', F, 'bug', 'method.z[i] = 0.5*(z + z.subs(subs))',
    'method.z[i] = z.subs(subs)')

# ------------------------------------------------------------------ C12
F = 'pyphs/numerics/numerical_method/_method.py'
mut('C12', F, 'bug', "    method.implicit.append('Gnl')\n", "")
mut('C12', F, 'bug', "    method.implicit.append(('vnl', 'ud_vnl'))\n", "")
mut('C12', F, 'bug', "('jactempFnll', temp2))\n        Fnl =",
    "('jactempFnll', temp1))\n        Fnl =")
mut('C12', F, 'bug', "(-1., 'save_Fnl')", "(1., 'save_Fnl')")
mut('C12', F, 'bug', "    set_update_x(method)\n",
    "    method.setoperation('ud_x', method.Operation('add', ('x', 'dx')))\n"
    "    method.postimplicit.append(('x', 'ud_x'))\n")
mut('C12', F, 'same', "temp1 = method.Operation('dot', ('ijacFnl', 'Fnl'))\n"
    "    temp2 = method.Operation('prod', (-1., temp1))",
    "temp2 = method.Operation('dot', ('ijacFnl', method.Operation('prod', "
    "(-1., 'Fnl'))))")
mut('C12', F, 'same', "        temp1 = method.Operation('dot', (-1, 'Gl'))\n"
    "        temp2 = method.Operation('dot', ('ijactempFll', temp1))\n",
    "        temp2 = method.Operation('prod', (-1, method.Operation('dot', "
    "('ijactempFll', 'Gl'))))\n")
mut('C12', F, 'bug', "[-e for e in matvecprod(Mvvnl,fnl)],", "")
mut('C12', F, 'bug', "sp.diag(sp.eye(dimx)*method.fs,",
    "sp.diag(sp.eye(dimx)*method.fs*(1 if dimw else 2),")
mut('C12', F, 'bug', "return (self.x + self.dx() + self.w + self.u +",
    "return (self.x + self.dx() + self.u + self.w +")
mut('C12', 'pyphs/misc/tools.py', 'bug', "            inds.append(n)\n        n += 1",
    "            inds.append(n)\n            n += 1")
mut('C12', 'pyphs/misc/tools.py', 'same', "    n = 0\n    for symb in allsymbs:\n",
    "    n = 0\n    symbs = frozenset(symbs)\n    for symb in allsymbs:\n")

# ------------------------------------------------------------------ C13
F = 'pyphs/numerics/numerical_core/_numerical_core.py'
mut('C13', F, 'bug', "        self.set_u(u)\n        self.set_p(p)\n",
    "        self.set_u(u)\n")
mut('C13', F, 'bug', "        getattr(self, 'set_' + step_name)(1.)\n", "")
mut('C13', F, 'bug', "        self.init()\n\n", "\n")
mut('C13', F, 'bug', "self.it < self.config['maxit']",
    "self.it <= self.config['maxit']")
mut('C13', F, 'same', "            setfunc(evalfunc())\n",
    "            value = evalfunc()\n            setfunc(value)\n")

# ------------------------------------------------------------------ C14
F = 'pyphs/numerics/tools/_evaluation.py'
mut('C14', F, 'bug', "self.core = core.__copy__()", "self.core = core")
mut('C14', F, 'bug',
    "self.core.w + self.core.u", "self.core.u + self.core.w")
mut('C14', F, 'same', "            if isinstance(expr, types.vector_types):\n",
    "            isvec = isinstance(expr, types.vector_types)\n"
    "            if isvec:\n")
F = 'pyphs/numerics/tools/_lambdify.py'
mut('C14', F, 'bug', "        raise AttributeError('Missing free symbols",
    "        print('Missing free symbols")
mut('C14', F, 'bug', "    if subs is not None:\n        expr = substitute(expr, subs)",
    "    if subs is not None and not isinstance(expr, types.matrix_types):\n        expr = substitute(expr, subs)")
F = 'pyphs/numerics/tools/_operators.py'
mut('C14', F, 'bug', "numpy.einsum('i,i', x, x)", "numpy.einsum('i,i', x, x[::-1])")
mut('C14', F, 'same', "    return numpy.sqrt(numpy.einsum('i,i', x, x))", "    s = numpy.einsum('i,i', x, x)\n    return numpy.sqrt(s)")

# ------------------------------------------------------------------ C15
F = 'pyphs/graphs/build.py'
mut('C15', F, 'bug', 'hstack(-gamma,', 'hstack(gamma,')
mut('C15', F, 'same', 'graph.core.z = [graph.core.z[el] for el in new_indices_w]', 'pass')
mut('C15', F, 'bug', 'graph.core.u = [graph.core.u[el] for el in new_indices_y]', 'pass')
mut('C15', F, 'bug', 'graph.core.cu = [graph.core.cu[el] for el in new_indices_connector]', 'pass')
mut('C15', F, 'bug', "get_edge_data(e, 'z')['e_ctrl']", "get_edge_data(e, 'z')['f_ctrl']")
mut('C15', F, 'same', 'graph.core.x = [graph.core.x[el] for el in new_indices_x]', 'graph.core.x = [x for x in (graph.core.x[el] for el in new_indices_x)]')
mut('C15', F, 'same', '        new_indices_x.append(index_e_in_x)', '        new_indices_x += [index_e_in_x]')
F = 'pyphs/graphs/analysis.py'
mut('C15', F, 'bug', 'self.Lambda = self.Lambda[:, new_indices]', 'pass')
mut('C15', F, 'bug', 'self.edges = [self.edges[n] for n in new_indices]', 'self.edges = [self.edges[old_indices[n]] for n in sorted(new_indices)]')
mut('C15', F, 'bug', "alpha = -alpha**-1", "alpha = alpha**-1")
mut('C15', F, 'bug', '        if e in self.ec_edges:\n            alpha = -alpha**-1', '        if e in self.ec_edges and self.get_edge_data(e, "connector_type") == "gyrator":\n            alpha = -alpha**-1')
mut('C15', F, 'bug', 'self.Gamma_ec = self.Gamma[1:, :len(self.ec_edges)]', 'self.Gamma_ec = abs(self.Gamma[1:, :len(self.ec_edges)])')
mut('C15', F, 'bug', """                # if linked edge is indeterminate
                if link_e in self.ic_edges:
                    # move edge at the end of edge list
                    self.set_edge_fc(link_e)

        if ctrl""", """                # if linked edge is indeterminate
                if link_e in self.ic_edges:
                    # move edge at the end of edge list
                    self.set_edge_ec(link_e)

        if ctrl""")
mut('C15', F, 'same', 'new_indices = myrange(self.ne, indi, indf)', 'new_indices = list(range(self.ne))\n        new_indices.insert(indf, new_indices.pop(indi))')
F = 'pyphs/graphs/graph.py'
mut('C15', F, 'bug', 'label = str(self.label)', "label = 'core'")
mut('C15', F, 'bug', '        if connect:\n', '        if not connect:\n')
mut('C15', F, 'bug', '        core = self.core.__copy__()\n', '        core = self.core\n')
mut('C15', F, 'same', '        core = self.core.__copy__()\n', '        core = self.core + Core()\n')
F = 'pyphs/graphs/tools.py'
mut('C15', F, 'same', "edges.append(getedges(graph, (n, s[i+1]))[0])", "m = s[i+1]\n                edges.append(getedges(graph, (n, m))[0])")

# --- C16
D = 'pyphs/dictionary/'
mut('C16', D + 'tools.py', 'bug', "sub = {symb: obj[1]}", "sub = {symb: 1.}")
mut('C16', D + 'tools.py', 'bug', "        string = obj\n        symb = Core.symbols(string)\n        sub = {}", "        string = name\n        symb = Core.symbols(string)\n        sub = {}")
mut('C16', D + 'tools.py', 'bug', "form(graph.label + '_' + str(key), kwargs[key])", "form(str(key), kwargs[key])")
mut('C16', D + 'tools.py', 'same', "    for key in kwargs.keys():\n        symb, sub, par = form(graph.label + '_' + str(key), kwargs[key])", "    for key, value in kwargs.items():\n        symb, sub, par = form('{}_{}'.format(graph.label, key), value)")
mut('C16', D + 'tools.py', 'bug', 'graph.core.add_parameters(par)', 'pass')
mut('C16', D + 'edges/storages.py', 'bug', "len(coeff.sub) == 0 and kwargs['inv_coeff']", "False")
mut('C16', D + 'edges/storages.py', 'bug', "H = coeff.symb * x**2/2.", "H = coeff.symb*x**2")
mut('C16', D + 'edges/storages.py', 'bug', "        H = H.subs(dicpars)\n", "")
mut('C16', D + 'edges/storages.py', 'same', "H = coeff.symb * x**2/2.", "H = 0.5*x*x*coeff.symb")
mut('C16', D + 'edges/dissipatives.py', 'bug', "['e_ctrl', 'f_ctrl']", "['e_ctrl']")
mut('C16', D + 'edges/dissipatives.py', 'bug', "z_f_ctrl, z_e_ctrl = z_e_ctrl, z_f_ctrl", "pass")
mut('C16', D + 'edges/port.py', 'bug', "node1 = datum", "node1 = nodes[0]")
mut('C16', D + 'edges/port.py', 'bug', "{u: parameters['const']}", "{y: parameters['const']}")
mut('C16', D + 'edges/observers.py', 'bug', "*self.core.symbols(FS_SYMBS)", "/self.core.symbols(FS_SYMBS)")
mut('C16', D + 'electronics/_bjt.py', 'bug', '(betaF+1)/betaF', '(betaR+1)/betaF')
mut('C16', D + 'electronics/_bjt.py', 'bug', 'wR[1]/Rc', 'wR[1]/Rb')
mut('C16', D + 'electronics/_triode.py', 'bug', '* (1 + sign(exprE))', '*indicator(exprE)')
mut('C16', D + 'electronics/_diode.py', 'bug', 'sympy.log(w[0]/(Is)+1)', 'sympy.log(w[0]/Is-1)')
mut('C16', D + 'electronics/_diode.py', 'bug', "w[2]/gmin", "w[2]*gmin")
mut('C16', D + 'mechanics/_felt.py', 'bug', '**(B-1)', '**B')
mut('C16', D + 'mechanics_dual/_mass.py', 'bug', "'ctrl': 'e'", "'ctrl': 'f'")
mut('C16', D + 'mechanics/_springsat.py', 'bug', '(4-sp.pi)', '(4+sp.pi)')
mut('C16', D + 'mechanics_dual/_springcubic.py', 'bug', '4*xref**3', '4*xref**2')
mut('C16', D + 'magnetics/_capacitorsat.py', 'bug', 'Hlin - C_sat*Hsat', 'Hlin + C_sat*Hsat')
mut('C16', D + 'thermics/_transfers.py', 'bug', 'z2 = R*(w[1]-w[0])/t2', 'z2 = R*(w[0]-w[1])/t2')
mut('C16', D + 'thermics/_source.py', 'bug', "ctrl = 'e'", "ctrl = 'f'")
mut('C16', D + 'thermics/_capacitor.py', 'bug', 'sp.exp(x/C)', 'sp.exp(x/T0)')
mut('C16', D + 'edges/connectors.py', 'bug', "(N3, N4, edge2_data)", "(N4, N3, edge2_data)")
mut('C16', D + 'edges/connectors.py', 'bug', "'alpha': None", "'alpha': alpha")
# ------------------------------------------------------------------ C17
F = 'pyphs/numerics/simulations/h5data/h5data.py'
mut('C17', F, 'bug', "            start = stop\n", "            start = stop + 1\n")
mut('C17', F, 'bug', "return int(t*self.fs)+1", "return int(t*self.fs)")
mut('C17', F, 'bug', "return (i-1)/float(self.fs)", "return i/float(self.fs)")
mut('C17', F, 'bug', "names = ['dxH', 'z', 'u']", "names = ['dxH', 'u', 'z']")
mut('C17', F, 'bug', "names = ['dtx', 'w', 'y']", "names = ['dx', 'w', 'y']")
mut('C17', F, 'bug', "lambda dx: dx*self.fs", "lambda dx: dx/self.fs")
mut('C17', F, 'bug', "                stop = vslice.stop+self.inds[vname][0]", "                stop = vslice.stop+self.inds[vname][0] + 1")
mut('C17', F, 'bug', "                stop = vslice.stop+self.inds[vname][0]", "                stop = vslice.stop")
mut('C17', F, 'bug', "                stop = self.inds[vname][1]", "                stop = None")
mut('C17', F, 'bug', "last = range(tslice.start, tslice.stop, tslice.step)[-1]", "last = tslice.stop - 1")
mut('C17', F, 'bug', "to_end=last_dtH_value*tslice.step", "to_end=last_dtH_value")
mut('C17', F, 'bug', "[:, vs]", "[:, sorted(vs)[::-1]]")
mut('C17', F, 'bug', "args = numpy.zeros((expectedNt, 1))", "args = numpy.zeros((self.nt, 1))")
mut('C17', F, 'bug', "                              self['u', tslice],\n                              self['y', tslice])", "                              self['u', tslice],\n                              self['y'])")
mut('C17', F, 'bug', "            stop = self.stop\n        else:\n            stop = tslice.stop", "            stop = self.nt\n        else:\n            stop = tslice.stop")
mut('C17', F, 'bug', "data[name] = self[name, t, :]", "data[name] = self[name, t-1, :]")
mut('C17', F, 'same', "v[slice(*self.inds[name])] = data[name]", "a, b = self.inds[name]\n            v[a:b] = data[name]")
mut('C17', F, 'same', "names = ['dxH', 'z', 'u']", "names = ('dxH', 'z', 'u')")
mut('C17', F, 'same', "expectedNt = len(range(tslice.start, tslice.stop, tslice.step))", "expectedNt = max(0, -((tslice.start - tslice.stop)//tslice.step))")
mut('C17', F, 'same', "        d = 0\n        for k in self.dims:\n            d += self.dims[k]\n        return int(d)", "        return int(sum(self.dims.values()))")
F = 'pyphs/numerics/simulations/h5data/tools.py'
mut('C17', F, 'bug', "count = (nrows-offset) * ncols", "count = nrows * ncols", "offset += chunksize", "offset += chunksize + 1")
mut('C17', F, 'bug', "buffer_rslice = slice(offset, offset+chunksize)", "buffer_rslice = slice(0, chunksize)")
mut('C17', F, 'bug', "        elif offset == nrows:\n            break\n", "        elif offset <= nrows:\n            break\n")
F = 'pyphs/numerics/simulations/simulation.py'
mut('C17', F, 'bug', "            data.h5dump_vecs(self.n, vecs)\n\n            self.n += 1\n", "            self.n += 1\n            data.h5dump_vecs(self.n-1 if i < 3 else self.n-2, vecs)\n")
mut('C17', F, 'bug', "self.nums.update(u=u, p=p)", "self.nums.update(u=u)")
mut('C17', F, 'same', "data.h5dump_vecs(self.n, vecs)", "data.h5dump_vecs(i, vecs)")
mut('C17', F, 'bug', "tslice = slice(0, data.nt, 1)", "tslice = slice(0, data.nt, data.step)")
# ------------------------------------------------------------------ C20
F = 'pyphs/numerics/cpp/functions.py'
mut('C20', F, 'bug', "for n in range(mat.shape[1]):\n        for m in range(mat.shape[0]):", "for m in range(mat.shape[0]):\n        for n in range(mat.shape[1]):")
mut('C20', F, 'bug', "'\\n_{0}({1}, {2}) = {3};'.format(name, m, n, c)", "'\\n_{0}({1}, {2}) = {3};'.format(name, n, m, c)")
mut('C20', F, 'bug', "symb in method.args() or symb == method.fs", "symb in method.args()")
mut('C20', F, 'bug', "symb in method.args() or symb == method.fs", "symb in method.x or symb == method.fs")
mut('C20', F, 'bug', "            if is_updated(method, symbs):\n                c = ccode(expr, dereference=dereference(method))\n                update", "            if is_updated(method, symbs):\n                c = ccode(expr)\n                update")
mut('C20', F, 'bug', "get_h = '\\nconst {1} & {0}() const;'", "get_h = '\\nconst {1} & {0}();'")
mut('C20', F, 'bug', "\\nreturn _{0}(index, 0);", "\\nreturn _{0}(0, index);")
mut('C20', F, 'same', "    if crop:\n        init_data = init_data[:-2]\n    init_data += '};'", "    init_data = (init_data[:-2] if crop else init_data) + '};'")
mut('C20', F, 'same', "    for m, n, expr in mat.row_list():\n            symbs = expr.free_symbols\n            if is_updated(method, symbs):\n", "    for m, n, expr in mat.row_list():\n            if is_updated(method, expr.free_symbols):\n")
mut('C20', F, 'bug', "if (m, n) in mat_dic.keys():", "if (n, m) in mat_dic.keys():")
F = 'pyphs/numerics/cpp/arguments.py'
mut('C20', F, 'bug', "data = '{0}, '.format(c)", "data = 'float({0}), '.format(c)")
mut('C20', F, 'bug', "*{0} = m({1}, 0);\".format(str(symb), i)", "*{0} = m({1}, 0);\".format(str(symb), 0)")
mut('C20', F, 'bug', "nv[{0}] = *{1};\".format(i, str(symb))", "nv[{0}] = *{1};\".format(i, str(arg[-1]))")
mut('C20', F, 'same', "enumerate(method.args())", "enumerate(list(method.args()))")
mut('C20', F, 'same', "                if start:\n", "                if i == 0:\n")
F = 'pyphs/numerics/cpp/operations.py'
mut('C20', F, 'bug', "'add': '({0}) + ({1})'", "'add': '({0}) - ({1})'")
mut('C20', F, 'bug', "'dot': '({0})*({1})'", "'dot': '({1})*({0})'")
mut('C20', F, 'bug', "lambda s: 'sqrt(({0}).dot({1}))'.format(s, s)", "lambda s: '({0}).dot({1})'.format(s, s)")
mut('C20', F, 'bug', "        if name in method.ops_names:\n            files['cpp']['init']", "        if name in method.ops_names and 'step' not in name:\n            files['cpp']['init']")
mut('C20', F, 'same', "        if isinstance(arg, str):\n            args.append('{0}()'.format(arg))", "        if isinstance(arg, str):\n            args.append(arg + '()')")
F = 'pyphs/numerics/cpp/method2cpp.py'
mut('C20', F, 'bug', "'\\nset_{0}(_{1});'.format(*action)", "'\\nset_{0}(_{0});'.format(*action)")
mut('C20', F, 'bug', "method.configcpp['maxit']", "CONFIG_NUMERIC['maxit']")
mut('C20', F, 'bug', "step = \"({0}()>{1})\".format(step_label", "step = \"({0}()>{1})\".format(res_label")
mut('C20', F, 'bug', "while ({0} & {1} & {2})", "while ({0} & ({1} | {2}))")
mut('C20', F, 'bug', "_{0} = 1;\".format(step_label)", "_{0} = 0;\".format(step_label)")
mut('C20', F, 'bug', "for i, sub in enumerate(method.subs):", "for i, sub in enumerate(sorted(method.subs, key=lambda s: str(s)[::-1], reverse=True)):")
mut('C20', F, 'bug', "method.configcpp.update(config)", "pass")
mut('C20', F, 'bug', "sampleRate = value;\\ninit();", "sampleRate = value;")
mut('C20', F, 'bug', "return dict((k, subs[k]) for k in reference)", "return subs")
mut('C20', F, 'bug', "str(float(s[k]))", "str(int(s[k]))")
mut('C20', F, 'same', "        if isinstance(action, str):\n            string += '\\n{0}_update();'.format(action)\n        else:\n            string += '\\n{0}_update();'.format(action[1])", "        name = action if isinstance(action, str) else action[1]\n        string += '\\n{0}_update();'.format(name)\n        if name is not action:")
F = 'pyphs/numerics/cpp/simu2cpp.py'
mut('C20', F, 'bug', "for name in simu.data.names:", "for name in sorted(simu.data.names):")
mut('C20', F, 'bug', "for name in simu.data.names[2:]:", "for name in simu.data.names[3:]:")
mut('C20', F, 'bug', "for name in ['u', 'p']:", "for name in ['u']:")
mut('C20', F, 'bug', "simu.objlabel  #", "objlabel.upper()  #")
mut('C20', F, 'bug', "subs['nt'] = simu.data.nt", "subs['nt'] = simu.data.nt - 1")
mut('C20', F, 'same', "indent(indent(updateInputs))", "indent(updateInputs)")
F = 'pyphs/templates/cpp/simu_main.template'
mut('C20', F, 'bug', "h5offset[0] = n;", "h5offset[1] = n;")
mut('C20', F, 'bug', "for (unsigned int n = 0; n < nt; n++)", "for (unsigned int n = 0; n <= nt; n++)")
mut('C20', F, 'same', "for (unsigned int n = 0; n < nt; n++)", "for (unsigned int n = 0; n != nt; ++n)")
# ------------------------------------------------------------------ C18
F = 'pyphs/numerics/simulations/simulation.py'
mut('C18', F, 'bug', "        self.config.update(self.method.config)\n\n        # update", "        # update")
mut('C18', F, 'bug', "        self.config.update(CONFIG_CPP)\n", "")
mut('C18', F, 'bug', "                if k not in self.config.keys():\n                    text = 'Configuration key", "                if k in CONFIG_CPP:\n                    text = 'Configuration key")
mut('C18', F, 'bug', "            self.inits.update(inits)\n\n        self.init_num", "            self.inits = inits\n\n        self.init_num")
mut('C18', F, 'bug', "        self.config = CONFIG_SIMULATION.copy()", "        self.config = CONFIG_SIMULATION")
mut('C18', F, 'bug', "        if self.config_method() != self.method.config:\n", "        if self.config_method()['grad'] != self.method.config['grad']:\n")
mut('C18', F, 'bug', "                if k not in self.method.subs.keys():\n                    init_numeric = True", "                if k not in self.method.subs.keys():\n                    pass")
mut('C18', F, 'bug', "        self.method._core.subs.update(subs)\n", "")
mut('C18', F, 'bug', "                init_numeric = True\n\n        c = self.config_method()", "                init_numeric = False\n\n        c = self.config_method()")
mut('C18', F, 'bug', "                except KeyError:\n                    equal = False", "                except KeyError:\n                    pass")
mut('C18', F, 'bug', "equal = all(v == s for (v,s) in zip(inits[k], self.inits[k])) and equal", "equal = all(v == s for (v,s) in zip(inits[k], self.inits[k]))")
mut('C18', F, 'bug', "               ['lang', 'path', 'dnames']):", "               ['lang', 'path']):")
mut('C18', F, 'bug', "        self.data.init_data(nt, sequ=u, seqp=p)", "        self.data.init_data(nt, sequ=u)")
mut('C18', F, 'bug', "        if self.config['lang'] == 'python' and hasattr(self, 'n'):\n            init_numeric = True\n", "")
mut('C18', F, 'bug', "subs = sort_subs(subs, self.method.subs)\n            self.method.subs = subs", "subs = sort_subs(subs, self.method.subs)")
mut('C18', F, 'bug', "            dic[k] = self.config[k]\n        return dic\n\n    def config_method", "            dic[k] = CONFIG_NUMERIC[k]\n        return dic\n\n    def config_method")
mut('C18', F, 'bug', "        self.data = H5Data(self.method, self.config, erase=erase)", "        self.data = H5Data(self.method, self.config)")
mut('C18', F, 'same', "        c = self.config_method()\n        c.update(self.config_numeric())\n        c.update(self.config_simulation())\n", "        c = dict(self.config_simulation())\n        c.update(self.config_method())\n        c.update(self.config_numeric())\n")
mut('C18', F, 'same', "        if config is None:\n            config = {}\n        else:\n            for k in config.keys():\n                if k not in self.config.keys():\n                    text = 'Configuration key \"{0}\" unknown.'.format(k)\n                    raise AttributeError(text)\n        self.config.update(config)", "        config = {} if config is None else config\n        unknown = [k for k in config if k not in self.config]\n        if unknown:\n            raise AttributeError('Configuration key \"{0}\" unknown.'.format(unknown[0]))\n        self.config.update(config)")
mut('C18', F, 'same', "        dic = dict()\n        for k in CONFIG_METHOD.keys():\n            dic[k] = self.config[k]\n        return dic", "        return {k: self.config[k] for k in CONFIG_METHOD}")
F = 'pyphs/core/core.py'
mut('C18', F, 'bug', "config=config, inits=inits, erase=erase)", "config=config, inits=inits)")
F = 'pyphs/graphs/graph.py'
mut('C18', F, 'bug', "config=config, inits=inits, erase=erase)", "config=config, inits=inits)")
# ------------------------------------------------------------------ C19
F = 'pyphs/graphs/netlists.py'
mut('C19', F, 'bug', "if line.startswith('#'):", "if '#' in line:")
mut('C19', F, 'bug', "nb_pars = parameters.count('=')", "nb_pars = parameters.count(';')")
mut('C19', F, 'bug', "nodes = ''.join(si)", "nodes = si[0]")
mut('C19', F, 'bug', "par = par.replace(' ', '')", "pass")
mut('C19', F, 'bug', "value = tuple(map(eval, value))", "value = tuple(value)")
mut('C19', F, 'bug', "infos, _, parameters = line.partition(':')", "infos, _, parameters = line.partition(' :')")
mut('C19', F, 'bug', "dic, _, comp = diccomp.partition('.')", "comp, _, dic = diccomp.partition('.')")
mut('C19', F, 'bug', "        return netlist[:-1]", "        return netlist[:-2]")
mut('C19', F, 'bug', "            path = self.path\n        file_", "            path = self.path\n        self.path = path\n        self.labels = list(self.labels)[::-1]\n        file_")
mut('C19', F, 'bug', "        if path is None:\n            path = self.path", "        self.path = path = path or self.path")
mut('C19', F, 'bug', "        self.arguments.pop(n)", "        self.arguments.pop()")
mut('C19', F, 'bug', "        self.nodes[n] = value", "        self.nodes[n] = tuple(value)")
mut('C19', F, 'bug', "        self.arguments[n] = value", "        self.arguments[n].update(value)")
mut('C19', F, 'bug', "if not os.path.isfile(self.path) or clear:", "if not os.path.isfile(self.path) and clear:")
mut('C19', F, 'bug', "self.labels = list(self.labels)+[dic['label'], ]", "self.labels = [dic['label'], ]+list(self.labels)")
mut('C19', F, 'bug', "                                          dic['nodes'])", "                                          tuple(sorted(dic['nodes'])))")
mut('C19', F, 'bug', "            pars += ' {}={};'.format(par, str(dic['arguments'][par]))", "            pars += ' {}={};'.format(par, dic['arguments'][par] or '')")
mut('C19', F, 'same', "        netlist = \"\"\n        for n in range(self.nlines()):\n            netlist += self.line(n)\n        return netlist[:-1]", "        return ''.join(self.line(n) for n in range(self.nlines()))[:-1]")
mut('C19', F, 'same', "        file_ = open(path, 'w')\n        file_.write(self.netlist())  # remove the last cariage return\n        file_.close()", "        with open(path, 'w') as f:\n            f.write(self.netlist())")
mut('C19', F, 'same', "                    si = infos.split()\n                    diccomp = si.pop(0)\n                    label = si.pop(0)\n                    nodes = ''.join(si)", "                    diccomp, label, nodes = infos.split(None, 2)")
mut('C19', F, 'same', "    component = '{0}.{1} {2} {3}:'.format(dic['dictionary'],\n                                          dic['component'],\n                                          dic['label'],\n                                          dic['nodes'])", "    component = '%s.%s %s %s:' % (dic['dictionary'], dic['component'], dic['label'], str(dic['nodes']))")
mut('C19', F, 'same', "                    for n in range(nb_pars):\n                        par, _, parameters = parameters.partition(';')\n                        par", "                    for par in [q for q in parameters.split(';') if '=' in q]:\n                        par")
F = 'pyphs/graphs/graph.py'
mut('C19', F, 'bug', "            name = line['component'].lower()\n            klass = name[0].upper() + name[1:]", "            name = line['component']\n            klass = name[0].upper() + name[1:]")
mut('C19', F, 'bug', "                label = os.path.basename(netlist.filename).split('.')[0]", "                label = netlist.filename")
mut('C19', F, 'bug', "                                        **line['arguments'])\n            self += component_graph", "                                        **line['arguments'])\n            if component_graph not in (self,):\n                self = self + component_graph + component_graph")
mut('C19', F, 'bug', "        graph1.core += graph2.core\n", "        graph1.core = graph2.core + graph1.core\n")
mut('C19', F, 'same', "            component = getattr(dic, klass)\n            component_graph = component(line['label'],\n                                        line['nodes'],\n                                        **line['arguments'])\n            self += component_graph", "            self += getattr(dic, name.capitalize())(line['label'], line['nodes'], **line['arguments'])")

# ------------------------------------------------------------------ C21
F = 'pyphs/misc/signals/synthesis/synthesis_array.py'
mut('C21', F, 'bug', "        s += A1*sin(2*pi*f1*numpy.arange(n)/fs)", "        s += A1*sin(2*pi*f1*numpy.arange(n)/fs)*A")
mut('C21', F, 'bug', "    return uniform(-A, A, n)", "    return uniform(0, A, n)")
mut('C21', F, 'bug', "    T = float(n-1)/float(fs)", "    T = float(n)/float(fs)")
mut('C21', F, 'bug', "clamp_signal(i/float(parameters['na']), 0, 1)", "clamp_signal(i/float(parameters['nd'] or 1), 0, 1)")
mut('C21', F, 'bug', "clamp_signal((parameters['non']-i)/float(parameters['nd']),", "clamp_signal((parameters['nsig']-i)/float(parameters['nd']),")
mut('C21', F, 'bug', "ramp(i+c*parameters['nsig'])", "ramp(i+c*parameters['non'])")
mut('C21', F, 'bug', "            cycle_end += parameters['offset']\n", "            pass\n")
mut('C21', F, 'bug', "    parameters.setdefault('ncycles', 1)", "    parameters['ncycles'] = max(parameters.get('ncycles', 1), 2)-1")
mut('C21', F, 'bug', "        cycle_end = background_noise(parameters['noff'])", "        cycle_end = background_noise(parameters['nsig']-nsigc+1)[:parameters['noff']+1]")
mut('C21', F, 'bug', "(parameters['ncycles']*parameters['nsig']-1)", "(parameters['nsig']-1)")
mut('C21', F, 'bug', "    parameters = kwargs.copy()\n    parameters.setdefault('which', 'sin')", "    global parameters_\n    parameters = kwargs.copy()\n    parameters.setdefault('which', 'zero')")
mut('C21', F, 'same', "        return numpy.ones_like(i)\n" if False else "    parameters = kwargs.copy()\n    parameters.setdefault('which', 'sin')", "    parameters = {'which': 'sin'}\n    parameters.update(kwargs)")
mut('C21', F, 'same', "        cmax = npmax(vstack((x, xmin*ones_like(x))), axis=0)\n        return npmin(vstack((cmax, xmax*ones_like(x))), axis=0)", "        return numpy.minimum(numpy.maximum(x, xmin), xmax)")
mut('C21', F, 'same', "    s = A*cos(2*pi*f0*numpy.arange(n)/fs)", "    t = numpy.arange(n)/float(fs)\n    s = cos(t*2*f0*pi)*A")
F = 'pyphs/misc/signals/waves.py'
mut('C21', F, 'bug', "        fadeout = [(nfades-1-n)/(nfades)", "        fadeout = [(nfades-n)/(nfades)")
mut('C21', F, 'bug', "[1.]*(nsig-2*nfades)", "[1.]*(nsig-nfades)")
mut('C21', F, 'bug', "        fs_out = fs_sig\n", "        fs_out = 44100\n")
mut('C21', F, 'bug', "    wv.close()", "    pass")
mut('C21', F, 'bug', "int(nsig*fs_out*fs_sig**-1)", "int(nsig*fs_sig*fs_out**(-1))")
mut('C21', F, 'bug', "scale = np.max(np.abs(sig))", "scale = np.abs(np.max(sig))")
mut('C21', F, 'bug', "        sig[i] = el/_maxVol", "        sig[i] = el/2**15")
mut('C21', F, 'bug', "        sig = list(sig)\n", "        sig = list(sig)[1:]\n")
mut('C21', F, 'bug', "    if nsig >= 2*nfades:", "    if nsig > 2*nfades+1:")
mut('C21', F, 'same', "    for i, el in enumerate(sig):\n        sig[i] = el/_maxVol\n    return fs, sig", "    return fs, sig/_maxVol")
mut('C21', F, 'same', "    for i, val in enumerate(sig):\n        data = int(_maxVol*val/scale)\n        wv.writeframes(pack('h', data))", "    data = [int(_maxVol*val/scale) for val in sig]\n    wv.writeframes(pack('{}h'.format(len(data)), *data))")
F = 'pyphs/misc/signals/analysis.py'
mut('C21', F, 'bug', "    TF = Pxx_den2 / Pxx_den1" if False else "np.nonzero(f > fmax)[0][0]", "np.nonzero(f >= fmax)[0][0]")
mut('C21', F, 'bug', "np.nonzero(f >= fmin)[0][0]", "np.nonzero(f > fmin)[0][0]")
mut('C21', F, 'bug', "np.array(TF[nfmin:nfmax])**0.5", "np.array(TF[nfmin:nfmax])")
mut('C21', F, 'bug', "sigout = lowpass(sigout, fc=filtering)", "sigout = lowpass(sigin, fc=filtering)")
F = 'pyphs/misc/signals/processing.py'
mut('C21', F, 'bug', "h = h / sum(h)" if False else "0.08 * cos(4 * pi * n / (N - 1))", "0.08 * cos(2 * pi * n / (N - 1))")
