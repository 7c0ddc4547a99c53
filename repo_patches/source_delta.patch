From 7c8600045d053fb61ab8b3789f01c15b4e477b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 01/45] fix: Core.freesymbols discarded every union and always
 returned an empty set

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 912a404..dd86cf4 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -531,8 +531,8 @@ class Core:
         symbs = set()
         for name in self.exprs_names:
             expr = geteval(self, name)
-            symbs.union(free_symbols(expr))
-        symbs.union(free_symbols(self.M))
+            symbs.update(free_symbols(expr))
+        symbs.update(free_symbols(self.M))
         return symbs
 
     def dxH(self):
-- 
2.43.0


From 7213ecd806a12a9d66f7d5a7aac9daae36ae8275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 02/45] fix: reduce_z lost Zl (shape error) when force_wnl
 excludes linear components

---
 pyphs/core/structure/R.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyphs/core/structure/R.py b/pyphs/core/structure/R.py
index 7fe52f1..5d0546e 100644
--- a/pyphs/core/structure/R.py
+++ b/pyphs/core/structure/R.py
@@ -42,14 +42,14 @@ after this operation, and :code:`core.z()=core.znl()`.
 """
     # identify the linear components
     core.linear_nonlinear()
-    # identify the number of components excluded from the linear part
-    nforced = len(core.force_wnl)
-    # move linear and excluded components at the top of linear components list
+    # number of linear components excluded from the linear part
+    nforced = sum(w in core.force_wnl for w in core.wl())
+    # move excluded components at the end of linear components list
     if not nforced == 0:
         i = 0
         for _ in range(core.dims.wl()):
             if core.w[i] in core.force_wnl:
-                core.move_dissipative(i, core.dims.wl())
+                core.move_dissipative(i, core.dims.wl()-1)
             else:
                 i += 1
         # reduce number of linear components
-- 
2.43.0


From f70ec50284c46f8708a6eb33858f934fb166f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 03/45] fix: Core.substitute modified the caller's substitution
 dictionary

---
 pyphs/core/tools/_substitutions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 5f0ce56..6069e1a 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -189,6 +189,8 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
     # init substitution dic
     if subs is None:
         subs = {}
+    else:
+        subs = dict(subs)
 
     # append self subs dic
     if selfall:
-- 
2.43.0


From 2b796bb218a0d33eb870c4cd7d83da77a984a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 04/45] fix: Core.substitute dropped the result of its simplify
 option

---
 pyphs/core/tools/_substitutions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 6069e1a..e34eb23 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -216,9 +216,10 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
         if expr is None or callable(expr):
             pass
         else:
-            setattr(core, name, substitute(expr, subs_e))
+            expr = substitute(expr, subs_e)
             if simplify:
                 expr = simplify_func(expr)
+            setattr(core, name, expr)
 
     # remove entries in core.subs
     for k in subs.keys():
-- 
2.43.0


From 5532e75ac75608616afd9df5fc7fcd08e1fb696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:59 +0000
Subject: [PATCH 05/45] fix: addition of cores dropped the user-defined
 gradient of the operands

---
 pyphs/core/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index dd86cf4..64e6cd8 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -352,6 +352,10 @@ class Core:
         # Concatenate lists of expressions
         core.setexpr('z', core1.z + core2.z)
 
+        # Concatenate user-defined gradients
+        if core1._dxH is not None or core2._dxH is not None:
+            core._dxH = list(core1.dxH()) + list(core2.dxH())
+
         core.connectors = core1.connectors + core2.connectors
         core.force_wnl = core1.force_wnl + core2.force_wnl
 
-- 
2.43.0


From 7149f856ab714451bd7836358f0177b92e7879b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:59 +0000
Subject: [PATCH 06/45] fix: add_dissipations and add_ports raised
 UnboundLocalError for unknown types

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 64e6cd8..e7e24d1 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -910,8 +910,8 @@ add the connector'.format(i)
             types.scalar_test(z)
             w = [w, ]
             z = [z, ]
-            w_types = types.scalar_types+types.vector_types
         else:
+            w_types = types.scalar_types+types.vector_types
             text = 'Type of w and z should be one of {}'.format(w_types)
             raise TypeError(text)
         if not len(w) == len(z):
@@ -944,8 +944,8 @@ add the connector'.format(i)
             types.scalar_test(y)
             u = [u, ]
             y = [y, ]
-            y_types = types.scalar_types+types.vector_types
         else:
+            y_types = types.scalar_types+types.vector_types
             text = 'Type of u and y should be one of {}'.format(y_types)
             raise TypeError(text)
         if not len(u) == len(y):
-- 
2.43.0


From ca79d5a0004f82dd8cf6eede33669eaf388312d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 07/45] fix: readers of derived simulation data never closed
 the file they opened

---
 pyphs/numerics/simulations/h5data/h5data.py | 30 ++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 8417f07..8c108d5 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -853,14 +853,14 @@ or an integer nt (number of time steps).'
             arrays.append(array)
         output = numpy.hstack(arrays)[vslice]
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def _expression(self, name, tslice=None, vslice=None, postprocess=None):
 
         tslice = self._tslice(tslice)
@@ -896,15 +896,15 @@ or an integer nt (number of time steps).'
         if not numpy.prod(output.shape):
             output = numpy.zeros((expectedNt, 0))
 
+        if close:
+            self.h5close()
+
         # Apply postprocess
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def args(self, tslice=None, vslice=None, postprocess=None):
         """
         args
@@ -1048,14 +1048,14 @@ or an integer nt (number of time steps).'
         output = self.dx(tslice=tslice, vslice=vslice,
                          postprocess=lambda dx: dx*self.fs)
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def a(self, tslice=None, vslice=None, postprocess=None):
@@ -1401,14 +1401,14 @@ or an integer nt (number of time steps).'
                                   self['dxH', tslice],
                                   self['dtx', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def E(self, tslice=None, vslice=None, postprocess=None):
@@ -1508,10 +1508,10 @@ or an integer nt (number of time steps).'
                               self['u', tslice],
                               self['y', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
-
-        if close:
-            self.h5close()
-- 
2.43.0


From ec870defdf530cf6d2f621bd036c2654f2b5f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 08/45] fix: resetting tstart to None raised a TypeError

---
 pyphs/numerics/simulations/h5data/h5data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 8c108d5..158f4e4 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -218,7 +218,7 @@ class H5Data(object):
             if not isinstance(t, (int, float)):
                 text = 'tstart must be a positive value: %s.' % str(t)
                 raise ValueError(text)
-        self.start = self._time2index(t, m='min')
+            self.start = self._time2index(t, m='min')
 
     # tstart: start = tstart*fs and slice for t is slice(start, stop, step)
     tstart = property(_get_tstart, _set_tstart)
-- 
2.43.0


From 42e280096080c2c5c4d6b9689d461050a8cc8a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 09/45] fix: constant expressions were evaluated on too few
 time steps when the step does not divide the range

---
 pyphs/numerics/simulations/h5data/h5data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 158f4e4..6ae4ad6 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -874,7 +874,7 @@ or an integer nt (number of time steps).'
         if vslice is None:
             vslice = slice(None, None, None)
 
-        expectedNt = (tslice.stop-tslice.start)//tslice.step
+        expectedNt = len(range(tslice.start, tslice.stop, tslice.step))
 
         evalobj = self.method.to_evaluation(names=[name], vslice=vslice)
 
-- 
2.43.0


From c825ff77f3cf9537a7ec3b652c2e1ecbd535391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 10/45] fix: open-ended row slices counted the columns of the
 dataset

---
 pyphs/numerics/simulations/h5data/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/tools.py b/pyphs/numerics/simulations/h5data/tools.py
index bf2db62..be311b8 100644
--- a/pyphs/numerics/simulations/h5data/tools.py
+++ b/pyphs/numerics/simulations/h5data/tools.py
@@ -69,9 +69,8 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
 
     if rslice is None:
         nrows = dataset.shape[0]
-    elif rslice.stop is None:
-        nrows = dataset.shape[1]
     else:
+        rslice = slice(*rslice.indices(dataset.shape[0]))
         nrows = len(range(rslice.stop)[rslice])
 
     chunksize = min((chunksize, nrows))
-- 
2.43.0


From ad0df3d3b8e3386ed94875231562f4b449454e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 11/45] fix: C++ generation modified the caller's initial
 values

---
 pyphs/numerics/cpp/method2cpp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index bbeae21..b65bfeb 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -116,8 +116,7 @@ def method2cpp(method, objlabel=None, path=None,
     if VERBOSE >= 1:
         print('Prepare method {} for C++ generation...'.format(method.label))
 
-    if inits is None:
-        inits = {}
+    inits = {} if inits is None else dict(inits)
 
     if config is None:
         config = {}
-- 
2.43.0


From 511826561254fb171422ebcd3861ed5ea6c3f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 12/45] fix: C++ generation of scalar functions tested symbols
 against a method object

---
 pyphs/numerics/cpp/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/cpp/functions.py b/pyphs/numerics/cpp/functions.py
index d7ce0d6..8f5e727 100644
--- a/pyphs/numerics/cpp/functions.py
+++ b/pyphs/numerics/cpp/functions.py
@@ -187,7 +187,7 @@ def _str_scal_func_update(method, name, objlabel):
     update_h = '\nvoid {0}_update();'.format(name)
     update_cpp = '\nvoid {0}::{1}_update()'.format(objlabel, name) + '{'
     symbs = expr.free_symbols
-    if any(symb in method.args for symb in symbs):
+    if any(symb in method.args() for symb in symbs):
         c = ccode(expr, dereference=dereference(method))
         update_cpp += '\n_{0} = {1};'.format(name, c)
     update_cpp += '\n};'
@@ -237,7 +237,7 @@ def _str_scal_func_init_data(method, name):
     expr = getattr(method, name + '_expr')
     init_data = '{1} {0}_data = '.format(name, CONFIG_CPP['float'])
     symbs = expr.free_symbols
-    if any(symb in method.args for symb in symbs):
+    if any(symb in method.args() for symb in symbs):
         init_data += "0.;"
     else:
         c = ccode(expr, dereference=dereference(method))
-- 
2.43.0


From c47b5fea49715921b38ab54cc9aaa74eb4c7a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 13/45] fix: simulations shared (and overwrote) the default
 data loading options

---
 pyphs/numerics/simulations/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 3cd6764..8a935b1 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -165,6 +165,9 @@ class Simulation(object):
                     raise AttributeError(text)
         self.config.update(config)
 
+        # Own copy of the (mutable) data loading options
+        self.config['load'] = dict(self.config['load'])
+
         # Rebuild method if parameters are differents
         self.init_method()
 
-- 
2.43.0


From 663a4bdfec8cbe213bffed8599ad3eb5985cd66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 14/45] fix: Simulation.init ignored new parameter values for
 python simulations

---
 pyphs/numerics/simulations/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 8a935b1..c60db30 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -313,8 +313,12 @@ class Simulation(object):
             if not init_numeric:
                 init_parameters = True
         self.method.subs.update(subs)
+        self.method._core.subs.update(subs)
         if init_parameters:
-            self.init_parameters()
+            if self.config['lang'] == 'c++':
+                self.init_parameters()
+            else:
+                init_numeric = True
 
         c = self.config_method()
         c.update(self.config_numeric())
-- 
2.43.0


From 0efecea497e43f3196e75dd357644b182b71e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 15/45] fix: Simulation.init did not apply the given
 configuration to the numerical core

---
 pyphs/numerics/simulations/simulation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index c60db30..6a3e909 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -303,6 +303,10 @@ class Simulation(object):
 
         if config is None:
             config = {}
+        for k in config.keys():
+            if k not in self.config.keys():
+                text = 'Configuration key "{0}" unknown.'.format(k)
+                raise AttributeError(text)
 
         if subs is None:
             subs = {}
@@ -337,11 +341,14 @@ class Simulation(object):
                 self.inits.update(inits)
                 init_numeric = True
 
-        if any([self.config[k] != c[k] for k in
-                list(self.config_numeric().keys()) +
-                list(self.config_method().keys())]):
-            self.config.update(c)
+        changed = [k for k in c if self.config[k] != c[k]]
+        self.config.update(c)
+        if any(k in changed for k in self.config_method()):
             self.init_method()
+        if any(k in changed for k in
+               list(self.config_numeric()) + list(self.config_method()) +
+               ['lang', 'path', 'dnames']):
+            init_numeric = True
 
         if init_numeric:
             self.init_numericalCore()
-- 
2.43.0


From 9da2ad8a986664e13040ac4d5947e1a5c1a93aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:44 +0000
Subject: [PATCH 16/45] fix: the discrete evaluation of the structure was
 applied twice when splitting (theta and trapez)

---
 pyphs/numerics/numerical_method/_method.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 9195922..cf8d26c 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -155,8 +155,6 @@ class Method(Core):
                 print('    Re-Build numerical structure...')
             # build the discrete evaluation for the gradient
             build_gradient_evaluation(self)
-            # build the discrete evaluation for the structure
-            build_structure_evaluation(self)
             # build method updates
             set_structure(self)
 
-- 
2.43.0


From 68fb98f0993aa4e22c37ad49f2f60a3b8f188284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:44 +0000
Subject: [PATCH 17/45] fix: unknown language raised a KeyError on a missing
 configuration key

---
 pyphs/numerics/simulations/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 6a3e909..62762fa 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -415,7 +415,7 @@ class Simulation(object):
 
         # language is 'py' or 'cpp'
         if not self.config['lang'] in ('c++', 'python'):
-            text = 'Unknown language {}.'.format(self.config['language'])
+            text = 'Unknown language {}.'.format(self.config['lang'])
             raise NameError(text)
 
         if self.config['lang'] == 'c++':
-- 
2.43.0


From 59d57eea96a49763b50462da0fad428704a370f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:44 +0000
Subject: [PATCH 18/45] fix: operation 'div' had no C++ translation

---
 pyphs/numerics/cpp/operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyphs/numerics/cpp/operations.py b/pyphs/numerics/cpp/operations.py
index fff8ab6..d2eca95 100644
--- a/pyphs/numerics/cpp/operations.py
+++ b/pyphs/numerics/cpp/operations.py
@@ -29,6 +29,7 @@ def op2cpp(op):  # used in place of lambda s: '({0}) + ({1})'.format
               'prod': '({0})*({1})'.format,
               'dot': '({0})*({1})'.format,
               'inv': '({0}).inverse()'.format,
+              'div': '({0})/({1})'.format,
               'norm': lambda s: 'sqrt(({0}).dot({1}))'.format(s, s),
               'copy': '{0}'.format,
               'none': lambda: ''
-- 
2.43.0


From 708f04cf075317ddc5deffbf78321318792b26fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 19/45] fix: graph analysis compared edge types by identity

---
 pyphs/graphs/analysis.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 059c3eb..fd122b8 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -59,11 +59,11 @@ class GraphAnalysis:
             e = self.ic_edges[i]
             e_data = self.edges[e][2]
             # check if effort-controlled
-            if e_data['ctrl'] is 'e':
+            if e_data['ctrl'] == 'e':
                 # move edge at the top of edge list and set Lambda(edge) to 0
                 self.set_edge_ec(e)
             # check if flux-controlled
-            elif e_data['ctrl'] is 'f':
+            elif e_data['ctrl'] == 'f':
                 if self.Lambda[:, e].sum() == 1:
                     # edge 'e' imposes the potential on that node
                     # get node index
@@ -85,7 +85,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'storage':
+            if self.get_edge_data(e, 'type') == 'storage':
                 temp.append(e)
         return temp
 
@@ -96,7 +96,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'dissipative':
+            if self.get_edge_data(e, 'type') == 'dissipative':
                 temp.append(e)
         return temp
 
@@ -107,7 +107,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'port':
+            if self.get_edge_data(e, 'type') == 'port':
                 temp.append(e)
         return temp
 
@@ -118,7 +118,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'connector':
+            if self.get_edge_data(e, 'type') == 'connector':
                 temp.append(e)
         return temp
 
@@ -351,7 +351,7 @@ define it as effort-controlled (0 column in lambda).
         self.Lambda[:, 0] = 0
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'e')
         self.verbose('set_edge_ec')
@@ -377,7 +377,7 @@ controlled node from node list
         self.fc_edges = indices[-(nfc+1):]
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'f')
         self.verbose('set_edge_fc')
@@ -435,7 +435,7 @@ and the realizability of linked edge is chosen based on the connector type \
             print('link', e_label, self.get_edge_data(e, 'connector_type'),
                   ctrl, link_e_label)
         # get connector
-        if ctrl is 'e':
+        if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 self.inverse_alpha(e)
@@ -459,7 +459,7 @@ compatible'.format(e_label, link_e_label)
                     # move edge at the end of edge list
                     self.set_edge_fc(link_e)
 
-        if ctrl is 'f':
+        if ctrl == 'f':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 # assert linked edge is not effort controlled
-- 
2.43.0


From 2e83811a95a09113c4e302e677e302c9ab75f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:05 +0000
Subject: [PATCH 20/45] fix: the C++ parameter table was closed once per
 parameter set

---
 pyphs/numerics/cpp/method2cpp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index b65bfeb..c06e0d4 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -362,7 +362,8 @@ const {0} subs[{1}][{2}]""".format(CONFIG_CPP['float'], nsubs, npars) + """ = {
                 files['cpp'] += str(float(s[k])) + ', '
             # Close brackets
             files['cpp'] = files['cpp'][:-2] + """},
-};"""
+"""
+        files['cpp'] += "};"
 
 
 ###############################################################################
-- 
2.43.0


From d01b24c1abe890b4e3127a2f3182adce0b05ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 21/45] fix: Evaluation of vector expressions raised a
 TypeError without a slice

---
 pyphs/numerics/tools/_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index 59105eb..8e599b6 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -149,7 +149,7 @@ class Evaluation(object):
             if isinstance(expr, types.vector_types):
                 func = vector_expr_to_numeric(
                     args,
-                    expr[vslice],
+                    expr if vslice is None else expr[vslice],
                     subs=core.subs,
                     theano=theano,
                     vectorize=vectorize
-- 
2.43.0


From 86e48326fc7c989ed8a00b48335d344b314bcdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 22/45] fix: Evaluation ignored its vectorize option

---
 pyphs/numerics/tools/_evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index 8e599b6..0783a48 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -95,6 +95,7 @@ class Evaluation(object):
             func, args, inds = self.expr_to_numeric(self.core, name,
                                                     self.args(),
                                                     theano=theano,
+                                                    vectorize=vectorize,
                                                     vslice=vslice)
             setattr(self, name, func)
             setattr(self, name+'_args', args)
-- 
2.43.0


From cdf06c8fe7f69e6d731f2bcaa1b00d65ce91cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 23/45] fix: vectorized evaluations of vectors (e.g. observers)
 were arrays of generators

---
 pyphs/numerics/tools/_evaluation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index 0783a48..b8ebb56 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -22,8 +22,7 @@ def pyphs_vectorize(func):
         len_args = len(args[0])
         if not all(len(a) == len_args for a in args[1:]):
             raise AttributeError('Can not call vectorized function {} since given arguments have not the same length.'.format(func.__name__))
-        for ith_args in zip(*args):
-            yield func(*ith_args)
+        return numpy.array([func(*ith_args) for ith_args in zip(*args)])
     return vec_func
 
 
-- 
2.43.0


From bdb5072377516d615360930694188dcfb3264fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 24/45] fix: lambdify of a bare symbol raised 'Missing free
 symbols' (copied symbols are not found in sets)

---
 pyphs/numerics/tools/_lambdify.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/tools/_lambdify.py b/pyphs/numerics/tools/_lambdify.py
index f3d71e0..b3c7bc3 100644
--- a/pyphs/numerics/tools/_lambdify.py
+++ b/pyphs/numerics/tools/_lambdify.py
@@ -114,8 +114,10 @@ Return
 f : callable
     Fast evaluation of expr provided len(args) numerical values.
     """
-    # Avoid side effects of simplifications and substitutions
-    expr = copy.copy(expr)
+    # Avoid side effects of simplifications and substitutions (scalar
+    # expressions are immutable, and a copied symbol is not found in args)
+    if isinstance(expr, types.vector_types + types.matrix_types):
+        expr = copy.copy(expr)
 
     # Check for types
     types.is_known_test(expr)
-- 
2.43.0


From cdc5a648dcfd93577ca941390427cf0a4ae1645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:07 +0000
Subject: [PATCH 25/45] fix: Evaluation of observers that depend on core.subs
 raised 'Missing free symbols'

---
 pyphs/numerics/tools/_evaluation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index b8ebb56..f39b217 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -61,10 +61,10 @@ class Evaluation(object):
             print('Build numerical evaluations...')
 
         self.core = core.__copy__()
-        self.core.o = list(self.core.observers.values())
-
         self.core.substitute(selfall=True)
 
+        self.core.o = list(self.core.observers.values())
+
         if names in ['all', None]:
             names = self.core.exprs_names
             names = names.union(self.core.struc_names)
-- 
2.43.0


From b4337e7e968feef26675710ca2f1238fe16b8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:00 +0000
Subject: [PATCH 26/45] fix: connector ratios did not follow the documented
 laws (and were inverted again by every analysis)

---
 pyphs/graphs/analysis.py | 27 ++++++++++++++++++---------
 pyphs/graphs/build.py    |  2 +-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index fd122b8..4f1aca4 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -438,7 +438,6 @@ and the realizability of linked edge is chosen based on the connector type \
         if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
-                self.inverse_alpha(e)
                 # assert linked edge is not flux controlled
                 assert link_e not in self.fc_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -449,7 +448,6 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_ec(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
-#                self.inverse_alpha(e)
                 # assert linked edge is not effort controlled
                 assert link_e not in self.ec_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -484,13 +482,24 @@ compatible'.format(e_label, link_e_label)
             print('link', e_label, ctrl, link_e_label)
             self.verbose('link')
 
-    def inverse_alpha(self, e, minus=False):
-        alpha = self.edges[e][2]['alpha']
-        if alpha is not None:
-            a = alpha**-1
-            if minus:
-                a = -a
-            self.edges[e][2]['alpha'] = a
+    def get_connector_alpha(self, e):
+        """
+        Return the ratio of connector edge e for the realizability of that
+        edge (None for the second edge of a connector), that is, alpha such
+        that u1 = -alpha*y2 and u2 = alpha*y1 with the laws
+
+        * gyrator: e1 = -alpha*f2, e2 = alpha*f1;
+        * transformer: f1 = -alpha*f2, e2 = alpha*e1.
+        """
+        alpha = self.get_edge_data(e, 'alpha')
+        if alpha is None:
+            return None
+        gyrator = self.get_edge_data(e, 'connector_type') == 'gyrator'
+        # gyrator: inverse for effort-controlled edges
+        # transformer: inverse for flux-controlled first edge
+        if gyrator == (e in self.ec_edges):
+            alpha = -alpha**-1
+        return alpha
 
 
 def isequal(M1, M2):
diff --git a/pyphs/graphs/build.py b/pyphs/graphs/build.py
index 260c633..302e555 100644
--- a/pyphs/graphs/build.py
+++ b/pyphs/graphs/build.py
@@ -93,7 +93,7 @@ def _setCore(graph):
         new_indices_connector.append(graph.core.cy.index(e_label))
         index_e_in_connector = [e_label in c['y']
                                 for c in graph.core.connectors].index(True)
-        alpha = graph.analysis.get_edge_data(e, 'alpha')
+        alpha = graph.analysis.get_connector_alpha(e)
         if alpha is not None:
             graph.core.connectors[index_e_in_connector]['alpha'] = alpha
     graph.core.cy = [graph.core.cy[el] for el in new_indices_connector]
-- 
2.43.0


From 344f83d7517840ab434645cbee040b85ef779f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:19 +0000
Subject: [PATCH 27/45] fix: the grid current of the triode was a step of 1/Rgk
 instead of (vgk-Va)/Rgk

---
 pyphs/dictionary/electronics/_triode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/dictionary/electronics/_triode.py b/pyphs/dictionary/electronics/_triode.py
index d063b58..f59de49 100644
--- a/pyphs/dictionary/electronics/_triode.py
+++ b/pyphs/dictionary/electronics/_triode.py
@@ -48,7 +48,7 @@ class Triode(DissipativeNonLinear):
             """
             dissipation function for edge 'e = (g->k)'
             """
-            expr = indicator(vgk-Va)/Rgk
+            expr = (vgk-Va)*indicator(vgk-Va)/Rgk
             return expr
 
         def ipk():
-- 
2.43.0


From b6c29195ef5ccbaf02d7c2688d3f7d93a3bc8014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:23 +0000
Subject: [PATCH 28/45] fix: components without arguments did not take the
 documented default values

---
 pyphs/dictionary/electronics/_capacitor.py    | 2 +-
 pyphs/dictionary/electronics/_inductor.py     | 6 ++++--
 pyphs/dictionary/electronics/_resistor.py     | 6 ++++--
 pyphs/dictionary/electronics/_source.py       | 8 +++++---
 pyphs/dictionary/mechanics_dual/_source.py    | 8 +++++---
 pyphs/dictionary/mechanics_dual/_stiffness.py | 4 +++-
 pyphs/dictionary/thermics/_transfers.py       | 6 +++---
 7 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/pyphs/dictionary/electronics/_capacitor.py b/pyphs/dictionary/electronics/_capacitor.py
index 9f4dc56..b44a70e 100644
--- a/pyphs/dictionary/electronics/_capacitor.py
+++ b/pyphs/dictionary/electronics/_capacitor.py
@@ -52,7 +52,7 @@ class Capacitor(StorageLinear):
                 'desc': 'Linear capacitor.',
                 'nodesdesc': "Capacitor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['C', 'Capacitance', 'F', '1e-9']],
+                'parameters': [['C', 'Capacitance', 'F', 1e-9]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_inductor.py b/pyphs/dictionary/electronics/_inductor.py
index 1e06090..803a85a 100644
--- a/pyphs/dictionary/electronics/_inductor.py
+++ b/pyphs/dictionary/electronics/_inductor.py
@@ -17,8 +17,10 @@ class Inductor(StorageLinear):
 
     def __init__(self, label, nodes, **kwargs):
 
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         par_name = 'L'
-        par_val = kwargs[par_name]
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': True,
@@ -32,7 +34,7 @@ class Inductor(StorageLinear):
                 'desc': 'Linear inductor.',
                 'nodesdesc': "Inductor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['L', 'Inductance', 'H', '1e-3']],
+                'parameters': [['L', 'Inductance', 'H', 1e-3]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_resistor.py b/pyphs/dictionary/electronics/_resistor.py
index 9b5247c..036fa68 100644
--- a/pyphs/dictionary/electronics/_resistor.py
+++ b/pyphs/dictionary/electronics/_resistor.py
@@ -16,10 +16,12 @@ from ..electronics import metadata as dicmetadata
 class Resistor(DissipativeLinear):
 
     def __init__(self, label, nodes, **kwargs):
-        if kwargs['R'] is None:
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        if parameters['R'] is None:
             coeff = 0
         else:
-            coeff = kwargs['R']
+            coeff = parameters['R']
         DissipativeLinear.__init__(self, label, nodes, coeff=coeff)
 
     metadata = {'title': 'Resistor',
diff --git a/pyphs/dictionary/electronics/_source.py b/pyphs/dictionary/electronics/_source.py
index 81bf930..7ed5501 100644
--- a/pyphs/dictionary/electronics/_source.py
+++ b/pyphs/dictionary/electronics/_source.py
@@ -16,16 +16,18 @@ from ..electronics import metadata as dicmetadata
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('voltage', 'current')
         if type_ == 'voltage':
             ctrl = 'f'
         elif type_ == 'current':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
+        parameters.update({'ctrl': ctrl})
 #        kwargs.update({'units': units})
-        Port.__init__(self, label, nodes, **kwargs)
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Electrical source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_source.py b/pyphs/dictionary/mechanics_dual/_source.py
index cfe5aa2..61fd872 100644
--- a/pyphs/dictionary/mechanics_dual/_source.py
+++ b/pyphs/dictionary/mechanics_dual/_source.py
@@ -16,15 +16,17 @@ from pyphs.misc.rst import equation
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('force', 'velocity')
         if type_ == 'force':
             ctrl = 'f'
         elif type_ == 'velocity':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
-        Port.__init__(self, label, nodes, **kwargs)
+        parameters.update({'ctrl': ctrl})
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Mechanical Source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_stiffness.py b/pyphs/dictionary/mechanics_dual/_stiffness.py
index 75cabc2..626a395 100644
--- a/pyphs/dictionary/mechanics_dual/_stiffness.py
+++ b/pyphs/dictionary/mechanics_dual/_stiffness.py
@@ -16,8 +16,10 @@ from pyphs.misc.rst import equation
 class Stiffness(StorageLinear):
 
     def __init__(self, label, nodes, **kwargs):
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         par_name = 'K'
-        par_val = kwargs[par_name]
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': False,
diff --git a/pyphs/dictionary/thermics/_transfers.py b/pyphs/dictionary/thermics/_transfers.py
index 285e4e8..2f6a2b7 100644
--- a/pyphs/dictionary/thermics/_transfers.py
+++ b/pyphs/dictionary/thermics/_transfers.py
@@ -18,9 +18,9 @@ class Transfer(DissipativeNonLinear):
 
     def __init__(self, label, nodes, **kwargs):
         # parameters
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         pars = ['R', ]
-        for par in pars:
-            assert par in kwargs.keys()
         R, = symbols(pars)
 
         # dissipation variable
@@ -57,7 +57,7 @@ class Transfer(DissipativeNonLinear):
                                          [edge1,
                                           edge2],
                                          w, [z1, z2],
-                                         **kwargs)
+                                         **parameters)
 
     metadata = {'title': 'Thermal transfer',
                 'component': 'Transfer',
-- 
2.43.0


From a47c9ae87f63a422d81b4ca081a4c3dad1d4a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:05 +0000
Subject: [PATCH 29/45] fix: python simulations were truncated by the stop
 option of the data reader

---
 pyphs/numerics/simulations/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 62762fa..03b4a40 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -443,7 +443,7 @@ class Simulation(object):
 
         # get values for u and p
         data = self.data
-        tslice = slice(0, None, 1)
+        tslice = slice(0, data.nt, 1)
         data.h5open()
         seq_u = data.u(tslice=tslice)
         seq_p = data.p(tslice=tslice)
-- 
2.43.0


From 17df23a3ee6e7581cb874666763e9bcf9ec145ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:36 +0000
Subject: [PATCH 30/45] fix: the last energy variation of decimated data was
 divided by the step (and taken at another time step)

---
 pyphs/numerics/simulations/h5data/h5data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 6ae4ad6..caf663c 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -1389,11 +1389,13 @@ or an integer nt (number of time steps).'
 
         # Compute DtE = (h[x[n+1]]-h[x[n]]) / dt
         if DtE == 'deltaH':
+            last = range(tslice.start, tslice.stop, tslice.step)[-1]
             last_dtH_value = numpy.einsum('ti,ti->t',
-                                          self['dxH', tslice.stop-1],
-                                          self['dtx', tslice.stop-1])/self.fs
+                                          self['dxH', last],
+                                          self['dtx', last])/self.fs
             output = numpy.ediff1d(self.E(tslice=tslice),
-                                   to_end=last_dtH_value)*self.fs/tslice.step
+                                   to_end=last_dtH_value*tslice.step
+                                   )*self.fs/tslice.step
 
         # Compute DtE = dxh.T * dtx
         elif DtE == 'DxhDtx':
-- 
2.43.0


From 3cb9fae803eeaf798a54e042aaa8bc779d5f2dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 31/45] fix: the C++ accessor of scalar functions was defined
 const but not declared const

---
 pyphs/numerics/cpp/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/functions.py b/pyphs/numerics/cpp/functions.py
index 8f5e727..ecafc25 100644
--- a/pyphs/numerics/cpp/functions.py
+++ b/pyphs/numerics/cpp/functions.py
@@ -118,7 +118,7 @@ def _str_mat_func_get(method, name, objlabel):
 
 
 def _str_scal_func_get(name, objlabel):
-    get_h = '\nconst {1} & {0}();'.format(name, CONFIG_CPP['float'])
+    get_h = '\nconst {1} & {0}() const;'.format(name, CONFIG_CPP['float'])
     get_cpp = \
         '\nconst {2} & {0}::{1}() const '.format(objlabel, name, CONFIG_CPP['float']) + '{\n'
     get_cpp += indent('return _{0};'.format(name)) + '\n}'
-- 
2.43.0


From a8dc8a119c542fdc651338f38a759719a15741a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 32/45] fix: initial values were rounded to single precision in
 the generated C++ code

---
 pyphs/numerics/cpp/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/arguments.py b/pyphs/numerics/cpp/arguments.py
index 7a4a664..cbb87ed 100644
--- a/pyphs/numerics/cpp/arguments.py
+++ b/pyphs/numerics/cpp/arguments.py
@@ -213,7 +213,7 @@ def _str_args_init_data(method, name):
                 symbs = expr.free_symbols
                 if not any(symb in method.args() for symb in symbs):
                     c = ccode(expr, dereference=dereference(method))
-                    data = 'float({0}), '.format(c)
+                    data = '{0}, '.format(c)
             init_data += data
     if crop:
         init_data = init_data[:-2]
-- 
2.43.0


From 101b6e82f79cc632926dd8f10ccb756801d376ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 33/45] fix: set_sampleRate did not update the values which
 depend on the sample rate only

---
 pyphs/numerics/cpp/functions.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyphs/numerics/cpp/functions.py b/pyphs/numerics/cpp/functions.py
index ecafc25..eba0100 100644
--- a/pyphs/numerics/cpp/functions.py
+++ b/pyphs/numerics/cpp/functions.py
@@ -40,6 +40,15 @@ def append_funcs(method, files, objlabel):
 ###############################################################################
 # DEFs
 
+def is_updated(method, symbs):
+    """
+    True if an expression with free symbols symbs is evaluated by the update
+    methods of the C++ object: it depends on the arguments or on the sample
+    rate (which may be changed with set_sampleRate).
+    """
+    return any(symb in method.args() or symb == method.fs for symb in symbs)
+
+
 def _append_funcs_defs(method, files):
     title = linesplit + "\n// Functions Results Definitions"
     files['h']['private'] += title
@@ -175,7 +184,7 @@ def _str_mat_func_update(method, name, objlabel):
     update_cpp = '\nvoid {0}::{1}_update()'.format(objlabel, name) + '{'
     for m, n, expr in mat.row_list():
             symbs = expr.free_symbols
-            if any(symb in method.args() for symb in symbs):
+            if is_updated(method, symbs):
                 c = ccode(expr, dereference=dereference(method))
                 update_cpp += '\n_{0}({1}, {2}) = {3};'.format(name, m, n, c)
     update_cpp += '\n};'
@@ -187,7 +196,7 @@ def _str_scal_func_update(method, name, objlabel):
     update_h = '\nvoid {0}_update();'.format(name)
     update_cpp = '\nvoid {0}::{1}_update()'.format(objlabel, name) + '{'
     symbs = expr.free_symbols
-    if any(symb in method.args() for symb in symbs):
+    if is_updated(method, symbs):
         c = ccode(expr, dereference=dereference(method))
         update_cpp += '\n_{0} = {1};'.format(name, c)
     update_cpp += '\n};'
@@ -222,7 +231,7 @@ def _str_mat_func_init_data(method, name):
             if (m, n) in mat_dic.keys():
                 expr = mat[m, n]
                 symbs = expr.free_symbols
-                if not any(symb in method.args() for symb in symbs):
+                if not is_updated(method, symbs):
                     c = ccode(expr, dereference=dereference(method))
 #                    data = 'float({0}), '.format(c)
                     data = '{0}, '.format(c)
@@ -237,7 +246,7 @@ def _str_scal_func_init_data(method, name):
     expr = getattr(method, name + '_expr')
     init_data = '{1} {0}_data = '.format(name, CONFIG_CPP['float'])
     symbs = expr.free_symbols
-    if any(symb in method.args() for symb in symbs):
+    if is_updated(method, symbs):
         init_data += "0.;"
     else:
         c = ccode(expr, dereference=dereference(method))
-- 
2.43.0


From 9f6c35d1d7c7a4d3e127a757ea4b5b809508aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 34/45] fix: parameter values given in another order were
 assigned to the wrong C++ parameters

---
 pyphs/numerics/cpp/method2cpp.py         | 14 +++++++++++++-
 pyphs/numerics/simulations/simulation.py |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index c06e0d4..eeef6a8 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -233,7 +233,7 @@ def method2cpp(method, objlabel=None, path=None,
     if subs is None:
         subs = method.subs
 
-    parameters_files = parameters(subs, objlabel)
+    parameters_files = parameters(sort_subs(subs, method.subs), objlabel)
     for e in exts:
         filename = path + os.sep + 'parameters.{0}'.format(e)
         if VERBOSE >= 1:
@@ -299,6 +299,18 @@ def parameters(subs, objlabel):
     return files
 
 
+def sort_subs(subs, reference):
+    """
+    Order the parameter values as in the dictionary reference, i.e. as they
+    are indexed by the generated C++ class (see append_parameters).
+    """
+    if isinstance(subs, (tuple, list)):
+        return [sort_subs(s, reference) for s in subs]
+    elif isinstance(subs, dict) and set(subs) == set(reference):
+        return dict((k, subs[k]) for k in reference)
+    return subs
+
+
 def _append_include(files):
     """
     Used in .parameters()
diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 03b4a40..3a5b795 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -9,7 +9,7 @@ from __future__ import absolute_import, division, print_function
 from pyphs.config import (CONFIG_METHOD, CONFIG_SIMULATION,
                           CONFIG_NUMERIC, CONFIG_CPP, VERBOSE)
 from ..cpp.simu2cpp import simu2cpp, main_path
-from ..cpp.method2cpp import method2cpp, parameters
+from ..cpp.method2cpp import method2cpp, parameters, sort_subs
 from .. import Numeric
 from .h5data import H5Data
 from pyphs.misc.tools import geteval
@@ -362,6 +362,7 @@ class Simulation(object):
         if subs is None:
             subs = self.method.subs
         else:
+            subs = sort_subs(subs, self.method.subs)
             self.method.subs = subs
         path = self.src_path
         parameters_files = parameters(subs, self.objlabel)
-- 
2.43.0


From 5c792cab4c3fb0e9a266ee9a474bb149c33e3b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:55 +0000
Subject: [PATCH 35/45] fix: C++ simulations with their own label declared an
 object of an unknown class

---
 pyphs/numerics/cpp/simu2cpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/simu2cpp.py b/pyphs/numerics/cpp/simu2cpp.py
index 77736fd..aefec41 100644
--- a/pyphs/numerics/cpp/simu2cpp.py
+++ b/pyphs/numerics/cpp/simu2cpp.py
@@ -37,7 +37,7 @@ def simu2cpp(simu):
     subs['dim'] = simu.data.dim
     subs['h5path'] = simu.data.h5path
     subs['dname'] = simu.data.dname
-    subs['labelUp'] = objlabel.upper()
+    subs['labelUp'] = simu.objlabel  # name of the class, see method2cpp
     subs['labelLow'] = objlabel.lower()
     subs['updateInputs'] = _str_updateInputs(simu, objlabel)
     subs['updateResults'] = _str_updateResults(simu, objlabel)
-- 
2.43.0


From 452006826766f21595faca61d5386a7098ca2c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:55 +0000
Subject: [PATCH 36/45] fix: run.sh executed the lower-case label instead of
 the executable built by cmake

---
 pyphs/numerics/cpp/simu2cpp.py         | 1 +
 pyphs/templates/cpp/simu_bash.template | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/simu2cpp.py b/pyphs/numerics/cpp/simu2cpp.py
index aefec41..3d04cbe 100644
--- a/pyphs/numerics/cpp/simu2cpp.py
+++ b/pyphs/numerics/cpp/simu2cpp.py
@@ -39,6 +39,7 @@ def simu2cpp(simu):
     subs['dname'] = simu.data.dname
     subs['labelUp'] = simu.objlabel  # name of the class, see method2cpp
     subs['labelLow'] = objlabel.lower()
+    subs['label'] = objlabel  # name of the executable, see cmake_write
     subs['updateInputs'] = _str_updateInputs(simu, objlabel)
     subs['updateResults'] = _str_updateResults(simu, objlabel)
     subs['pbar'] = int(simu.config['pbar'])
diff --git a/pyphs/templates/cpp/simu_bash.template b/pyphs/templates/cpp/simu_bash.template
index ebd9f88..019e9cb 100644
--- a/pyphs/templates/cpp/simu_bash.template
+++ b/pyphs/templates/cpp/simu_bash.template
@@ -15,4 +15,4 @@ $cmakepath . -Bbuild
 $cmakepath --build build -- -j3
 
 # Binary Exec
-.${sep}bin${sep}${labelLow}
+.${sep}bin${sep}${label}
-- 
2.43.0


From e69b032e0992846d5011b5fed7a8546b0c610582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:33 +0000
Subject: [PATCH 37/45] fix: Simulation.init failed for a new results folder
 (or path None)

---
 pyphs/numerics/simulations/simulation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 3a5b795..f25c522 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -171,12 +171,6 @@ class Simulation(object):
         # Rebuild method if parameters are differents
         self.init_method()
 
-        if self.config['path'] is None:
-            self.config['path'] = os.getcwd()
-
-        if not os.path.exists(self.config['path']):
-            os.mkdir(self.config['path'])
-
         # Define inits
         self.inits = {}
         if inits is not None:
@@ -230,6 +224,11 @@ class Simulation(object):
             The default is True.
 
         """
+        if self.config['path'] is None:
+            self.config['path'] = os.getcwd()
+
+        if not os.path.exists(self.config['path']):
+            os.mkdir(self.config['path'])
         self.cpp_path = os.path.join(main_path(self),
                                      self.objlabel.lower())
         self.work_path = os.getcwd()
-- 
2.43.0


From be208766a9fde5e1fadd7bd566fd6e27923435b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:33 +0000
Subject: [PATCH 38/45] fix: a second run of a python simulation started from
 the final state of the first one

---
 pyphs/numerics/simulations/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index f25c522..4e9f4a5 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -349,6 +349,10 @@ class Simulation(object):
                ['lang', 'path', 'dnames']):
             init_numeric = True
 
+        # Python simulations restart from the initial values, as c++ ones do
+        if self.config['lang'] == 'python' and hasattr(self, 'n'):
+            init_numeric = True
+
         if init_numeric:
             self.init_numericalCore()
 
-- 
2.43.0


From b03ba1ded0de2436b3b0438ae82ea2ad9ea15bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 39/45] fix: the 'load' options given to a simulation were
 ignored

---
 pyphs/numerics/simulations/h5data/h5data.py | 8 ++++----
 pyphs/numerics/simulations/simulation.py    | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index caf663c..cccb628 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -78,10 +78,10 @@ class H5Data(object):
 
         self._build_readers()
 
-        # init load options
-        self.start = None
-        self.stop = None
-        self.step = None
+        # complete the load options (those given are kept)
+        for name in ('start', 'stop', 'step'):
+            if self.config['load'].get(name) is None:
+                setattr(self, name, None)
 
     # ----------------------------------------------------------------------- #
     # fs
diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 4e9f4a5..dced67f 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -166,7 +166,8 @@ class Simulation(object):
         self.config.update(config)
 
         # Own copy of the (mutable) data loading options
-        self.config['load'] = dict(self.config['load'])
+        self.config['load'] = dict(CONFIG_SIMULATION['load'],
+                                   **self.config['load'])
 
         # Rebuild method if parameters are differents
         self.init_method()
@@ -328,6 +329,7 @@ class Simulation(object):
         c.update(self.config_simulation())
 
         c.update(config)
+        c['load'] = dict(self.config['load'], **c['load'])
 
         if inits is not None:
             equal = True
-- 
2.43.0


From 7d6af089ca60e1fb1bdbe48873d667e37d1105e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:25 +0000
Subject: [PATCH 40/45] fix: Netlist.read kept the end of line in the last
 parameter, and failed on lines of spaces

---
 pyphs/graphs/netlists.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 0558df4..c9ff0b7 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -108,14 +108,15 @@ components).
         """
         with open(self.path, "r") as openfileobject:
             for i, line in enumerate(openfileobject.readlines()):
+                line = line.strip()
                 if line.startswith('#'):
                     if VERBOSE >= 1:
-                        print('pass "{}"'.format(line[:-1]))
-                elif len(line) == 1:
+                        print('pass "{}"'.format(line))
+                elif len(line) == 0:
                     pass
                 else:
                     if VERBOSE >= 1:
-                        print('read "{}"'.format(line[:-1]))
+                        print('read "{}"'.format(line))
                     # get 'infos' (dic, comp and nodes) and parameters
                     infos, _, parameters = line.partition(':')
                     # get ‘dic.comp' and 'label nodes'
-- 
2.43.0


From f44f6de7d200de7904b82ea7dc9b2f8ecd0a38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:25 +0000
Subject: [PATCH 41/45] fix: Netlist.folder dropped the last character of a
 path without folder

---
 pyphs/graphs/netlists.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index c9ff0b7..6365713 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -60,7 +60,7 @@ i-th parameter is defined as 'label_pari'.
     # Folder
 
     def get_folder(self):
-        return self.path[:self.path.rfind(os.sep)]
+        return os.path.dirname(self.path)
 
     folder = property(get_folder)
 
-- 
2.43.0


From 04823cef2e8ae1954459da210a8e1f9fc0c4ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:25 +0000
Subject: [PATCH 42/45] fix: adding a netlist to itself never ended

---
 pyphs/graphs/netlists.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 6365713..b18883f 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -84,7 +84,7 @@ i-th parameter is defined as 'label_pari'.
 
     def __add__(net1, net2):
         net = net1
-        for l in net2:
+        for l in list(net2):
             net.add_line(l)
         return net
 
-- 
2.43.0


From 074f1f3cb06ba6c770c8f456d90047f327d24cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:25 +0000
Subject: [PATCH 43/45] fix: Netlist.setline turned the labels made of digits
 into numbers

---
 pyphs/graphs/netlists.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index b18883f..c3ee995 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -199,12 +199,7 @@ components).
             pass
         self.components[n] = value
 
-        value = line['label']
-        try:
-            value = ast.literal_eval(value)
-        except (ValueError, SyntaxError):
-            pass
-        self.labels[n] = value
+        self.labels[n] = line['label']
 
         value = line['nodes']
         self.nodes[n] = value
-- 
2.43.0


From 97b3f07f1c79230820ef1cf24ccc153818ffbbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 44/45] fix: signalgenerator returned the last of its cycles
 only

---
 pyphs/misc/signals/synthesis/synthesis_array.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyphs/misc/signals/synthesis/synthesis_array.py b/pyphs/misc/signals/synthesis/synthesis_array.py
index df4529e..d39cb93 100644
--- a/pyphs/misc/signals/synthesis/synthesis_array.py
+++ b/pyphs/misc/signals/synthesis/synthesis_array.py
@@ -299,7 +299,7 @@ to PWM.
                 return zeros(n)
 
     # deb
-    deb = background_noise(parameters['ndeb'])
+    signal = [background_noise(parameters['ndeb'])]
 
     # cycles
     for c in range(parameters['ncycles']):
@@ -349,10 +349,12 @@ to PWM.
             cycle_deb += parameters['offset']
             cycle_end += parameters['offset']
 
+        signal += [cycle_deb, cycle_end]
+
     # end
-    end = background_noise(parameters['nend'])
+    signal.append(background_noise(parameters['nend']))
 
-    return hstack((deb, cycle_deb, cycle_end, end))
+    return hstack(signal)
 
 
 def build_parameters(**kwargs):
-- 
2.43.0


From bb55fcd33c591c8cb3339cb6cee8533cbd7ddc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 45/45] fix: transformers followed another law when their first
 edge is effort-controlled (and its documentation, not that of the components
 built on them)

---
 pyphs/dictionary/connectors/_transformer.py | 2 +-
 pyphs/graphs/analysis.py                    | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyphs/dictionary/connectors/_transformer.py b/pyphs/dictionary/connectors/_transformer.py
index 5e2ca50..903e62e 100644
--- a/pyphs/dictionary/connectors/_transformer.py
+++ b/pyphs/dictionary/connectors/_transformer.py
@@ -25,7 +25,7 @@ class Transformer(Connector):
                 'dico': 'connectors',
                 'component': 'Transformer',
                 'desc': r'Quadripole connector of transformer type with:' +
-                        equation(r'\left\{\begin{array}{rcl} f_A &=& -\alpha\, f_B, \\ e_B &=& + \alpha\,e_A. \end{array}\right.'),
+                        equation(r'\left\{\begin{array}{rcl} e_A &=& -\alpha\, e_B, \\ f_B &=& + \alpha\,f_A. \end{array}\right.'),
                 'nodesdesc': "Connected edges are A1->A2 and B1->B2.",
                 'nodes': ('A1', 'A2', 'B1', 'B2'),
                 'parameters': [['alpha', 'Ratio', 'unknown', 1.]],
diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 4f1aca4..0bccb3a 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -489,15 +489,13 @@ compatible'.format(e_label, link_e_label)
         that u1 = -alpha*y2 and u2 = alpha*y1 with the laws
 
         * gyrator: e1 = -alpha*f2, e2 = alpha*f1;
-        * transformer: f1 = -alpha*f2, e2 = alpha*e1.
+        * transformer: e1 = -alpha*e2, f2 = alpha*f1.
         """
         alpha = self.get_edge_data(e, 'alpha')
         if alpha is None:
             return None
-        gyrator = self.get_edge_data(e, 'connector_type') == 'gyrator'
-        # gyrator: inverse for effort-controlled edges
-        # transformer: inverse for flux-controlled first edge
-        if gyrator == (e in self.ec_edges):
+        # inverse for effort-controlled first edge
+        if e in self.ec_edges:
             alpha = -alpha**-1
         return alpha
 
-- 
2.43.0

