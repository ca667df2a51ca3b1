From 0c2d00e0289dfbca9a5f4367a1c34681bce23d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:09 +0000
Subject: [PATCH 01/32] fix: control adjoints are inserted beside their
 controls in the diffyg guess map

Inserting at -1 put the adjoint of the control in front of the adjoint of time, so the
user's costate guess was permuted; with two or more controls the map raised.
---
 beluga/numeric/data_classes/trajectory_mappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index ec8be83..8fe69c5 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -262,11 +262,11 @@ class DifferentialControlMapperDiffyG(SolMapper):
             else:
                 costate_insert = control_costate * np.ones_like(sol.t)
 
-            sol.dual = np.insert(sol.dual, -1, costate_insert, axis=1)
+            sol.dual = np.insert(sol.dual, idx_y, costate_insert, axis=1)
             if len(sol.dual_u) == 0:
                 sol.dual_u = np.array([costate_insert])
             else:
-                sol.dual_u = np.insert(sol.dual_u, -1, costate_insert, axis=1)
+                sol.dual_u = np.vstack((sol.dual_u, costate_insert))
 
             idx_u_list.append(idx_u)
 
-- 
2.43.0


From a8dceaad6dbe841a78dda2a72ab028706de0131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:20 +0000
Subject: [PATCH 02/32] fix: shooting judges convergence of the SciPy root
 solvers at the point they return

fsolve's residual was evaluated at the initial guess, the residual vector of root() was
compared as a scalar (ValueError) and COBYLA results carry no iteration count.
---
 beluga/numeric/bvp_solvers/Shooting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 2d1eb2b..cb73fa3 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -682,21 +682,21 @@ class Shooting(BaseAlgorithm):
 
             err = opt.fun
             x_init = opt.x
-            n_iter = opt.nit
+            n_iter = opt.get('nit', -1)
             converged = opt.success and isclose(err, 0, abs_tol=self.tolerance)
 
         elif self.algorithm in scipy_root_algorithms:
             opt = root(_constraint_function_wrapper, x_init, jac=_jacobian_function_wrapper, method=self.algorithm,
                        tol=self.tolerance, options={'maxiter': self.max_iterations})
-            err = opt.fun
+            err = np.linalg.norm(opt.fun)
             x_init = opt.x
             n_iter = -1
-            converged = opt.success
+            converged = opt.success and err <= self.tolerance
 
         elif self.algorithm.lower() == 'fsolve':
             x = fsolve(_constraint_function_wrapper, x_init, fprime=_jacobian_function_wrapper, xtol=self.tolerance)
-            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
             x_init = x
+            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
             n_iter = -1
             converged = isclose(err, 0, abs_tol=self.tolerance)
 
-- 
2.43.0


From 42459b11e1fc39271bde99da57ebb305f860416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:30 +0000
Subject: [PATCH 03/32] fix: parallel shooting passes the propagator the same
 arguments as serial shooting

The control values were passed as an extra positional argument, so every solve with more
than one CPU raised a TypeError.
---
 beluga/numeric/bvp_solvers/Shooting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index cb73fa3..c119085 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -284,13 +284,13 @@ class Shooting(BaseAlgorithm):
             u0g[ii] = _u0g
 
         def preload(args):
-            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2], args[3],
+            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2],
                         dyn_param, sol.const)
 
         if pool is not None:
-            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g, u0g))
+            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g))
         else:
-            gamma_set_new = [preload([T, Y, Q, U]) for T, Y, Q, U in zip(tspan, y0g, q0g, u0g)]
+            gamma_set_new = [preload([T, Y, Q]) for T, Y, Q in zip(tspan, y0g, q0g)]
 
         if n_arcs > 1 and nquads > 0:
             for ii in range(n_arcs - 1):
-- 
2.43.0


From 5c1c0d18aa50ff01b8932e93a922dd936cd32c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:47 +0000
Subject: [PATCH 04/32] fix: quick quadrature reconstruction calls the
 quadrature with the propagator's signature

Propagator(quick_reconstruct=True) handed a quadrature of (y, ...) to integrate_quads,
which calls it as (t, y, ...), and raised.
---
 beluga/numeric/ivp_solvers/ivpsol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 4f2ddfa..4567417 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -96,7 +96,7 @@ class Propagator(Algorithm):
 
         if quad_func is not None and len(q0) != 0:
             if self.quick_reconstruct:
-                qf = integrate_quads(quad_func, tspan, gamma, *args)
+                qf = integrate_quads(lambda t, _y, *_args: quad_func(_y, *_args), tspan, gamma, *args)
                 gamma.q = np.vstack((q0, np.zeros((len(gamma.t)-2, len(q0))), qf+q0))
             else:
                 gamma = reconstruct(quad_func, gamma, q0, *args)
-- 
2.43.0


From 80ed7a80fa317b301eaf549ce4b8f6b229641ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:04 +0000
Subject: [PATCH 05/32] fix: tables convert their data without the removed
 np.float alias

np.float does not exist in the NumPy versions this package runs on, so declaring a table raised.
---
 beluga/symbolic/data_classes/components_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 334a772..a6e3bd8 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -234,8 +234,8 @@ class TableStruct(CallableStruct):
                  dim_consistent=False, local_compiler=None):
 
         self.table_type = table_type
-        self.data = np.array(data, dtype=np.float)
-        self.arg_data = np.array(arg_data, dtype=np.float)
+        self.data = np.array(data, dtype=float)
+        self.arg_data = np.array(arg_data, dtype=float)
         self.dim_consistent = dim_consistent
 
         # TODO Add checks for size of data, arg_data consistent with type
-- 
2.43.0


From bef23f7e8a0444907e5a449362983947531495c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:04 +0000
Subject: [PATCH 06/32] fix: tables never index outside their data

At and beyond the last node the compiled lookup read past the end of the node and
coefficient arrays, and before the first node it used the last interval's cubic.
---
 beluga/symbolic/special_functions/tables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 80d69c7..12fa129 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -102,10 +102,11 @@ class TableSpline1D(object):
     def form_eval_function(self, order):
         data_x = self.data_x
         coeff_set = self.coeff
+        last = len(data_x) - 1
 
         if order == 0:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -113,7 +114,7 @@ class TableSpline1D(object):
 
         elif order == 1:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -121,7 +122,7 @@ class TableSpline1D(object):
 
         elif order == 2:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -129,7 +130,7 @@ class TableSpline1D(object):
 
         elif order == 3:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 return 6*(coeff[0] - coeff[1])
 
-- 
2.43.0


From 8c62250b7e133ecf70c24876c2cf95c21b474b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:31 +0000
Subject: [PATCH 07/32] fix: numerical derivatives of functions of several
 arguments

The fallback of both generators called a non-existing logging function, so every function
of two or more arguments (and every higher-order complex step) raised; the complex-step
formulas for several arguments passed a tuple as the only argument.
---
 .../numerical_derivatives/complex_step.py     | 74 +++++++------------
 .../numerical_derivatives/finite_diff.py      |  8 +-
 2 files changed, 30 insertions(+), 52 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 7a8191f..a37d838 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -1,7 +1,7 @@
 import numpy as np
 import beluga.numeric.numerical_derivatives.finite_diff
 import math
-from numba import njit, float64, complex128, types, errors
+from numba import njit, float64, complex128, errors
 from numba.core.registry import CPUDispatcher
 import logging
 import inspect
@@ -10,13 +10,13 @@ import inspect
 def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     if max(deriv_order) > 2:
-        logging.beluga('Complex-step derivative not supported for order > 2.'
-                       ' Falling back to finite difference for {}'.format(func.__name__))
+        logging.debug('Complex-step derivative not supported for order > 2.'
+                      ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
 
     if len(np.nonzero(deriv_order)[0]) > 1:
-        logging.beluga('Complex-step derivative not supported for multivariate derivatives.'
-                       ' Falling back to finite difference for {}'.format(func.__name__))
+        logging.debug('Complex-step derivative not supported for multivariate derivatives.'
+                      ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
     else:
         arg_idx = np.nonzero(deriv_order)[0][0]
@@ -32,19 +32,21 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
     else:
         arg_type = float64
 
+    func_re = func_im = func
+
     try:
         arg_list_re = [float64] * arg_len
         arg_list_im = [complex128] * arg_len
         if type(func) is CPUDispatcher:
             func.disable_compile(False)
-            func_re = func.compile(tuple(arg_list_re))
-            func_im = func.compile(tuple(arg_list_im))
+            func.compile(tuple(arg_list_re))
+            func.compile(tuple(arg_list_im))
         else:
             func_re = njit(tuple(arg_list_re))(func)
             func_im = njit(tuple(arg_list_im))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
 
     if arg_len == 1:
         if deriv_order == 1:
@@ -67,52 +69,28 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
         try:
             csd = njit((arg_type,))(csd)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}'.format(func.__name__))
 
     else:
         arg_select = np.concatenate((np.zeros((arg_idx,), dtype=float), np.array([1.]),
                                      np.zeros((arg_len - arg_idx - 1,), dtype=float)))
 
-        try:
-            if deriv_order == 1:
-                step = 1e-50
-
-                def csd(*args):
-                    args_k = tuple(np.array(args) + step*1j*arg_select)
-                    return func_im(args_k).imag/step
-
-            else:
-                im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
-                step_re = step_size * arg_select
-                step_im = (step_size - im_step_size * 1j) * arg_select
-
-                def csd(*args):
-                    args_array = np.array(args)
-                    args_k_re = tuple(args_array + step_re, arg_len)
-                    args_k_im = tuple(args_array + step_im, arg_len)
-                    return 2 * (func_re(args_k_re) - func_im(args_k_im)).real / im_step_size ** 2
-
-            csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
-
-        except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
-
-            if deriv_order == 1:
-                step = 1e-50
-
-                def csd(*args):
-                    args_k = tuple(np.array(args) + step * 1j * arg_select, arg_len)
-                    return func_im(args_k) / step
+        if deriv_order == 1:
+            step = 1e-50
 
-            else:
-                im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
-                step_re = step_size * arg_select
-                step_im = (step_size - im_step_size * 1j) * arg_select
+            def csd(*args):
+                args_k = np.array(args) + step * 1j * arg_select
+                return func_im(*args_k).imag / step
 
-                def csd(*args):
-                    args_array = np.array(args)
-                    args_k_re = args_array + step_re
-                    args_k_im = args_array + step_im
-                    return 2 * (func_re(*args_k_re) - func_im(*args_k_im)).real / im_step_size ** 2
+        else:
+            im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
+            step_re = step_size * arg_select
+            step_im = (step_size - im_step_size * 1j) * arg_select
+
+            def csd(*args):
+                args_array = np.array(args)
+                args_k_re = args_array + step_re
+                args_k_im = args_array + step_im
+                return 2 * (func_re(*args_k_re) - func_im(*args_k_im).real) / im_step_size ** 2
 
     return csd
diff --git a/beluga/numeric/numerical_derivatives/finite_diff.py b/beluga/numeric/numerical_derivatives/finite_diff.py
index 5366358..6d679ec 100644
--- a/beluga/numeric/numerical_derivatives/finite_diff.py
+++ b/beluga/numeric/numerical_derivatives/finite_diff.py
@@ -26,12 +26,12 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
         if type(func) is CPUDispatcher:
             if complex_arg:
                 func.disable_compile(False)
-                func = func.compile(tuple(arg_list))
+                func.compile(tuple(arg_list))
         else:
             func = njit(tuple(arg_list))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
 
     step_array = []
     coeff_array = []
@@ -74,7 +74,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
         try:
             fin_diff = njit((arg_type,))(fin_diff)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}'.format(func.__name__))
 
     else:
         try:
@@ -90,7 +90,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             fin_diff = njit((types.UniTuple(arg_type, arg_len),))(fin_diff)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}'.format(func.__name__))
 
             def fin_diff(*args):
                 diff = 0.
-- 
2.43.0


From ebfb2ce9b20b8908e36c1a37949fef30d3cf6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:59 +0000
Subject: [PATCH 08/32] fix: custom functions and tables can be differentiated
 and rebuilt with any argument

Derivative names were built from the text of the argument, which is no identifier for
anything but a plain symbol (f(k*x)) and made df/dx ambiguous in f(x, x); the generated
classes could not be rebuilt by subs(), so quantities and control substitutions inside an
argument raised.
---
 .../special_functions/custom_functions.py     | 77 +++++++++----------
 beluga/symbolic/special_functions/tables.py   | 42 +++++-----
 2 files changed, 54 insertions(+), 65 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 497c351..e089d27 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -44,17 +44,13 @@ class CustomFunctionGenerator(object):
 
 
 class CustomFunctionMeta(Function):
-    def __new__(cls, base_name, base_func, arg_list):
-        obj = super(CustomFunctionMeta, cls).__new__(cls, *arg_list)
-        obj.nargs = (len(arg_list),)
-        obj.arg_list = tuple(arg_list)
-        obj.base_name = base_name
-        if type(base_func) is CPUDispatcher:
-            obj.base_func = base_func
-        else:
-            obj.base_func = jit_compile_func(base_func, arg_list)
-
-        return obj
+    # Set on the class generated for each function and derivative so that sympy can rebuild it with new arguments
+    base_name = None
+    base_func = None
+    eval_func = None
+    order = None
+    local_compiler = None
+    deriv_method = 'c_diff'
 
     def __deepcopy__(self, memodict=None):
         return self
@@ -64,11 +60,11 @@ class CustomFunctionMeta(Function):
         return True
 
     def fdiff(self, argindex=1):
-        if argindex <= self.nargs[0]:
+        if argindex <= len(self.args):
             order = list(self.order)
             order[argindex - 1] += 1
-            return CustomFunction(self.base_name, self.base_func, self.arg_list,
-                                  order=tuple(order), local_compiler=self.local_compiler)
+            return CustomFunction(self.base_name, self.base_func, self.args, order=tuple(order),
+                                  local_compiler=self.local_compiler, deriv_method=self.deriv_method)
         else:
             raise ArgumentIndexError(self, argindex)
 
@@ -79,19 +75,27 @@ class CustomFunction(Function):
         cls.check_args(arg_list, base_func)
 
         if order is None:
-            order = ([0 for _ in range(len(arg_list))])
+            order = tuple([0 for _ in range(len(arg_list))])
+
+        if type(base_func) is not CPUDispatcher:
+            base_func = jit_compile_func(base_func, ['scalar' for _ in arg_list])
+
+        name = cls.construct_name(base_name, order)
 
-        name = cls.construct_name(base_name, arg_list, order)
-        obj = type(name, (CustomFunctionMeta,), {})(name, base_func, arg_list)
         if sum(order) == 0:
-            obj.eval_func = base_func
+            eval_func = base_func
         else:
-            obj.eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.eval_func)
-        obj.order = order
-        return obj
+            eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
+
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, eval_func)
+
+        func_cls = type(name, (CustomFunctionMeta,), {
+            'nargs': (len(arg_list),), 'base_name': base_name, 'base_func': staticmethod(base_func),
+            'eval_func': staticmethod(eval_func), 'order': order, 'local_compiler': local_compiler,
+            'deriv_method': deriv_method})
+
+        return func_cls(*arg_list)
 
     @staticmethod
     def check_args(arg_list, base_func):
@@ -102,25 +106,16 @@ class CustomFunction(Function):
                               .format(base_func.__name__))
 
     @staticmethod
-    def construct_name(func_name, arg_list, order):
+    def construct_name(func_name, order):
+        """Name of a derivative: depends on the differentiated argument positions, not on what is passed there"""
         total_order = sum(order)
 
-        post = '_'
-        for arg_k, order_k in zip(arg_list, order):
-            if order_k == 0:
-                pass
-            elif order_k == 1:
-                post += 'd' + str(arg_k)
-            else:
-                post += 'd' + str(arg_k) + str(order_k)
-
         if total_order == 0:
-            pre = ''
-            post = ''
-        elif total_order == 1:
-            pre = 'd'
-        else:
-            pre = 'd' + str(total_order)
+            return func_name
 
-        return pre + func_name + post
+        post = '_'
+        for idx, order_k in enumerate(order):
+            if order_k > 0:
+                post += 'd{}_{}'.format(idx, order_k)
 
+        return 'd' + str(total_order) + func_name + post
diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 12fa129..f3892d5 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -22,13 +22,11 @@ class SymTableGenerator(object):
 
 
 class SymTableMeta(Function):
-    def __new__(cls, table, arg, local_compiler=None):
-        obj = super(SymTableMeta, cls).__new__(cls, arg)
-        obj.nargs = (1,)
-        obj.order = 0
-        obj.table = table
-        obj.local_compiler = local_compiler
-        return obj
+    # Set on the class generated for each table and derivative so that sympy can rebuild it with a new argument
+    table = None
+    table_func = None
+    order = 0
+    local_compiler = None
 
     @property
     def _diff_wrt(self):
@@ -46,27 +44,23 @@ class SymTableMeta(Function):
 
 class SymTable(SymTableMeta):
     def __new__(cls, table, arg, local_compiler=None, order=0):
-        name = cls.construct_name(str(table), str(arg), order)
-        obj = type(name, (SymTableMeta,), {})(table, arg, local_compiler=local_compiler)
-        obj.table_func = table.form_eval_function(order)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.table_func)
-        obj.order = order
-        return obj
+        name = cls.construct_name(str(table), order)
+        table_func = table.form_eval_function(order)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, table_func)
+
+        table_cls = type(name, (SymTableMeta,), {
+            'nargs': (1,), 'table': table, 'table_func': staticmethod(table_func), 'order': order,
+            'local_compiler': local_compiler})
+
+        return table_cls(arg)
 
     @staticmethod
-    def construct_name(table_name, arg_name, order):
+    def construct_name(table_name, order):
         if order == 0:
-            pre = ''
-            post = ''
-        elif order == 1:
-            pre = 'd'
-            post = '_d' + arg_name
+            return table_name
         else:
-            pre = 'd' + str(order)
-            post = '_d' + arg_name + str(order)
-        return pre + table_name + post
+            return 'd' + str(order) + table_name
 
 
 class TableSpline1D(object):
-- 
2.43.0


From e966af25e2c45d2361afd4815fd261768d7dddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:28 +0000
Subject: [PATCH 09/32] fix: a continuation step that was bisected starts again
 with the requested number of cases

---
 beluga/continuation/continuation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 429d8b7..ec9cf1b 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -176,6 +176,7 @@ class ManualStrategy(ContinuationStrategy):
     def reset(self):
         """Resets the internal step counter to zero"""
         self.ctr = 0
+        self._num_cases = self.orig_num_cases
         self.last_sol = None
 
     def clear(self):
-- 
2.43.0


From 2db24c6e55b49e46fc89e274707293ddb0f78007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:28 +0000
Subject: [PATCH 10/32] fix: product continuation steps plan afresh each time
 they are started

---
 beluga/continuation/continuation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index ec9cf1b..9fb95fc 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -347,6 +347,7 @@ class ProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
 
         ls_set = [np.linspace(self.vars[var_name].value, self.vars[var_name].target,
                               self._num_subdivisions) for var_name in self.vars.keys()]
@@ -438,6 +439,7 @@ class SparseProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
             lower_bounds.append(sol.const[jj])
             upper_bounds.append(self.vars[var_name].target)
 
-- 
2.43.0


From 4f0b1cac5c6e08f9f302cd85dba67dd1c8f2e2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:24 +0000
Subject: [PATCH 11/32] fix: adjoints of free parameters evolve in the same
 normalised time as the states

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 2887a2b..5d82676 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -698,7 +698,7 @@ class NormalizeTime(GenericFunctor):
                                         local_compiler=prob.local_compiler).sympify_self()
         prob.parameters.append(delta_t)
 
-        _dynamic_structs = [prob.states, prob.costates]
+        _dynamic_structs = [prob.states, prob.costates, prob.coparameters]
 
         for state in combine_component_lists(_dynamic_structs):
             state.eom = state.eom * delta_t.sym
-- 
2.43.0


From a55453f350bcb1fb48905f8b6c48dd4056691f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:28 +0000
Subject: [PATCH 12/32] fix: fixed-step propagation works backwards in time

---
 beluga/numeric/ivp_solvers/ivpsol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 4567417..c58fc64 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -84,7 +84,7 @@ class Propagator(Algorithm):
                 int_sol = solve_ivp(lambda t, _y: eom_func(_y, *args), [tspan[0], tspan[-1]], y0,
                                     rtol=self.reltol, atol=self.abstol, max_step=self.maxstep, method=self.stepper)
             else:
-                T = np.arange(tspan[0], tspan[-1], self.maxstep)
+                T = np.arange(tspan[0], tspan[-1], np.copysign(self.maxstep, tspan[-1] - tspan[0]))
                 if T[-1] != tspan[-1]:
                     T = np.hstack((T, tspan[-1]))
                 int_sol = solve_ivp(lambda t, _y: eom_func(_y, *args), [tspan[0], tspan[-1]], y0,
-- 
2.43.0


From 6665f160936e6f857868d2313a0db85073a57f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:28 +0000
Subject: [PATCH 13/32] fix: the Radau stepper can be selected by its SciPy
 name

---
 beluga/numeric/ivp_solvers/ivpsol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index c58fc64..c67fa2b 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -60,7 +60,7 @@ class Propagator(Algorithm):
         obj.program = kwargs.get('program', 'scipy').lower()
         obj.method = kwargs.get('method', 'RKMK').upper()
         obj.quick_reconstruct = kwargs.get('quick_reconstruct', False)
-        obj.stepper = kwargs.get('stepper', 'RK45').upper()
+        obj.stepper = kwargs.get('stepper', 'RK45').upper().replace('RADAU', 'Radau')
         obj.variable_step = kwargs.get('variable_step', True)
         return obj
 
-- 
2.43.0


From c5be8a1aa9333641959aa32eab434b58483f8e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:51 +0000
Subject: [PATCH 14/32] fix: collocation accepts boundary Jacobians of problems
 without parameters

---
 beluga/numeric/bvp_solvers/SPBVP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index 6a982a3..93f7efc 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -95,6 +95,8 @@ class SPBVP(BaseAlgorithm):
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
                     dbc_dya, dbc_dyb, dbc_dp = \
                         self.boundarycondition_function_jac(ya, yb, params[:ndyn], params[ndyn:ndyn+nnondyn], const)
+                    if ndyn + nnondyn == 0:
+                        return dbc_dya, dbc_dyb
                     return dbc_dya, dbc_dyb, dbc_dp
         else:
             _bc_jac = None
-- 
2.43.0


From 299e8635b535d45693e4bf28ca8ea891c04bbbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:51 +0000
Subject: [PATCH 15/32] fix: collocation uses boundary Jacobians of problems
 with quadratures

---
 beluga/numeric/bvp_solvers/SPBVP.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index 93f7efc..f0101be 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -63,7 +63,8 @@ class SPBVP(BaseAlgorithm):
                                                        yb[nstates:nstates+nquads], params[:ndyn],
                                                        params[ndyn:ndyn+nnondyn], const)
 
-        if self.derivative_function_jac is not None:
+        # The Jacobian of the quadrature rates is not available, so it is left to the solver when there are quadratures
+        if self.derivative_function_jac is not None and nquads == 0:
             def _fun_jac(t, y, params=np.array([]), const=solinit.const):
                 y = y.T
                 df_dy = np.zeros((y[0].size, y[0].size, t.size))
@@ -86,10 +87,13 @@ class SPBVP(BaseAlgorithm):
         if self.boundarycondition_function_jac is not None:
             if nquads > 0:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
-                    dbc_dya, dbc_dyb, dbc_dp = \
+                    dbc_dya, dbc_dyb, dbc_dp, dbc_dqa, dbc_dqb = \
                         self.boundarycondition_function_jac(ya[:nstates], ya[nstates:nstates+nquads], yb[:nstates],
                                                             yb[nstates:nstates+nquads], params[:ndyn],
                                                             params[ndyn:ndyn+nnondyn], const)
+                    dbc_dya, dbc_dyb = np.hstack((dbc_dya, dbc_dqa)), np.hstack((dbc_dyb, dbc_dqb))
+                    if ndyn + nnondyn == 0:
+                        return dbc_dya, dbc_dyb
                     return dbc_dya, dbc_dyb, dbc_dp
             else:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
-- 
2.43.0


From 93ef2a7e9f7c158a09a9525d05dd5b73a5fd585c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:08:11 +0000
Subject: [PATCH 16/32] fix: symmetry reduction substitutes in algebraic
 control laws

---
 beluga/symbolic/data_classes/mapping_functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 5d82676..3ed7d78 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -597,11 +597,11 @@ class MishchenkoFomenko(GenericFunctor):
             bc.expr, _ = recursive_sub(bc.expr, solve_for_q[0])
 
         for idx, law in enumerate(prob.control_law):
-            for jj, symbol in enumerate(law.keys()):
-                prob.control_law[idx][symbol], _ = recursive_sub(prob.sympify(law[symbol]), solve_for_p[0])
-                # prob.control_law[idx][symbol] = law[symbol]
-                prob.control_law[idx][symbol], _ = recursive_sub(prob.sympify(law[symbol]), solve_for_q[0])
-                # prob.control_law[idx][symbol] = law[symbol]
+            law = [recursive_sub(control, solve_for_p[0])[0] for control in law]
+            prob.control_law[idx] = tuple(recursive_sub(control, solve_for_q[0])[0] for control in law)
+
+        prob.hamiltonian.expr, _ = recursive_sub(prob.hamiltonian.expr, solve_for_p[0])
+        prob.hamiltonian.expr, _ = recursive_sub(prob.hamiltonian.expr, solve_for_q[0])
 
         for idx, com in enumerate(prob.constants_of_motion):
             if idx != self.com_index:
-- 
2.43.0


From c97f055a08f371588076114669c2b5ff9cf1ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:43 +0000
Subject: [PATCH 17/32] fix: units that name a reduced state are expressed by
 its quadrature

---
 beluga/symbolic/data_classes/mapping_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 3ed7d78..7d42fc7 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -603,6 +603,10 @@ class MishchenkoFomenko(GenericFunctor):
         prob.hamiltonian.expr, _ = recursive_sub(prob.hamiltonian.expr, solve_for_p[0])
         prob.hamiltonian.expr, _ = recursive_sub(prob.hamiltonian.expr, solve_for_q[0])
 
+        # Units are scaled by magnitudes
+        for unit in prob.units:
+            unit.expr = unit.expr.subs(replace_q, sympy.Abs(solve_for_q[0][replace_q]))
+
         for idx, com in enumerate(prob.constants_of_motion):
             if idx != self.com_index:
                 com.expr, _ = recursive_sub(com.expr, solve_for_p[0])
-- 
2.43.0


From f449ba69e56154acb94831f6d11e7faf291fbe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:43 +0000
Subject: [PATCH 18/32] fix: time is no symmetry of a path cost that depends on
 it

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 7d42fc7..0059c26 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -166,7 +166,7 @@ class MomentumShift(GenericFunctor):
         for symmetry in prob.symmetries:
             symmetry.field = np.append(symmetry.field, sympy.Integer(0))
 
-        independent_symmetry = True
+        independent_symmetry = prob.cost.path.diff(new_state.sym) == 0
         for state in prob.states:
             if state.eom.diff(new_state.sym) != 0:
                 independent_symmetry = False
-- 
2.43.0


From aebc5874258c01f6218b2431890e12175049cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:37 +0000
Subject: [PATCH 19/32] fix: expressions with custom functions and tables can
 be loaded from a file

---
 beluga/symbolic/special_functions/custom_functions.py | 5 +++++
 beluga/symbolic/special_functions/tables.py           | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index e089d27..daa89fc 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -55,6 +55,11 @@ class CustomFunctionMeta(Function):
     def __deepcopy__(self, memodict=None):
         return self
 
+    def __reduce_ex__(self, protocol):
+        # The generated class is rebuilt where the expression is loaded
+        return CustomFunction, (self.base_name, self.base_func, self.args, self.local_compiler, self.order,
+                                self.deriv_method)
+
     @property
     def _diff_wrt(self):
         return True
diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index f3892d5..b0648b9 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -41,6 +41,10 @@ class SymTableMeta(Function):
     def __deepcopy__(self, memodict=None):
         return self
 
+    def __reduce_ex__(self, protocol):
+        # The generated class is rebuilt where the expression is loaded
+        return SymTable, (self.table, self.args[0], self.local_compiler, self.order)
+
 
 class SymTable(SymTableMeta):
     def __new__(cls, table, arg, local_compiler=None, order=0):
-- 
2.43.0


From 684bb8080fae4087c67868e2ebad8f62ed65ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:37 +0000
Subject: [PATCH 20/32] fix: a static guess is copied before it is mapped

---
 beluga/continuation/guess_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 25b1139..a4a1ae8 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -69,7 +69,7 @@ class GuessGenerator(object):
 
     def static(self, bvp_fn, solinit, ocp_map, ocp_map_inverse):
         """Directly specify initial guess structure"""
-        return ocp_map(self.solinit)
+        return ocp_map(copy.deepcopy(self.solinit))
 
     def setup_auto(self, start=None, direction='forward', time_integrate=1, quad_guess=np.array([]), costate_guess=0.1,
                    control_guess=0.1, use_control_guess=False, param_guess=None):
-- 
2.43.0


From f279fb8135d5b7592300f91589612c14dff3faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:16 +0000
Subject: [PATCH 21/32] fix: parallel shooting hands its arcs to other
 processes without whole modules

---
 beluga/numeric/bvp_solvers/Shooting.py | 10 ++++++++--
 beluga/utils/storage.py                |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index c119085..de914e0 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -1,6 +1,7 @@
 import beluga
 import cloudpickle as pickle
 import copy
+from functools import partial
 import logging
 from math import isclose
 import numpy as np
@@ -9,6 +10,7 @@ from beluga.numeric.bvp_solvers import BaseAlgorithm, BVPResult
 from beluga.numeric.ivp_solvers import Propagator, reconstruct
 from beluga.numeric.data_classes.Trajectory import Trajectory
 from beluga.utils.logging import logger
+from beluga.utils.storage import call_pickled
 from scipy.sparse import coo_matrix, csc_matrix
 from scipy.sparse.linalg import splu
 from scipy.optimize._slsqp_py import approx_jacobian # TODO: Technically a non public function from scipy. Remove reliance on it.
@@ -283,12 +285,16 @@ class Shooting(BaseAlgorithm):
             q0g[ii] = _q0g
             u0g[ii] = _u0g
 
+        const = sol.const
+
         def preload(args):
             return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2],
-                        dyn_param, sol.const)
+                        dyn_param, const)
 
         if pool is not None:
-            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g))
+            # The pool's own serializer would send whole modules along with every trajectory
+            worker = partial(call_pickled, pickle.dumps(preload))
+            gamma_set_new = [pickle.loads(gamma) for gamma in pool.map(worker, zip(tspan, y0g, q0g))]
         else:
             gamma_set_new = [preload([T, Y, Q]) for T, Y, Q in zip(tspan, y0g, q0g)]
 
diff --git a/beluga/utils/storage.py b/beluga/utils/storage.py
index f71d169..2be875b 100644
--- a/beluga/utils/storage.py
+++ b/beluga/utils/storage.py
@@ -25,3 +25,6 @@ def load(filename):
     return save_dict
 
 
+def call_pickled(func, *args):
+    """Calls a pickled function and pickles what it returns. Used to hand work to other processes."""
+    return pickle.dumps(pickle.loads(func)(*args))
-- 
2.43.0


From bf9cd80160b1ad53c3b18d902ed1fad85eee8ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:31 +0000
Subject: [PATCH 22/32] fix: total derivatives with dependent variables

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 72b5fc2..828679a 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -109,7 +109,7 @@ def total_derivative(expr, var, dependent_vars=None):
     dep_var_names = dependent_vars.keys()
     dep_var_expr = [expr for (_, expr) in dependent_vars.items()]
 
-    dfdq = [expr.diff(dep_var).subs_self(dependent_vars.items()) for dep_var in dep_var_names]
+    dfdq = [expr.diff(dep_var).subs(dependent_vars) for dep_var in dep_var_names]
     dqdx = [qexpr.diff(var) for qexpr in dep_var_expr]
     out = sum(d1 * d2 for d1, d2 in zip(dfdq, dqdx)) + sympy.diff(expr, var)
     return out
-- 
2.43.0


From 03108110e31865ef50c1195c7093e6c3b3ad94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:45 +0000
Subject: [PATCH 23/32] fix: the symmetry of a quantity that depends on the
 states alone

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 828679a..7201dc7 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -196,7 +196,7 @@ def noether(prob, quantity):
         g = pb(None, quantity, prob)
         nonz = np.nonzero(g)
         if len(nonz) == 1:
-            unit = prob.states[nonz[0][0]].units
+            unit = (prob.states + prob.costates)[nonz[0][0]].units
         else:
             raise NotImplementedError
 
-- 
2.43.0


From cfff7ad5775ad19b01907f3ec583740a63fc6f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:56 +0000
Subject: [PATCH 24/32] fix: control adjoints of an earlier solve do not block
 the next one

---
 beluga/numeric/data_classes/trajectory_mappers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 8fe69c5..74e7505 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -251,6 +251,7 @@ class DifferentialControlMapperDiffyG(SolMapper):
 
     def map(self, sol: Solution, control_costate: Union[float, np.ndarray] = 0.) -> Solution:
         idx_u_list = []
+        dual_u = []
 
         for idx_u, (idx_y, u) in enumerate(sorted(zip(self.control_idxs, sol.u.T))):
             sol.y = np.insert(sol.y, idx_y, u, axis=1)
@@ -263,13 +264,11 @@ class DifferentialControlMapperDiffyG(SolMapper):
                 costate_insert = control_costate * np.ones_like(sol.t)
 
             sol.dual = np.insert(sol.dual, idx_y, costate_insert, axis=1)
-            if len(sol.dual_u) == 0:
-                sol.dual_u = np.array([costate_insert])
-            else:
-                sol.dual_u = np.vstack((sol.dual_u, costate_insert))
+            dual_u.append(costate_insert)
 
             idx_u_list.append(idx_u)
 
+        sol.dual_u = np.array(dual_u)
         sol.u = np.delete(sol.u, idx_u_list, axis=1)
         return sol
 
-- 
2.43.0


From 0e913cf96182b369d844dfc9a16207e614bb698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:11 +0000
Subject: [PATCH 25/32] fix: problems with free parameters can be solved end to
 end

---
 beluga/numeric/data_classes/trajectory_mappers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 74e7505..e1e0d64 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -355,11 +355,20 @@ class SquashToBVPMapper(SolMapper):
         if len(sol.dual) > 0:
             sol.y = np.concatenate((sol.y, sol.dual), axis=1)
 
+        # The adjoints of the parameters are quadratures of the BVP that trajectories of the OCP do not carry
+        num_quads, num_all = self.coparameter_idxs.start, self.coparameter_idxs.stop
+        if num_all > num_quads:
+            quads = np.reshape(sol.q, (len(sol.t), -1)) if np.size(sol.q) > 0 else np.empty((len(sol.t), 0))
+            if quads.shape[1] == num_quads:
+                sol.q = np.column_stack((quads, np.zeros((len(sol.t), num_all - num_quads))))
+
         return sol
 
     def inv_map(self, sol: Solution) -> Solution:
         sol.dual = sol.y[:, self.costate_idxs]
         sol.y = np.delete(sol.y, self.costate_idxs, axis=1)
+        if np.size(sol.q) > 0:
+            sol.q = np.delete(sol.q, self.coparameter_idxs, axis=1)
         sol.nondynamical_parameters = np.delete(sol.nondynamical_parameters, self.constraint_adjoints_idxs)
 
         return sol
-- 
2.43.0


From 9baf0a39a893ff40b1feb9c2101a5317038e7038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:22 +0000
Subject: [PATCH 26/32] fix: a missing activator is named in the error

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 0059c26..3caa259 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -261,7 +261,7 @@ class UTM(GenericFunctor):
                 activator_units = constant.units
 
         if activator_units is None:
-            raise Exception('Activator \'' + str(constraint['activator']) + '\' not found in constants.')
+            raise Exception('Activator \'' + str(constraint.activator) + '\' not found in constants.')
 
         expr, activator, upper, lower = constraint.expr, constraint.activator, constraint.upper, constraint.lower
 
-- 
2.43.0


From ec280bfc4d46dc9458f32f19271cd8782db53a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:22 +0000
Subject: [PATCH 27/32] fix: continuation recognises every falsy convergence
 flag

---
 beluga/continuation/continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 9fb95fc..bea9f50 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -97,7 +97,7 @@ class ContinuationStrategy(abc.ABC):
     def get_closest_gamma(self, const):
         norms = []
         for traj in self.gammas:
-            if traj.converged is False:
+            if not traj.converged:
                 norms.append(9e99)
             else:
                 norms.append(gamma_norm(traj.const, const))
-- 
2.43.0


From c71d10e7bd79bafcfdf1ee3e37e68733e9bf798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:01 +0000
Subject: [PATCH 28/32] fix: normalising time scales the rates of stated
 quadratures

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 3caa259..c7d6636 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -702,7 +702,7 @@ class NormalizeTime(GenericFunctor):
                                         local_compiler=prob.local_compiler).sympify_self()
         prob.parameters.append(delta_t)
 
-        _dynamic_structs = [prob.states, prob.costates, prob.coparameters]
+        _dynamic_structs = [prob.states, prob.costates, prob.coparameters, prob.quads]
 
         for state in combine_component_lists(_dynamic_structs):
             state.eom = state.eom * delta_t.sym
-- 
2.43.0


From 997438bd166e26f396942d367a52d59db058d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:13 +0000
Subject: [PATCH 29/32] fix: analytical Jacobians of problems without free
 parameters

---
 beluga/symbolic/data_classes/mapping_functions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index c7d6636..e86c475 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -739,8 +739,10 @@ class ComputeAnalyticalJacobians(GenericFunctor):
     def transformation(self, prob: Problem) -> Problem:
 
         states = sympy.Matrix(extract_syms(prob.states))
-        dynamic_parameters = sympy.Matrix(extract_syms(prob.parameters))
-        parameters = sympy.Matrix(extract_syms(prob.parameters) + extract_syms(prob.constraint_parameters))
+        dynamic_parameters = extract_syms(prob.parameters)
+        dynamic_parameters = sympy.Matrix(1, len(dynamic_parameters), dynamic_parameters)
+        parameters = extract_syms(prob.parameters) + extract_syms(prob.constraint_parameters)
+        parameters = sympy.Matrix(1, len(parameters), parameters)
         quads = sympy.Matrix(extract_syms(prob.quads))
         eom = sympy.Matrix(getattr_from_list(prob.states, 'eom'))
         phi_0 = sympy.Matrix(getattr_from_list(prob.constraints['initial'], 'expr'))
@@ -750,10 +752,9 @@ class ComputeAnalyticalJacobians(GenericFunctor):
         prob.bc_jac['initial']['dbc_dy'] = phi_0.jacobian(states)
         prob.bc_jac['terminal']['dbc_dy'] = phi_f.jacobian(states)
 
-        if len(parameters) > 0:
-            prob.func_jac.update({'df_dp': eom.jacobian(dynamic_parameters)})
-            prob.bc_jac['initial']['dbc_dp'] = phi_0.jacobian(parameters)
-            prob.bc_jac['terminal']['dbc_dp'] = phi_f.jacobian(parameters)
+        prob.func_jac.update({'df_dp': eom.jacobian(dynamic_parameters)})
+        prob.bc_jac['initial']['dbc_dp'] = phi_0.jacobian(parameters)
+        prob.bc_jac['terminal']['dbc_dp'] = phi_f.jacobian(parameters)
 
         if len(quads) > 0:
             prob.bc_jac['initial']['dbc_dq'] = phi_0.jacobian(quads)
-- 
2.43.0


From 13d57b179d5b8250a9827c37c5e89ed9b54bc6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:00 +0000
Subject: [PATCH 30/32] fix: static guesses may hold whole numbers

The maps insert times, controls and adjoints into the arrays of the guess; into arrays of integers they were truncated.
---
 beluga/continuation/guess_generators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index a4a1ae8..231155a 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -69,7 +69,14 @@ class GuessGenerator(object):
 
     def static(self, bvp_fn, solinit, ocp_map, ocp_map_inverse):
         """Directly specify initial guess structure"""
-        return ocp_map(copy.deepcopy(self.solinit))
+        sol = copy.deepcopy(self.solinit)
+
+        # Arrays of integers would truncate what the maps insert into them
+        for attr in ['t', 'dual_t', 'y', 'dual', 'q', 'u', 'dual_u', 'dynamical_parameters', 'nondynamical_parameters',
+                     'const']:
+            setattr(sol, attr, np.array(getattr(sol, attr), dtype=beluga.DTYPE))
+
+        return ocp_map(sol)
 
     def setup_auto(self, start=None, direction='forward', time_integrate=1, quad_guess=np.array([]), costate_guess=0.1,
                    control_guess=0.1, use_control_guess=False, param_guess=None):
-- 
2.43.0


From 25f3bab051b12543dad75750fb87e20e2b871ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:23 +0000
Subject: [PATCH 31/32] fix: messages at the display level are displayed
 without a log file too

init_logging took the smaller of the two levels for the logger. With the default file level NOTSET that
left the logger itself at NOTSET, so its effective level came from the root logger (WARNING): messages
between the display level and WARNING were dropped.
---
 beluga/utils/logging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beluga/utils/logging.py b/beluga/utils/logging.py
index 73e4840..3416ef3 100644
--- a/beluga/utils/logging.py
+++ b/beluga/utils/logging.py
@@ -10,10 +10,11 @@ def root():
 
 def init_logging(display_level=logging.INFO, file_level=logging.NOTSET, filename='beluga.log'):
 
-    logging_level = min(display_level, file_level)
+    # Without a file only the display counts; a logger left at NOTSET would take its level from the root logger instead
+    logging_level = display_level if file_level == logging.NOTSET else min(display_level, file_level)
 
     beluga_logger = logging.getLogger('beluga')
-    beluga_logger.setLevel(logging_level)
+    beluga_logger.setLevel(max(logging_level, logging.NOTSET + 1))
     beluga_logger.propagate = False
     beluga_logger.display_level_ = display_level
 
-- 
2.43.0


From 7290a2a2ad49ebc3000fdfbb40c935a076477942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 32/32] fix: fixed steps that fit the span end at its end

np.arange lands a rounding error beyond the end of spans such as [1, 1.3] with steps of 0.1, which
solve_ivp refuses, or just short of it, which left a sliver of a step.
---
 beluga/numeric/ivp_solvers/ivpsol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index c67fa2b..8b663f5 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -85,8 +85,8 @@ class Propagator(Algorithm):
                                     rtol=self.reltol, atol=self.abstol, max_step=self.maxstep, method=self.stepper)
             else:
                 T = np.arange(tspan[0], tspan[-1], np.copysign(self.maxstep, tspan[-1] - tspan[0]))
-                if T[-1] != tspan[-1]:
-                    T = np.hstack((T, tspan[-1]))
+                # np.arange may land a rounding error short of the end of the span, or beyond it
+                T = np.hstack((T[:1], T[1:][np.abs(tspan[-1] - T[1:]) > 1e-10 * self.maxstep], tspan[-1]))
                 int_sol = solve_ivp(lambda t, _y: eom_func(_y, *args), [tspan[0], tspan[-1]], y0,
                                     rtol=self.reltol, atol=self.abstol, method=self.stepper, t_eval=T)
             gamma = Trajectory(int_sol.t, int_sol.y.T)
-- 
2.43.0

