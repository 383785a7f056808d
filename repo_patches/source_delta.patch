From 0001976a8e03cd19e94a298e9caf27cdb0272ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 01/40] fix: hand the full Hessian of the free parameters to
 the minimizer

Indexing with out[mask, mask] selects only the diagonal, so trust-constr
received a 1 x n array instead of the n x n Hessian.
---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index ba79f6a..1ecd37e 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -187,7 +187,7 @@ class HessianMinimizer(GradientMinimizer):
             # Make two dimensional, corresponding to a scalar function.
             out = np.atleast_2d(np.squeeze(out))
             mask = [p not in self._fixed_params for p in self.parameters]
-            return np.atleast_2d(out[mask, mask])
+            return np.atleast_2d(out[np.ix_(mask, mask)])
         return resized
 
 
-- 
2.43.0


From 0a364f96b8556989f2577a6cfcbe7642031ad770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 02/40] fix: give every trust-constr constraint its own Hessian

The lambda closed over the loop variable, so with several constraints all of
them used the Hessian of the last one.
---
 symfit/core/minimizers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 1ecd37e..b414d35 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -588,7 +588,10 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             }
             # If None is given to NonlinearConstraint it'll throw a hissy fit.
             if con['hess'] is not None:
-                nonlinearconstr_kwargs['hess'] = lambda x, v: con['hess'](x) * v
+                # Bind the current hess, con refers to the last constraint
+                # by the time this gets called.
+                nonlinearconstr_kwargs['hess'] = \
+                    lambda x, v, hess=con['hess']: hess(x) * v
             if con['jac'] is not None:
                 nonlinearconstr_kwargs['jac'] = con['jac']
             tc_con = NonlinearConstraint(**nonlinearconstr_kwargs)
-- 
2.43.0


From df0ea86cd893fbef0ccd341e19035ab90fc195a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 03/40] fix: pass only free parameters between chained
 minimizers

The values of fixed parameters were part of the initial guess of the next
minimizer, which therefore had the wrong length or values.
---
 symfit/core/minimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index b414d35..0d75fe5 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -261,7 +261,8 @@ class ChainedMinimizer(BaseMinimizer):
         for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):
             minimizer.initial_guesses = next_guess
             ans = minimizer.execute(**kwargs)
-            next_guess = list(ans.params.values())
+            # Only the free parameters are guesses, just as in `initial_guesses`
+            next_guess = [ans.value(p) for p in self.params]
             answers.append(ans)
         final = answers[-1]
         # TODO: Compile all previous results in one, instead of just the
-- 
2.43.0


From dceb2047f0323a7c8aa142fad217b07e5038dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 04/40] fix: allow chaining of minimizers which do not count
 iterations

MINPACK reports no number of iterations, so a chain containing it raised a
TypeError after all the minimizers were done.
---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 0d75fe5..b00c280 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -268,7 +268,9 @@ class ChainedMinimizer(BaseMinimizer):
         # TODO: Compile all previous results in one, instead of just the
         # number of function evaluations. But there's some code down the
         # line that expects scalars.
-        final.minimizer_output['nit'] = sum(ans.iterations for ans in answers)
+        final.minimizer_output['nit'] = sum(
+            ans.iterations for ans in answers if ans.iterations is not None
+        )
         return final
 
     def _make_signature(self):
-- 
2.43.0


From 8a9f005a2a20db310869b5d4c205b0c276066943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 05/40] fix: LeastSquares with flatten_components=False

Dividing the list of components by two raised a TypeError.
---
 symfit/core/objectives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 89255d6..a3bbbc9 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -317,8 +317,10 @@ class LeastSquares(HessianObjective):
                 chi2[index] += np.sum(
                     (dep_var_value - dep_data) ** 2 / sigma ** 2
                 )
-        chi2 = np.sum(chi2) if flatten_components else chi2
-        return chi2 / 2
+        if flatten_components:
+            return np.sum(chi2) / 2
+        else:
+            return [component / 2 for component in chi2]
 
     def eval_jacobian(self, ordered_parameters=[], **parameters):
         """
-- 
2.43.0


From 919ca3c656d4622cd29c13e72a7eefd61bddd405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 06/40] fix: compare the number of components of models by
 value

Identity of ints is only guaranteed for small ones, so models with more than
256 components were never equal.
---
 symfit/core/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index dbbe855..223cd4d 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -287,7 +287,7 @@ class BaseModel(Mapping):
         :param other: Instance of ``Model``.
         :return: bool
         """
-        if len(self) is not len(other):
+        if len(self) != len(other):
             return False
         else:
             for var_1, var_2 in zip(self, other):
-- 
2.43.0


From 588784a7d02952acd0e01f68c3e4762b8dfddd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 07/40] fix: negation of numerical models

---
 symfit/core/models.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 223cd4d..12ecbc6 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -617,10 +617,16 @@ class BaseNumericalModel(BaseModel):
         :return: new model with opposite sign. Does not change the model in-place,
             but returns a new copy.
         """
-        new_model_dict = {}
-        for key, callable_expr in self.model_dict.values():
-            new_model_dict[key] = lambda *args, **kwargs: - callable_expr(*args, **kwargs)
-        return self.__class__(new_model_dict)
+        def negative(component):
+            if isinstance(component, sympy.Basic):
+                return - component
+            return lambda *args, **kwargs: - component(*args, **kwargs)
+
+        new_model_dict = self.model_dict.copy()
+        for var in self.dependent_vars:
+            new_model_dict[var] = negative(new_model_dict[var])
+        return self.__class__(new_model_dict,
+                              connectivity_mapping=self.connectivity_mapping)
 
     @property
     def shared_parameters(self):
-- 
2.43.0


From d4f15967a2586eb90941b1c989a3b338eaa569dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 08/40] fix: keep the integrator options when negating an
 ODEModel

---
 symfit/core/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 12ecbc6..3f52453 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1101,7 +1101,8 @@ class ODEModel(BaseGradientModel):
         new_model_dict = self.model_dict.copy()
         for key in new_model_dict:
             new_model_dict[key] *= -1
-        return self.__class__(new_model_dict, initial=self.initial)
+        return self.__class__(new_model_dict, initial=self.initial,
+                              **self.integrator_kwargs)
 
     @cached_property
     def _ncomponents(self):
-- 
2.43.0


From 4f6116b6bb3227ac15679b6e60de320328d3023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 09/40] fix: always set the bounds of a Parameter

---
 symfit/core/argument.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index ef0bba0..2557b90 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -119,9 +119,8 @@ class Parameter(Argument):
             if not self.fixed:
                 raise ValueError('The value of `min` should be less than or'
                                  ' equal to the value of `max`.')
-        else:
-            self.min = min
-            self.max = max
+        self.min = min
+        self.max = max
 
     def __eq__(self, other):
         """
-- 
2.43.0


From 691b2531abdd26c9a655e37f23842c864b7c30de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 10/40] fix: check and set the bounds of several parameters at
 once

---
 symfit/core/support.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index 58a4376..3dd5d2f 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -210,12 +210,6 @@ def parameters(names, **kwargs):
         else:
             sequences[attr] = kwargs.pop(attr)
 
-    if 'min' in sequences and 'max' in sequences:
-        for min, max in zip(sequences['min'], sequences['max']):
-            if min > max:
-                raise ValueError('The value of `min` should be less than or'
-                                 ' equal to the value of `max`.')
-
     params = symbols(names, cls=Parameter, seq=True, **kwargs)
     for key, values in sequences.items():
         try:
@@ -223,7 +217,7 @@ def parameters(names, **kwargs):
         except AssertionError:
             raise ValueError(
                 '`len` of keyword-argument `{}` does not match the number of '
-                '`Parameter`s created.'.format(attr)
+                '`Parameter`s created.'.format(key)
             )
         except TypeError:
             # Iterator do not have a `len` but are allowed.
@@ -231,6 +225,12 @@ def parameters(names, **kwargs):
         finally:
             for param, value in zip(params, values):
                 setattr(param, key, value)
+
+    for param in params:
+        if (param.min is not None and param.max is not None
+                and param.min > param.max and not param.fixed):
+            raise ValueError('The value of `min` should be less than or'
+                             ' equal to the value of `max`.')
     return params
 
 
-- 
2.43.0


From 6a39a4b58825ac34739e83ebc840f350b1e294d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 11/40] fix: evaluate an ODEModel at an array with only the
 initial point

---
 symfit/core/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 3f52453..cd13841 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1227,6 +1227,9 @@ class ODEModel(BaseGradientModel):
             elif not ans_bigger.success:
                 raise ODEError(ans_bigger.message)
             ans = np.concatenate((ans_smaller.y[:, :0:-1], ans_bigger.y), axis=1)
+        elif ans_smaller is None and ans_bigger is None:
+            # Evaluated only at the initial condition.
+            ans = np.atleast_2d(initial_dependent).T
         elif ans_smaller is None:
             if not ans_bigger.success:
                 raise ODEError(ans_bigger.message)
-- 
2.43.0


From 0ccfd54ca887aef29b9b6dd6ef7052b28241dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 12/40] fix: do not modify the options dictionaries of the user

---
 symfit/core/minimizers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index b00c280..80e72e4 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -602,8 +602,7 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
         return out
 
     def execute(self, *, jacobian=None, hessian=None, options=None, **minimize_options):
-        if options is None:
-            options = {}
+        options = {} if options is None else dict(options)
         # Our Jacobians are dense, and apparently we need to explicitely
         # tell this.
         options['sparse_jacobian'] = False
@@ -723,8 +722,10 @@ class BasinHopping(ScipyMinimize, GlobalMinimizer):
             :func:`scipy.optimize.basinhopping`.
         :return: :class:`symfit.core.fit_results.FitResults`
         """
-        if 'minimizer_kwargs' not in minimize_options:
-            minimize_options['minimizer_kwargs'] = {}
+        # Work on a copy, the options belong to the user
+        minimize_options['minimizer_kwargs'] = dict(
+            minimize_options.get('minimizer_kwargs') or {}
+        )
 
         if 'method' not in minimize_options['minimizer_kwargs']:
             # If no minimizer was set by the user upon execute, use local_minimizer
-- 
2.43.0


From bd7de13b558c4476fb8f668e352b0f18bda2a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 13/40] fix: print all factors of element-wise matrix products
 and keep the precedence

---
 symfit/core/printing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index 487284c..4c370fc 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -13,6 +13,7 @@ Users using both ``symfit`` and ``sympy`` should be aware of this.
 import pkg_resources
 from sympy import HadamardProduct, MatPow, Idx, Inverse
 from sympy.printing.codeprinter import CodePrinter
+from sympy.printing.precedence import PRECEDENCE
 
 ##########################################################
 # Monkeypatch the printers until this is merged upstream #
@@ -41,8 +42,8 @@ def _print_Inverse(self, printer):
 Inverse._numpycode = _print_Inverse
 
 def _print_HadamardProduct(self, printer):
-    return "%s*%s" % (printer.doprint(self.args[0]),
-                      printer.doprint(self.args[1]))
+    return "*".join(printer.parenthesize(arg, PRECEDENCE["Pow"])
+                    for arg in self.args)
 HadamardProduct._numpycode = _print_HadamardProduct
 
 if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version) \
@@ -50,8 +51,8 @@ if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version)
     from sympy import HadamardPower
 
     def _print_HadamardPower(self, printer):
-        return "%s**%s" % (printer.doprint(self.args[0]),
-                          printer.doprint(self.args[1]))
+        return "%s**%s" % (printer.parenthesize(self.args[0], PRECEDENCE["Atom"], strict=True),
+                           printer.parenthesize(self.args[1], PRECEDENCE["Atom"], strict=True))
     HadamardPower._numpycode = _print_HadamardPower
 
 def _print_Idx(self, printer):
-- 
2.43.0


From 47bfaac341d89490ec8885f3579b4b1a56f53650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 14/40] fix: draw the error bars of interactive guesses at the
 percentiles

---
 symfit/contrib/interactive_guess/interactive_guess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 370d7c0..1466cde 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -345,8 +345,8 @@ class StrategynD:
         y_plot_error = np.array(y_plot_error)
 
         xs = np.column_stack((x_plot_data, x_plot_data))
-        yerr = y_plot_error + y_plot_data[:, np.newaxis]
-        y_segments = np.dstack((xs, yerr))
+        # The percentiles are y values themselves, not offsets from the mean
+        y_segments = np.dstack((xs, y_plot_error))
         plot_line, caps, error_lines = self.ig._plots[(indep_var, dep_var)]
         plot_line.set_data(x_plot_data, y_plot_data)
         error_lines[1].set_segments(y_segments)
-- 
2.43.0


From ac6ab0987d8e4c00f5a528a6edcf7f4ccf247b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 15/40] fix: minimizers accept their parameters in any order

---
 symfit/core/minimizers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 80e72e4..bd0507a 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -32,6 +32,8 @@ class BaseMinimizer(object):
         :param objective: Objective function to be used.
         :param parameters: List of :class:`~symfit.core.argument.Parameter` instances
         """
+        # Objectives accept their parameters in alphabetical order
+        parameters = sorted(parameters, key=lambda p: p.name)
         self.parameters = parameters
         self._fixed_params = [p for p in parameters if p.fixed]
         self.objective = self._baseobjective_from_callable(objective)
-- 
2.43.0


From b6de975245dbdbe8024f0f20a7facbec2cf58c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 16/40] fix: accept a zero-dimensional array as constant sigma

---
 symfit/core/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 3cbcadb..5100243 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -98,7 +98,7 @@ class TakesData(object):
                 if self.data[var] is not None and self.data[sigma] is None:
                     self.data[sigma] = np.ones(self.data[var].shape)
                 elif self.data[var] is not None:
-                    self.data[sigma] *= np.ones(self.data[var].shape)
+                    self.data[sigma] = self.data[sigma] * np.ones(self.data[var].shape)
 
         # If user gives a preference, use that. Otherwise, use True if at least one sigma is
         # given, False if no sigma is given.
-- 
2.43.0


From f05d21d568d1b838fa074087b9a14a3f5bb1eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 17/40] fix: do not modify the connectivity mapping of the user

---
 symfit/core/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index cd13841..10c6c9a 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -225,6 +225,10 @@ class BaseModel(Mapping):
             init method of this class.
         :return: A stand-alone :class:`~symfit.core.models.BaseModel` subclass.
         """
+        if init_kwargs.get('connectivity_mapping') is not None:
+            # This mapping will be extended below, so work on a copy.
+            init_kwargs['connectivity_mapping'] = \
+                dict(init_kwargs['connectivity_mapping'])
         model = cls(model_expr, **init_kwargs)  # Initiate model instance.
         if any(var in dependency_model for var in model.independent_vars):
             # This model depends on the output of the dependency_model,
-- 
2.43.0


From 5e9dd6d5446e8e33381971710a896be0941101ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 18/40] fix: refuse a Parameter as component also if it is
 constant

---
 symfit/core/models.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 10c6c9a..59cf52d 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -342,9 +342,7 @@ class BaseModel(Mapping):
 
         try:
             assert not any(isinstance(var, Parameter)
-                           for var in self.dependent_vars)
-            assert not any(isinstance(var, Parameter)
-                           for var in self.interdependent_vars)
+                           for var in self.model_dict)
         except AssertionError:
             raise ModelError('`Parameter`\'s can not feature in the role '
                              'of `Variable`')
-- 
2.43.0


From 27e14c9748e3f59686db83fe3a3fce439057a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 19/40] fix: allow names which mean something to sympy, such as
 beta and S

---
 symfit/core/argument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index 2557b90..f713a12 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -73,7 +73,8 @@ class Argument(Symbol):
         return state
 
     def _sympystr(self, printer, *args, **kwargs):
-        return printer.doprint(self.name)
+        # Not through the printer, which would interpret names such as 'E'.
+        return self.name
 
     _lambdacode = _sympystr
     _numpycode = _sympystr
-- 
2.43.0


From e9ad0590d8350e0f233e5589da3fc444051d83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 20/40] fix: derivatives of models with more than two levels of
 components

---
 symfit/core/models.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 59cf52d..cfa502c 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1307,13 +1307,30 @@ def jacobian_from_model(model, as_functions=False):
     :return: :class:`~symfit.core.models.CallableModel` representing the Jacobian
         of ``model``.
     """
+    # Turn every component into a function of only the symbols at the bottom of
+    # the model. Unlike with `model.vars_as_functions`, which are nested, sympy
+    # will then leave their derivatives to params to us at any depth.
+    vars2functions = {}
+    key = lambda arg: [isinstance(arg, Parameter), str(arg)]
+    for symbol in model.ordered_symbols:
+        if symbol in model.connectivity_mapping:
+            dependencies = set()
+            for dependency in model.connectivity_mapping[symbol]:
+                dependencies.update(
+                    vars2functions[dependency].args
+                    if dependency in vars2functions else [dependency]
+                )
+            vars2functions[symbol] = sympy.Function(symbol.name)(
+                *sorted(dependencies, key=key)
+            )
     # Inverse dict so we can turn functions back into vars in the end
-    functions_as_vars = dict((v, k) for k, v in model.vars_as_functions.items())
+    functions_as_vars = dict((v, k) for k, v in vars2functions.items())
     # Create the jacobian components. The `vars` here in the model_dict are
     # always of the type D(y, a), but the righthand-side might still contain
     # functions instead of vars depending on the value of `as_functions`.
     jac = {}
-    for func, expr in model.function_dict.items():
+    for var, func in vars2functions.items():
+        expr = model.model_dict[var].xreplace(vars2functions)
         for param in model.params:
             target = D(func, param)
             dfdp = expr.diff(param)
-- 
2.43.0


From 6effebaf90e075d0ad3d35ee92ef21d0644d8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 21/40] fix: use the current value of fixed parameters in
 objectives

---
 symfit/core/objectives.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index a3bbbc9..956a790 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -128,7 +128,7 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
                 shaped_result.append(component)
         return shaped_result
 
-    @cached_property
+    @property
     def _invariant_kwargs(self):
         """
         Prepares the invariant kwargs to ``self.model`` which are not provided
@@ -136,15 +136,22 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
         minimization. This means fixed parameters and data, matching the
         signature of ``self.model``.
         """
+        # The value of a fixed parameter can change in between fits.
         kwargs = {p: p.value for p in self.model.params
                   if p not in self.model.free_params}
-        data_by_name = key2str(self.independent_data)
-        kwargs.update(
-            {p: data_by_name[p] for p in
-            self.model.__signature__.parameters if p in data_by_name}
-        )
+        kwargs.update(self._invariant_data)
         return kwargs
 
+    @cached_property
+    def _invariant_data(self):
+        """
+        The part of ``_invariant_kwargs`` which never changes: the data
+        matching the signature of ``self.model``.
+        """
+        data_by_name = key2str(self.independent_data)
+        return {p: data_by_name[p] for p in
+                self.model.__signature__.parameters if p in data_by_name}
+
     def __eq__(self, other):
         """
         Objectives are considered equal if they are of the same type, have the
-- 
2.43.0


From 4d7fcc733128866e74db90e0bf11e7d88000cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 22/40] fix: fit with a scalar as independent data

---
 symfit/core/fit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 5100243..17c014e 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -203,12 +203,12 @@ class TakesData(object):
         independent_shapes = []
         for var, data in self.independent_data.items():
             if data is not None:
-                independent_shapes.append(data.shape)
+                independent_shapes.append(np.shape(data))
 
         dependent_shapes = []
         for var, data in self.dependent_data.items():
             if data is not None:
-                dependent_shapes.append(data.shape)
+                dependent_shapes.append(np.shape(data))
 
         return list(set(independent_shapes)), list(set(dependent_shapes))
 
-- 
2.43.0


From b3d8b39fe3c06575d6bab9553bb5e03e4ecb9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 23/40] fix: trust-constr for objectives without gradient

scipy can not compare complex values of array-valued objectives, so the
complex step strategy fails for MinimizeModel.
---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index bd0507a..93d4245 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -572,7 +572,9 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             jacobian = None
             hessian = 'cs'
         elif self.jacobian is None and self.hessian is None:
-            jacobian = 'cs'
+            # Not 'cs', because not every objective can be evaluated at (and
+            # compared by scipy for) complex values.
+            jacobian = '3-point'
             hessian = soBFGS(exception_strategy='damp_update')
         else:
             jacobian = None
-- 
2.43.0


From 5fb75d6c0157e4c645a9e135565f47f8ac42b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 24/40] fix: do not generate the name of an existing argument

---
 symfit/core/argument.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index f713a12..c138ef7 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -51,6 +51,12 @@ class Argument(Symbol):
             instance = super(Argument, cls).__new__(cls, name, **assumptions)
         else:
             instance = super(Argument, cls).__new__(cls, name, **assumptions)
+            # A name which looks like a generated one should not be generated
+            # for another argument later on.
+            prefix, _, index = name.rpartition('_')
+            if prefix == cls._argument_name and index.isdecimal():
+                cls._argument_indices[cls] = max(cls._argument_indices[cls],
+                                                 int(index))
         instance._argument_index = cls._argument_indices[cls]
         cls._argument_indices[cls] += 1
         return instance
-- 
2.43.0


From 2fd37782675cf9615014054dcfdd34e8fcb58f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 25/40] fix: check the bounds of nested sequences of parameters

---
 symfit/core/support.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index 3dd5d2f..2bf5503 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -15,6 +15,7 @@ import keyword
 
 import numpy as np
 from sympy.utilities.lambdify import lambdify
+from sympy.utilities.iterables import flatten
 import sympy
 
 from sympy.tensor import Idx
@@ -226,7 +227,8 @@ def parameters(names, **kwargs):
             for param, value in zip(params, values):
                 setattr(param, key, value)
 
-    for param in params:
+    # `symbols` nests its output if it is given a sequence of names.
+    for param in flatten(params, cls=(tuple, list, set)):
         if (param.min is not None and param.max is not None
                 and param.min > param.max and not param.fixed):
             raise ValueError('The value of `min` should be less than or'
-- 
2.43.0


From 6ace0fad4246ae98a875bb0581e74c2f1dae67a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 26/40] fix: add only the needed components in
 with_dependencies

---
 symfit/core/models.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index cfa502c..3e55737 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -237,20 +237,18 @@ class BaseModel(Mapping):
             # This is the case for BaseNumericalModel's
             connectivity_mapping = init_kwargs.get('connectivity_mapping',
                                                    model.connectivity_mapping)
-            for var in model.independent_vars:
-                if var in dependency_model:
-                    # Add this var and all its dependencies.
-                    # Walk over all possible dependencies of this
-                    # variable until we no longer have dependencies.
-                    for symbol in dependency_model.ordered_symbols:
-                        # Not everything in ordered_symbols is a key of
-                        # model, think e.g. parameters
-                        if symbol in dependency_model:
-                            if symbol not in model_dict:
-                                model_dict[symbol] = dependency_model[symbol]
-                                connectivity_mapping[symbol] = dependency_model.connectivity_mapping[symbol]
-                        if symbol == var:
-                            break
+            # Walk over the dependencies until we no longer have dependencies,
+            # adding only those components which are needed.
+            needed = [var for var in model.independent_vars
+                      if var in dependency_model]
+            while needed:
+                symbol = needed.pop()
+                if symbol not in model_dict:
+                    dependencies = dependency_model.connectivity_mapping[symbol]
+                    model_dict[symbol] = dependency_model[symbol]
+                    connectivity_mapping[symbol] = dependencies
+                    needed.extend(dependency for dependency in dependencies
+                                  if dependency in dependency_model)
             # connectivity_mapping in init_kwargs has been updated if it was
             # present, since python is pass by reference. If it wasn't present,
             # we are dealing with a type of model that will build its own
-- 
2.43.0


From ab2391072f9dea17e6efaefb2c89dc42cca30146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 27/40] fix: compare symbolic models with numerical models

---
 symfit/core/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 3e55737..7cc4984 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -289,6 +289,10 @@ class BaseModel(Mapping):
         :param other: Instance of ``Model``.
         :return: bool
         """
+        if (not isinstance(other, Mapping)
+                or isinstance(other, BaseNumericalModel)):
+            # Callables are not expressions, so leave this to the other model.
+            return NotImplemented
         if len(self) != len(other):
             return False
         else:
@@ -603,6 +607,8 @@ class BaseNumericalModel(BaseModel):
         self._connectivity_mapping = value
 
     def __eq__(self, other):
+        if not isinstance(other, BaseModel):
+            return NotImplemented
         if self.connectivity_mapping != other.connectivity_mapping:
             return False
 
-- 
2.43.0


From ec8f5d5941dab4bacc1499e1087465740bcbb156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 28/40] fix: pickle the minimizer of fit results completely

---
 symfit/core/fit_results.py | 30 ------------------------------
 1 file changed, 30 deletions(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index ad41ecb..009a516 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -189,36 +189,6 @@ class FitResults(object):
                 return False
         else: return True
 
-    def __getstate__(self):
-        state = self.__dict__.copy()
-
-        if hasattr(state['minimizer'], 'minimizers'):  # ChainedMinimizer
-            # ToDo: when py27 support is droppend at least this can be replaced
-            #       with just pickling the instance, perhaps also for other
-            #       minimizers.
-            minimizer_cls = [type(state['minimizer'])]
-            minimizer_cls.extend(
-                [type(minimizer) for minimizer in state['minimizer'].minimizers]
-            )
-        else:
-            minimizer_cls = type(state['minimizer'])
-        state['minimizer'] = (minimizer_cls,
-                              state['minimizer'].objective,
-                              state['minimizer'].parameters)
-        return state
-
-    def __setstate__(self, state):
-        min_class, objective, parameters = state['minimizer']
-        try:
-            # If min_class is iterable, initiate a ChainedMinimizer.
-            minimizers = [cls(objective, parameters) for cls in min_class[1:]]
-        except TypeError:
-            state['minimizer'] = min_class(objective, parameters)
-        else:
-            state['minimizer'] = min_class[0](objective, parameters,
-                                              minimizers=minimizers)
-        self.__dict__.update(state)
-
     def _gof_qualifiers(self):
         """
         Based on the objective used, we can infer certain goodness of fit
-- 
2.43.0


From 2d47cea458b98b071747ba901771cdf508f75e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 29/40] fix: leave the initial guesses of chained minimizers
 alone

---
 symfit/core/minimizers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 93d4245..5199956 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -261,8 +261,17 @@ class ChainedMinimizer(BaseMinimizer):
         answers = []
         next_guess = self.initial_guesses
         for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):
+            own_guesses = vars(minimizer).get('_initial_guesses')
             minimizer.initial_guesses = next_guess
-            ans = minimizer.execute(**kwargs)
+            try:
+                ans = minimizer.execute(**kwargs)
+            finally:
+                # Executed outside of this chain, the minimizer should not
+                # start from the guesses of this execution.
+                if own_guesses is None:
+                    vars(minimizer).pop('_initial_guesses', None)
+                else:
+                    minimizer.initial_guesses = own_guesses
             # Only the free parameters are guesses, just as in `initial_guesses`
             next_guess = [ans.value(p) for p in self.params]
             answers.append(ans)
-- 
2.43.0


From 0883b69ae81014059fea6c242d9148d5b377b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 30/40] fix: differentiate ODE models with a step above the
 precision of the integrator

---
 symfit/core/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 7cc4984..b7be7df 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1271,6 +1271,11 @@ class ODEModel(BaseGradientModel):
         """
         return ModelOutput(self.keys(), self.eval_components(*args, **kwargs))
 
+    def finite_difference(self, *args, dx=1e-4, **kwargs):
+        # The step has to be well above the precision of the integrator, see
+        # `integrator_kwargs`, or we would differentiate its errors instead.
+        return super(ODEModel, self).finite_difference(*args, dx=dx, **kwargs)
+
 def _partial_diff(var, *params):
     """
     Sympy does not handle repeated partial derivation correctly, e.g.
-- 
2.43.0


From e1c6260facd65c95a2c723b7cc2ae2fd44990dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 31/40] fix: sliders of negative initial guesses contain the
 guess

---
 symfit/contrib/interactive_guess/interactive_guess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 1466cde..4efdda6 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -30,7 +30,8 @@ class InteractiveGuess(TakesData):
         percentile of data within the thresholds.
 
         Slider extremes are taken from the parameters where possible. If
-        these are not provided, the minimum is 0; and the maximum is value*2.
+        these are not provided, the minimum is 0; and the maximum is value*2
+        (or the other way around for negative values).
         If no initial value is provided, it defaults to 1.
 
         This will modify the values of the parameters present in model.
@@ -172,11 +173,11 @@ class InteractiveGuess(TakesData):
                                    facecolor=axbg, label=param)
             val = param.value
             if not hasattr(param, 'min') or param.min is None:
-                minimum = 0
+                minimum = min(0, 2 * val)
             else:
                 minimum = param.min
             if not hasattr(param, 'max') or param.max is None:
-                maximum = 2 * val
+                maximum = max(0, 2 * val)
             else:
                 maximum = param.max
 
-- 
2.43.0


From 893a4af059eca8c7bb30989b093d48ed47eeb349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 32/40] fix: constant components can be plotted by the
 interactive guess

---
 .../interactive_guess/interactive_guess.py    | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 4efdda6..f027c38 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -220,6 +220,18 @@ class InteractiveGuess(TakesData):
         arguments.update({param: param.value for param in self.model.params})
         return self.model(**key2str(arguments))
 
+    def _eval_component(self, dep_var):
+        """
+        Convenience method for evaluating one component of the model on every
+        point of the grid, also if it does not depend on all the independent
+        variables.
+
+        :return: 1D array with the values of this component.
+        """
+        grid_points = len(next(iter(self._x_grid.values())))
+        return np.broadcast_to(getattr(self._eval_model(), dep_var.name),
+                               (grid_points,))
+
     def __str__(self):
         """
         Represent the guesses in a human readable way.
@@ -253,7 +265,7 @@ class Strategy2D:
         Plots the model proposed for the projection proj on ax.
         """
         x, y = proj
-        y_vals = getattr(self.ig._eval_model(), y.name)
+        y_vals = self.ig._eval_component(y)
         x_vals = self.ig._x_points[x]
         plot, = ax.plot(x_vals, y_vals, c='red')
         return plot
@@ -262,9 +274,8 @@ class Strategy2D:
         """
         Updates the plot of the proposed model.
         """
-        evaluated_model = self.ig._eval_model()
         plot = self.ig._plots[(indep_var, dep_var)]
-        y_vals = getattr(evaluated_model, dep_var.name)
+        y_vals = self.ig._eval_component(dep_var)
         x_vals = self.ig._x_points[indep_var]
         plot.set_data(x_vals, y_vals)
 
@@ -308,8 +319,7 @@ class StrategynD:
         Plots the model proposed for the projection proj on ax.
         """
         x, y = proj
-        evaluated_model = self.ig._eval_model()
-        y_vals = getattr(evaluated_model, y.name)
+        y_vals = self.ig._eval_component(y)
         x_vals = self.ig._x_grid[x]
         plot = ax.errorbar(x_vals, y_vals, xerr=0, yerr=0, c='red')
         return plot
@@ -318,8 +328,7 @@ class StrategynD:
         """
         Updates the plot of the proposed model.
         """
-        evaluated_model = self.ig._eval_model()
-        y_vals = getattr(evaluated_model, dep_var.name)
+        y_vals = self.ig._eval_component(dep_var)
         x_vals = self.ig._x_grid[indep_var]
 
         x_plot_data = []
-- 
2.43.0


From bc79f830e312ba898e60c127ad33610ab1c3147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 33/40] fix: interactive guess of models with components
 without data

---
 .../interactive_guess/interactive_guess.py      | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index f027c38..d15c63e 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -84,15 +84,18 @@ class InteractiveGuess(TakesData):
 
         # Stretch the plot 20% in the Y direction, since that is visually more
         # appealing
-        y_mins = {v: np.min(data) for v, data in self.dependent_data.items()}
-        y_maxs = {v: np.max(data) for v, data in self.dependent_data.items()}
-        for y in self.dependent_data:
+        # Components without data can not be used to determine the range.
+        measured = {v: data for v, data in self.dependent_data.items()
+                    if data is not None}
+        y_mins = {v: np.min(data) for v, data in measured.items()}
+        y_maxs = {v: np.max(data) for v, data in measured.items()}
+        for y in measured:
             plotrange_y = y_maxs[y] - y_mins[y]
             y_mins[y] -= 0.1 * plotrange_y
             y_maxs[y] += 0.1 * plotrange_y
 
         self._y_points = {v: np.linspace(y_mins[v], y_maxs[v], n_points)
-                          for v in self.dependent_data}
+                          for v in measured}
 
         self._set_up_figure(x_mins, x_maxs, y_mins, y_maxs)
         self._set_up_sliders()
@@ -149,11 +152,13 @@ class InteractiveGuess(TakesData):
             ax = self.fig.add_subplot(ncols, nrows, plotnr,
                                       label=plotlabel)
             ax.set_title(ax.get_label())
-            ax.set_ylim(y_mins[y], y_maxs[y])
+            if y in y_mins:
+                ax.set_ylim(y_mins[y], y_maxs[y])
             ax.set_xlim(x_mins[x], x_maxs[x])
             ax.set_xlabel('${}$'.format(x))
             ax.set_ylabel('${}$'.format(y))
-            self._plot_data(proj, ax)
+            if y in y_mins:
+                self._plot_data(proj, ax)
             plot = self._plot_model(proj, ax)
             self._plots[proj] = plot
 
-- 
2.43.0


From b59dc3a1727cc8006b7ecf97ef75ac30243987fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:36 +0000
Subject: [PATCH 34/40] fix: interactive guess of widely spread data in several
 dimensions

---
 symfit/contrib/interactive_guess/interactive_guess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index d15c63e..40c04f3 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -313,7 +313,8 @@ class StrategynD:
         # areas show up.
         if self.ig.log_contour:
             contour_grid = np.log(contour_grid)
-            vmin = -7
+            # Widely spread data have low densities everywhere
+            vmin = -7 if np.max(contour_grid) > -7 else None
         else:
             vmin = None
         ax.contourf(xx, yy, contour_grid.reshape(xx.shape),
-- 
2.43.0


From 92c7fa607ecc8338584bd8d1bfbb5acb8a515173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 35/40] fix: TrustConstr with models that have a jacobian but
 not a hessian

---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 5199956..a0e1fbd 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -579,7 +579,9 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
         """
         if self.jacobian is not None and self.hessian is None:
             jacobian = None
-            hessian = 'cs'
+            # Not 'cs', because not every model with a jacobian, e.g. an
+            # ODEModel, can be evaluated for complex parameters.
+            hessian = soBFGS(exception_strategy='damp_update')
         elif self.jacobian is None and self.hessian is None:
             # Not 'cs', because not every objective can be evaluated at (and
             # compared by scipy for) complex values.
-- 
2.43.0


From ef9a9e5aa69c823e85a3b87165e33b1825edabd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:01 +0000
Subject: [PATCH 36/40] fix: derivatives of objectives whose data have the
 shape of the derivative

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 956a790..3b0aa86 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -114,7 +114,7 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
         for dep_var, component in zip(self.model.dependent_vars, model_output):
             dep_data = self.dependent_data.get(dep_var, None)
             if dep_data is not None:
-                if dep_data.shape == component.shape:
+                if dep_data.shape == component.shape[param_level:]:
                     shaped_result.append(component)
                 else:
                     # Add extra dimensions to the component if needed.
-- 
2.43.0


From d940be1fba4a59c995b1655fd5fd11dda3bc1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:09 +0000
Subject: [PATCH 37/40] fix: coefficient of determination of data with more
 dimensions than the model

---
 symfit/core/fit_results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index 009a516..23d9e46 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -244,6 +244,9 @@ def r_squared(model, fit_result, data):
     f_is = model(*x_is, **fit_result.params)._asdict()
     # f_is also contains the evaluated interdependent_vars, skip those.
     f_is = [f_is[var] for var in model.dependent_vars]
+    # Just as in the objectives, dimensions a component lacks are added last.
+    f_is = [np.reshape(f_i, np.shape(f_i) + (np.ndim(y_i) - np.ndim(f_i)) * (1,))
+            for y_i, f_i in zip(y_is, f_is)]
     SS_res = np.sum([np.sum((y_i - f_i)**2) for y_i, f_i in zip(y_is, f_is) if y_i is not None])
     SS_tot = np.sum([np.sum((y_i - y_bar)**2) for y_i, y_bar in zip(y_is, y_bars) if y_i is not None])
     return 1 - SS_res/SS_tot
\ No newline at end of file
-- 
2.43.0


From 106d9924565bd3c9c396e089940f93ad40848cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:56 +0000
Subject: [PATCH 38/40] fix: compare objectives with data of different shape or
 keys

---
 symfit/core/objectives.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 3b0aa86..62fadc9 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -165,14 +165,18 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
             return False
 
         # Check if the data is also equivalent
+        if set(self.data) != set(other.data):
+            return False
         for key, value in self.data.items():
+            # Data which only become the same by broadcasting are not equal.
+            if np.shape(other.data[key]) != np.shape(value):
+                return False
             try:
                 equal = np.allclose(other.data[key], value)
             except TypeError:
                 equal = other.data[key] == value
-            finally:
-                if not equal:
-                    return False
+            if not equal:
+                return False
         return True
 
     def _sanity_checking(self):
-- 
2.43.0


From 7de9b5ac729b24c6a0ea829c0d8bd7d4643709fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:56 +0000
Subject: [PATCH 39/40] fix: covariance of two parameters without covariance
 matrix

---
 symfit/core/fit_results.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index 23d9e46..bcd6c8a 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -151,7 +151,11 @@ class FitResults(object):
         """
         param_1_number = self.model.params.index(param_1)
         param_2_number = self.model.params.index(param_2)
-        return self.covariance_matrix[param_1_number, param_2_number]
+        try:
+            return self.covariance_matrix[param_1_number, param_2_number]
+        except TypeError:
+            # covariance_matrix can be None
+            return None
 
     @staticmethod
     def _array_safe_dict_eq(one_dict, other_dict):
-- 
2.43.0


From 057f3c1a080844c68eaa7c482e39ba841e62bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:57 +0000
Subject: [PATCH 40/40] fix: fits with objectives which have no derivatives

---
 symfit/core/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 17c014e..6c115fd 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -277,7 +277,7 @@ class HasCovarianceMatrix(TakesData):
         """
         cov_matrix = self._covariance_matrix(best_fit_params,
                                              objective=self.objective)
-        if cov_matrix is None:
+        if cov_matrix is None and hasattr(self.objective, 'eval_jacobian'):
             # If the covariance matrix could not be computed we try again by
             # approximating the hessian with the jacobian.
 
-- 
2.43.0

