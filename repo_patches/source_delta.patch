From a5faf5af79e05a98ab48036333b581dd8ad68c9d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 01/41] fix: use the classical RK4 nodes (1/2, 1/2, 1) so
 time-dependent vector fields are integrated with order 4

---
 torchdyn/numerics/solvers/_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/_constants.py b/torchdyn/numerics/solvers/_constants.py
index e7d4fff..84dee80 100644
--- a/torchdyn/numerics/solvers/_constants.py
+++ b/torchdyn/numerics/solvers/_constants.py
@@ -18,7 +18,7 @@ ExplicitRKTableau = namedtuple('ExplicitRKTableau', 'c, A, b_sol, b_err')
 
 
 def construct_rk4(dtype):
-    c = torch.tensor([0., 1 / 2, 1 / 2, 1], dtype=dtype)
+    c = torch.tensor([1 / 2, 1 / 2, 1], dtype=dtype)
     a = [
         torch.tensor([1 / 2], dtype=dtype),
         torch.tensor([0., 1 / 2], dtype=dtype),
-- 
2.43.0


From 4bd812e3decbf872718be4cb0e395eadb5dd5b54 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 02/41] fix: return evaluation times of reversed-time
 integrations in the user's time domain

Accept list t_spans before comparing their entries, mirror save_at together with t_span
and forward extra arguments through the time-reversed vector field.
---
 torchdyn/numerics/odeint.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 7f10158..5db379b 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -51,13 +51,14 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	Returns:
 		Tuple[Tensor, Tensor]: returns a Tuple (t_eval, solution).
 	"""
-	if t_span[1] < t_span[0]: # time is reversed
+	if type(t_span) == list: t_span = torch.cat([torch.as_tensor(t).reshape(-1) for t in t_span])
+	time_is_reversed = bool(t_span[1] < t_span[0])
+	if time_is_reversed:
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
-		f_ = lambda t, x: -f(-t, x)
-		t_span = -t_span
+		f_ = lambda t, x, *f_args, **f_kwargs: -f(-t, x, *f_args, **f_kwargs)
+		t_span, save_at = -t_span, -torch.as_tensor(save_at)
 	else: f_ = f
 
-	if type(t_span) == list: t_span = torch.cat(t_span)
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
 		solver = str_to_solver(solver, x.dtype)
@@ -82,13 +83,15 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 			if atol != odeint.__defaults__[0] or rtol != odeint.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
 			# instantiate save_at tensor
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			k1 = f_(t, x)
-			dt = init_step(f, k1, x, t, solver.order, atol, rtol)
+			dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			if len(save_at) > 0: warn("Setting save_at has no effect on adaptive-step methods")
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+		# evaluation times are reported in the (possibly reversed) time domain of the user
+		return (-t_eval if time_is_reversed else t_eval), sol
 
 
 # TODO (qol) state augmentation for symplectic methods
@@ -109,12 +112,13 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		return_all_eval (bool, optional): Defaults to False.
 		save_at (Union[List, Tensor], optional): Defaults to t_span
 	"""
-	if t_span[1] < t_span[0]: # time is reversed
+	if type(t_span) == list: t_span = torch.cat([torch.as_tensor(t).reshape(-1) for t in t_span])
+	time_is_reversed = bool(t_span[1] < t_span[0])
+	if time_is_reversed:
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
-		t_span = -t_span
+		t_span, save_at = -t_span, -torch.as_tensor(save_at)
 	else: f_ = f
-	if type(t_span) == list: t_span = torch.cat(t_span)
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
@@ -137,7 +141,8 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if stepping_class == 'fixed':
 			if atol != odeint_symplectic.__defaults__[0] or rtol != odeint_symplectic.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
+			return (-t_eval if time_is_reversed else t_eval), sol
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			if f.order == 1:
-- 
2.43.0


From ddf7144b54d1974afabed3bf0da2eebd975f9ed8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 03/41] fix: step fixed-step odeint on the grid of t_span and
 return save_at solutions in order

Accumulating t + dt drifted off the grid and silently dropped points; save_at was never
compared against t_span.
---
 torchdyn/numerics/odeint.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 5db379b..7bfdcf7 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -415,28 +415,32 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 
 def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	"""Solves IVPs with same `t_span`, using fixed-step methods"""
-	if len(save_at) == 0: save_at = t_span
-	if not isinstance(save_at, torch.Tensor):
-		save_at = torch.tensor(save_at)
-		
-	assert all(torch.isclose(t, save_at).sum() == 1 for t in save_at),\
-		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+	if len(save_at) == 0:
+		save_at, save_idx = t_span, range(len(t_span))
+	else:
+		save_at = torch.as_tensor(save_at).to(t_span)
+		# index in `t_span` of each time to be saved
+		save_idx = (t_span[None] - save_at[:, None]).abs().argmin(1)
+		assert torch.isclose(t_span[save_idx], save_at).all() and len(save_idx.unique()) == len(save_idx),\
+			"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+		save_idx = save_idx.tolist()
 
 	t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
 
-	sol = []
-	if torch.isclose(t, save_at).sum():
-		sol = [x]
+	sol = {}
+	if 0 in save_idx:
+		sol[0] = x
 
 	steps = 1
 	while steps <= len(t_span) - 1:
 		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
-		t = t + dt
+		t = t_span[steps]
 
-		if torch.isclose(t, save_at).sum():
-			sol.append(x)
+		if steps in save_idx:
+			sol[steps] = x
 		if steps < len(t_span) - 1: dt = t_span[steps+1] - t
 		steps += 1
+	sol = [sol[idx] for idx in save_idx]
 
 	if isinstance(sol[0], dict):
 		final_out = {k: [v] for k, v in sol[0].items()}
-- 
2.43.0


From 064a498bb32c6f4023c805bf61da74ca336d1927 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 04/41] fix: step sdeint on the grid of t_span and validate
 save_at against it

---
 torchdyn/numerics/sdeint.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index 1c2ba80..1054d9d 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -89,20 +89,31 @@ def _adaptive_sdeint():
 
 
 def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
+    save_at = save_at.to(t_span)
+    # index in `t_span` of each time to be saved
+    save_idx = (t_span[None] - save_at[:, None]).abs().argmin(1)
+    assert torch.isclose(t_span[save_idx], save_at).all() and len(
+        save_idx.unique()
+    ) == len(
+        save_idx
+    ), "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+    save_idx = save_idx.tolist()
+
     t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
-    sol = []
-    if torch.isclose(t, save_at).sum():
+    sol = {}
+    if 0 in save_idx:
         # if t is in save_at
-        sol = [x]
+        sol[0] = x
     steps = 1  # starting with 1
     while steps <= len(t_span) - 1:
         _, x, _ = solver.step(x, t, dt)
-        t = t + dt
-        if torch.isclose(t, save_at).sum():
-            sol.append(x)
+        t = t_span[steps]
+        if steps in save_idx:
+            sol[steps] = x
         if steps < len(t_span) - 1:
             dt = t_span[steps + 1] - t
         steps += 1
+    sol = [sol[idx] for idx in save_idx]
 
     if isinstance(sol[0], dict):
         final_out = {k: [v] for k, v in sol[0].items()}
-- 
2.43.0


From b927e89d54847abe1a8215859871f5a92e1b47f6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:09:56 +0000
Subject: [PATCH 05/41] fix: end adaptive steps exactly at the requested times

t + dt can miss t_span entries by rounding, which dropped evaluation points, indexed past
t_eval or retried rejected steps with dt = 0 forever.
---
 torchdyn/numerics/odeint.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 7bfdcf7..f88a232 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -354,16 +354,19 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 	ckpt_counter, ckpt_flag = 0, False
 	eval_times, sol = [t], [x]
 	while t < T:
-		if t + dt > T:
-			dt = T - t
+		t_new = t + dt
+		if t_new > T:
+			dt, t_new = T - t, T[None]
 		############### checkpointing ###############################
 		if t_eval is not None:
 			# satisfy checkpointing by using interpolation scheme or resetting `dt`
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
 				if interpolator == None:
 					# save old dt, raise "checkpoint" flag and repeat step
 					dt_old, ckpt_flag = dt, True
-					dt = t_eval[ckpt_counter] - t
+					# `t + dt` can be off by rounding: the step ends exactly at the checkpoint
+					t_new = t_eval[ckpt_counter][None]
+					dt = t_new - t
 
 		f_new, x_new, x_err, stages = solver.step(f, x, t, dt, k1=k1, args=args)
 		################# compute error #############################
@@ -381,8 +384,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 			############### checkpointing via interpolation ###############################
 			if t_eval is not None and interpolator is not None:
 				coefs = None
-				while (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
-					t0, t1 = t, t + dt
+				while (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
+					t0, t1 = t, t_new
 					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])
 					f0, f1, x0, x1 = k1, f_new, x, x_new
 					if coefs == None: coefs = interpolator.fit(dt, f0, f1, x0, x1, x_mid)
@@ -391,18 +394,19 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 					eval_times.append(t_eval[ckpt_counter][None])
 					ckpt_counter += 1
 
-			if t + dt == t_eval[ckpt_counter] or return_all_eval: # note (1)
+			if t_new == t_eval[ckpt_counter] or return_all_eval: # note (1)
 				sol.append(x_new)
-				eval_times.append(t + dt)
+				eval_times.append(t_new)
 				# we only increment the ckpt counter if the solution points corresponds to a time point in `t_span`
-				if t + dt == t_eval[ckpt_counter]: ckpt_counter += 1
-			t, x = t + dt, x_new
+				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
+			t, x = t_new, x_new
 			k1 = f_new
 
 		################ stepsize control ###########################
 		# reset "dt" in case of checkpoint without interp
 		if ckpt_flag:
-			dt = dt_old - dt
+			# a rejected step is retried from the step size that has been attempted
+			if accept_step: dt = dt_old - dt
 			ckpt_flag = False
 
 		dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From 3b60fa7d0eebdd91760ffe6845329bf63ce82c61 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:11:43 +0000
Subject: [PATCH 06/41] fix: accept vector fields f(t, x) without an args
 argument

---
 torchdyn/core/defunc.py | 8 +++++++-
 torchdyn/core/utils.py  | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 2f0ce26..e911a98 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -26,11 +26,17 @@ class DEFuncBase(nn.Module):
         """
         super().__init__()
         self.nfe, self.vf, self.has_time_arg = 0.0, vector_field, has_time_arg
+        # `args` is optional in the call signature of vector fields
+        call = vector_field.forward if isinstance(vector_field, nn.Module) else vector_field
+        argspec = getfullargspec(call)
+        self.has_args = "args" in argspec.args + argspec.kwonlyargs or argspec.varkw is not None
 
     def forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:
         self.nfe += 1
-        if self.has_time_arg:
+        if self.has_time_arg and self.has_args:
             return self.vf(t, x, args=args)
+        elif self.has_time_arg:
+            return self.vf(t, x)
         else:
             return self.vf(x)
 
diff --git a/torchdyn/core/utils.py b/torchdyn/core/utils.py
index 460f3f3..963c4b0 100644
--- a/torchdyn/core/utils.py
+++ b/torchdyn/core/utils.py
@@ -20,10 +20,14 @@ def standardize_vf_call_signature(vector_field, order=1, defunc_wrap=False):
     "Ensures Callables or nn.Modules passed to `ODEProblems` and `NeuralODE` have consistent `__call__` signature (t, x)"
     
     if issubclass(type(vector_field), nn.Module):
-        if 't' not in getfullargspec(vector_field.forward).args:
+        argspec = getfullargspec(vector_field.forward)
+        if 't' not in argspec.args:
             print("Your vector field callable (nn.Module) should have both time `t` and state `x` as arguments, "
                 "we've wrapped it for you.")
             vector_field = DEFuncBase(vector_field, has_time_arg=False)
+        # `DEFunc` always passes `args`
+        elif defunc_wrap and 'args' not in argspec.args + argspec.kwonlyargs and argspec.varkw is None:
+            vector_field = DEFuncBase(vector_field, has_time_arg=True)
     else: 
         # argspec for lambda functions needs to be done on the function itself
         if 't' not in getfullargspec(vector_field).args:
-- 
2.43.0


From 0fe6ab0fe23e89524f7c4cf823d87b9f18101cb7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:11:43 +0000
Subject: [PATCH 07/41] fix: integral losses of higher-order DEFuncs and args
 forwarding

---
 torchdyn/core/defunc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index e911a98..2851dff 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -77,15 +77,15 @@ class DEFunc(nn.Module):
             if len(dlds.shape) == 1:
                 dlds = dlds[:, None]
             if self.order > 1:
-                x_dyn = self.horder_forward(t, x_dyn, args)
+                x_dyn = self.higher_order_forward(t, x_dyn, args)
             else:
-                x_dyn = self.vf(t, x_dyn)
+                x_dyn = self.vf(t, x_dyn, args=args)
             return cat([dlds, x_dyn], 1).to(x_dyn)
 
         # regular forward
         else:
             if self.order > 1:
-                x = self.higher_order_forward(t, x)
+                x = self.higher_order_forward(t, x, args)
             else:
                 x = self.vf(t, x, args=args)
             return x
@@ -95,7 +95,7 @@ class DEFunc(nn.Module):
         size_order = x.size(1) // self.order
         for i in range(1, self.order):
             x_new.append(x[:, size_order * i : size_order * (i + 1)])
-        x_new.append(self.vf(t, x))
+        x_new.append(self.vf(t, x, args=args))
         return cat(x_new, dim=1).to(x)
 
 
-- 
2.43.0


From 111a2a1080b010975bf1121233f96c630a18bbf3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:13:48 +0000
Subject: [PATCH 08/41] fix: honour save_at with adjoint sensitivities

---
 torchdyn/core/problems.py   |  7 ++++++-
 torchdyn/numerics/odeint.py |  8 ++------
 torchdyn/numerics/sdeint.py | 10 ++--------
 torchdyn/numerics/utils.py  |  8 ++++++++
 4 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 3157b96..6b43917 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -8,6 +8,7 @@ from torchdyn.numerics.sensitivity import (
     _gather_odefunc_interp_adjoint,
 )
 from torchdyn.numerics.odeint import odeint, odeint_mshooting
+from torchdyn.numerics.utils import save_at_index
 from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
 from torchdyn.core.utils import standardize_vf_call_signature
 from torchdyn.core.defunc import SDEFunc
@@ -152,7 +153,11 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, save_at, args)
+            t_eval, sol = self._autograd_func()(self.vf_params, x, t_span)
+            if len(save_at) > 0 and self.solver.stepping_class == "fixed":
+                save_at = torch.as_tensor(save_at).to(t_eval)
+                t_eval, sol = save_at, sol[save_at_index(t_eval, save_at)]
+            return t_eval, sol
 
     def forward(self, x: Tensor, t_span: Tensor, save_at: Tensor = (), args={}):
         "For safety redirects to intended method `odeint`"
diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index f88a232..fc07810 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -23,7 +23,7 @@ import torch.nn as nn
 
 from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, Tsitouras45, str_to_solver, str_to_ms_solver
 from torchdyn.numerics.interpolators import str_to_interp
-from torchdyn.numerics.utils import hairer_norm, init_step, adapt_step, EventState
+from torchdyn.numerics.utils import hairer_norm, init_step, adapt_step, save_at_index, EventState
 
 
 def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, nn.Module], atol:float=1e-3, rtol:float=1e-3,
@@ -423,11 +423,7 @@ def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 		save_at, save_idx = t_span, range(len(t_span))
 	else:
 		save_at = torch.as_tensor(save_at).to(t_span)
-		# index in `t_span` of each time to be saved
-		save_idx = (t_span[None] - save_at[:, None]).abs().argmin(1)
-		assert torch.isclose(t_span[save_idx], save_at).all() and len(save_idx.unique()) == len(save_idx),\
-			"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
-		save_idx = save_idx.tolist()
+		save_idx = save_at_index(t_span, save_at)
 
 	t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
 
diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index 1054d9d..ec8c578 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -6,6 +6,7 @@ from warnings import warn
 from torchsde._brownian import BaseBrownian
 from torchdyn.core.defunc import SDEFunc
 from torchdyn.numerics.solvers.sde import sde_str_to_solver
+from torchdyn.numerics.utils import save_at_index
 from typing import List, Tuple, Union, Callable, Dict, Iterable
 
 
@@ -90,14 +91,7 @@ def _adaptive_sdeint():
 
 def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
     save_at = save_at.to(t_span)
-    # index in `t_span` of each time to be saved
-    save_idx = (t_span[None] - save_at[:, None]).abs().argmin(1)
-    assert torch.isclose(t_span[save_idx], save_at).all() and len(
-        save_idx.unique()
-    ) == len(
-        save_idx
-    ), "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
-    save_idx = save_idx.tolist()
+    save_idx = save_at_index(t_span, save_at)
 
     t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
     sol = {}
diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index c8f7c3e..9a7d237 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -63,6 +63,14 @@ def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
     return dt * factor
 
 
+def save_at_index(t_span, save_at):
+    "Returns the index in `t_span` of each element of `save_at`"
+    idx = (t_span[None] - save_at[:, None]).abs().argmin(1)
+    assert torch.isclose(t_span[idx], save_at).all() and len(idx.unique()) == len(idx),\
+        "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+    return idx.tolist()
+
+
 def dense_output(sol, t_sol, t_eval, return_spline=False):
     t_sol = t_sol.to(sol)
     spline_coeff = hermite_cubic_coefficients_with_backward_differences(t_sol, sol.permute(1, 0, 2))
-- 
2.43.0


From 350af4388ec80f81d6ab0a0dbde27a3f29f1a505 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:13:48 +0000
Subject: [PATCH 09/41] fix: accept solver instances as solver_adjoint

---
 torchdyn/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 6b43917..918bb04 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -58,7 +58,7 @@ class ODEProblem(nn.Module):
             solver = str_to_solver(solver)
         if solver_adjoint is None:
             solver_adjoint = solver
-        else:
+        elif type(solver_adjoint) == str:
             solver_adjoint = str_to_solver(solver_adjoint)
 
         self.solver, self.interpolator, self.atol, self.rtol = (
-- 
2.43.0


From 73afc0200030394db57a6e288930e1b8ab1b5a2e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:13:48 +0000
Subject: [PATCH 10/41] fix: adjoint sensitivities of vector fields with unused
 parameters

---
 torchdyn/numerics/sensitivity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 503b21e..a17494d 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -68,8 +68,8 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                     if dt == None: dt = torch.zeros(1).to(t)
                     if len(t.shape) == 0: dt = dt.unsqueeze(0)
                 return torch.cat([dx.flatten(), dλ.flatten(), dμ.flatten(), dt.flatten()])
@@ -142,8 +142,8 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                 return torch.cat([dλ.flatten(), dμ.flatten()])
 
             # solve the adjoint equation
-- 
2.43.0


From 48aa84a33e2bd6a9fdf56c11627ba83d68079979 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 11/41] fix: gradient of adjoint sensitivities w.r.t. t_span

One entry per time point, with the sign of the initial time and the vector field evaluated at
the matching time.
---
 torchdyn/numerics/sensitivity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index a17494d..9759456 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -85,7 +85,8 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 # prepare adjoint state for next interval
                 #TODO: reuse vf_eval for dLdt calculations
                 xt = A[-1, :xT_nel].reshape(xT_shape)
-                dLdt_ = A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[i], xt).flatten()
+                if i > 1: dLdt_ = grad_output[-1][i - 1].flatten() @ vf(t_sol[i - 1], xt).flatten()
+                else: dLdt_ = -A[-1, xT_nel:xT_nel + λT_nel] @ vf(t_sol[0], xt).flatten()
                 A[-1, -1:] -= grad_output[0][i - 1]
                 dLdt[i-1] = dLdt_
 
@@ -94,8 +95,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
 
             λ, μ = A[xT_nel:xT_nel + λT_nel], A[-μT_nel-1:-1]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
-            λ_tspan = torch.stack([dLdt[0], dLdt[-1]])
-            return (μ, λ, λ_tspan, None, None, None)
+            return (μ, λ, dLdt + grad_output[0], None, None, None)
 
     return _ODEProblemFunc
 
-- 
2.43.0


From 00672dc093990afd0b3a65335ac2bbe0847609f3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 12/41] fix: interpolated adjoint on all solver points, with
 the adjoint solver, forward and backward in time

---
 torchdyn/numerics/sensitivity.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 9759456..6821c0d 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -123,13 +123,15 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             xT_shape, λT_shape, μT_shape = xT.shape, λT.shape, μT.shape
             A = torch.cat([λT.flatten(), μT.flatten()])
 
-            spline_coeffs = natural_cubic_coeffs(x=sol.permute(1, 0, 2).detach(), t=t_sol)
-            x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol)
+            # splines are defined on increasing times
+            direction = 1 if t_sol[-1] > t_sol[0] else -1
+            spline_coeffs = natural_cubic_coeffs(x=sol.permute(1, 0, 2).detach(), t=direction * t_sol)
+            x_spline = CubicSpline(coeffs=spline_coeffs, t=direction * t_sol)
 
             # define adjoint dynamics
             def adjoint_dynamics(t, A):
                 if len(t.shape) > 0: t = t[0]
-                x = x_spline.evaluate(t).requires_grad_(True)
+                x = x_spline.evaluate(direction * t).requires_grad_(True)
                 t = t.requires_grad_(True)
                 λ, μ = A[:λT_nel], A[-μT_nel:]
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
@@ -148,8 +150,10 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
 
             # solve the adjoint equation
             n_elements = (λT_nel, μT_nel)
-            for i in range(len(t_span) - 1, 0, -1):
-                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0), solver, atol=atol, rtol=rtol)
+            # `grad_output` has one entry for each point of `t_sol`, a superset of `t_span`
+            for i in range(len(t_sol) - 1, 0, -1):
+                t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), solver_adjoint,
+                                      atol=atol_adjoint, rtol=rtol_adjoint)
                 # prepare adjoint state for next interval
                 A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                 A[:λT_nel] += grad_output[-1][i - 1].flatten()
-- 
2.43.0


From 2a059c38a00e74b2aa1a00e02f09351687052a9c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 13/41] fix: parallel-in-time solvers with at least as many
 iterations as shooting intervals

---
 torchdyn/numerics/solvers/ode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 7406fb9..adc858d 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -234,7 +234,8 @@ class MSZero(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        while i <= maxiter:
+        # the first `i` shooting parameters are exact after `i` iterations
+        while i <= min(maxiter, n_subinterv - 2):
             i += 1
             B_coarse = odeint_func(f, B[i-1:], sub_t_span, solver=self.coarse_method)[1][-1]
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
@@ -264,7 +265,8 @@ class MSBackward(MultipleShootingDiffeqSolver):
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
         B = B.requires_grad_(True)
-        while i <= maxiter:
+        # the first `i` shooting parameters are exact after `i` iterations
+        while i <= min(maxiter, n_subinterv - 2):
             i += 1
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
             B_out = torch.zeros_like(B)
-- 
2.43.0


From 99a6bd89c96c2e921f319771bfc04efae7485b93 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 14/41] fix: Newton correction of discrete-adjoint multiple
 shooting

Index the fine solution from the first active interval and apply the Jacobian, not its
transpose, to the shooting defects.
---
 torchdyn/numerics/solvers/ode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index adc858d..06a1292 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -275,8 +275,9 @@ class MSBackward(MultipleShootingDiffeqSolver):
             for m in range(i, n_subinterv):
                 # instead of jvps here the full jacobian can be computed and the vector products
                 # which involve `B_in` can be performed. Trading memory ++ for speed ++
-                J_blk = torch.autograd.grad(B_fine[m-1], B, B_in - B[m-1], retain_graph=True)[0][m-1]
-                B_in = B_fine[m-1] + J_blk
+                flow = lambda b: odeint_func(f, b, sub_t_span, solver=self.fine_method)[1][-1]
+                J_blk = torch.autograd.functional.jvp(flow, B[m-1], B_in - B[m-1], create_graph=True)[1]
+                B_in = B_fine[m-i] + J_blk
                 B_out[m] = B_in
             del B # manually free graph
             B = B_out
-- 
2.43.0


From 32093bae10b19eeb99dc43522ebf16d47ce9c9b2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 15/41] fix: take fine_steps steps of the fine solver in each
 shooting interval

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 06a1292..3d9f1dc 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -232,7 +232,7 @@ class MSZero(MultipleShootingDiffeqSolver):
     # TODO (qol): extend to time-variant ODEs by using shifted_odeint
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps + 1).to(x)
         i = 0
         # the first `i` shooting parameters are exact after `i` iterations
         while i <= min(maxiter, n_subinterv - 2):
@@ -262,7 +262,7 @@ class MSBackward(MultipleShootingDiffeqSolver):
 
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps + 1).to(x)
         i = 0
         B = B.requires_grad_(True)
         # the first `i` shooting parameters are exact after `i` iterations
-- 
2.43.0


From 488ab7e39ad7c5a642612b9229559527c4992442 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 16/41] fix: multiple shooting solvers with solver instances as
 coarse and fine methods

---
 torchdyn/numerics/solvers/templates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index f7e5e36..8dd6263 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -69,8 +69,8 @@ class MultipleShootingDiffeqSolver(nn.Module):
         from torchdyn.numerics.solvers.ode import str_to_solver
 
         super(MultipleShootingDiffeqSolver, self).__init__()
-        if type(coarse_method) == str: self.coarse_method = str_to_solver(coarse_method)
-        if type(fine_method) == str: self.fine_method = str_to_solver(fine_method)
+        self.coarse_method = str_to_solver(coarse_method) if type(coarse_method) == str else coarse_method
+        self.fine_method = str_to_solver(fine_method) if type(fine_method) == str else fine_method
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
-- 
2.43.0


From a78e4a7836b39d6e4ba7d62333faa36f81628df6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 17/41] fix: pass the parallel solver and its iterations to
 adjoint multiple shooting

---
 torchdyn/core/problems.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 918bb04..7614fd5 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -216,7 +216,7 @@ class MultipleShootingProblem(ODEProblem):
             return _gather_odefunc_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -225,14 +225,14 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
                 self.maxiter,
+                self.fine_steps,
             ).apply
         elif self.sensalg == "interpolated_adjoint":
             return _gather_odefunc_interp_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -241,8 +241,8 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
                 self.maxiter,
+                self.fine_steps,
             ).apply
 
     def odeint(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
-- 
2.43.0


From df729efd2121020ebb8fe55c7bde29b1d69334ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 18/41] fix: implicit Euler evaluates the vector field at the
 end of the step

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 3d9f1dc..755f875 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -188,7 +188,7 @@ class ImplicitEuler(DiffEqSolver):
 
     @staticmethod
     def _residual(f, x, t, dt, x_sol):
-        f_sol = f(t, x_sol)
+        f_sol = f(t + dt, x_sol)
         return torch.sum((x_sol - x - dt*f_sol)**2)
 
     def step(self, f, x, t, dt, k1=None, args=None):
-- 
2.43.0


From db6d6bc744ca47c494140b7f316e8719c993045e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 19/41] fix: localisation, jump budget and checkpoints of
 hybrid integration

Detect events on accepted steps only, keep the triggering event while bisecting to event_tol,
count jumps against j_span and do not skip checkpoints on rejected steps or events.
---
 torchdyn/numerics/odeint.py | 53 +++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index fc07810..f9e0de9 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -234,27 +234,41 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	while t < T and jnum < j_span:
 
 		############### checkpointing ###############################
-		if t + dt > t_span[-1]:
-			dt = t_span[-1] - t
+		t_new = t + dt
+		if t_new > T:
+			dt, t_new = T - t, T[None]
 		if t_eval is not None:
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
 				dt_old, ckpt_flag = dt, True
-				dt = t_eval[ckpt_counter] - t
-				ckpt_counter += 1
+				t_new = t_eval[ckpt_counter][None]
+				dt = t_new - t
 
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
 
+		################# compute error #############################
+		if seminorm[0] == True:
+			state_dim = seminorm[1]
+			error = x_err[:state_dim]
+			error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
+		else:
+			error = x_err
+			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
+
+		error_ratio = hairer_norm(error_scaled)
+		accept_step = error_ratio <= 1
+
 		################ callback and events ########################
-		new_event_states = EventState([cb.check_event(t + dt, x_new) for cb in callbacks])
+		new_event_states = EventState([cb.check_event(t_new, x_new) for cb in callbacks])
 		triggered_events = sum([(a_ != b_)  & (b_ == False)
 								for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 
 
 		# if event, close in on switching state in [t, t + Δt] via bisection
-		if triggered_events > 0:
+		if accept_step and triggered_events > 0:
 
 			dt_pre, t_inner, dt_inner, x_inner, niters = dt, t, dt, x, 0
+			event_evid = new_event_states.evid
 			max_iters = 100  # TODO (numerics): compute tol as function of tolerances
 
 			while niters < max_iters and event_tol < dt_inner:
@@ -271,14 +285,15 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 				if triggered_events == 0: # if no event, advance start point of bisection search
 					x_inner = x_
 					t_inner = t_inner + dt_inner
-					dt_inner = dt
 					k1 = f_new
 					# TODO (qol): optional save
 					#sol.append(x_inner.reshape(x_shape))
 					#eval_times.append(t_inner.reshape(t.shape))
+				else:
+					event_evid = new_event_states.evid
 			x = x_inner
 			t = t_inner
-			i = min([i for i, x in enumerate(new_event_states.evid) if x == True])
+			i = min([i for i, x in enumerate(event_evid) if x == True])
 
 			# save state and time BEFORE jump
 			sol.append(x.reshape(x_shape))
@@ -286,6 +301,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# apply jump func.
 			x = callbacks[i].jump_map(t, x)
+			jnum = jnum + 1
 
 			# save state and time AFTER jump
 			sol.append(x.reshape(x_shape))
@@ -294,29 +310,20 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			# reset k1
 			k1 = None
 			dt = dt_pre
+			ckpt_flag = False
 
 		else:
-			################# compute error #############################
-			if seminorm[0] == True:
-				state_dim = seminorm[1]
-				error = x_err[:state_dim]
-				error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
-			else:
-				error = x_err
-				error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
-
-			error_ratio = hairer_norm(error_scaled)
-			accept_step = error_ratio <= 1
-
 			if accept_step:
-				t = t + dt
+				t = t_new
 				x = x_new
 				sol.append(x.reshape(x_shape))
 				eval_times.append(t.reshape(t.shape))
 				k1 = f_new
+				# a checkpoint is passed only once a step that reaches it is accepted
+				while ckpt_counter < len(t_eval) and t >= t_eval[ckpt_counter]: ckpt_counter += 1
 
 			if ckpt_flag:
-				dt = dt_old - dt
+				if accept_step: dt = dt_old - dt
 				ckpt_flag = False
 			################ stepsize control ###########################
 			dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From 1e20688734d38c169ef2220ff09d7dda2379389a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 20/41] fix: evaluation of ConservativeLinearSNF

---
 torchdyn/models/energy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/models/energy.py b/torchdyn/models/energy.py
index 0cedd20..a4b9155 100644
--- a/torchdyn/models/energy.py
+++ b/torchdyn/models/energy.py
@@ -37,13 +37,13 @@ class ConservativeLinearSNF(nn.Module):
         with torch.set_grad_enabled(True):
             self.n = x.shape[1] // 2
             x = x.requires_grad_(True)
-            dHdx = torch.autograd.grad(self.H(x).sum(), x, create_graph=True)[0]
-            dHdx = torch.einsum('ijk, ij -> ik', self._skew(x), dHdx)
+            dHdx = torch.autograd.grad(self.energy(x).sum(), x, create_graph=True)[0]
+            dHdx = torch.einsum('ijk, ij -> ik', self._generate_skew(x), dHdx)
         return dHdx
 
     def _generate_skew(self, x):
-        M = self.J(x).reshape(-1, *x.shape[1:])
-        return (M - M.transpose(0, 2, 1)) / 2
+        M = self.J(x).reshape(-1, x.shape[1], x.shape[1])
+        return (M - M.transpose(1, 2)) / 2
 
 class GNF(nn.Module):
     def __init__(self, energy:nn.Module):
-- 
2.43.0


From 8a2743f759b19a3aa1ff7771ac5136703dad4764 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 21/41] fix: Galerkin layers without bias

---
 torchdyn/nn/galerkin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 217d12b..a32e04b 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -222,7 +222,8 @@ class GalLinear(GalLayer):
         input = input[:,:-1]
         w = self.calculate_weights(t)
         self.weight = w[0:self.in_features*self.out_features].reshape(self.out_features, self.in_features)
-        self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
+        if self.bias is not None:
+            self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
         return torch.nn.functional.linear(input, self.weight, self.bias)
 
 
@@ -269,5 +270,6 @@ class GalConv2d(GalLayer):
         w = self.calculate_weights(t)
         n = self.oc*self.ic*self.ks*self.ks
         self.weight = w[0:n].reshape(self.oc, self.ic, self.ks, self.ks)
-        self.bias = w[n:].reshape(self.oc)
+        if self.bias is not None:
+            self.bias = w[n:].reshape(self.oc)
         return torch.nn.functional.conv2d(input, self.weight, self.bias, stride=self.stride, padding=self.pad)
-- 
2.43.0


From b1b30eeca55c7f7646076e87693ce55929ad0533 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 22/41] fix: centers and scales of radial basis expansions

---
 torchdyn/nn/galerkin.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index a32e04b..41bc565 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -31,11 +31,11 @@ class GaussianRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = (n_range - self.centers) / self.eps_scales
@@ -60,11 +60,11 @@ class VanillaRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
@@ -89,11 +89,11 @@ class MultiquadRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
-- 
2.43.0


From 07343d176a9e483926355ae33caa5fa810b1485f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 23/41] fix: concentric spheres with an odd number of samples

---
 torchdyn/datasets/static_datasets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index ec67452..749363f 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -61,10 +61,11 @@ def generate_concentric_spheres(n_samples:int=100, noise:float=1e-4, dim:int=3,
     X[:n_samples // 2] = cat(samples)
     X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
     samples = []
-    for i in range(n_samples // 2):
+    n_outer = n_samples - n_samples // 2
+    for i in range(n_outer):
         samples.append(randnsphere(dim, outer_radius)[None, :])
     X[n_samples // 2:] = cat(samples)
-    X[n_samples // 2:] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
+    X[n_samples // 2:] += zeros((n_outer, dim)).normal_(0, std=noise)
     return X, y
 
 
-- 
2.43.0


From 2a9333336c1a84af2c15ee66ec51945483c307eb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 24/41] fix: place gaussians of more than two dimensions on the
 ring or spiral

---
 torchdyn/datasets/static_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index 749363f..25be7e1 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -138,7 +138,7 @@ def generate_gaussians(n_samples=100, n_gaussians=7, dim=2,
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians
-        if dim > 2: dist.loc = torch.Tensor([radius*torch.cos(angle), torch.sin(angle), radius*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radius*torch.cos(angle), radius*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radius*torch.cos(angle), radius*torch.sin(angle)])
         X[i*n_samples:(i+1)*n_samples] = dist.sample(sample_shape=(n_samples,)) + torch.randn(dim)*noise
         y[i*n_samples:(i+1)*n_samples] = i
@@ -180,7 +180,7 @@ def generate_gaussians_spiral(n_samples=100, n_gaussians=7, n_gaussians_per_loop
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians_per_loop
-        if dim > 2: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), torch.sin(angle), radiuses[i]*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle)])
         dist.scale = std_devs[i]
 
-- 
2.43.0


From 1e5ad4dfc88d543488aa0be898e624da62388bcb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 25/41] fix: NeuralSDE.trajectory

---
 torchdyn/core/neuralde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index 7be9b3b..f553896 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -252,15 +252,15 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
             return sol
 
     def trajectory(self, x: torch.Tensor, t_span: torch.Tensor):
-        x = self._prep_sdeint(x)
-        sol = sdeint(
+        x, t_span = self._prep_sdeint(x, t_span)
+        _, sol = sdeint(
             self.defunc,
             x,
             t_span,
             solver=self.solver,
+            bm=self.bm,
             rtol=self.rtol,
             atol=self.atol,
-            dt=self.ds,
         )
         return sol
 
-- 
2.43.0


From daa2ff9d35ae80f9f1a067fe87117ec17832ddd9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:23:54 +0000
Subject: [PATCH 26/41] fix: Milstein solvers check the type of the SDE

---
 torchdyn/numerics/solvers/sde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 328f440..4f0de97 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -94,6 +94,7 @@ class MilesteinIto(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "ito"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2 - dt
@@ -103,6 +104,7 @@ class MilesteinStratonovich(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "stratonovich"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2
-- 
2.43.0


From 87a0b58a28876b2ab912fe6f4bc758d382ad9804 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 27/41] fix: deep copies of ODE problems and Neural ODEs

---
 torchdyn/core/problems.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 7614fd5..674b473 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -80,33 +80,25 @@ class ODEProblem(nn.Module):
         self.vf, self.order, self.sensalg = vector_field, order, sensitivity
         optimizable_params = tuple(optimizable_params)
 
-        if len(tuple(self.vf.parameters())) > 0:
-            self.vf_params = torch.cat(
-                [p.contiguous().flatten() for p in self.vf.parameters()]
-            )
-
-        elif len(optimizable_params) > 0:
+        has_params = len(tuple(self.vf.parameters())) > 0
+        if not has_params and len(optimizable_params) > 0:
             # use `optimizable_parameters` if f itself does not have a .parameters() iterable
             # TODO: advanced logic to retain naming in case `state_dicts()` are passed
             for k, p in enumerate(optimizable_params):
                 self.vf.register_parameter(f"optimizable_parameter_{k}", p)
-            self.vf_params = torch.cat(
-                [p.contiguous().flatten() for p in optimizable_params]
-            )
 
-        else:
+        elif not has_params:
             print("Your vector field does not have `nn.Parameters` to optimize.")
             dummy_parameter = nn.Parameter(torch.zeros(1))
             self.vf.register_parameter("dummy_parameter", dummy_parameter)
-            self.vf_params = torch.cat(
-                [p.contiguous().flatten() for p in self.vf.parameters()]
-            )
+
+    @property
+    def vf_params(self):
+        "Flat view of the vector field parameters (not stored: non-leaf tensors cannot be deep-copied)"
+        return torch.cat([p.contiguous().flatten() for p in self.vf.parameters()])
 
     def _autograd_func(self):
         "create autograd functions for backward pass"
-        self.vf_params = torch.cat(
-            [p.contiguous().flatten() for p in self.vf.parameters()]
-        )
         if (
             self.sensalg == "adjoint"
         ):  # alias .apply as direct call to preserve consistency of call signature
@@ -207,9 +199,6 @@ class MultipleShootingProblem(ODEProblem):
 
     def _autograd_func(self):
         "create autograd functions for backward pass"
-        self.vf_params = torch.cat(
-            [p.contiguous().flatten() for p in self.vf.parameters()]
-        )
         if (
             self.sensalg == "adjoint"
         ):  # alias .apply as direct call to preserve consistency of call signature
-- 
2.43.0


From 7a201675afa7ca853cacddd219d02789b1b0a84c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 28/41] fix: import of torchdyn.models.hybrid and reversed
 sequences

---
 torchdyn/core/defunc.py   | 14 ++++++++++++++
 torchdyn/models/hybrid.py |  5 +++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 2851dff..2686e04 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -146,3 +146,17 @@ class SDEFunc(nn.Module):
                 return self.g_func(x)
             else:
                 return self.g_func(t, x)
+
+
+class LSDEFunc(SDEFunc):
+    def __init__(self, f: Callable, g: Callable, h: Callable, order: int = 1):
+        """"Special vector field wrapper for latent Neural SDEs.
+
+        Args:
+            f (Callable): callable defining the posterior drift
+            g (Callable): callable defining the diffusion term
+            h (Callable): callable defining the prior drift
+            order (int, optional): order of the differential equation. Defaults to 1.
+        """
+        super().__init__(f, g, order)
+        self.h = h
diff --git a/torchdyn/models/hybrid.py b/torchdyn/models/hybrid.py
index b95958a..ea3e363 100644
--- a/torchdyn/models/hybrid.py
+++ b/torchdyn/models/hybrid.py
@@ -19,7 +19,8 @@ from torch.distributions import Normal, kl_divergence
 import pytorch_lightning as pl
 import torchsde
 
-from torchdyn.models import LSDEFunc
+from torchdyn.core.defunc import LSDEFunc
+from torchdyn.core.neuralde import NeuralSDE
 
 
 class HybridNeuralDE(nn.Module):
@@ -42,7 +43,7 @@ class HybridNeuralDE(nn.Module):
     def forward(self, x):
         h = c = self._init_latent(x)
         Y = torch.zeros(x.shape[0], *h.shape).to(x)
-        if self.reverse: x_t = x_t.flip(0)
+        if self.reverse: x = x.flip(0)
         for t, x_t in enumerate(x):
             h, c = self.jump_func(x_t, h, c)
             h = self.flow(h)
-- 
2.43.0


From daca58ae7162b0729a9a9d9e803055da168f54ac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 29/41] fix: keep the step size of double precision
 integrations in double precision

---
 torchdyn/numerics/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index 9a7d237..59660a1 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -56,6 +56,8 @@ def init_step(f, f0, x0, t0, order, atol, rtol):
 
 @torch.no_grad()
 def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
+    # the factors of solvers are single precision: `dt` retains its own
+    safety, min_factor, max_factor = safety.to(dt), min_factor.to(dt), max_factor.to(dt)
     if error_ratio == 0: return dt * max_factor
     if error_ratio < 1: min_factor = torch.ones_like(dt)
     exponent = torch.tensor(order, dtype=dt.dtype, device=dt.device).reciprocal()
-- 
2.43.0


From aa01268c4c74767398ba5d7835771374bd33e583 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 30/41] fix: arguments of torchcde splines in dense_output

---
 torchdyn/numerics/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index 59660a1..552416a 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -75,8 +75,8 @@ def save_at_index(t_span, save_at):
 
 def dense_output(sol, t_sol, t_eval, return_spline=False):
     t_sol = t_sol.to(sol)
-    spline_coeff = hermite_cubic_coefficients_with_backward_differences(t_sol, sol.permute(1, 0, 2))
-    sol_spline = CubicSpline(t_sol, spline_coeff)
+    spline_coeff = hermite_cubic_coefficients_with_backward_differences(x=sol.permute(1, 0, 2), t=t_sol)
+    sol_spline = CubicSpline(coeffs=spline_coeff, t=t_sol)
     sol_eval = torch.stack([sol_spline.evaluate(t) for t in t_eval])
     if return_spline:
         return sol_eval, sol_spline
-- 
2.43.0


From e6f970830096d52bd37310d3d2f2b3e5496e3e4f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:19:17 +0000
Subject: [PATCH 31/41] fix: symplectic integration over reversed times

---
 torchdyn/numerics/odeint.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index f9e0de9..bf36f88 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -113,18 +113,18 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		save_at (Union[List, Tensor], optional): Defaults to t_span
 	"""
 	if type(t_span) == list: t_span = torch.cat([torch.as_tensor(t).reshape(-1) for t in t_span])
-	time_is_reversed = bool(t_span[1] < t_span[0])
-	if time_is_reversed:
-		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
-		f_ = lambda t, x: -f(-t, x)
-		t_span, save_at = -t_span, -torch.as_tensor(save_at)
-	else: f_ = f
-
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
 		solver = str_to_solver(solver, x.dtype)
 	x, t_span = solver.sync_device_dtype(x, t_span)
 	stepping_class = solver.stepping_class
+	time_is_reversed = bool(t_span[1] < t_span[0])
+	# fixed-step methods take negative steps: the velocities in `x` are velocities w.r.t. `t`, also if time is reversed
+	if time_is_reversed and stepping_class == 'adaptive':
+		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
+		f_ = lambda t, x: -f(-t, x)
+		t_span, save_at = -t_span, -torch.as_tensor(save_at)
+	else: f_ = f
 
 	# additional bookkeeping for symplectic solvers
 	if not hasattr(f, 'order'):
@@ -141,8 +141,7 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if stepping_class == 'fixed':
 			if atol != odeint_symplectic.__defaults__[0] or rtol != odeint_symplectic.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
-			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
-			return (-t_eval if time_is_reversed else t_eval), sol
+			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			if f.order == 1:
-- 
2.43.0


From 566e3b1f6ce07f57762ed0cb4a8b1cbf4654518c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 32/41] fix: time spans given to sdeint as lists of numbers

---
 torchdyn/numerics/sdeint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index ec8c578..cc7f01a 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -51,7 +51,7 @@ def sdeint(
     sde = check_sde(sde)
 
     if type(t_span) == list:
-        t_span = torch.cat(t_span)
+        t_span = torch.cat([torch.as_tensor(t).reshape(-1) for t in t_span])
 
     if type(solver) == str:
         solver = sde_str_to_solver(solver, sde, bm, x.dtype)
-- 
2.43.0


From cb27f4e8ec122215e3ca74146f51d6a19131b41f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 33/41] fix: ODEProblem integrates equations of the requested
 order

---
 torchdyn/core/problems.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 674b473..c0bb67d 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -11,7 +11,7 @@ from torchdyn.numerics.odeint import odeint, odeint_mshooting
 from torchdyn.numerics.utils import save_at_index
 from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
 from torchdyn.core.utils import standardize_vf_call_signature
-from torchdyn.core.defunc import SDEFunc
+from torchdyn.core.defunc import DEFunc, SDEFunc
 from torchdyn.numerics import sdeint
 from torchsde._brownian import BrownianInterval
 
@@ -75,7 +75,8 @@ class ODEProblem(nn.Module):
         self.sensitivity, self.integral_loss = sensitivity, integral_loss
 
         # wrap vector field if `t, x` is not the call signature
-        vector_field = standardize_vf_call_signature(vector_field)
+        higher_order = order > 1 and not isinstance(vector_field, DEFunc)
+        vector_field = standardize_vf_call_signature(vector_field, order, defunc_wrap=higher_order)
 
         self.vf, self.order, self.sensalg = vector_field, order, sensitivity
         optimizable_params = tuple(optimizable_params)
-- 
2.43.0


From cb320e1da66936b8e60d90883ab2f9a4656269dd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:00:34 +0000
Subject: [PATCH 34/41] fix: line searches of root_find search along the step
 that is taken

---
 torchdyn/numerics/solvers/root.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/torchdyn/numerics/solvers/root.py b/torchdyn/numerics/solvers/root.py
index d17b6d9..bddb8c9 100644
--- a/torchdyn/numerics/solvers/root.py
+++ b/torchdyn/numerics/solvers/root.py
@@ -28,8 +28,11 @@ class Broyden:
     def __init__(self):
         pass
 
+    def direction(self, J_inv, geval):
+        return einsum('...o,...io->...i', geval, J_inv)
+
     def step(self, g, z0, J_inv, geval_old, alpha=1, **kwargs):
-        dz = einsum('...o,...io->...i', geval_old, J_inv)
+        dz = self.direction(J_inv, geval_old)
         z = z0 - alpha * dz
         geval = g(z)
         Δz, Δg = z - z0, geval - geval_old
@@ -116,8 +119,8 @@ class LineSearcher(object):
         raise NotImplementedError("")
 
     def phi(self, alpha):
-        "Objective function for line search min_alpha phi(alpha)"
-        return _safe_norm(self.g(self.z0 + alpha * self.dz))**2
+        "Objective function for line search min_alpha phi(alpha), along the step taken by the solvers"
+        return _safe_norm(self.g(self.z0 - alpha * self.dz))**2
 
 
 class NaiveSearch(LineSearcher):
@@ -275,14 +278,14 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
     while iteration <= maxiters:
         iteration += 1
 
-        # solver step
-        z, dz, geval, J_inv = solver.step(g=g, z0=z, J_inv=J_inv, geval_old=geval, alpha=alpha)
-
-        # line search subroutines
+        # line search subroutines: choose the size of the next solver step
         if SEARCH_METHODS[search_method] is not None:
-            line_searcher = SEARCH_METHODS[search_method](g, geval, dz, z)
+            line_searcher = SEARCH_METHODS[search_method](g, geval, solver.direction(J_inv, geval), z)
             alpha, phi = line_searcher.search()
 
+        # solver step
+        z, dz, geval, J_inv = solver.step(g=g, z0=z, J_inv=J_inv, geval_old=geval, alpha=alpha)
+
         # logging
         if verbose and logger:
             logger.log({'geval': geval,
-- 
2.43.0


From 8ecfd12ee78e153cdd1815bd33fe39a018a24742 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:29:00 +0000
Subject: [PATCH 35/41] fix: Galerkin layers in double precision

---
 torchdyn/nn/galerkin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 41bc565..1c7068b 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -176,15 +176,15 @@ class GalLayer(nn.Module):
         
     def calculate_weights(self, t):
         "Expands `t` following the chosen eigenbasis"
-        n_range = torch.linspace(0, self.deg, self.deg).to(self.coeffs.device)
-        basis = self.expfunc(n_range, t*self.dilation.to(self.coeffs.device) + self.shift.to(self.coeffs.device))
+        n_range = torch.linspace(0, self.deg, self.deg).to(self.coeffs)
+        basis = self.expfunc(n_range, t*self.dilation.to(self.coeffs) + self.shift.to(self.coeffs))
         B = []  
         for i in range(self.n_eig):
-            Bin = torch.eye(self.deg).to(self.coeffs.device)
+            Bin = torch.eye(self.deg).to(self.coeffs)
             Bin[range(self.deg), range(self.deg)] = basis[i]
             B.append(Bin)
-        B = torch.cat(B, 1).to(self.coeffs.device)
-        coeffs = torch.cat([self.coeffs[:,:,i] for i in range(self.n_eig)],1).transpose(0,1).to(self.coeffs.device) 
+        B = torch.cat(B, 1).to(self.coeffs)
+        coeffs = torch.cat([self.coeffs[:,:,i] for i in range(self.n_eig)],1).transpose(0,1).to(self.coeffs) 
         X = torch.matmul(B, coeffs)
         return X.sum(0)
 
-- 
2.43.0


From a15c6c5095481ac31020fd46537e21e989062078 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:29:32 +0000
Subject: [PATCH 36/41] fix: deep copies of Galerkin layers after a forward
 pass

---
 torchdyn/nn/galerkin.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 1c7068b..fdb1373 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -188,6 +188,13 @@ class GalLayer(nn.Module):
         X = torch.matmul(B, coeffs)
         return X.sum(0)
 
+    def __getstate__(self):
+        # weights of the last call are not leaves of the graph and cannot be deep-copied
+        state = self.__dict__.copy()
+        for name in ('weight', 'bias'):
+            if isinstance(state.get(name), torch.Tensor): state[name] = state[name].detach()
+        return state
+
 
 class GalLinear(GalLayer):
     """Linear Galerkin layer for depth--variant neural differential equations. Introduced in https://arxiv.org/abs/2002.08071
-- 
2.43.0


From 83e22c0fe23fa09bef3576c04bda50b72750289d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:29:32 +0000
Subject: [PATCH 37/41] fix: hybrid models in double precision

---
 torchdyn/models/hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/models/hybrid.py b/torchdyn/models/hybrid.py
index ea3e363..d3efd37 100644
--- a/torchdyn/models/hybrid.py
+++ b/torchdyn/models/hybrid.py
@@ -53,7 +53,7 @@ class HybridNeuralDE(nn.Module):
 
     def _init_latent(self, x):
         x = x[0]
-        return torch.zeros(x.shape[0], self.jump.hidden_size).to(x.device)
+        return torch.zeros(x.shape[0], self.jump.hidden_size).to(x)
 
     def _jump_latent(self, *args):
         x_t, h, c = args[:3]
-- 
2.43.0


From 2d47e2d9db697647945b5179f2f6ebf7c537dbe4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:35:13 +0000
Subject: [PATCH 38/41] fix: adjoint sensitivities of vector fields with frozen
 parameters

---
 torchdyn/numerics/sensitivity.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 6821c0d..1415b33 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -27,6 +27,16 @@ def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator
         return odeint_mshooting(vf, x, t_span, solver, B0=B0, fine_steps=fine_steps, maxiter=maxiter)
 
 
+def adjoint_vjp(dx, x, t, params, λ):
+    "Vector-Jacobian products of `dx` w.r.t. state, time and parameters (flattened), zero for unused and frozen parameters"
+    trainable = tuple(p for p in params if p.requires_grad)
+    dλ, dt, *dμ = grad(dx, (x, t) + trainable, λ, allow_unused=True, retain_graph=False)
+    dμ = iter(dμ)
+    dμ = [next(dμ) if p.requires_grad else None for p in params]
+    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten() for el, p in zip(dμ, params)], dim=-1)
+    return dλ, dt, dμ
+
+
 # TODO: optimize and make conditional gradient computations w.r.t end times
 # TODO: link `seminorm` arg from `ODEProblem`
 def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, solver_adjoint, 
@@ -61,15 +71,12 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 with torch.set_grad_enabled(True):
                     x, t = x.requires_grad_(True), t.requires_grad_(True)
                     dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
-                                    allow_unused=True, retain_graph=False))
+                    dλ, dt, dμ = adjoint_vjp(dx, x, t, tuple(vf.parameters()), -λ)
 
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
-                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                     if dt == None: dt = torch.zeros(1).to(t)
                     if len(t.shape) == 0: dt = dt.unsqueeze(0)
                 return torch.cat([dx.flatten(), dλ.flatten(), dμ.flatten(), dt.flatten()])
@@ -137,15 +144,12 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
                     dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
-                                        allow_unused=True, retain_graph=False))
+                    dλ, dt, dμ = adjoint_vjp(dx, x, t, tuple(vf.parameters()), -λ)
 
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
-                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                 return torch.cat([dλ.flatten(), dμ.flatten()])
 
             # solve the adjoint equation
-- 
2.43.0


From a2b4e3a470237be272b7ef5f6aa5d33c9ada7428 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 39/41] fix: adjoint sensitivities of vector fields that do not
 depend on the state

---
 torchdyn/numerics/sensitivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 1415b33..9e15bf7 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -28,9 +28,10 @@ def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator
 
 
 def adjoint_vjp(dx, x, t, params, λ):
-    "Vector-Jacobian products of `dx` w.r.t. state, time and parameters (flattened), zero for unused and frozen parameters"
+    "Vector-Jacobian products of `dx` w.r.t. state, time and parameters (flattened), zero for unused inputs and frozen parameters"
     trainable = tuple(p for p in params if p.requires_grad)
     dλ, dt, *dμ = grad(dx, (x, t) + trainable, λ, allow_unused=True, retain_graph=False)
+    if dλ is None: dλ = torch.zeros_like(x)
     dμ = iter(dμ)
     dμ = [next(dμ) if p.requires_grad else None for p in params]
     dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten() for el, p in zip(dμ, params)], dim=-1)
-- 
2.43.0


From 5bef062c7660c9947efcf0ccc2e32a2d993b323d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 02:59:57 +0000
Subject: [PATCH 40/41] fix: implicit Euler accepts states whose memory layout
 is not contiguous

---
 torchdyn/numerics/solvers/ode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 755f875..8f9c817 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -192,14 +192,16 @@ class ImplicitEuler(DiffEqSolver):
         return torch.sum((x_sol - x - dt*f_sol)**2)
 
     def step(self, f, x, t, dt, k1=None, args=None):
-        x_sol = x.clone()
+        # LBFGS requires contiguous parameters and gradients
+        x_sol = x.clone(memory_format=torch.contiguous_format)
         x_sol = nn.Parameter(data=x_sol)
         opt = self.opt([x_sol], lr=1, max_iter=self.max_iters, max_eval=10*self.max_iters,
         tolerance_grad=1.e-12, tolerance_change=1.e-12, history_size=100, line_search_fn='strong_wolfe')
         def closure():
             opt.zero_grad()
             residual = ImplicitEuler._residual(f, x, t, dt, x_sol)
-            x_sol.grad, = torch.autograd.grad(residual, x_sol, only_inputs=True, allow_unused=False)
+            grad, = torch.autograd.grad(residual, x_sol, only_inputs=True, allow_unused=False)
+            x_sol.grad = grad.contiguous()
             return residual
         opt.step(closure)
         return None, x_sol, None
-- 
2.43.0


From fe1e6dd7eef5b96ad5232415b4178711fd2c0459 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:49:37 +0000
Subject: [PATCH 41/41] fix: adaptive integration of second-order fields over
 reversed times

---
 torchdyn/numerics/odeint.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index bf36f88..eed9bfb 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -146,12 +146,14 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 			t = t_span[0]
 			if f.order == 1:
 				pos = x[..., : solver.x_shape]
-				k1 = f(t, pos)
-				dt = init_step(f, k1, pos, t, solver.order, atol, rtol)
+				k1 = f_(t, pos)
+				dt = init_step(f_, k1, pos, t, solver.order, atol, rtol)
 			else:
-				k1 = f(t, x)
-				dt = init_step(f, k1, x, t, solver.order, atol, rtol)
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
+				k1 = f_(t, x)
+				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
+			# evaluation times are reported in the (possibly reversed) time domain of the user
+			return (-t_eval if time_is_reversed else t_eval), sol
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0

