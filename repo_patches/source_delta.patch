From 39c9a188b557483a80075fdc7a518e970faee04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:56 +0000
Subject: [PATCH 01/42] fix: sign of lagged variables in the constraint
 equation

Together with the shock coefficients, the (already normalized) coefficients on
lagged variables were negated once more, so that e.g. r = rho*r(-1) + ... was
solved as r = -rho*r(-1) + ...
---
 pydsge/gensys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 456947a..6230187 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -249,6 +249,8 @@ def gen_sys(
     # y-space is the space of the original variables augmented by the shocks
     c_arg = list(vv0).index(str(self.const_var))
     fc0 = -fc0 / fb0[c_arg]
+    if fd0 is not None:
+        fd0 = -fd0 / fb0[c_arg]
     fb0 = -fb0 / fb0[c_arg]
 
     # create auxiliary vars for those both in A & C
@@ -291,7 +293,7 @@ def gen_sys(
     CC0 = np.block([[CC0, DD0], [np.zeros((dimeps, AA0.shape[1]))]])
     fb0 = np.pad(fb0, (0, dimeps))
     if fd0 is not None:
-        fc0 = -np.hstack((fc0, fd0))
+        fc0 = np.hstack((fc0, fd0))
     else:
         fc0 = np.pad(fc0, (0, dimeps))
 
-- 
2.43.0


From f0500db84f784a9f9b3b0853cb33df95f2797f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:56 +0000
Subject: [PATCH 02/42] fix: forward-looking variables that enter the
 constraint with a lag

Such a variable was treated as a pure state, which dropped its lead from the
model. Give it the same auxiliary lag as any other hybrid variable.
---
 pydsge/gensys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 6230187..3d3b562 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -261,7 +261,7 @@ def gen_sys(
         print("[gen_sys:]".ljust(15, " ") + f" Backward-looking variables: {bwd_vars}", flush=True)
 
 
-    inall = ~fast0(AA0, 0) & ~fast0(CC0, 0)
+    inall = ~fast0(AA0, 0) & (~fast0(CC0, 0) | ~fast0(fc0))
 
     if verbose > 1:
         hyb_vars = [self.variables[i].name for i, e in enumerate(inall) if e]
@@ -283,6 +283,8 @@ def gen_sys(
         BB0[-sum(inall):, : -sum(inall)][:, inall] = -np.eye(sum(inall))
         CC0[:, -sum(inall):] = CC0[:, : -sum(inall)][:, inall]
         CC0[:, : -sum(inall)][:, inall] = 0
+        fc0[-sum(inall):] = fc0[: -sum(inall)][inall]
+        fc0[: -sum(inall)][inall] = 0
 
     if verbose > 1:
         print("[gen_sys:]".ljust(15, " ") + f" {sum(inall)} auxiliary variables have been added", flush=True)
-- 
2.43.0


From b6a6824fcc3e15da3270d446d0237813163d87b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:56 +0000
Subject: [PATCH 03/42] fix: leads of three and more periods were collapsed to
 two periods

---
 pydsge/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 9797a5c..8a3b545 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -863,7 +863,10 @@ class DSGE(Model):
             for i in np.arange(2, abs(max_lead_endo[v]) + 1):
                 var_l = Variable(v.name + "_LEAD" + str(i - 1))
 
-                var_l_1 = v(+1)
+                if i == 2:
+                    var_l_1 = v(+1)
+                else:
+                    var_l_1 = Variable(v.name + "_LEAD" + str(i - 2), date=+1)
 
                 subs_dict[Variable(v.name, date=+i)] = var_l(+1)
                 var_ordering.append(var_l)
-- 
2.43.0


From 70e77d3b49317ab4e71891a9800e1ca44b415632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:56 +0000
Subject: [PATCH 04/42] fix: shocks and lags that only appear in the constraint
 equation

A shock (or a variable) used in the constraint only was rejected, and lags of
more than one period and lagged shocks in the constraint were not resolved.
---
 pydsge/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 8a3b545..5ec093d 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -796,7 +796,10 @@ class DSGE(Model):
         max_lead_exo = dict.fromkeys(shk_ordering)
         max_lag_exo = dict.fromkeys(shk_ordering)
 
-        all_shocks = [list(eq.atoms(Shock)) for eq in equations]
+        # the constraint is treated as just another equation here
+        const_eqs = [const_eq] if isinstance(const_eq, Equation) else []
+
+        all_shocks = [list(eq.atoms(Shock)) for eq in equations + const_eqs]
 
         for s in shk_ordering:
             try:
@@ -821,8 +824,9 @@ class DSGE(Model):
                          for i in np.arange(1, abs(max_lag_exo[s]) + 1)]
                 subs_dict = dict(zip(subs1, subs2))
                 equations = [eq.subs(subs_dict) for eq in equations]
+                const_eqs = [eq.subs(subs_dict) for eq in const_eqs]
 
-        all_vars = [list(eq.atoms(Variable)) for eq in equations]
+        all_vars = [list(eq.atoms(Variable)) for eq in equations + const_eqs]
         max_lead_endo = dict.fromkeys(var_ordering)
         max_lag_endo = dict.fromkeys(var_ordering)
 
@@ -873,6 +877,8 @@ class DSGE(Model):
                 equations.append(Equation(var_l, var_l_1))
 
         equations = [eq.subs(subs_dict) for eq in equations]
+        if const_eqs:
+            const_eq = const_eqs[0].subs(subs_dict)
 
         cov = cal["covariances"]
 
-- 
2.43.0


From 59d011433100e4933cf15c23d9a5fac193e65dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:56 +0000
Subject: [PATCH 05/42] fix: transition function of models without endogenous
 states

---
 pydsge/stats.py | 2 +-
 pydsge/tools.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 7f0ae45..efb0566 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -184,7 +184,7 @@ def nhd(self, eps_dict, linear=False, **args):
                 eps = np.zeros(self.dimeps)
                 eps[s] = resid[s]
 
-                v = np.hstack((hd[i, s, t, -self.dimq + self.dimeps:], eps))
+                v = np.hstack((hd[i, s, t, self.dimp:], eps))
                 p = pmat[l, k] @ v
                 q = qmat[l, k] @ v
                 hd[i, s, t + 1, :] = np.hstack((p, q))
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 2e8278e..4232587 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -81,7 +81,7 @@ def t_func(
         bterm,
         x_bar,
         *self.hx,
-        state[-dimq + dimeps:],
+        state[len(state) - dimq + dimeps:],
         shocks,
         set_l,
         set_k,
-- 
2.43.0


From 52730b896bfb7a7fa5d9e991a181f75b5442c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:28 +0000
Subject: [PATCH 06/42] fix: lagged variables in observation equations were
 silently dropped

---
 pydsge/parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 5ec093d..a4b633c 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -340,7 +340,15 @@ class DSGE(Model):
             eq = self["obs_equations"][str(obs)]
             ZZ1[eq_i, 0] = eq.subs(subs_dict)
 
-            curr_var = filter(lambda x: x.date >= 0, eq.atoms(Variable))
+            obs_dated = [x for x in eq.atoms(Variable) if x.date != 0]
+
+            if obs_dated:
+                raise NotImplementedError(
+                    "Leads and lags in the observation equations are not (yet) implemented: ",
+                    *obs_dated
+                )
+
+            curr_var = eq.atoms(Variable)
 
             for v in curr_var:
                 v_j = vlist.index(v)
-- 
2.43.0


From 72b3773306324356adaf0b6c378a425694fa5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:00 +0000
Subject: [PATCH 07/42] fix: a cached model was reused although its functions
 file is gone

---
 pydsge/parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index a4b633c..bb34305 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -30,9 +30,7 @@ def crawl_cached_models(mtxt, ftxt):
         for i in cached_models:
 
             use_cached = cached_models[i].fdict["yaml_raw"] == mtxt
-
-            if ftxt is not None:
-                use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
+            use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
 
             if use_cached:
                 processed_raw_model = cached_models[i]
-- 
2.43.0


From 97a22e757bcd75bb5578ae5557ed7f0a601bd6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:00 +0000
Subject: [PATCH 08/42] fix: path of a cached model pointed to the folder it
 was first read from

---
 pydsge/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index bb34305..5ddb369 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -523,6 +523,9 @@ class DSGE(Model):
             if verbose:
                 print("[DSGE:]".ljust(15, " ") + " Model is already parsed, reusing parsed model")
             pmodel = deepcopy(processed_raw_model)
+            # the same text may have been read from somewhere else
+            pmodel.path = os.path.dirname(mfile)
+            pmodel.func_file = func_file
 
         else:
 
-- 
2.43.0


From 6f72b500d71eb2a374267755c7c6005b21691468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:00 +0000
Subject: [PATCH 09/42] fix: parameter changes were truncated to integers if
 all other values are integers

---
 pydsge/mpile.py  | 10 +++++-----
 pydsge/parser.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index cc2be92..176935d 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -143,8 +143,8 @@ def get_par(
         gen_sys(self, verbose=verbose, **args)
     pfnames, pffunc = self.parafunc
     pars_str = [str(p) for p in self.parameters]
-    pars = np.array(self.par) if hasattr(
-        self, "par") else np.array(self.par_fix)
+    pars = np.array(self.par if hasattr(
+        self, "par") else self.par_fix, dtype=float)
     if npar is not None:
         if len(npar) != len(self.par_fix):
             pars[self.prior_arg] = npar
@@ -307,8 +307,8 @@ def set_par(
 
     pfnames, pffunc = self.parafunc
     pars_str = [str(p) for p in self.parameters]
-    par = np.array(self.par) if hasattr(
-        self, "par") else np.array(self.par_fix)
+    par = np.array(self.par if hasattr(
+        self, "par") else self.par_fix, dtype=float)
 
     if setpar is None:
         if dummy is None:
@@ -325,7 +325,7 @@ def set_par(
             )
     elif dummy in pars_str:
         if npar is not None:
-            npar = npar.copy()
+            npar = np.array(npar, dtype=float)
             if len(npar) == len(self.prior_arg):
                 npar[self.prior_names.index(dummy)] = setpar
             else:
diff --git a/pydsge/parser.py b/pydsge/parser.py
index 5ddb369..1f98a82 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -974,7 +974,7 @@ class DSGE(Model):
 
         model.get_matrices()
 
-        model.par_fix = np.array(model.p0())
+        model.par_fix = np.array(model.p0(), dtype=float)
         p_names = [p.name for p in model.parameters]
 
         try:
-- 
2.43.0


From 1d007b3f6ccd956ca9f37970342dfdc02dd0bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:00 +0000
Subject: [PATCH 10/42] fix: names of parameter sets were taken for vectors if
 their length matches

---
 pydsge/mpile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 176935d..f248d7b 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -315,9 +315,9 @@ def set_par(
             par = get_par(
                 self, dummy=dummy, asdict=False, full=True, verbose=verbose, **args
             )
-        elif len(dummy) == len(self.par_fix):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.par_fix):
             par = dummy
-        elif len(dummy) == len(self.prior_arg):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.prior_arg):
             par[self.prior_arg] = dummy
         else:
             par = get_par(
-- 
2.43.0


From 1bfd51b897795c08c3b83dc100fceabb861b8ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:29 +0000
Subject: [PATCH 11/42] fix: set_par with npar failed for models without priors

---
 pydsge/mpile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index f248d7b..552214e 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -326,7 +326,7 @@ def set_par(
     elif dummy in pars_str:
         if npar is not None:
             npar = np.array(npar, dtype=float)
-            if len(npar) == len(self.prior_arg):
+            if len(npar) != len(self.par_fix):
                 npar[self.prior_names.index(dummy)] = setpar
             else:
                 npar[pars_str.index(dummy)] = setpar
-- 
2.43.0


From 2f0cc30f2f5bf39305c0647d4ac45f420a72f2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:10 +0000
Subject: [PATCH 12/42] fix: intervals of the observables ignored signs and
 covariances

---
 pydsge/tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 4232587..bc32c3a 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -151,7 +151,10 @@ def o_func(self, state, covs=None, pars=None):
     std = np.sqrt(var)
     iv95 = np.stack((state - 1.96 * std, state, state + 1.96 * std))
 
-    std_obs = (np.hstack((self.hx[0], self.hx[1])) @ std.T).T
+    hmat = np.hstack((self.hx[0], self.hx[1]))
+    var_obs = np.diagonal(hmat @ covs @ hmat.T, axis1=1, axis2=2)
+    # numerical noise can push the variance of a known quantity below zero
+    std_obs = np.sqrt(np.maximum(var_obs, 0))
     iv95_obs = np.stack((obs - 1.96 * std_obs, obs, obs + 1.96 * std_obs))
 
     return iv95_obs, iv95
-- 
2.43.0


From 9b5c7a3f4c9322577bb5b01d3f0b6b87218521a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:46 +0000
Subject: [PATCH 13/42] fix: obs with several parametrisations left the model
 with other parameters

---
 pydsge/tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index bc32c3a..58e063f 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -116,6 +116,8 @@ def o_func(self, state, covs=None, pars=None):
 
     if pars is not None:
 
+        par_old = list(self.par) if hasattr(self, "par") else None
+
         obs = []
         for sti, par in zip(state, pars):
             self.set_par(par, get_hx_only=True)
@@ -126,6 +128,10 @@ def o_func(self, state, covs=None, pars=None):
             )
             obs.append(ob)
 
+        # leave the model as it was
+        if par_old is not None:
+            self.set_par(par_old, get_hx_only=True)
+
         return np.array(obs)
 
     try:
-- 
2.43.0


From 7e1ff5d0dca7747c69cc318199ac64034bbd09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:31 +0000
Subject: [PATCH 14/42] fix: irfs ignored the constraint in the initial state
 until the first shock

---
 pydsge/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 58e063f..ca558fa 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -276,7 +276,8 @@ def irfs(
 
             # force_init_equil will force recalculation of l,k only if the shock vec is not empty
             # but loop must be skipped if no shock is provided at all (e.g. if samplinf from a state distribution)
-            if force_init_equil and not np.any(shk_vec) and np.any([s[2] for s in new_shocklist]):
+            # in the initial period there is no equilibrium to stick to
+            if t and force_init_equil and not np.any(shk_vec) and np.any([s[2] for s in new_shocklist]):
                 set_k_eff = (l - 1, k) if l else (l, max(k - 1, 0))
 
                 _, (l_endo, k_endo), flag = pelf.t_func(
-- 
2.43.0


From c8d789a33438675f1b157984f7ce9427ed936445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:32 +0000
Subject: [PATCH 15/42] fix: irfs mislabelled responses if the ordering of
 variables changes with the parameters

---
 pydsge/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index ca558fa..8d09404 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -256,6 +256,11 @@ def irfs(
                 L[:] = np.nan
                 return X, K, L, 4, 4
 
+            if not np.array_equal(pelf.vv, self.vv):
+                raise Exception(
+                    "The ordering of variables has changed given different parameters."
+                )
+
         st_vec = state if state is not None else np.zeros(nstates)
 
         supererrflag = False
-- 
2.43.0


From 0295f3486226baf7b1f3e2164820b69127b9f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:09 +0000
Subject: [PATCH 16/42] fix: simulate without a source dict failed

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 8d09404..201f68e 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -480,7 +480,7 @@ def simulate(
     res = wrap(
         self.mapper(runner, zip(*sample)),
         unit=" sample(s)",
-        total=len(source["pars"]),
+        total=len(pars),
         dynamic_ncols=True,
     )
 
-- 
2.43.0


From 33d70729e2a33e832d29a7a624c786dff166325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:09 +0000
Subject: [PATCH 17/42] fix: the Kalman filter overwrote the covariance of the
 shocks

---
 pydsge/filtering.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 519c53c..7ae065f 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -181,18 +181,20 @@ def run_filter(
         self.filter.F = F
         self.filter.H = np.hstack((self.hx[0], self.hx[1])), self.hx[2]
 
-        if self.filter.Q.shape[0] == self.neps:
+        # do not store this in `filter.Q`, which is the covariance of the shocks
+        Q = self.filter.Q
+        if Q.shape[0] == self.neps:
             E = np.vstack(
                 (pmat[1, 0][:, -self.neps:], qmat[1, 0]
                  [: -self.neps, -self.neps:])
             )
-            self.filter.Q = E @ self.filter.Q @ E.T
+            Q = E @ Q @ E.T
 
         if self.filter.init_cov is None:
             p4 = sl.solve_discrete_lyapunov(
-                F[dimp:, dimp:], self.filter.Q[dimp:, dimp:]
+                F[dimp:, dimp:], Q[dimp:, dimp:]
             )
-            self.filter.P = F[:, dimp:] @ p4 @ F.T[dimp:] + self.filter.Q
+            self.filter.P = F[:, dimp:] @ p4 @ F.T[dimp:] + Q
         else:
             self.filter.P = self.filter.init_cov
 
@@ -238,11 +240,12 @@ def run_filter(
 
     if self.filter.name == "KalmanFilter":
 
-        means, covs, ll = self.filter.batch_filter(self.Z)
+        Qs = [Q] * len(self.Z)
+        means, covs, ll = self.filter.batch_filter(self.Z, Qs=Qs)
 
         if smoother:
             means, covs, _, _ = self.filter.rts_smoother(
-                means, covs, inv=lambda x: np.linalg.pinv(x, rcond=rcond)
+                means, covs, Qs=Qs, inv=lambda x: np.linalg.pinv(x, rcond=rcond)
             )
 
         if get_ll:
-- 
2.43.0


From 64228bbdd8a8b2ece5dc6a3780ee0fd226a5de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 18/42] fix: the likelihood was zero if the number of states
 differs from that at the prior mean

---
 pydsge/filtering.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 7ae065f..33c9393 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -163,6 +163,16 @@ def run_filter(
 
     dimp = self.dimp
 
+    # the number of states can change with the parameters
+    if self.filter.name in ("KalmanFilter", "TEnKF"):
+        reduced_form = getattr(self.filter, "reduced_form", False)
+        dim_x = self.dimq - self.dimeps if reduced_form else self.dimx
+
+        if self.filter.dim_x != dim_x:
+            self.filter.dim_x = dim_x
+            self.filter.x = np.zeros((dim_x,) + self.filter.x.shape[1:])
+            self.filter._I = np.eye(dim_x)
+
     if init_cov is not None:
         self.filter.init_cov = init_cov
 
-- 
2.43.0


From 5014a0851662f37e573d90f0a202f69d06186274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:51 +0000
Subject: [PATCH 19/42] fix: models saved without data could not be loaded

---
 pydsge/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 1f98a82..c0283bf 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -627,7 +627,8 @@ class DSGE(Model):
         pmodel.fdict = fdict
         pmodel.name = str(fdict["name"])
         pmodel.path = os.path.dirname(npzfile)
-        pmodel.data = cpickle.loads(fdict["data"])
+        if "data" in fdict:
+            pmodel.data = cpickle.loads(fdict["data"])
         pmodel.fdict["model_dump"] = cpickle.dumps(pmodel, protocol=4)
 
         # pmodel.debug = platform == "darwin" or platform == "win32"
-- 
2.43.0


From 66ebada263aef93b9e63c0c951a3ff5a87d139f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:25 +0000
Subject: [PATCH 20/42] fix: results saved under a name with ending could not
 be loaded

---
 pydsge/clsmethods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 34a8df6..7f54633 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -182,9 +182,13 @@ def load_rdict(self, path=None, suffix=""):
     if path is None:
         path = self.name + "_res"
 
+    # same conventions as in `save_rdict`
+    if path[-4:] == ".npz":
+        path = path[:-4]
+
     path += suffix
 
-    if path[-4] != ".npz":
+    if path[-4:] != ".npz":
         path += ".npz"
 
     if not os.path.isabs(path):
-- 
2.43.0


From cf1acf4547740b45ddd757d0d68b41ccf69db3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:20 +0000
Subject: [PATCH 21/42] fix: mask failed for integer data

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 201f68e..136436b 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -385,7 +385,7 @@ def mask(self, verbose=False):
     if verbose:
         print("[mask:]".ljust(15, " ") + "Shocks:", self.shocks)
 
-    msk = self.data.copy()
+    msk = self.data.astype(float)
     msk[:] = np.nan
 
     try:
-- 
2.43.0


From 835a84bbc3830f4ae10a93aa831b2c1b1ce2c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:01 +0000
Subject: [PATCH 22/42] fix: start and end of the data were misread for numeric
 indices

---
 pydsge/clsmethods.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 7f54633..8489b0f 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -316,11 +316,14 @@ def load_data(self, df, start=None, end=None):
 
         d = df[self.observables]
 
-    if start is not None:
-        start = str(start)
+    # dates may be given as e.g. integers, but numeric indices must not be strings
+    if not pd.api.types.is_numeric_dtype(d.index):
 
-    if end is not None:
-        end = str(end)
+        if start is not None:
+            start = str(start)
+
+        if end is not None:
+            end = str(end)
 
     d = d.loc[start:end]
 
-- 
2.43.0


From ce81f6098b7ff2e24f7f8ea3c9ae0018ad7e5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:17 +0000
Subject: [PATCH 23/42] fix: contributions to the historical decomposition did
 not add up if the constraint only binds later

---
 pydsge/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index efb0566..a7e18e9 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -190,7 +190,8 @@ def nhd(self, eps_dict, linear=False, **args):
                 hd[i, s, t + 1, :] = np.hstack((p, q))
 
                 if k:
-                    rcons[s] = bmat[0, l, k] @ v
+                    # in the first period of the spell
+                    rcons[s] = bmat[2, l, k] @ v
 
             if k and rcons.sum():
                 for s in range(len(self.shocks)):
-- 
2.43.0


From c6bb33011e6f50ef5b363387b3f00f09ac203e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:51 +0000
Subject: [PATCH 24/42] fix: models given as matrices without observables
 failed

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 3d3b562..4f4e8e2 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -240,7 +240,7 @@ def gen_sys(
 
     # start
     vv0 = self.vv
-    ZZ0 = None if not len(ZZ0) else ZZ0
+    ZZ0 = None if ZZ0 is None or not len(ZZ0) else ZZ0
 
     # z-space is the space of the original variables
     dimx = len(vv0)
-- 
2.43.0


From 3a7edee1cca5268947f265562d5271fe6fc43785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:16 +0000
Subject: [PATCH 25/42] fix: irfs failed for models given as matrices

---
 pydsge/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 136436b..a5b0896 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -214,7 +214,8 @@ def irfs(
             shocklist,
         ]
 
-    if not hasattr(self, "par"):
+    # models that are given as matrices have no parameters
+    if not hasattr(self, "par") and not hasattr(self, "sys"):
         gen_sys(self, verbose=verbose, **args)
 
     if hasattr(self, "pool"):
-- 
2.43.0


From c27cfdfd64ca8af246181db7efb728275456488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:53 +0000
Subject: [PATCH 26/42] fix: obs of a single state failed

---
 pydsge/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index a5b0896..35cab59 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -147,8 +147,7 @@ def o_func(self, state, covs=None, pars=None):
         )
 
     if np.ndim(state) <= 1:
-        data = self.data.index if hasattr(self, "data") else None
-        obs = pd.DataFrame(obs, index=data, columns=self.observables)
+        obs = pd.DataFrame(np.atleast_2d(obs), columns=self.observables)
 
     if covs is None:
         return obs
-- 
2.43.0


From 1ce262c85e58aee5a874980f4d99c42c2461c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:16 +0000
Subject: [PATCH 27/42] fix: functions failed after an estimation was prepared
 without a process pool

---
 pydsge/estimation.py | 4 ++--
 pydsge/filtering.py  | 2 +-
 pydsge/mcmc.py       | 2 +-
 pydsge/mpile.py      | 2 +-
 pydsge/tools.py      | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index 87225ad..fa265e1 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -250,7 +250,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 
     import pathos
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         ncores = ncores or self.pool.ncpus
         self.pool.close()
     else:
@@ -281,7 +281,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 @property
 def mapper(self):
 
-    if hasattr(self, "pool") and not self.debug:
+    if getattr(self, "pool", None) and not self.debug:
         return self.pool.imap
     else:
         return map
diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 33c9393..7880b77 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -370,7 +370,7 @@ def extract(
     fname = self.filter.name
     verbose = max(verbose, debug)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 734adc7..2485c6c 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -79,7 +79,7 @@ def mcmc(
 
         self.pool = None
 
-    elif hasattr(self, "pool"):
+    elif getattr(self, "pool", None):
 
         from .estimation import create_pool
 
diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 552214e..baf1fd9 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -73,7 +73,7 @@ def prior_sampler(
 
     self.debug |= debug
 
-    if not debug and hasattr(self, "pool"):
+    if not debug and getattr(self, "pool", None):
 
         from .estimation import create_pool
         create_pool(self)
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 35cab59..1a3db8c 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -217,7 +217,7 @@ def irfs(
     if not hasattr(self, "par") and not hasattr(self, "sys"):
         gen_sys(self, verbose=verbose, **args)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
@@ -431,7 +431,7 @@ def simulate(
 
     self.debug |= debug
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
-- 
2.43.0


From 370296edaca9ed3c806b509af40ccdf38fea7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:25 +0000
Subject: [PATCH 28/42] fix: the adjusted prior mean failed for priors without
 initial values and bounds

---
 pydsge/mpile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index baf1fd9..7ea3732 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -221,7 +221,7 @@ def get_par(
             elif dummy == "adj_prior_mean":
                 par_cand = []
                 for pp in self.prior.keys():
-                    if self.prior[pp][3] == "inv_gamma_dynare":
+                    if "inv_gamma_dynare" in self.prior[pp]:
                         par_cand.append(self.prior[pp][(-2)] * 10)
                     else:
                         if "uniform" in self.prior[pp]:
-- 
2.43.0


From 47a0642594bb381652558ed9c0510d4d46442bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 29/42] fix: the posterior mean of a given chain failed

---
 pydsge/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index a7e18e9..791c87f 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -265,8 +265,9 @@ def mdd(
 def post_mean(self, chain=None, tune=None):
     """Calculate the mean of the posterior distribution"""
 
-    tune = tune or self.get_tune
-    chain = chain or self.get_chain()[-tune:]
+    if chain is None:
+        tune = tune or self.get_tune
+        chain = self.get_chain()[-tune:]
 
     return chain.reshape(-1, chain.shape[-1]).mean(axis=0)
 
-- 
2.43.0


From 3ad9814d7405d5ee95deb1256bdaaa3a5a80b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 30/42] fix: the initial ensemble was taken to be in the space
 of the sampler

---
 pydsge/mcmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 2485c6c..ca4e4ba 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -120,6 +120,10 @@ def mcmc(
     elif not resume:
         nwalks = p0.shape[0]
 
+    if not resume and self.bptrans:
+        # the sampler does not work in the parameter space
+        p0 = self.bptrans(p0, sampler_to_prior=False)
+
     if backend:
 
         if isinstance(backend, str):
-- 
2.43.0


From c038012d314259ea855363f884e5f94554c7dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 31/42] fix: the mode was stored in the space of the sampler

---
 pydsge/mcmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index ca4e4ba..71ab36c 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -174,6 +174,9 @@ def mcmc(
         mode_f = log_probs.flat[arg_max]
         mode_x = chain[arg_max].flatten()
 
+        if self.bptrans:
+            mode_x = self.bptrans(mode_x)
+
         self.fdict["mode_x"] = mode_x
         self.fdict["mode_f"] = mode_f
 
-- 
2.43.0


From b1e960805641d23bf4b2ed3efd1aa800ce3eb4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:29 +0000
Subject: [PATCH 32/42] fix: mcmc without an initial ensemble failed

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 71ab36c..b43ce23 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -110,12 +110,12 @@ def mcmc(
                 "prior_mean",
                 asdict=False,
                 full=False,
-                nsample=nwalks,
+                nsamples=nwalks,
                 verbose=verbose > 1,
             )
         else:
             p0 = get_par(
-                self, "best", asdict=False, full=False, nsample=nwalks, verbose=verbose > 1
+                self, "best", asdict=False, full=False, nsamples=nwalks, verbose=verbose > 1
             )
     elif not resume:
         nwalks = p0.shape[0]
-- 
2.43.0


From 637330940d7cb04263b2f0072d4e08343f862003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 33/42] fix: mcmc without the number of tuning periods failed

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index b43ce23..35bebda 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -166,8 +166,8 @@ def mcmc(
 
     if temp == 1:
 
-        log_probs = sampler.get_log_prob()[-tune:]
-        chain = sampler.get_chain()[-tune:]
+        log_probs = sampler.get_log_prob()[-self.tune:]
+        chain = sampler.get_chain()[-self.tune:]
         chain = chain.reshape(-1, chain.shape[-1])
 
         arg_max = log_probs.argmax()
-- 
2.43.0


From 276c6602a491d6da9397111fc47bb844fc4ed239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:05 +0000
Subject: [PATCH 34/42] fix: get_sample did not sample from the recent chain

---
 pydsge/clsmethods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 8489b0f..7e87b31 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -340,14 +340,14 @@ def load_data(self, df, start=None, end=None):
 def get_sample(self, size, chain=None):
     """Get a (preferably recent) sample from the chain"""
 
-    chain = None or self.get_chain()
+    chain = self.get_chain() if chain is None else chain
     clen, nwalks, npar = chain.shape
-    recent = int(np.ceil(60 / nwalks))
+    recent = int(np.ceil(size / nwalks))
 
     if recent > clen:
         raise Exception("Requested sample size is larger than chain")
 
-    sample = chain[:, -recent, :].reshape(-1, npar)
+    sample = chain[-recent:].reshape(-1, npar)
     res = np.random.choice(np.arange(recent * nwalks), size, False)
 
     return sample[res]
-- 
2.43.0


From 85e2aca1227f21510e20c99945856837b268b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:37 +0000
Subject: [PATCH 35/42] fix: the search for an equilibrium read beyond its
 arrays with k_max=0

---
 pydsge/engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 990141c..e395212 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -291,6 +291,10 @@ def find_lk(bmat, bterm, x_bar, q):
             loop_type = False
 
             while True:
+                if k == k_max - 1:
+                    # set error flag 'no solution + k_max reached'
+                    flag = 2
+                    break
                 k += 1
                 if not loop_type:
                     # first iterate until r < r_bar
@@ -298,10 +302,6 @@ def find_lk(bmat, bterm, x_bar, q):
                 elif check_cnst(bmat, bterm, 4, 0, k, q) - x_bar > 0:
                     # then iterate until r > r_bar again
                     break
-                if k == k_max - 1:
-                    # set error flag 'no solution + k_max reached'
-                    flag = 2
-                    break
     else:
         l = 0
 
-- 
2.43.0


From 22d449a98fd1bdb880840fd343024f502d5f372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:50 +0000
Subject: [PATCH 36/42] fix: batches of impulse responses failed with a process
 pool

---
 pydsge/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 1a3db8c..fa5fd36 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -237,6 +237,8 @@ def irfs(
             vec += (0,)
         new_shocklist.append(vec)
 
+    # `self` itself must not be part of the runner, which has to be serialized
+    vv = self.vv
     pickled_self = dill.dumps(self, recurse=True)
 
     def runner(par):
@@ -256,7 +258,7 @@ def irfs(
                 L[:] = np.nan
                 return X, K, L, 4, 4
 
-            if not np.array_equal(pelf.vv, self.vv):
+            if not np.array_equal(pelf.vv, vv):
                 raise Exception(
                     "The ordering of variables has changed given different parameters."
                 )
-- 
2.43.0


From 7db203d5fa5f9862d2f1ff6417c9f10c76061833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:25 +0000
Subject: [PATCH 37/42] fix: refused parameters were left behind in the model

---
 pydsge/mpile.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 7ea3732..49da066 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -342,7 +342,15 @@ def set_par(
         raise SyntaxError(
             "Parameter '%s' is not defined for this model." % dummy)
 
-    gen_sys(self, par=list(par), verbose=verbose, **args)
+    old = self.__dict__.copy()
+
+    try:
+        gen_sys(self, par=list(par), verbose=verbose, **args)
+    except Exception:
+        # refused parameters must not leave anything behind
+        self.__dict__.clear()
+        self.__dict__.update(old)
+        raise
 
     if hasattr(self, "filter"):
         Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
-- 
2.43.0


From a9eb98eb46b26072e662f505522a840934217d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:48 +0000
Subject: [PATCH 38/42] fix: k_map and traj used the system of previous
 parameters

---
 pydsge/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index e395212..0037939 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -193,6 +193,10 @@ def preprocess(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, parallel=False, verbose=
         PU, MU, PR, MR, gg, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_max
     )
 
+    # trajectories of a previous system are outdated
+    if hasattr(self, "precalc_tmat"):
+        del self.precalc_tmat
+
     if verbose:
         print(
             "[preprocess:]".ljust(15, " ")
-- 
2.43.0


From 736b799b367db8f6707cedc9fb522f1beb34fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:56 +0000
Subject: [PATCH 39/42] fix: a low l_max failed without k_max

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 4f4e8e2..dc9e7fa 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -214,7 +214,7 @@ def gen_sys(
 
     # set default values of l_max & k_max
     if l_max is not None:
-        if l_max < 2 and k_max > 0:
+        if l_max < 2 and (k_max is None or k_max > 0):
             print(
                 "[get_sys:]".ljust(15, " ")
                 + " `l_max` must be at least 2 (is %s). Correcting..." % l_max
-- 
2.43.0


From dde3713d59b22e7a6f84fb946fafb17bc65599b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:49 +0000
Subject: [PATCH 40/42] fix: a functions file edited within a second was not
 read again

---
 pydsge/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index c0283bf..ba00f75 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -397,7 +397,9 @@ class DSGE(Model):
 
             spec = iu.spec_from_file_location("module", self.func_file)
             module = iu.module_from_spec(spec)
-            spec.loader.exec_module(module)
+            # always use the file as it is, not what was compiled before
+            with open(self.func_file) as ff:
+                exec(compile(ff.read(), self.func_file, "exec"), module.__dict__)
 
             funcs_list = [
                 o for o in inspect.getmembers(module) if inspect.isroutine(o[1])
-- 
2.43.0


From 72d98d99a0082218d38ca38ecf4c83edef115b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:01 +0000
Subject: [PATCH 41/42] fix: simulate mislabelled states if the ordering of
 variables changes with the parameters

---
 pydsge/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index fa5fd36..16f9996 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -438,6 +438,8 @@ def simulate(
 
         create_pool(self)
 
+    # `self` itself must not be part of the runner, which has to be serialized
+    vv_own = self.vv
     pickled_self = dill.dumps(self, recurse=True)
 
     def runner(arg):
@@ -452,7 +454,7 @@ def simulate(
 
         if pelf.set_par is not None:
             _, vv = pelf.set_par(par, return_vv=True, **args)
-            if not np.all(vv == pelf.vv):
+            if not np.array_equal(vv, vv_own):
                 raise Exception(
                     "The ordering of variables has changed given different parameters."
                 )
-- 
2.43.0


From 9e362410c9d2ca5f8db343759eb13c6bfaf71966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:01 +0000
Subject: [PATCH 42/42] fix: decompositions mixed up variables if their
 ordering differs between samples

---
 pydsge/stats.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 791c87f..f302048 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -92,12 +92,19 @@ def gfevd(
     gis = np.zeros((len(self.shocks), len(self.vv)))
 
     wrap = tqdm.tqdm if verbose else (lambda x, **kwarg: x)
+    vv = None
 
     for s in wrap(sample, total=nsamples, unit="draws", dynamic_ncols=True):
 
         if s[2] is not None:
             self.set_par(s[2], **args)
 
+        vv = self.vv if vv is None else vv
+        if not np.array_equal(self.vv, vv):
+            raise Exception(
+                "The ordering of variables has changed given different parameters."
+            )
+
         for e in self.shocks:
 
             ei = self.shocks.index(e)
@@ -164,6 +171,12 @@ def nhd(self, eps_dict, linear=False, **args):
 
         self.set_par(pars[i], **args)
 
+        vv = self.vv if i == 0 else vv
+        if not np.array_equal(self.vv, vv):
+            raise Exception(
+                "The ordering of variables has changed given different parameters."
+            )
+
         pmat, qmat, pterm, qterm, bmat, bterm = self.precalc_mat
         qmat = qmat[:, :, : -self.dimeps]
         qterm = qterm[..., : -self.dimeps]
-- 
2.43.0

