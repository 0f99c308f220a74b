From 73b21844d0172ded30f468fed955cba92f5c8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 01/56] fix: onwd_evo accessor returned the forward evolution
 for Qobj operators

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f48b916..95add78 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1385,7 +1385,7 @@ class Dynamics(object):
         if self._onwd_evo is not None:
             if self._onwd_evo_qobj is None:
                 if self.oper_dtype == Qobj:
-                    self._onwd_evo_qobj = self._fwd_evo
+                    self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
                         Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
-- 
2.43.0


From 24749fefbfa2cf61d968d945266068e1a4b7a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 02/56] fix: onwd_evo and onto_evo accessors used the initial
 operator's dimensions

---
 src/qutip_qtrl/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 95add78..aa9810b 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1388,7 +1388,7 @@ class Dynamics(object):
                     self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
-                        Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
+                        Qobj(dg, dims=self.dyn_dims) for dg in self._onwd_evo
                     ]
         return self._onwd_evo_qobj
 
@@ -1409,9 +1409,10 @@ class Dynamics(object):
                     self._onto_evo_qobj = self._onto_evo
                 else:
                     self._onto_evo_qobj = []
+                    rev_dims = [self.sys_dims[1], self.sys_dims[0]]
                     for k in range(0, self.num_tslots):
                         self._onto_evo_qobj.append(
-                            Qobj(self._onto_evo[k], dims=self.sys_dims)
+                            Qobj(self._onto_evo[k], dims=rev_dims)
                         )
                     self._onto_evo_qobj.append(self.onto_evo_target)
 
-- 
2.43.0


From 13bc5156d1fbd9b5cd7ab76f580bc531a0d4b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 03/56] fix: combine_dyn_gen called the list of generators

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index aa9810b..61d121b 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1211,7 +1211,7 @@ class Dynamics(object):
             "'combine_dyn_gen' has been replaced by " "'_combine_dyn_gen'"
         )
         self._combine_dyn_gen(k)
-        return self._dyn_gen(k)
+        return self._dyn_gen[k]
 
     def _combine_dyn_gen(self, k):
         """
-- 
2.43.0


From f99e98b2ef336b6934cc782f5b1260ab57762db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 04/56] fix: compute_prop_grad passed self twice

---
 src/qutip_qtrl/propcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index ee422fd..84dbc38 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -158,7 +158,7 @@ class PropagatorComputer:
         _func_deprecation(
             "'compute_prop_grad' has been replaced " "by '_compute_prop_grad'"
         )
-        return self._compute_prop_grad(self, k, j, compute_prop=compute_prop)
+        return self._compute_prop_grad(k, j, compute_prop=compute_prop)
 
     def _compute_prop_grad(self, k, j, compute_prop=True):
         """
-- 
2.43.0


From 612404162dc39b34836705a9f5129c43b0ee8c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 05/56] fix: get_timeslot_for_fidelity_calc returned a method
 instead of the index

---
 src/qutip_qtrl/tslotcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 18c1473..9294527 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -361,7 +361,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
             "'get_timeslot_for_fidelity_calc' is deprecated. "
             "Use '_get_timeslot_for_fidelity_calc'"
         )
-        return self._get_timeslot_for_fidelity_calc
+        return self._get_timeslot_for_fidelity_calc()
 
     def _get_timeslot_for_fidelity_calc(self):
         """
-- 
2.43.0


From ec8c38dc250c8ee0747c1cc81d93176c5f57da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 06/56] fix: DEBUG_INTENSE logging of propagators raised an
 error

---
 src/qutip_qtrl/tslotcomp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 9294527..9d27f3b 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -281,8 +281,8 @@ class TSlotCompUpdateAll(TimeslotComputer):
                         if self.log_level <= logging.DEBUG_INTENSE:
                             logger.log(
                                 logging.DEBUG_INTENSE,
-                                "propagator {}:\n{:10.3g}".format(
-                                    k, self._prop[k]
+                                "propagator {}:\n{}".format(
+                                    k, dyn._prop[k]
                                 ),
                             )
                     else:
-- 
2.43.0


From d849e284e758c9411973fc57078ef1e4582e943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 07/56] fix: TDAPPROX gradient multiplied the evolution
 operators in reverse order

---
 src/qutip_qtrl/fidcomp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 9b776a0..1a8bac1 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -766,9 +766,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                 fwd_evo = dyn._fwd_evo[k]
                 prop_eps = prop_comp._compute_diff_prop(k, j, self.epsilon)
                 if dyn.oper_dtype == Qobj:
-                    evo_final_eps = fwd_evo * prop_eps
+                    evo_final_eps = prop_eps * fwd_evo
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps * dyn._onwd_evo[k + 1]
+                        evo_final_eps = dyn._onwd_evo[k + 1] * evo_final_eps
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
@@ -776,9 +776,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                         (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
                     )
                 else:
-                    evo_final_eps = fwd_evo.dot(prop_eps)
+                    evo_final_eps = prop_eps.dot(fwd_evo)
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps.dot(dyn._onwd_evo[k + 1])
+                        evo_final_eps = dyn._onwd_evo[k + 1].dot(evo_final_eps)
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     fid_err_eps = self.scale_factor * np.real(
                         _trace(evo_f_diff_eps.conj().T.dot(evo_f_diff_eps))
-- 
2.43.0


From 85c8a4d6c0ec8f407b8a90b98f51ec396849cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 08/56] fix: SU fidelity normalisation failed for ndarray
 operators

---
 src/qutip_qtrl/fidcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 1a8bac1..b59fcdd 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -378,7 +378,7 @@ class FidCompUnitary(FidelityComputer):
                 norm = _trace(A)
             else:
                 raise TypeError("Cannot compute trace (not square)")
-        except AttributeError:
+        except (AttributeError, IndexError):
             # assume input is already scalar and hence assumed
             # to be the prenormalised scalar value, e.g. fidelity
             norm = A
-- 
2.43.0


From 7fe5c54687b912be5d77edd8762ba26d3ed56006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 09/56] fix: unitarity checking raised errors unless UNIT
 dynamics used DIAG propagators

---
 src/qutip_qtrl/dynamics.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 61d121b..2660c70 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1488,6 +1488,12 @@ class Dynamics(object):
 
         return err
 
+    def check_unitarity(self):
+        """
+        Checks whether all propagators are unitary
+        """
+        self.unitarity_check()
+
     def unitarity_check(self):
         """
         Checks whether all propagators are unitary
@@ -1711,8 +1717,14 @@ class DynamicsUnitary(Dynamics):
                 else:
                     diff = np.abs(H.T.conj() - H)
                     herm = np.all(diff < settings.core["atol"])
-                eigval_unit = self._is_unitary(self._prop_eigen[k])
-                eigvec_unit = self._is_unitary(self._dyn_gen_eigenvectors[k])
+                if self._prop_eigen is not None:
+                    eigval_unit = self._is_unitary(self._prop_eigen[k])
+                    eigvec_unit = self._is_unitary(
+                        self._dyn_gen_eigenvectors[k]
+                    )
+                else:
+                    # no diagonalisation with this propagator computer
+                    eigval_unit = eigvec_unit = None
                 if self._dyn_gen_eigenvectors_adj is not None:
                     eigvecadj_unit = self._is_unitary(
                         self._dyn_gen_eigenvectors_adj[k]
-- 
2.43.0


From 57993501e99d3437db3fb9c5ad2d335c696ce7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 10/56] fix: AUG_MAT propagator gradients failed for Qobj
 operators

---
 src/qutip_qtrl/propcomp.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index 84dbc38..04d2875 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -18,7 +18,6 @@ See Machnes et.al., arXiv.1011.4874
 import warnings
 import numpy as np
 import scipy.linalg as la
-import scipy.sparse as sp
 
 # QuTiP
 from qutip import Qobj
@@ -336,10 +335,10 @@ class PropCompAugMat(PropagatorComputer):
         dg = dyn._get_phased_dyn_gen(k)
 
         if dyn.oper_dtype == Qobj:
-            A = dg.data * dyn.tau[k]
-            E = dyn._get_phased_ctrl_dyn_gen(k, j).data * dyn.tau[k]
-            Z = sp.csr_matrix(dg.data.shape)
-            aug = Qobj(sp.vstack([sp.hstack([A, E]), sp.hstack([Z, A])]))
+            A = dg.full() * dyn.tau[k]
+            E = dyn._get_phased_ctrl_dyn_gen(k, j).full() * dyn.tau[k]
+            Z = np.zeros(dg.shape)
+            aug = Qobj(np.vstack([np.hstack([A, E]), np.hstack([Z, A])]))
         else:
             A = dg * dyn.tau[k]
             E = dyn._get_phased_ctrl_dyn_gen(k, j) * dyn.tau[k]
@@ -362,7 +361,7 @@ class PropCompAugMat(PropagatorComputer):
         aug = self._get_aug_mat(k, j)
 
         if dyn.oper_dtype == Qobj:
-            aug_exp = aug.expm()
+            aug_exp = aug.expm().full()
             prop_grad = Qobj(
                 aug_exp[: dg.shape[0], dg.shape[1] :], dims=dyn.dyn_dims
             )
-- 
2.43.0


From 85fe3fa9daadc75382744a86fecc2a218fd23d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 11/56] fix: time dependent controls failed unless num_ctrls
 had been read before

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 2660c70..8fadf6e 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -688,7 +688,7 @@ class Dynamics(object):
                 dg = self.drift_dyn_gen[0]
             else:
                 dg = self.drift_dyn_gen
-            if self.time_depend_ctrl_dyn_gen:
+            if isinstance(self.ctrl_dyn_gen, np.ndarray):
                 ctrls = self.ctrl_dyn_gen[0, :]
             else:
                 ctrls = self.ctrl_dyn_gen
-- 
2.43.0


From e2a537123eb15d6064da6192a186b5c4400dd0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 12/56] fix: symplectic phase operator type did not match the
 chosen oper_dtype

---
 src/qutip_qtrl/dynamics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 8fadf6e..f331a5b 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -734,10 +734,12 @@ class Dynamics(object):
         self.refresh_drift_attribs()
         self.sys_dims = self.initial.dims
         self.sys_shape = self.initial.shape
+        # The oper_dtype must be known before the (symplectic) phase operator
+        # is created
+        self._set_memory_optimizations()
         # Set the phase application method
         self._init_phase()
 
-        self._set_memory_optimizations()
         if self.sparse_eigen_decomp and self.sys_shape[0] <= 2:
             raise ValueError(
                 "Single qubit pulse optimization dynamics cannot use sparse"
-- 
2.43.0


From 682df21ba922766c14323b71e4e8b6baf2f522f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 13/56] fix: onto_evo_target remained that of the previous
 target after re-initialisation

---
 src/qutip_qtrl/dynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f331a5b..5071b00 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -748,6 +748,10 @@ class Dynamics(object):
                 " or increase the size of the system."
             )
 
+        # The target may have changed since any previous initialisation
+        self._onto_evo_target = None
+        self._onto_evo_target_qobj = None
+
         n_ts = self.num_tslots
         n_ctrls = self.num_ctrls
         if self.oper_dtype == Qobj:
-- 
2.43.0


From ae675db3e7babd2acf917f820930fdd7a9b7f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 14/56] fix: dyn_gen_phase of symplectic dynamics could not be
 set for custom phases

---
 src/qutip_qtrl/dynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 5071b00..c5729e6 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1843,3 +1843,7 @@ class DynamicsSymplectic(Dynamics):
         if self._dyn_gen_phase is None:
             self._dyn_gen_phase = self._get_dyn_gen_phase()
         return self._dyn_gen_phase
+
+    @dyn_gen_phase.setter
+    def dyn_gen_phase(self, value):
+        self._dyn_gen_phase = value
-- 
2.43.0


From 7307dfd2ac98c8d3b5d0d528f9366074d9f08b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 15/56] fix: in-place changes of the array passed to
 update_ctrl_amps went undetected

---
 src/qutip_qtrl/tslotcomp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 9d27f3b..a2078d2 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -216,7 +216,8 @@ class TSlotCompUpdateAll(TimeslotComputer):
             dyn.stats.num_timeslot_changes += ecs.num_timeslots_changed
 
         if changed:
-            dyn.ctrl_amps = new_amps
+            # Copy, so that later changes to the array passed in are detected
+            dyn.ctrl_amps = new_amps.copy()
             dyn.flag_system_changed()
             return False
         else:
-- 
2.43.0


From 3fbc7f1b422760ce95d81fbd99450c59a982f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 16/56] fix: trace difference fidelity failed for state vectors
 as Qobj

---
 src/qutip_qtrl/fidcomp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index b59fcdd..de084a1 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -64,6 +64,9 @@ def _trace(A):
     # input is an operator (Qobj, array, sparse etc), so
     if isinstance(A, Qobj):
         return A.tr()
+    elif np.ndim(A) == 0:
+        # the product of a bra and a ket
+        return A
     else:
         return np.trace(A)
 
@@ -614,7 +617,7 @@ class FidCompTraceDiff(FidelityComputer):
             # np.real, just avoids the complex casting warning
             if dyn.oper_dtype == Qobj:
                 self.fid_err = self.scale_factor * np.real(
-                    (evo_f_diff.dag() * evo_f_diff).tr()
+                    _trace(evo_f_diff.dag() * evo_f_diff)
                 )
             else:
                 self.fid_err = self.scale_factor * np.real(
@@ -695,7 +698,7 @@ class FidCompTraceDiff(FidelityComputer):
                     g = (
                         -2
                         * self.scale_factor
-                        * np.real((evo_f_diff.dag() * evo_grad).tr())
+                        * np.real(_trace(evo_f_diff.dag() * evo_grad))
                     )
                 else:
                     evo_grad = dyn._get_prop_grad(k, j).dot(fwd_evo)
@@ -773,7 +776,7 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
                     fid_err_eps = self.scale_factor * np.real(
-                        (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
+                        _trace(evo_f_diff_eps.dag() * evo_f_diff_eps)
                     )
                 else:
                     evo_final_eps = prop_eps.dot(fwd_evo)
-- 
2.43.0


From 82f199f5b9e32fc4ae44b1b25fe293f414940638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 17/56] fix: create_dir reported success for existing paths
 that are not directories

---
 src/qutip_qtrl/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/io.py b/src/qutip_qtrl/io.py
index 2010b23..9eff289 100644
--- a/src/qutip_qtrl/io.py
+++ b/src/qutip_qtrl/io.py
@@ -30,7 +30,7 @@ def create_dir(dir_name, desc="output"):
     msg = "{} directory is ready".format(desc)
     errmsg = "Failed to create {} directory:\n{}\n".format(desc, dir_name)
     if os.path.exists(dir_name):
-        if os.path.isfile(dir_name):
+        if not os.path.isdir(dir_name):
             dir_ok = False
             errmsg += "A file already exists with the same name"
     else:
@@ -38,7 +38,7 @@ def create_dir(dir_name, desc="output"):
             os.makedirs(dir_name)
             msg += "directory {} created (recursively)".format(dir_name)
         except OSError as e:
-            if e.errno == errno.EEXIST:
+            if e.errno == errno.EEXIST and os.path.isdir(dir_name):
                 msg += (
                     "Assume directory {} created "
                     "(recursively) by some other process. ".format(dir_name)
-- 
2.43.0


From 6f9dcc3a3826ae0a6c818038c1d3aefe5b112f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 18/56] fix: text attributes were turned into numbers or
 booleans by set_param

---
 src/qutip_qtrl/loadparams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 988278b..811df1e 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -218,6 +218,8 @@ def set_param(parser, section, option, obj, attrib_name):
                 " in parameter file [{}].{}".format(val, section, option)
             )
         setattr(obj, attrib_name, b)
+    elif dtype == str:
+        setattr(obj, attrib_name, val)
     else:
         try:
             val = parser.getfloat(section, attrib_name)
-- 
2.43.0


From 20d76af956352710e4886b05f7de5d2dd4881756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 19/56] fix: StatsDynTsUpdate.clear left its own counters
 unchanged

---
 src/qutip_qtrl/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/stats.py b/src/qutip_qtrl/stats.py
index c628539..5b13a5d 100644
--- a/src/qutip_qtrl/stats.py
+++ b/src/qutip_qtrl/stats.py
@@ -321,8 +321,8 @@ class StatsDynTsUpdate(Stats):
     def __init__(self):
         self.reset()
 
-    def reset(self):
-        Stats.reset(self)
+    def clear(self):
+        Stats.clear(self)
         # Dynamics generators (Hamiltonians)
         self.num_dyn_gen_computes = 0
         self.mean_num_dyn_gen_computes_per_update = 0.0
-- 
2.43.0


From 47273bd4c4ca4532ef0bba4e6b8a5a3f9509d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 20/56] fix: stats.num_iter was 1 before any iteration and
 missed the last one on a wall time limit

---
 src/qutip_qtrl/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index dae2e93..dd50e24 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -748,15 +748,15 @@ class Optimizer(object):
         if self.dump and self.dump.dump_summary:
             self.dump.add_iter_summary()
 
+        # *** update stats ***
+        if self.stats is not None:
+            self.stats.num_iter = self.num_iter
+
         tc = self.termination_conditions
 
         if wall_time > tc.max_wall_time:
             raise errors.MaxWallTimeTerminate()
 
-        # *** update stats ***
-        if self.stats is not None:
-            self.stats.num_iter = self.num_iter
-
     def _interpret_term_exception(self, except_term, result):
         """
         Update the result object based on the exception that occurred
@@ -836,7 +836,7 @@ class OptimizerBFGS(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         if self.approx_grad:
             fprime = None
@@ -968,7 +968,7 @@ class OptimizerLBFGSB(Optimizer):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         bounds = self._build_bounds_list()
         result = self._create_result()
@@ -1229,7 +1229,7 @@ class OptimizerCrabFmin(OptimizerCrab):
         if self.stats is not None:
             self.stats.wall_time_optim_start = st_time
             self.stats.wall_time_optim_end = 0.0
-            self.stats.num_iter = 1
+            self.stats.num_iter = 0
 
         result = self._create_result()
 
-- 
2.43.0


From bd7d32384896bbc7d30406e8132490fbf5437f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 21/56] fix: the result's fidelity was never set

---
 src/qutip_qtrl/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index dd50e24..5830444 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -782,6 +782,8 @@ class Optimizer(object):
         result.num_fid_func_calls = self.num_fid_func_calls
         result.wall_time = end_time - st_time
         result.fid_err = dyn.fid_computer.get_fid_err()
+        if hasattr(dyn.fid_computer, "get_fidelity"):
+            result.fidelity = dyn.fid_computer.get_fidelity()
         result.grad_norm_final = dyn.fid_computer.grad_norm
         result.final_amps = dyn.ctrl_amps
         final_evo = dyn.full_evo
-- 
2.43.0


From de27b67fa3d6ff5c148a659ba5226b1966ffa227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 22/56] fix: BFGS reported the wrong termination reason on
 convergence and precision loss

---
 src/qutip_qtrl/optimizer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 5830444..59d32cc 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -876,12 +876,20 @@ class OptimizerBFGS(Optimizer):
 
             amps = self._get_ctrl_amps(optim_var_vals)
             dyn.update_ctrl_amps(amps)
-            if warn == 1:
+            if warn == 0:
+                result.grad_norm_min_reached = True
+                result.termination_reason = "Gradient normal minimum reached"
+            elif warn == 1:
                 result.max_iter_exceeded = True
                 result.termination_reason = "Iteration count limit reached"
             elif warn == 2:
-                result.grad_norm_min_reached = True
-                result.termination_reason = "Gradient normal minimum reached"
+                result.termination_reason = (
+                    "Gradient and/or function calls not changing"
+                )
+            else:
+                result.termination_reason = "Unknown (warn_flag={})".format(
+                    warn
+                )
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From 6a1477c228c8a779ef84bfd41672581da90f8ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 23/56] fix: explicitly set bounds were overwritten by the
 L-BFGS-B optimiser

---
 src/qutip_qtrl/optimizer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 59d32cc..671835f 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -260,6 +260,7 @@ class Optimizer(object):
         self.amp_lbound = None
         self.amp_ubound = None
         self.bounds = None
+        self._built_bounds = None
         self.num_iter = 0
         self.num_fid_func_calls = 0
         self.num_grad_func_calls = 0
@@ -518,6 +519,15 @@ class Optimizer(object):
 
                 self.bounds.append((lb, ub))
 
+    def _init_bounds(self):
+        """
+        Build the list of bounds from amp_lbound and amp_ubound,
+        unless the bounds attribute was set explicitly
+        """
+        if self.bounds is None or self.bounds is self._built_bounds:
+            self._build_bounds_list()
+            self._built_bounds = self.bounds
+
     def run_optimization(self, term_conds=None):
         """
         This default function optimisation method is a wrapper to the
@@ -558,8 +568,7 @@ class Optimizer(object):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        if self.bounds is None:
-            self._build_bounds_list()
+        self._init_bounds()
 
         self._build_method_options()
 
@@ -980,7 +989,7 @@ class OptimizerLBFGSB(Optimizer):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        bounds = self._build_bounds_list()
+        self._init_bounds()
         result = self._create_result()
 
         if self.approx_grad:
-- 
2.43.0


From 13e19e23fe13b561a4e5be77a1bd26544593c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 24/56] fix: zero amplitude bounds in the configuration were
 ignored

---
 src/qutip_qtrl/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 671835f..ef58534 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -274,10 +274,10 @@ class Optimizer(object):
         # AJGP 2015-04-21:
         # These (copying from config) are here for backward compatibility
         if hasattr(self.config, "amp_lbound"):
-            if self.config.amp_lbound:
+            if self.config.amp_lbound is not None:
                 self.amp_lbound = self.config.amp_lbound
         if hasattr(self.config, "amp_ubound"):
-            if self.config.amp_ubound:
+            if self.config.amp_ubound is not None:
                 self.amp_ubound = self.config.amp_ubound
 
         self.apply_params()
-- 
2.43.0


From c086b856ffdad967f058ce93c24e47ae6f3711da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 25/56] fix: L-BFGS-B reported the gradient minimum reached on
 any convergence

---
 src/qutip_qtrl/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index ef58534..b3b5805 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -1041,7 +1041,11 @@ class OptimizerLBFGSB(Optimizer):
             dyn.update_ctrl_amps(amps)
             warn = res_dict["warnflag"]
             if warn == 0:
-                result.grad_norm_min_reached = True
+                # Convergence is either through the gradient or through the
+                # relative change in the function value
+                result.grad_norm_min_reached = "GRADIENT" in str(
+                    res_dict["task"]
+                )
                 result.termination_reason = "function converged"
             elif warn == 1:
                 result.max_iter_exceeded = True
-- 
2.43.0


From 64560a82bcce74c0a9439d7d4596f9b64e322bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 26/56] fix: max_iter_exceeded was never set by the general
 optimiser

---
 src/qutip_qtrl/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index b3b5805..747045b 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -610,6 +610,9 @@ class Optimizer(object):
                     "by {}".format(self.num_iter, opt_res.nit, self.method)
                 )
             result.num_iter = opt_res.nit
+            max_iter = self.method_options.get("maxiter", np.inf)
+            if not opt_res.success and opt_res.nit >= max_iter:
+                result.max_iter_exceeded = True
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From 9026848dfc8c114bb29d4172bde192cd1959e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 27/56] fix: number of waves of periodic pulses was wavelength
 times pulse time

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d52d738..0f10715 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -735,10 +735,10 @@ class PulseGenPeriodic(PulseGen):
             self.wavelen = 1.0 / self.freq
         elif self.wavelen is not None:
             self.freq = 1.0 / self.wavelen
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
         else:
             self.wavelen = 1.0 / self.freq
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
 
 
 class PulseGenSine(PulseGenPeriodic):
-- 
2.43.0


From e4d407ed6fd6217da7a3525c0bacb78aa782e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 28/56] fix: linear pulses ignored a given gradient or start
 value and failed for one timeslot

---
 src/qutip_qtrl/pulsegen.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 0f10715..968aa38 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -638,14 +638,22 @@ class PulseGenLinear(PulseGen):
         end point values
         """
         PulseGen.init_pulse(self)
-        if start_val is not None and end_val is not None:
+        if start_val is not None:
             self.start_val = start_val
+        if end_val is not None:
             self.end_val = end_val
+        elif gradient is not None:
+            # the line is defined by the gradient, not by its end point
+            self.gradient = gradient
+            self.end_val = None
 
         if self.start_val is not None and self.end_val is not None:
-            self.gradient = float(self.end_val - self.start_val) / (
-                self.pulse_time - self.tau[-1]
-            )
+            if self.num_tslots > 1:
+                self.gradient = float(self.end_val - self.start_val) / (
+                    self.pulse_time - self.tau[-1]
+                )
+            else:
+                self.gradient = 0.0
 
     def gen_pulse(self, gradient=None, start_val=None, end_val=None):
         """
-- 
2.43.0


From d50db7a28eccbd765f7981ce7726f2a941105a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 29/56] fix: zero and random pulses were infinite when one
 bound was infinite

---
 src/qutip_qtrl/pulsegen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 968aa38..1f437cc 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -306,6 +306,9 @@ class PulseGenZero(PulseGen):
         The value will be zero, unless the offset is not zero,
         in which case it will be the offset
         """
+        if not self._pulse_initialised:
+            self.init_pulse()
+
         pulse = np.zeros(self.num_tslots)
         return self._apply_bounds_and_offset(pulse)
 
@@ -327,6 +330,9 @@ class PulseGenRandom(PulseGen):
         and shifted using the offset property
         Returns the pulse as an array of vales for each timeslot
         """
+        if not self._pulse_initialised:
+            self.init_pulse()
+
         pulse = (2 * np.random.random(self.num_tslots) - 1) * self.scaling
 
         return self._apply_bounds_and_offset(pulse)
-- 
2.43.0


From 488ec77cf1306da7780d64ba8fc767cc558a4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 30/56] fix: a mean of zero passed to the Gaussian pulse was
 ignored

---
 src/qutip_qtrl/pulsegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 1f437cc..19ff67e 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -913,7 +913,7 @@ class PulseGenGaussian(PulseGen):
         if not self._pulse_initialised:
             self.init_pulse()
 
-        if mean:
+        if mean is not None:
             Tm = mean
         else:
             Tm = self.mean
-- 
2.43.0


From 6c328f594ea96e9ec012cf388f9c2517671b1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 31/56] fix: random pulses failed when the timeslot durations
 are a list

---
 src/qutip_qtrl/pulsegen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 19ff67e..7082e1c 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -388,7 +388,7 @@ class PulseGenRndFourier(PulseGen):
 
         # use some phase to avoid the first pulse being always 0
 
-        sum_wave = np.zeros(self.tau.shape)
+        sum_wave = np.zeros(self.num_tslots)
         wavelen = 2.0 * self.pulse_time
 
         t = self.time
@@ -489,7 +489,7 @@ class PulseGenRndWaves(PulseGen):
 
         # use some phase to avoid the first pulse being always 0
 
-        sum_wave = np.zeros(self.tau.shape)
+        sum_wave = np.zeros(self.num_tslots)
 
         t = self.time
         wl_range = max_wavelen - min_wavelen
@@ -543,7 +543,7 @@ class PulseGenRndWalk1(PulseGen):
         if not self._pulse_initialised:
             self.init_pulse()
 
-        walk = np.zeros(self.tau.shape)
+        walk = np.zeros(self.num_tslots)
         amp = self.scaling * (np.random.rand() * 2 - 1)
         for k in range(len(walk)):
             walk[k] = amp
@@ -594,7 +594,7 @@ class PulseGenRndWalk2(PulseGen):
         if not self._pulse_initialised:
             self.init_pulse()
 
-        walk = np.zeros(self.tau.shape)
+        walk = np.zeros(self.num_tslots)
         amp = self.scaling * (np.random.rand() * 2 - 1)
         print("Start amp {}".format(amp))
         grad = 0.0
-- 
2.43.0


From 3f37db731c8f6a4068266babff218327b0a4aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 32/56] fix: CRAB gen_pulse failed when given an array of
 coefficients

---
 src/qutip_qtrl/pulsegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 7082e1c..8da6afe 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1312,7 +1312,7 @@ class PulseGenCrabFourier(PulseGenCrab):
             If given this overides the default and sets the attribute
             of the same name.
         """
-        if coeffs:
+        if coeffs is not None:
             self.coeffs = coeffs
 
         if not self._pulse_initialised:
-- 
2.43.0


From fa5cf51c91328bcaf5b379fe44074819d3eb8bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 33/56] fix: randomize_freqs given in params was ignored by
 CRAB Fourier pulses

---
 src/qutip_qtrl/pulsegen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 8da6afe..49dd739 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1275,6 +1275,7 @@ class PulseGenCrabFourier(PulseGenCrab):
         PulseGenCrab.reset(self)
         self.freqs = None
         self.randomize_freqs = True
+        self.apply_params()
 
     def init_pulse(self, num_coeffs=None, init_coeffs=None):
         """
-- 
2.43.0


From aa993c73b6904fd7ea67893f1c82f25cd288db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 34/56] fix: unusable CRAB guess pulse actions raised an error
 instead of a warning

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 49dd739..288c4c5 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1153,13 +1153,13 @@ class PulseGenCrab(PulseGen):
     def init_guess_pulse(self):
         self.guess_pulse_func = None
         if not self.guess_pulse_action:
-            logger.WARN("No guess pulse action given, hence ignored.")
+            logger.warning("No guess pulse action given, hence ignored.")
         elif self.guess_pulse_action.upper() == "MODULATE":
             self.guess_pulse_func = self.guess_pulse_modulate
         elif self.guess_pulse_action.upper() == "ADD":
             self.guess_pulse_func = self.guess_pulse_add
         else:
-            logger.WARN(
+            logger.warning(
                 "No option for guess pulse action '{}' "
                 ", hence ignored.".format(self.guess_pulse_action)
             )
-- 
2.43.0


From b267160247dcd56669bbd2c855ee0c20b334b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 35/56] fix: the CUSTOM dumping level could not be set

---
 src/qutip_qtrl/dump.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index f86d900..023b31c 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -137,8 +137,8 @@ class Dump:
 
     @level.setter
     def level(self, value):
-        self._level = value
-        self._apply_level()
+        self._apply_level(value)
+        self._level = value.upper()
 
     @property
     def dump_any(self):
@@ -287,18 +287,18 @@ class OptimDump(Dump):
         return self.dump_fid_err and self.dump_grad_norm and self.dump_grad
 
     def _apply_level(self, level=None):
-        if level is None:
+        resetting = level is None
+        if resetting:
             level = self._level
         if not isinstance(level, str):
             raise ValueError("Dump level must be a string")
         level = level.upper()
         if level == "CUSTOM":
-            if self._level == "CUSTOM":
+            if not resetting and self.level == "CUSTOM":
                 # dumping level has not changed keep the same specific config
-                pass
-            else:
-                # Switching to custom, start from SUMMARY
-                level = "SUMMARY"
+                return
+            # Switching to custom, start from SUMMARY
+            level = "SUMMARY"
 
         if level == "SUMMARY":
             self.dump_summary = True
@@ -581,19 +581,19 @@ class DynamicsDump(Dump):
 
     def _apply_level(self, level=None):
         dyn = self.parent
-        if level is None:
+        resetting = level is None
+        if resetting:
             level = self._level
 
         if not isinstance(level, str):
             raise ValueError("Dump level must be a string")
         level = level.upper()
         if level == "CUSTOM":
-            if self._level == "CUSTOM":
+            if not resetting and self.level == "CUSTOM":
                 # dumping level has not changed keep the same specific config
-                pass
-            else:
-                # Switching to custom, start from SUMMARY
-                level = "SUMMARY"
+                return
+            # Switching to custom, start from SUMMARY
+            level = "SUMMARY"
 
         if level == "SUMMARY":
             self.dump_summary = True
-- 
2.43.0


From e7fc1943d0acd02cebed9b5f053820df0daa8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 36/56] fix: relative and home-relative summary file paths were
 not resolved

---
 src/qutip_qtrl/dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 023b31c..cc59ddb 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -209,7 +209,7 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File path must be a string")
         self._summary_file_specified = True
-        if os.path.abspath(value):
+        if os.path.isabs(value):
             self._summary_file_path = value
         elif "~" in value:
             self._summary_file_path = os.path.expanduser(value)
-- 
2.43.0


From 838484cdd39709a9b38158e8165ff7237822ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 37/56] fix: dump files kept going to the previous directory
 after setting dump_dir

---
 src/qutip_qtrl/dump.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index cc59ddb..23a1f62 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -163,9 +163,15 @@ class Dump:
     @dump_dir.setter
     def dump_dir(self, value):
         self._dump_dir = value
+        self._clear_file_paths()
         if not self.create_dump_dir():
             self._dump_dir = None
 
+    def _clear_file_paths(self):
+        """Forget the file paths that were generated automatically"""
+        if not self._summary_file_specified:
+            self._summary_file_path = None
+
     def create_dump_dir(self):
         """
         Checks dump directory exists, creates it if not
@@ -193,7 +199,7 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File name base must be a string")
         self._fname_base = value
-        self._summary_file_path = None
+        self._clear_file_paths()
 
     @property
     def summary_file(self):
@@ -270,6 +276,11 @@ class OptimDump(Dump):
         self._fid_err_file = None
         self._grad_norm_file = None
 
+    def _clear_file_paths(self):
+        Dump._clear_file_paths(self)
+        self._fid_err_file = None
+        self._grad_norm_file = None
+
     def clear(self):
         del self.iter_summary[:]
         del self.fid_err_log[:]
-- 
2.43.0


From 47421fc7ac06667b61dafbb552eec873ea513f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 38/56] fix: dump files contained the forward evolution as
 onward and onto evolution

---
 src/qutip_qtrl/dump.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 23a1f62..e196ca1 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -927,7 +927,7 @@ class EvoCompDumpItem(DumpItem):
                 closef = True
             for dg in self.dyn_gen:
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, self.onwd_evo[k], delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -946,7 +946,7 @@ class EvoCompDumpItem(DumpItem):
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, self.onto_evo[k], delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
-- 
2.43.0


From 951b04575b2c08ffe965e8ede8d423b0bc320b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 39/56] fix: dump files for a custom selection failed without
 generators and missed the final evolution

---
 src/qutip_qtrl/dump.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index e196ca1..83bb120 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -859,7 +859,6 @@ class EvoCompDumpItem(DumpItem):
 
         # Propagators
         if self.prop is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Propagators\n"))
@@ -867,10 +866,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-prop.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k in range(len(self.prop)):
                 f.write(str.encode("Propagator for timeslot {}\n".format(k)))
                 np.savetxt(f, self.prop[k], delimiter=dump.data_sep)
-                k += 1
             if closef:
                 f.close()
 
@@ -900,7 +898,6 @@ class EvoCompDumpItem(DumpItem):
 
         # forward evolution
         if self.fwd_evo is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Forward evolution\n"))
@@ -908,16 +905,14 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-fwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k in range(len(self.fwd_evo)):
                 f.write(str.encode("Evolution from 0 to {}\n".format(k)))
                 np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
-                k += 1
             if closef:
                 f.close()
 
         # onward evolution
         if self.onwd_evo is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Onward evolution\n"))
@@ -925,16 +920,14 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k in range(len(self.onwd_evo)):
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
                 np.savetxt(f, self.onwd_evo[k], delimiter=dump.data_sep)
-                k += 1
             if closef:
                 f.close()
 
         # onto evolution
         if self.onto_evo is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Onto evolution\n"))
@@ -942,12 +935,11 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onto_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k in range(len(self.onto_evo)):
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
                 np.savetxt(f, self.onto_evo[k], delimiter=dump.data_sep)
-                k += 1
             if closef:
                 f.close()
 
-- 
2.43.0


From 5e3ebcb60bd4b1a7e51c0304bd3a4b204c794c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 40/56] fix: dumps of Qobj operators could not be written to
 file

---
 src/qutip_qtrl/dump.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 83bb120..1d31022 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -756,6 +756,11 @@ class DynamicsDump(Dump):
                 logger.info("Dynamics dump saved to {}".format(self.dump_dir))
 
 
+def _oper_array(oper):
+    """The operator as an array that numpy.savetxt can write"""
+    return oper.full() if hasattr(oper, "full") else oper
+
+
 class DumpItem:
     """
     An item in a dump list
@@ -852,7 +857,9 @@ class EvoCompDumpItem(DumpItem):
                         "dynamics generator for timeslot {}\n".format(k)
                     )
                 )
-                np.savetxt(f, self.dyn_gen[k], delimiter=dump.data_sep)
+                np.savetxt(
+                    f, _oper_array(self.dyn_gen[k]), delimiter=dump.data_sep
+                )
                 k += 1
             if closef:
                 f.close()
@@ -868,7 +875,9 @@ class EvoCompDumpItem(DumpItem):
                 closef = True
             for k in range(len(self.prop)):
                 f.write(str.encode("Propagator for timeslot {}\n".format(k)))
-                np.savetxt(f, self.prop[k], delimiter=dump.data_sep)
+                np.savetxt(
+                    f, _oper_array(self.prop[k]), delimiter=dump.data_sep
+                )
             if closef:
                 f.close()
 
@@ -891,7 +900,9 @@ class EvoCompDumpItem(DumpItem):
                         )
                     )
                     np.savetxt(
-                        f, self.prop_grad[k, j], delimiter=dump.data_sep
+                        f,
+                        _oper_array(self.prop_grad[k, j]),
+                        delimiter=dump.data_sep,
                     )
             if closef:
                 f.close()
@@ -907,7 +918,9 @@ class EvoCompDumpItem(DumpItem):
                 closef = True
             for k in range(len(self.fwd_evo)):
                 f.write(str.encode("Evolution from 0 to {}\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(
+                    f, _oper_array(self.fwd_evo[k]), delimiter=dump.data_sep
+                )
             if closef:
                 f.close()
 
@@ -922,7 +935,9 @@ class EvoCompDumpItem(DumpItem):
                 closef = True
             for k in range(len(self.onwd_evo)):
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
-                np.savetxt(f, self.onwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(
+                    f, _oper_array(self.onwd_evo[k]), delimiter=dump.data_sep
+                )
             if closef:
                 f.close()
 
@@ -939,7 +954,9 @@ class EvoCompDumpItem(DumpItem):
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
-                np.savetxt(f, self.onto_evo[k], delimiter=dump.data_sep)
+                np.savetxt(
+                    f, _oper_array(self.onto_evo[k]), delimiter=dump.data_sep
+                )
             if closef:
                 f.close()
 
-- 
2.43.0


From 95bec9352fbfef84bbe556e94be474295f33d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 41/56] fix: limits of one run remained as options of the next
 one and in the caller's dict

---
 src/qutip_qtrl/optimizer.py | 40 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 747045b..fbb45ba 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -436,17 +436,17 @@ class Optimizer(object):
 
     def _build_method_options(self):
         """
-        Creates the method_options dictionary for the scipy.optimize.minimize
-        function based on the attributes of this object and the
-        termination_conditions
+        Creates the options dictionary for the scipy.optimize.minimize
+        function based on the method_options and other attributes of this
+        object and the termination_conditions.
         It assumes that apply_method_params has already been run and
         hence the method_options attribute may already contain items.
         These values will NOT be overridden
         """
         tc = self.termination_conditions
-        if self.method_options is None:
-            self.method_options = {}
-        mo = self.method_options
+        # a new dictionary for each run, so that the limits of one run
+        # do not remain as options of the next one
+        mo = dict(self.method_options or {})
 
         if "max_metric_corr" in mo and "maxcor" not in mo:
             mo["maxcor"] = mo["max_metric_corr"]
@@ -494,7 +494,9 @@ class Optimizer(object):
                 if not isinstance(self.method_options, dict):
                     self.method_options = unused_params
                 else:
-                    self.method_options.update(unused_params)
+                    self.method_options = dict(
+                        self.method_options, **unused_params
+                    )
 
     def _build_bounds_list(self):
         cfg = self.config
@@ -570,7 +572,7 @@ class Optimizer(object):
 
         self._init_bounds()
 
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         result = self._create_result()
 
@@ -594,7 +596,7 @@ class Optimizer(object):
                 method=self.method,
                 jac=jac,
                 bounds=self.bounds,
-                options=self.method_options,
+                options=method_options,
                 callback=self.iter_step_callback_func,
             )
 
@@ -610,7 +612,7 @@ class Optimizer(object):
                     "by {}".format(self.num_iter, opt_res.nit, self.method)
                 )
             result.num_iter = opt_res.nit
-            max_iter = self.method_options.get("maxiter", np.inf)
+            max_iter = method_options.get("maxiter", np.inf)
             if not opt_res.success and opt_res.nit >= max_iter:
                 result.max_iter_exceeded = True
 
@@ -982,7 +984,7 @@ class OptimizerLBFGSB(Optimizer):
         dyn = self.dynamics
         cfg = self.config
         self.optim_var_vals = self._get_optim_var_vals()
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         st_time = timeit.default_timer()
         self.wall_time_optimize_start = st_time
@@ -1000,19 +1002,19 @@ class OptimizerLBFGSB(Optimizer):
         else:
             fprime = self.fid_err_grad_wrapper
 
-        if "accuracy_factor" in self.method_options:
-            factr = self.method_options["accuracy_factor"]
-        elif "ftol" in self.method_options:
-            factr = self.method_options["ftol"]
+        if "accuracy_factor" in method_options:
+            factr = method_options["accuracy_factor"]
+        elif "ftol" in method_options:
+            factr = method_options["ftol"]
         elif hasattr(term_conds, "accuracy_factor"):
             factr = term_conds.accuracy_factor
         else:
             factr = 1e7
 
-        if "max_metric_corr" in self.method_options:
-            m = self.method_options["max_metric_corr"]
-        elif "maxcor" in self.method_options:
-            m = self.method_options["maxcor"]
+        if "max_metric_corr" in method_options:
+            m = method_options["max_metric_corr"]
+        elif "maxcor" in method_options:
+            m = method_options["maxcor"]
         elif hasattr(self, "max_metric_corr"):
             m = self.max_metric_corr
         else:
-- 
2.43.0


From 222b907eb737263878f17bc7ec62cc886806dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 42/56] fix: optimisation functions added options to the
 caller's dictionaries

---
 src/qutip_qtrl/pulseoptim.py | 56 +++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index b7d3555..ff3ca32 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -373,7 +373,9 @@ def optimize_pulse(
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
             if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
+                method_params = dict(
+                    method_params, max_metric_corr=max_metric_corr
+                )
         else:
             method_params = {"max_metric_corr": max_metric_corr}
         _param_deprecation(
@@ -384,7 +386,9 @@ def optimize_pulse(
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
             if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
+                method_params = dict(
+                    method_params, accuracy_factor=accuracy_factor
+                )
         else:
             method_params = {"accuracy_factor": accuracy_factor}
         _param_deprecation(
@@ -396,7 +400,7 @@ def optimize_pulse(
     if phase_option is not None:
         if isinstance(fid_params, dict):
             if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+                fid_params = dict(fid_params, phase_option=phase_option)
         else:
             fid_params = {"phase_option": phase_option}
         _param_deprecation(
@@ -407,8 +411,10 @@ def optimize_pulse(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
-                fid_params["scale_factor"] = fid_err_scale_factor
+            if "scale_factor" not in fid_params:
+                fid_params = dict(
+                    fid_params, scale_factor=fid_err_scale_factor
+                )
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
         _param_deprecation(
@@ -778,7 +784,9 @@ def optimize_pulse_unitary(
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
             if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
+                method_params = dict(
+                    method_params, max_metric_corr=max_metric_corr
+                )
         else:
             method_params = {"max_metric_corr": max_metric_corr}
         _param_deprecation(
@@ -789,7 +797,9 @@ def optimize_pulse_unitary(
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
             if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
+                method_params = dict(
+                    method_params, accuracy_factor=accuracy_factor
+                )
         else:
             method_params = {"accuracy_factor": accuracy_factor}
         _param_deprecation(
@@ -816,7 +826,7 @@ def optimize_pulse_unitary(
             fid_params = {"phase_option": phase_option}
         else:
             if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+                fid_params = dict(fid_params, phase_option=phase_option)
 
     return optimize_pulse(
         drift=H_d,
@@ -1109,12 +1119,14 @@ def opt_pulse_crab(
         }
     else:
         if num_coeffs is not None and "num_coeffs" not in alg_params:
-            alg_params["num_coeffs"] = num_coeffs
+            alg_params = dict(alg_params, num_coeffs=num_coeffs)
         if (
             init_coeff_scaling is not None
             and "init_coeff_scaling" not in alg_params
         ):
-            alg_params["init_coeff_scaling"] = init_coeff_scaling
+            alg_params = dict(
+                alg_params, init_coeff_scaling=init_coeff_scaling
+            )
 
     # Build the guess pulse options
     # Any options passed in the guess_pulse_params take precedence
@@ -1122,6 +1134,7 @@ def opt_pulse_crab(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
+        guess_pulse_params = dict(guess_pulse_params)
         if (
             guess_pulse_scaling is not None
             and "scaling" not in guess_pulse_params
@@ -1422,12 +1435,14 @@ def opt_pulse_crab_unitary(
         }
     else:
         if num_coeffs is not None and "num_coeffs" not in alg_params:
-            alg_params["num_coeffs"] = num_coeffs
+            alg_params = dict(alg_params, num_coeffs=num_coeffs)
         if (
             init_coeff_scaling is not None
             and "init_coeff_scaling" not in alg_params
         ):
-            alg_params["init_coeff_scaling"] = init_coeff_scaling
+            alg_params = dict(
+                alg_params, init_coeff_scaling=init_coeff_scaling
+            )
 
     # Build the guess pulse options
     # Any options passed in the guess_pulse_params take precedence
@@ -1435,6 +1450,7 @@ def opt_pulse_crab_unitary(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
+        guess_pulse_params = dict(guess_pulse_params)
         if (
             guess_pulse_scaling is not None
             and "scaling" not in guess_pulse_params
@@ -1774,7 +1790,9 @@ def create_pulse_optimizer(
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
             if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
+                method_params = dict(
+                    method_params, max_metric_corr=max_metric_corr
+                )
         else:
             method_params = {"max_metric_corr": max_metric_corr}
         _param_deprecation(
@@ -1785,7 +1803,9 @@ def create_pulse_optimizer(
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
             if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
+                method_params = dict(
+                    method_params, accuracy_factor=accuracy_factor
+                )
         else:
             method_params = {"accuracy_factor": accuracy_factor}
         _param_deprecation(
@@ -1797,7 +1817,7 @@ def create_pulse_optimizer(
     if phase_option is not None:
         if isinstance(fid_params, dict):
             if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+                fid_params = dict(fid_params, phase_option=phase_option)
         else:
             fid_params = {"phase_option": phase_option}
         _param_deprecation(
@@ -1808,8 +1828,10 @@ def create_pulse_optimizer(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
-                fid_params["scale_factor"] = fid_err_scale_factor
+            if "scale_factor" not in fid_params:
+                fid_params = dict(
+                    fid_params, scale_factor=fid_err_scale_factor
+                )
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
         _param_deprecation(
-- 
2.43.0


From 9d7315af12ff0390774fdc426758ec6d96bec82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 43/56] fix: optimize_pulse failed when alg CRAB was not in
 upper case

---
 src/qutip_qtrl/pulseoptim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index ff3ca32..161ec01 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -475,7 +475,7 @@ def optimize_pulse(
     # Generate initial pulses for each control
     init_amps = np.zeros([dyn.num_tslots, dyn.num_ctrls])
 
-    if alg == "CRAB":
+    if _upper_safe(alg) == "CRAB":
         for j in range(dyn.num_ctrls):
             pgen = optim.pulse_generator[j]
             pgen.init_pulse()
-- 
2.43.0


From 7c4fb2e95f8478f05e91f202c0098230afd5ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 44/56] fix: bounds of zero were ignored for CRAB pulses

---
 src/qutip_qtrl/pulseoptim.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 161ec01..86963dd 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -93,6 +93,16 @@ def _upper_safe(s):
     return s
 
 
+def _get_ctrl_bound(bound, ctrl):
+    """
+    The amplitude bound of one control, where the bound is either a value
+    for all controls or a list with a value for each of them
+    """
+    if isinstance(bound, list):
+        return bound[min(ctrl, len(bound) - 1)] if bound else None
+    return bound
+
+
 def optimize_pulse(
     drift,
     ctrls,
@@ -2075,30 +2085,15 @@ def create_pulse_optimizer(
             if isinstance(crab_pulse_params, dict):
                 crab_pgen.apply_params(crab_pulse_params)
 
-            lb = None
-            if amp_lbound:
-                if isinstance(amp_lbound, list):
-                    try:
-                        lb = amp_lbound[j]
-                    except Exception:
-                        lb = amp_lbound[-1]
-                else:
-                    lb = amp_lbound
-            ub = None
-            if amp_ubound:
-                if isinstance(amp_ubound, list):
-                    try:
-                        ub = amp_ubound[j]
-                    except Exception:
-                        ub = amp_ubound[-1]
-                else:
-                    ub = amp_ubound
+            lb = _get_ctrl_bound(amp_lbound, j)
+            ub = _get_ctrl_bound(amp_ubound, j)
             crab_pgen.lbound = lb
             crab_pgen.ubound = ub
 
             if guess_pulse_type:
                 guess_pgen.lbound = lb
                 guess_pgen.ubound = ub
+                guess_pgen.init_pulse()
                 crab_pgen.guess_pulse = guess_pgen.gen_pulse()
                 if guess_pulse_action:
                     crab_pgen.guess_pulse_action = guess_pulse_action
-- 
2.43.0


From 9922891675e6781601936fb4c12e562cb758a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 45/56] fix: lists of amplitude bounds failed for GRAPE pulse
 optimisation

---
 src/qutip_qtrl/pulseoptim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 86963dd..3ba90e8 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -493,6 +493,10 @@ def optimize_pulse(
     else:
         pgen = optim.pulse_generator
         for j in range(dyn.num_ctrls):
+            if isinstance(amp_lbound, list) or isinstance(amp_ubound, list):
+                pgen.lbound = _get_ctrl_bound(amp_lbound, j)
+                pgen.ubound = _get_ctrl_bound(amp_ubound, j)
+                pgen.init_pulse()
             init_amps[:, j] = pgen.gen_pulse()
 
     # Initialise the starting amplitudes
-- 
2.43.0


From 0ee9191fcd16b2a475613f6b1d8d1b1bbedf4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 46/56] fix: time dependent generators of the wrong length were
 not rejected

---
 src/qutip_qtrl/dynamics.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index c5729e6..be2f9f0 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -65,6 +65,11 @@ def _check_ctrls_container(ctrls):
             if isinstance(ctrls[0], (list, tuple)):
                 ctrls_ = np.empty((len(ctrls), len(ctrls[0])), dtype=object)
                 for i, ctrl in enumerate(ctrls):
+                    if len(ctrl) != len(ctrls[0]):
+                        raise ValueError(
+                            "The number of control dyn gen must be the same "
+                            "for all timeslots"
+                        )
                     ctrls_[i, :] = ctrl
                 ctrls = ctrls_
         except IndexError:
@@ -754,6 +759,14 @@ class Dynamics(object):
 
         n_ts = self.num_tslots
         n_ctrls = self.num_ctrls
+        if self.time_depend_drift and len(self.drift_dyn_gen) != n_ts:
+            raise ValueError(
+                "The drift dyn gen list must have one entry per timeslot"
+            )
+        if self.time_depend_ctrl_dyn_gen and len(self.ctrl_dyn_gen) != n_ts:
+            raise ValueError(
+                "The control dyn gen array must have one row per timeslot"
+            )
         if self.oper_dtype == Qobj:
             self._initial = self.initial
             self._target = self.target
-- 
2.43.0


From 616bea006a930e11b4025d384242085140017f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 47/56] fix: starting pulses given as an array failed together
 with u_limits

---
 src/qutip_qtrl/grape.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 6c4b5e2..3dd102c 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -157,9 +157,9 @@ def grape_unitary(
     if u_limits:
         warnings.warn("Caution: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
@@ -333,9 +333,9 @@ def cy_grape_unitary(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
@@ -523,9 +523,9 @@ def grape_unitary_adaptive(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
-- 
2.43.0


From 6aa49d61c28455f83f06817fa8619f3e4d8a03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 48/56] fix: the time penalty of grape_unitary_adaptive used an
 unrelated index

---
 src/qutip_qtrl/grape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 3dd102c..da1e6de 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -631,7 +631,7 @@ def grape_unitary_adaptive(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * k**2 * u[r, j, k] * dt
+                    du += -2 * beta * m**2 * u[r, j, m, best_k] * dt
 
                 for k, eps_val in enumerate(eps_vec):
                     u[r + 1, j, m, k] = u[r, j, m, k] + eps_val * du.real
-- 
2.43.0


From 067c3f1d31650efd65d209bb7764094a61fa5833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 49/56] fix: grape_unitary used a different time penalty than
 the other variants

---
 src/qutip_qtrl/grape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index da1e6de..5de9743 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -230,7 +230,7 @@ def grape_unitary(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * m * u[r, j, m] * dt
+                    du += -2 * beta * m**2 * u[r, j, m] * dt
 
                 u[r + 1, j, m] = u[r, j, m] + eps * du.real
 
-- 
2.43.0


From 501593e487960666c613f13e55d7069e056de550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 50/56] fix: the adaptive GRAPE result lacked the pulses of its
 evolution operator

---
 src/qutip_qtrl/grape.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 5de9743..2524f6a 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -647,20 +647,22 @@ def grape_unitary_adaptive(
         logger.debug("Time 3: %fs", time.time() - _t0)
         _t0 = time.time()
 
-        for k, eps_val in enumerate(eps_vec):
-            U_list = [
-                (-1j * _H_idx(r + 1, idx, k) * dt).expm()
-                for idx in range(M - 1)
-            ]
+        def _evolve_all(r):
+            for k in range(K):
+                U_list = [
+                    (-1j * _H_idx(r, idx, k) * dt).expm()
+                    for idx in range(M - 1)
+                ]
 
-            Uf[k] = qeye(U.dims[0])
-            for m in range(M - 1):
-                Uf[k] = U_list[m] @ Uf[k]
+                Uf[k] = qeye(U.dims[0])
+                for m in range(M - 1):
+                    Uf[k] = U_list[m] @ Uf[k]
 
-            _k_overlap[k] = _fidelity_function(
-                cy_overlap(Uf[k].data, U.data)
-            ).real
+                _k_overlap[k] = _fidelity_function(
+                    cy_overlap(Uf[k].data, U.data)
+                ).real
 
+        _evolve_all(r + 1)
         best_k = np.argmax(_k_overlap)
         logger.debug("k_overlap: %s, %e", repr(_k_overlap), best_k)
 
@@ -669,6 +671,9 @@ def grape_unitary_adaptive(
 
             u[r + 1, :, :, :] = u[r, :, :, :]
             eps_vec /= 2
+            # the evolution must be that of the restored pulses
+            _evolve_all(r + 1)
+            best_k = np.argmax(_k_overlap)
         else:
             if best_k == 0:
                 eps_vec /= 2
@@ -692,10 +697,10 @@ def grape_unitary_adaptive(
         ip_funcs = [
             interp1d(
                 times,
-                u[_r, j, :, best_k],
+                u[_r + 1, j, :, best_k],
                 kind=interp_kind,
                 bounds_error=False,
-                fill_value=u[R - 1, j, -1],
+                fill_value=u[_r + 1, j, -1, best_k],
             )
             for j in range(J)
         ]
@@ -704,11 +709,16 @@ def grape_unitary_adaptive(
             [H_ops[j], lambda t, args, j=j: ip_funcs[j](t)] for j in range(J)
         ]
     else:
-        H_td_func = [H0] + [[H_ops[j], u[_r, j, :, best_k]] for j in range(J)]
+        H_td_func = [H0] + [
+            [H_ops[j], u[_r + 1, j, :, best_k]] for j in range(J)
+        ]
 
     progress_bar.finished()
 
-    result = GRAPEResult(u=u[:_r, :, :, best_k], U_f=Uf[best_k], H_t=H_td_func)
+    # iteration _r computed (and Uf is the evolution of) the pulses in row _r + 1
+    result = GRAPEResult(
+        u=u[: _r + 2, :, :, best_k], U_f=Uf[best_k], H_t=H_td_func
+    )
 
     result.eps = eps_log
     result.overlap = overlap_log
-- 
2.43.0


From 48b5fe2286170b2fd67a8144b8e86b4bcc1d0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 51/56] fix: an empty drift list raised IndexError instead of
 ValueError

---
 src/qutip_qtrl/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index be2f9f0..391cc1b 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -97,6 +97,8 @@ def _check_drift_dyn_gen(drift):
         return
     if not isinstance(drift, (list, tuple)):
         raise TypeError("drift should be a Qobj or a list of Qobj")
+    if not drift:
+        raise ValueError("The drift dyn gen list must not be empty")
     for d in drift:
         if not isinstance(d, Qobj):
             raise TypeError("drift should be a Qobj or a list of Qobj")
-- 
2.43.0


From 71e36b26599d6e2f6d17cf98ae85ed1d21587b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 52/56] fix: bounds set to infinity after initialisation made
 pulses infinite

---
 src/qutip_qtrl/pulsegen.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 288c4c5..8bf8821 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -257,34 +257,41 @@ class PulseGen:
         (after applying the offset)
         Assumes that pulses passed are centered around zero (on average)
         """
-        if self.lbound is None and self.ubound is None:
+        lbound, ubound = self.lbound, self.ubound
+        # the bounds may have been set since the pulse was initialised
+        if lbound is not None and np.isinf(lbound):
+            lbound = None
+        if ubound is not None and np.isinf(ubound):
+            ubound = None
+
+        if lbound is None and ubound is None:
             return pulse + self.offset
 
         max_amp = max(pulse)
         min_amp = min(pulse)
-        if (self.ubound is None or max_amp + self.offset <= self.ubound) and (
-            self.lbound is None or min_amp + self.offset >= self.lbound
+        if (ubound is None or max_amp + self.offset <= ubound) and (
+            lbound is None or min_amp + self.offset >= lbound
         ):
             return pulse + self.offset
 
         # Some shifting / scaling is required.
-        if self.ubound is None or self.lbound is None:
+        if ubound is None or lbound is None:
             # One of the bounds is inf, so just shift the pulse
-            if self.lbound is None:
+            if lbound is None:
                 # max_amp + offset must exceed the ubound
-                return pulse + self.ubound - max_amp
+                return pulse + ubound - max_amp
             else:
                 # min_amp + offset must exceed the lbound
-                return pulse + self.lbound - min_amp
+                return pulse + lbound - min_amp
         else:
-            bound_range = self.ubound - self.lbound
+            bound_range = ubound - lbound
             amp_range = max_amp - min_amp
             if max_amp - min_amp > bound_range:
                 # pulse range is too high, it must be scaled
                 pulse = pulse * bound_range / amp_range
 
             # otherwise the pulse should fit anyway
-            return pulse + self.lbound - min(pulse)
+            return pulse + lbound - min(pulse)
 
     def _apply_ramping_pulse(self, pulse, ramping_pulse=None):
         if ramping_pulse is None:
-- 
2.43.0


From 9a0e7dbbaef36c06ef590d5808176a30b00de419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:11 +0000
Subject: [PATCH 53/56] fix: CRAB gen_pulse ignored the coefficients given in
 its first call

---
 src/qutip_qtrl/pulsegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 8bf8821..2dacdd5 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1320,12 +1320,12 @@ class PulseGenCrabFourier(PulseGenCrab):
             If given this overides the default and sets the attribute
             of the same name.
         """
-        if coeffs is not None:
-            self.coeffs = coeffs
-
         if not self._pulse_initialised:
             self.init_pulse()
 
+        if coeffs is not None:
+            self.coeffs = coeffs
+
         pulse = np.zeros(self.num_tslots)
 
         for i in range(self.num_coeffs):
-- 
2.43.0


From e63fb6e36a7ee21c53696f7cad6174464e52d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 54/56] fix: gradients in the optimisation dump changed with
 later computation

---
 src/qutip_qtrl/dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 1d31022..bc465d2 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -392,7 +392,7 @@ class OptimDump(Dump):
 
     def update_grad_log(self, grad):
         """add an entry to the grad log"""
-        self.grad_log.append(grad)
+        self.grad_log.append(np.array(grad))
         if self.write_to_file:
             fname = "{}-fid_err_gradients{}.{}".format(
                 self.fname_base, len(self.grad_log), self.dump_file_ext
-- 
2.43.0


From 13fe8215b41b251c617499910caf7e09a5cdd260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 55/56] fix: the documented fid_type TD_APPROX was refused

---
 src/qutip_qtrl/pulseoptim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 3ba90e8..072abf9 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -1944,7 +1944,7 @@ def create_pulse_optimizer(
     if fid_type_up == "DEF" or fid_type_up is None or fid_type_up == "":
         # None given, use the default for the Dynamics
         pass
-    elif fid_type_up == "TDAPPROX":
+    elif fid_type_up in ("TDAPPROX", "TD_APPROX"):
         if not isinstance(dyn.fid_computer, fidcomp.FidCompTraceDiffApprox):
             dyn.fid_computer = fidcomp.FidCompTraceDiffApprox(dyn)
     elif fid_type_up == "TRACEDIFF":
-- 
2.43.0


From e649891fb2af165b1a2e71569b4f85e6e07b8e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 56/56] fix: optimize_pulse and optimize_pulse_unitary ignored
 tslot_params

---
 src/qutip_qtrl/pulseoptim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 072abf9..7bff918 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -469,6 +469,8 @@ def optimize_pulse(
         prop_params=prop_params,
         fid_type=fid_type,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
@@ -865,6 +867,8 @@ def optimize_pulse_unitary(
         dyn_params=dyn_params,
         prop_params=prop_params,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
-- 
2.43.0

