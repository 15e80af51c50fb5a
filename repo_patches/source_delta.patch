From bfde904129a8fb5afcd1deac85f26ac6115cb836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 01/16] fix: return the computed primal regularization from
 guts_of_compute_perturb_wrong_inertia

compute_initial_deltas() with an established degenerate Hessian overwrote the
regularization by the (never assigned) output arguments, leaving delta_wx and
delta_wd different from each other and from the computed value.
---
 src/Optimization/hiopPDPerturbation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index e73125a..daa3a10 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -346,6 +346,8 @@ namespace hiop
       }
     }
     delta_wd_curr_db_ = delta_wx_curr_db_;
+    delta_wx = delta_wx_curr_db_;
+    delta_wd = delta_wd_curr_db_;
     set_delta_curr_vec(PrimalUpdate);
 
     if(delta_wx_curr_db_ > delta_w_max_bar_) {
-- 
2.43.0


From 3164521d9351a2d7e4eada587fea7a20aa36e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 02/16] fix: copy the constraint violation in
 hiopResidual::copyFrom

---
 src/Optimization/hiopResidual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopResidual.cpp b/src/Optimization/hiopResidual.cpp
index f5a56c0..8309496 100644
--- a/src/Optimization/hiopResidual.cpp
+++ b/src/Optimization/hiopResidual.cpp
@@ -418,6 +418,7 @@ void hiopResidual::copyFrom(const hiopResidual& resid_src)
   nrmOne_bar_feasib = resid_src.get_nrmOne_bar_feasib();
   nrmOne_nlp_optim = resid_src.get_nrmOne_nlp_optim();
   nrmOne_bar_optim = resid_src.get_nrmOne_bar_optim();
+  nrmInf_cons_violation = resid_src.nrmInf_cons_violation;
   
   nlp = resid_src.nlp;
 }
-- 
2.43.0


From 5ae6e6f2f7d278920cd37e02fe24c8f196f4fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 03/16] fix: keep the limited step within moving_lim_abs

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 973c6d4..735aa08 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2831,7 +2831,7 @@ bool hiopAlgFilterIPMBase::ensure_moving_lims(const hiopIterate& it, const hiopI
     auto x_nrm = dir.get_x()->infnorm();
     auto step_nrm = alpha_pr*x_nrm;
     if(step_nrm>moving_lim_abs) {
-      alpha_pr = moving_lim_abs / step_nrm;
+      alpha_pr *= moving_lim_abs / step_nrm;
       nlp->log->printf(hovLinesearch,
                        "Moving lim (absolute, [%7.3e]): step reduced: %7.3e -> %7.3e.\n",
                        moving_lim_abs,
-- 
2.43.0


From b2de09935336eaceae3589168001d84c6359f97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 04/16] fix: report multipliers in the user's space when the
 problem is scaled

user_callback_solution and get_dual_solutions multiplied by the objective scaling instead of dividing by it,
get_dual_solutions returned uninitialized constraint multipliers, and unscaling in place made the multipliers
queried after the solve differ from those passed to the callback.
---
 src/Optimization/hiopNlpFormulation.cpp | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 5204681..46ee5cd 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1047,15 +1047,16 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
     cons_lambdas_->copy_from_two_vec_w_pattern(*it.get_yc(), *cons_eq_mapping_, *it.get_yd(), *cons_ineq_mapping_);
     cons_lambdas_->copyTo(lambda_a);  
   } else {
-    const double obj_scale_ext_to_hiop = this->get_obj_scale();
+    // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
+    const double obj_scale_hiop_to_ext = 1./this->get_obj_scale();
     if(temp_x_ == nullptr) {
       temp_x_ = this->alloc_primal_vec();
     }
     temp_x_->copyFrom(*it.get_zl());
-    temp_x_->scale(obj_scale_ext_to_hiop);
+    temp_x_->scale(obj_scale_hiop_to_ext);
     temp_x_->copyTo(zl_a);
     temp_x_->copyFrom(*it.get_zu());
-    temp_x_->scale(obj_scale_ext_to_hiop);
+    temp_x_->scale(obj_scale_hiop_to_ext);
     temp_x_->copyTo(zu_a);
 
     if(temp_eq_ == nullptr) {
@@ -1067,10 +1068,12 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
     if(cons_lambdas_ == nullptr) {
       cons_lambdas_ = this->alloc_dual_vec();
     }
+    temp_eq_->copyFrom(*it.get_yc());
+    temp_ineq_->copyFrom(*it.get_yd());
     temp_eq_   = nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
     temp_ineq_ = nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
     cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
-    cons_lambdas_->scale(obj_scale_ext_to_hiop);
+    cons_lambdas_->scale(obj_scale_hiop_to_ext);
     cons_lambdas_->copyTo(lambda_a);
   }
 
@@ -1096,14 +1099,13 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   }
   if(nlp_scaling_) {
     // return unscaled values. 
-    // it's safe to modify these values since this function is called in the end
     // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
     y_c = *(nlp_transformations_.apply_to_cons_eq(y_c, n_cons_eq_));
     y_d = *(nlp_transformations_.apply_to_cons_ineq(y_d, n_cons_ineq_));
-    y_c.scale(obj_scale_ext_to_hiop);
-    y_d.scale(obj_scale_ext_to_hiop);
-    z_L.scale(obj_scale_ext_to_hiop);
-    z_U.scale(obj_scale_ext_to_hiop);
+    y_c.scale(1./obj_scale_ext_to_hiop);
+    y_d.scale(1./obj_scale_ext_to_hiop);
+    z_L.scale(1./obj_scale_ext_to_hiop);
+    z_U.scale(1./obj_scale_ext_to_hiop);
   }
   cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
 
@@ -1160,6 +1162,17 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
                                     obj_value/obj_scale_ext_to_hiop);
   }                         
 
+  if(nlp_scaling_) {
+    // back to the scaled values: the duals can be queried later, see get_dual_solutions
+    y_c = *(nlp_transformations_.apply_inv_to_cons_eq(y_c, n_cons_eq_));
+    y_d = *(nlp_transformations_.apply_inv_to_cons_ineq(y_d, n_cons_ineq_));
+    y_c.scale(obj_scale_ext_to_hiop);
+    y_d.scale(obj_scale_ext_to_hiop);
+    z_L.scale(obj_scale_ext_to_hiop);
+    z_U.scale(obj_scale_ext_to_hiop);
+    c = *(nlp_transformations_.apply_to_cons_eq(c, n_cons_eq_));
+    d = *(nlp_transformations_.apply_to_cons_ineq(d, n_cons_ineq_));
+  }
 }
 
 bool hiopNlpFormulation::user_callback_iterate(int iter,
-- 
2.43.0


From 6df84bfc27a2c17db7f332706fe0cebb5859d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 05/16] fix: scale the dense Jacobian of one-call constraint
 evaluations

eval_Jac_c_d_interface_impl applied the inverse of the scaling used for the constraints, so the
Jacobian was not the derivative of the scaled constraints.
---
 src/Optimization/hiopNlpFormulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 46ee5cd..70ac445 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1546,8 +1546,8 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
   // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_inv_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_inv_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
+  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
-- 
2.43.0


From 4c3e0901852318c2bd064fa450d763a43454e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 06/16] fix: scale the multipliers passed to the MDS Hessian in
 their own order

The multipliers are ordered [eq, ineq] but were multiplied by scaling factors stored in the user's order of constraints.
---
 src/Optimization/hiopNlpFormulation.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 70ac445..8eafa73 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1844,12 +1844,20 @@ bool hiopNlpMDS::eval_Hess_Lagr(const hiopVector& x,
       buf_lambda_ = this->alloc_dual_vec();
     }
     assert(buf_lambda_);
-    buf_lambda_->copyFromStarting(0,         lambda_eq.local_data_const(),   n_cons_eq_);
-    buf_lambda_->copyFromStarting(n_cons_eq_, lambda_ineq.local_data_const(), n_cons_ineq_);
 
-    // scale lambda before passing it to user interface to compute Hess
-    int n_cons_eq_ineq = n_cons_eq_ + n_cons_ineq_;
-    buf_lambda_ = nlp_transformations_.apply_to_cons(*buf_lambda_, n_cons_eq_ineq);
+    // scale lambda before passing it to user interface to compute Hess; the order is [lambda_eq, lambda_ineq]
+    if(temp_eq_ == nullptr) {
+      temp_eq_ = this->alloc_dual_eq_vec();
+    }
+    if(temp_ineq_ == nullptr) {
+      temp_ineq_ = this->alloc_dual_ineq_vec();
+    }
+    temp_eq_->copyFrom(lambda_eq);
+    temp_ineq_->copyFrom(lambda_ineq);
+    temp_eq_ = nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
+    temp_ineq_ = nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+    buf_lambda_->copyFromStarting(0,         temp_eq_->local_data_const(),   n_cons_eq_);
+    buf_lambda_->copyFromStarting(n_cons_eq_, temp_ineq_->local_data_const(), n_cons_ineq_);
 
     double obj_factor_with_scale = obj_factor*get_obj_scale();
 
-- 
2.43.0


From f5c3067a04fb7ad1ac4aab35a40de07c071d3123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 07/16] fix: derive the scaling factors of the concatenated
 constraints from the final ones

scale_factor_cd was filled before max_con_grad, min_grad and the norm test were taken into account and could
disagree with scale_factor_c and scale_factor_d.
---
 src/Optimization/hiopNlpTransforms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index d97696b..f883127 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -468,8 +468,6 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
   scale_factor_d->component_max(1.0);
   scale_factor_d->invert();
 
-  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
-
   Jac_c.row_max_abs_value(*scale_factor_c);
   Jac_d.row_max_abs_value(*scale_factor_d);
   if(max_con_grad == 0.) {
@@ -496,6 +494,8 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
     scale_factor_c->component_max(min_grad);
     scale_factor_d->component_max(min_grad);
   }
+
+  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
 }
 
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
-- 
2.43.0


From 49db79bb9e583c569df096006900519166d0cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 08/16] fix: copy all the user's variables in
 hiopNlpFormulation::user_x

---
 src/Optimization/hiopNlpFormulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index ed522f4..944518e 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -260,7 +260,7 @@ public:
     //double *hiop_xa = hiop_x.local_data();
     hiopVector *x = nlp_transformations_.apply_inv_to_x(hiop_x,/*new_x=*/true); 
     //memcpy(user_x, user_xa, hiop_x.get_local_size()*sizeof(double));
-    memcpy(user_x, x->local_data(), nlp_transformations_.n_post_local()*sizeof(double));
+    memcpy(user_x, x->local_data(), nlp_transformations_.n_pre_local()*sizeof(double));
   }
 
   /* copies/unpacks duals of the bounds and of constraints from 'it' to the three arrays */
-- 
2.43.0


From 68b73ab0c93bd54f7a916ec1ba19ece3bcaf59ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 09/16] fix: remove fixed variables also when the problem is
 not distributed

---
 src/Optimization/hiopNlpFormulation.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 8eafa73..6993b4b 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -283,7 +283,9 @@ bool hiopNlpFormulation::finalizeInitialization()
       
 
 #ifdef HIOP_USE_MPI
-      fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      if(vec_distrib_ != nullptr) {
+        fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      }
       fixedVarsRemover->setMPIComm(comm_);
 #endif
       bret = fixedVarsRemover->setupDecisionVectorPart(); 
@@ -291,9 +293,11 @@ bool hiopNlpFormulation::finalizeInitialization()
     
       n_vars_ = fixedVarsRemover->rs_n();
 #ifdef HIOP_USE_MPI
-      index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
-      delete[] vec_distrib_;
-      vec_distrib_ = vec_distrib_rs;
+      if(vec_distrib_ != nullptr) {
+        index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
+        delete[] vec_distrib_;
+        vec_distrib_ = vec_distrib_rs;
+      }
 #endif
     
       hiopVector* xl_rs;
-- 
2.43.0


From 7c75d418adb866825b99c61e35e4e88ac509a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 10/16] fix: pass new_x on to the objective and gradient
 callbacks of the C interface

---
 src/Interface/chiopInterface.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Interface/chiopInterface.hpp b/src/Interface/chiopInterface.hpp
index d75dd56..5637dd3 100644
--- a/src/Interface/chiopInterface.hpp
+++ b/src/Interface/chiopInterface.hpp
@@ -144,13 +144,13 @@ public:
     };
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
@@ -331,13 +331,13 @@ class cppUserProblemSparse : public hiopInterfaceSparse
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob_->eval_f_(n, (double *) x, 0, &obj_value, cprob_->user_data_);
+      cprob_->eval_f_(n, (double *) x, new_x, &obj_value, cprob_->user_data_);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob_->eval_grad_f_(n, (double *) x, 0, gradf, cprob_->user_data_);
+      cprob_->eval_grad_f_(n, (double *) x, new_x, gradf, cprob_->user_data_);
 
       return true;
     };
@@ -516,13 +516,13 @@ public:
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
-- 
2.43.0


From a5889b3d847f42e92ce38e555174359e0fc18dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 11/16] fix: free the copied starting point in the Fortran
 interface's destructors

---
 src/Interface/hiopFortranInterface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interface/hiopFortranInterface.c b/src/Interface/hiopFortranInterface.c
index c1953e2..820a17f 100644
--- a/src/Interface/hiopFortranInterface.c
+++ b/src/Interface/hiopFortranInterface.c
@@ -336,6 +336,7 @@ void FC_GLOBAL(deletehiopsparseprob, DELETEHIOPSPARSEPROB) (void** f_prob_in)
   FSparseProb* f_prob = (FSparseProb*) *f_prob_in;
   hiop_sparse_destroy_problem(f_prob->c_prob_);
 
+  free(f_prob->x0_);
   free(f_prob->xlow_);
   free(f_prob->xupp_);
   free(f_prob->clow_);
@@ -522,6 +523,7 @@ void FC_GLOBAL(deletehiopdenseprob, DELETEHIOPDENSEPROB) (void** f_prob_in)
   FDenseProb* f_prob = (FDenseProb*) *f_prob_in;
   hiop_dense_destroy_problem(f_prob->c_prob);
 
+  free(f_prob->x0);
   free(f_prob->xlow);
   free(f_prob->xupp);
   free(f_prob->clow);
-- 
2.43.0


From cc153904fabeb26c13a35e59a3ae6525aa640c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 12/16] fix: KKT error measures started at 1e20 and so never
 reported the actual error

---
 src/Optimization/hiopKKTLinSys.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index d91a3d6..90f07c4 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -100,7 +100,7 @@ double hiopKKTLinSys::errorKKT(const hiopResidual* resid, const hiopIterate* sol
     
   }
 
-  double derr=1e20, aux;
+  double derr=-1., aux;
   hiopVector *RX=resid->rx->new_copy();
 
   //RX = rx-H*dx-J'c*dyc-J'*dyd +dzl-dzu
@@ -703,7 +703,7 @@ errorCompressedLinsys(const hiopVector& rx, const hiopVector& ryc, const hiopVec
   delta_cc_ = perturb_calc_->get_curr_delta_cc();
   delta_cd_ = perturb_calc_->get_curr_delta_cd();
 
-  double derr=1e20, aux;
+  double derr=-1., aux;
   hiopVector *RX=rx.new_copy();
   //RX=rx-H*dx-J'c*dyc-J'*dyd
   Hess_->timesVec(1.0, *RX, -1.0, dx);
-- 
2.43.0


From c38fb14778025bcd1c1abad604581b3d590dad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 13/16] fix: compound vector's addLogBarrierGrad used the
 pattern in place of the vector

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 9f7d31f..42927f9 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -740,7 +740,7 @@ double hiopVectorCompoundPD::sum_local() const
 void hiopVectorCompoundPD::addLogBarrierGrad(double alpha, const hiopVector& vx, const hiopVector& select)
 {
   const hiopVectorCompoundPD& ix = dynamic_cast<const hiopVectorCompoundPD&>(select);
-  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(select);
+  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(vx);
   assert(this->get_num_parts() == ix.get_num_parts());  
   for(index_type i = 0; i < n_parts_; i++) {
     vectors_[i]->addLogBarrierGrad(alpha, x.getVector(i), ix.getVector(i));
-- 
2.43.0


From 99438982a38731ebbde0a5d8bc966f9c16e5ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 14/16] fix: compound vector's projectIntoBounds_local ignored
 inconsistent bounds reported by its parts

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 42927f9..8c48fc6 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -806,10 +806,13 @@ bool hiopVectorCompoundPD::projectIntoBounds_local(const hiopVector& xl_,
   assert(this->get_num_parts() ==  xu.get_num_parts());
   assert(this->get_num_parts() == ixu.get_num_parts());
 
+  bool bret = true;
   for(index_type i = 0; i < n_parts_; i++) {
-    vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2);
+    if(!vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2)) {
+      bret = false;
+    }
   }
-  return true;
+  return bret;
 }
 
 /* max{a\in(0,1]| x+ad >=(1-tau)x} */
-- 
2.43.0


From e0b3db64d60018f745102a863c2404bae9ba7abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 15/16] fix: hiopPCGSolver reports zero residuals for a zero
 right-hand side

---
 src/LinAlg/hiopKrylovSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 25f8fe2..493e637 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -154,6 +154,8 @@ bool hiopPCGSolver::solve(hiopVector* b)
   if(n2b == 0.0) {
     flag_ = 0;
     iter_ = 0.;
+    rel_resid_ = 0;
+    abs_resid_ = 0;
     return true;
   }
 
-- 
2.43.0


From 8aee3e1c452461ed8b875e71fb959bd03d582506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 16/16] fix: hiopBiCGStabSolver keeps the right-hand side until
 the final residual is computed

---
 src/LinAlg/hiopKrylovSolver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 493e637..704dc11 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -563,7 +563,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1 - 0.5;
           break;
@@ -642,7 +641,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1;
           break;
-- 
2.43.0

