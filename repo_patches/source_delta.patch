From b6f2d8191d646e25e6915c49325fe3976ab1796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 01/72] fix: StateVector::Jintegrate with setto overwrites the
 whole Jacobian

---
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index b1ca3e7..9c503a6 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -125,6 +125,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
+        Jfirst.setZero();
         Jfirst.diagonal().array() = Scalar(1.);
         break;
       case addto:
@@ -149,6 +150,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
+        Jsecond.setZero();
         Jsecond.diagonal().array() = Scalar(1.);
         break;
       case addto:
-- 
2.43.0


From 2115392c1565963c8bcae351911fd278a453f8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 02/72] fix: scale the Hessian of the smooth 1-norm activation
 by its smoothing factor

---
 include/crocoddyl/core/activations/smooth-1norm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/smooth-1norm.hpp b/include/crocoddyl/core/activations/smooth-1norm.hpp
index 9ccb0ff..c2843ea 100644
--- a/include/crocoddyl/core/activations/smooth-1norm.hpp
+++ b/include/crocoddyl/core/activations/smooth-1norm.hpp
@@ -103,7 +103,7 @@ class ActivationModelSmooth1NormTpl
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = r.cwiseProduct(d->a.cwiseInverse());
     data->Arr.diagonal() =
-        d->a.cwiseProduct(d->a).cwiseProduct(d->a).cwiseInverse();
+        eps_ * d->a.cwiseProduct(d->a).cwiseProduct(d->a).cwiseInverse();
   };
 
   /**
-- 
2.43.0


From 9282378792c2a7b273872de50305775bf3c78d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 03/72] fix: exact Hessian diagonal of the smooth 2-norm
 activation

---
 include/crocoddyl/core/activations/smooth-2norm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/smooth-2norm.hpp b/include/crocoddyl/core/activations/smooth-2norm.hpp
index 3e8493d..631035f 100644
--- a/include/crocoddyl/core/activations/smooth-2norm.hpp
+++ b/include/crocoddyl/core/activations/smooth-2norm.hpp
@@ -91,7 +91,8 @@ class ActivationModelSmooth2NormTpl
     }
 
     data->Ar = r / data->a_value;
-    data->Arr.diagonal().array() = Scalar(1) / pow(data->a_value, Scalar(3));
+    data->Arr.diagonal() = -r.cwiseAbs2() / pow(data->a_value, Scalar(3));
+    data->Arr.diagonal().array() += Scalar(1) / data->a_value;
   };
 
   /**
-- 
2.43.0


From 4f8dcb390e702198e9119864698b8f62bae281b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 04/72] fix: square the weights in the Hessian of the weighted
 quadratic barrier

---
 .../crocoddyl/core/activations/weighted-quadratic-barrier.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
index 01eb433..2f06f04 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
@@ -75,7 +75,7 @@ class ActivationModelWeightedQuadraticBarrierTpl
                        Scalar(0.), Scalar(1.), Scalar(0.)));
     }
 
-    data->Arr.diagonal().array() *= weights_.array();
+    data->Arr.diagonal().array() *= weights_.array().square();
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
-- 
2.43.0


From 86482f089f7b9c497cd0e9288d98f29715b69509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 05/72] fix: every weighted-quadratic activation data follows
 the current weights

---
 .../core/activations/weighted-quadratic.hpp   | 22 +++----------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic.hpp b/include/crocoddyl/core/activations/weighted-quadratic.hpp
index 81c2654..dd5563b 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic.hpp
@@ -30,7 +30,7 @@ class ActivationModelWeightedQuadTpl
   typedef typename MathBase::MatrixXs MatrixXs;
 
   explicit ActivationModelWeightedQuadTpl(const VectorXs& weights)
-      : Base(weights.size()), weights_(weights), new_weights_(false) {};
+      : Base(weights.size()), weights_(weights) {};
   virtual ~ActivationModelWeightedQuadTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -56,14 +56,8 @@ class ActivationModelWeightedQuadTpl
 
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = d->Wr;
-    if (new_weights_) {
-      data->Arr.diagonal() = weights_;
-      new_weights_ = false;
-    }
-    // The Hessian has constant values which were set in createData.
-#ifndef NDEBUG
-    assert_pretty(MatrixXs(data->Arr).isApprox(Arr_), "Arr has wrong value");
-#endif
+    // The weights might have changed since this data was created
+    data->Arr.diagonal() = weights_;
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
@@ -71,10 +65,6 @@ class ActivationModelWeightedQuadTpl
         std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
     data->Arr.diagonal() = weights_;
 
-#ifndef NDEBUG
-    Arr_ = data->Arr;
-#endif
-
     return data;
   };
 
@@ -94,7 +84,6 @@ class ActivationModelWeightedQuadTpl
     }
 
     weights_ = weights;
-    new_weights_ = true;
   };
 
   /**
@@ -111,11 +100,6 @@ class ActivationModelWeightedQuadTpl
 
  private:
   VectorXs weights_;
-  bool new_weights_;
-
-#ifndef NDEBUG
-  MatrixXs Arr_;
-#endif
 };
 
 template <typename _Scalar>
-- 
2.43.0


From 2b834430d9c33e42a4380c2f9b97f5ef99de3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 06/72] fix: terminal joint-acceleration residual has zero
 Jacobians

---
 include/crocoddyl/core/residuals/joint-acceleration.hpp | 8 ++++++++
 include/crocoddyl/core/residuals/joint-acceleration.hxx | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hpp b/include/crocoddyl/core/residuals/joint-acceleration.hpp
index 055a3e2..9991d74 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hpp
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hpp
@@ -126,6 +126,14 @@ class ResidualModelJointAccelerationTpl
                         const Eigen::Ref<const VectorXs>& x,
                         const Eigen::Ref<const VectorXs>& u) override;
 
+  /**
+   * @brief @copydoc Base::calcDiff(const
+   * std::shared_ptr<ResidualDataAbstract>& data, const Eigen::Ref<const
+   * VectorXs>& x)
+   */
+  virtual void calcDiff(const std::shared_ptr<ResidualDataAbstract>& data,
+                        const Eigen::Ref<const VectorXs>& x) override;
+
   /**
    * @brief Create the joint-acceleration residual data
    */
diff --git a/include/crocoddyl/core/residuals/joint-acceleration.hxx b/include/crocoddyl/core/residuals/joint-acceleration.hxx
index 5d81e04..0000688 100644
--- a/include/crocoddyl/core/residuals/joint-acceleration.hxx
+++ b/include/crocoddyl/core/residuals/joint-acceleration.hxx
@@ -70,6 +70,14 @@ void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
   data->Ru = d->joint->da_du;
 }
 
+template <typename Scalar>
+void ResidualModelJointAccelerationTpl<Scalar>::calcDiff(
+    const std::shared_ptr<ResidualDataAbstract>& data,
+    const Eigen::Ref<const VectorXs>&) {
+  data->Rx.setZero();
+  data->Ru.setZero();
+}
+
 template <typename Scalar>
 std::shared_ptr<ResidualDataAbstractTpl<Scalar> >
 ResidualModelJointAccelerationTpl<Scalar>::createData(
-- 
2.43.0


From 2642fa922932d1dcfb3de757c962731e06156495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:57 +0000
Subject: [PATCH 07/72] fix: joint-effort residual rejects a reference of the
 wrong dimension

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 2cbd71c..756f23c 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -20,6 +20,11 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
       actuation_(actuation),
       uref_(uref),
       fwddyn_(fwddyn) {
+  if (static_cast<std::size_t>(uref_.size()) != nr_) {
+    throw_pretty(
+        "Invalid argument: " << "uref has wrong dimension (it should be " +
+                                    std::to_string(nr_) + ")");
+  }
   if (nu_ == 0) {
     throw_pretty("Invalid argument: "
                  << "it seems to be an autonomous system, if so, don't add "
@@ -34,7 +39,13 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
       uref_(uref),
-      fwddyn_(false) {}
+      fwddyn_(false) {
+  if (static_cast<std::size_t>(uref_.size()) != nr_) {
+    throw_pretty(
+        "Invalid argument: " << "uref has wrong dimension (it should be " +
+                                    std::to_string(nr_) + ")");
+  }
+}
 
 template <typename Scalar>
 ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
-- 
2.43.0


From 0e82b70a3bbd1d92fc03b23d36876f72dc0810dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:39 +0000
Subject: [PATCH 08/72] fix: initialise the dynamics flag in every joint-effort
 residual constructor

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 756f23c..a00b904 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -68,7 +68,8 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     std::shared_ptr<ActuationModelAbstract> actuation)
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
-      uref_(VectorXs::Zero(actuation->get_nu())) {}
+      uref_(VectorXs::Zero(actuation->get_nu())),
+      fwddyn_(false) {}
 
 template <typename Scalar>
 void ResidualModelJointEffortTpl<Scalar>::calc(
-- 
2.43.0


From d9e6fb03484f30d99a8ee94640e2e8382416d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 09/72] fix: removing an inactive cost keeps the dimension of
 the active ones

---
 include/crocoddyl/core/costs/cost-sum.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index e05dc1c..dc9bbba 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -71,7 +71,9 @@ template <typename Scalar>
 void CostModelSumTpl<Scalar>::removeCost(const std::string& name) {
   typename CostModelContainer::iterator it = costs_.find(name);
   if (it != costs_.end()) {
-    nr_ -= it->second->cost->get_activation()->get_nr();
+    if (it->second->active) {
+      nr_ -= it->second->cost->get_activation()->get_nr();
+    }
     nr_total_ -= it->second->cost->get_activation()->get_nr();
     costs_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From d57f2e604d3b9e8aa75a3c1ef80cc0c2b8de3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 10/72] fix: adding a cost item under an existing name leaves
 the cost sum unchanged

---
 include/crocoddyl/core/costs/cost-sum.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index dc9bbba..c6522fe 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -56,8 +56,12 @@ void CostModelSumTpl<Scalar>::addCost(
         << " cost item doesn't have the same control dimension (it should be " +
                std::to_string(nu_) + ")");
   }
-  costs_.insert(std::make_pair(cost_item->name, cost_item));
-  if (cost_item->active) {
+  std::pair<typename CostModelContainer::iterator, bool> ret =
+      costs_.insert(std::make_pair(cost_item->name, cost_item));
+  if (ret.second == false) {
+    std::cerr << "Warning: we couldn't add the " << cost_item->name
+              << " cost item, it already existed." << std::endl;
+  } else if (cost_item->active) {
     nr_ += cost_item->cost->get_activation()->get_nr();
     nr_total_ += cost_item->cost->get_activation()->get_nr();
     active_set_.insert(cost_item->name);
-- 
2.43.0


From efed8fd443cc7c587331a1c8ca020353bf774a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:50 +0000
Subject: [PATCH 11/72] fix: bounds of a constraint have no entries once they
 are removed

---
 include/crocoddyl/core/constraint-base.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index 5e39a77..1a56102 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -145,8 +145,8 @@ template <typename Scalar>
 void ConstraintModelAbstractTpl<Scalar>::remove_bounds() {
   ng_ = 0;
   nh_ = nh_internal_ + ng_internal_;
-  lb_.setConstant(-std::numeric_limits<Scalar>::infinity());
-  ub_.setConstant(std::numeric_limits<Scalar>::infinity());
+  lb_.resize(0);
+  ub_.resize(0);
   type_ = ConstraintType::Equality;
 }
 
-- 
2.43.0


From 7bee57437214311545c3ffaa857503db9df0c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 12/72] fix: validate the bounds given to a constraint,
 including minimal upper values

---
 include/crocoddyl/core/constraint-base.hxx      | 8 ++++----
 include/crocoddyl/core/constraints/residual.hxx | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index 1a56102..bd2467b 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -118,14 +118,14 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
     throw_pretty(
         "Invalid argument: the upper bound is not higher than the lower bound.")
   }
-  if ((lb_.array() == std::numeric_limits<Scalar>::infinity()).any() ||
-      (lb_.array() == std::numeric_limits<Scalar>::max()).any()) {
+  if ((lower.array() == std::numeric_limits<Scalar>::infinity()).any() ||
+      (lower.array() == std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a positive "
         "infinity/max value");
   }
-  if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+  if ((upper.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
+      (upper.array() == std::numeric_limits<Scalar>::lowest()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a negative "
         "infinity/min value");
diff --git a/include/crocoddyl/core/constraints/residual.hxx b/include/crocoddyl/core/constraints/residual.hxx
index a5574c4..0671a19 100644
--- a/include/crocoddyl/core/constraints/residual.hxx
+++ b/include/crocoddyl/core/constraints/residual.hxx
@@ -32,7 +32,7 @@ ConstraintModelResidualTpl<Scalar>::ConstraintModelResidualTpl(
         "infinity/max value");
   }
   if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+      (ub_.array() == std::numeric_limits<Scalar>::lowest()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a negative "
         "infinity/max value");
-- 
2.43.0


From b2144adebaa801e40df352f2a6d92accc0575a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 13/72] fix: residual constraint rejects bounds of the wrong
 dimension

---
 include/crocoddyl/core/constraints/residual.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/crocoddyl/core/constraints/residual.hxx b/include/crocoddyl/core/constraints/residual.hxx
index 0671a19..f60565a 100644
--- a/include/crocoddyl/core/constraints/residual.hxx
+++ b/include/crocoddyl/core/constraints/residual.hxx
@@ -14,6 +14,12 @@ ConstraintModelResidualTpl<Scalar>::ConstraintModelResidualTpl(
     std::shared_ptr<ResidualModelAbstract> residual, const VectorXs& lower,
     const VectorXs& upper, const bool T_act)
     : Base(state, residual, residual->get_nr(), 0) {
+  if (static_cast<std::size_t>(lower.size()) != residual_->get_nr() ||
+      static_cast<std::size_t>(upper.size()) != residual_->get_nr()) {
+    throw_pretty(
+        "Invalid argument: the dimension of the lower/upper bound is not the "
+        "same to nr.")
+  }
   lb_ = lower;
   ub_ = upper;
   for (std::size_t i = 0; i < residual_->get_nr(); ++i) {
-- 
2.43.0


From de26ef11ac27fe634f031e8af244257434c16d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 14/72] fix: LQR derivatives follow the current model in every
 data object

---
 include/crocoddyl/core/actions/lqr.hpp |  1 -
 include/crocoddyl/core/actions/lqr.hxx | 43 ++++++++++----------------
 2 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 6595974..0efea1d 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -286,7 +286,6 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 13f5d00..c8bcba7 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -16,8 +16,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const MatrixXs& A,
                                              const MatrixXs& R,
                                              const MatrixXs& N)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, nx + nu_);
@@ -34,8 +33,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const MatrixXs& A, const MatrixXs& B, const MatrixXs& Q, const MatrixXs& R,
     const MatrixXs& N, const VectorXs& f, const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, nx + nu_);
@@ -51,8 +49,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const VectorXs& q, const VectorXs& r, const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(A, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -80,8 +77,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
@@ -170,18 +166,15 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Fx = A_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(nx);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(nx);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx = A_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(nx);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(nx);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -201,12 +194,9 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(nx);
-    data->Hx = H_.leftCols(nx);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(nx);
+  data->Hx = H_.leftCols(nx);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -435,7 +425,6 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From 38d3bcf9e3d7a256567bf5a8d9f35674dca2fa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 15/72] fix: LQR constraint Jacobians have as many columns as
 states for odd dimensions

---
 include/crocoddyl/core/actions/lqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 0efea1d..7cf0d52 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -302,16 +302,16 @@ struct ActionDataLQRTpl : public ActionDataAbstractTpl<_Scalar> {
         Q_x_tmp(VectorXs::Zero(
             static_cast<Eigen::Index>(model->get_state()->get_ndx()))) {
     // Setting the linear model and quadratic cost as they are constant
-    const std::size_t nq = model->get_state()->get_nq();
+    const std::size_t nx = model->get_state()->get_nx();
     const std::size_t nu = model->get_nu();
     Fx = model->get_A();
     Fu = model->get_B();
     Lxx = model->get_Q();
     Luu = model->get_R();
     Lxu = model->get_N();
-    Gx = model->get_G().leftCols(2 * nq);
+    Gx = model->get_G().leftCols(nx);
     Gu = model->get_G().rightCols(nu);
-    Hx = model->get_H().leftCols(2 * nq);
+    Hx = model->get_H().leftCols(nx);
     Hu = model->get_H().rightCols(nu);
   }
   virtual ~ActionDataLQRTpl() = default;
-- 
2.43.0


From 8dd97deba168018e75cda1b9e3243d0602006c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 16/72] fix: differential LQR derivatives follow the current
 model in every data object

---
 include/crocoddyl/core/actions/diff-lqr.hpp |  1 -
 include/crocoddyl/core/actions/diff-lqr.hxx | 48 ++++++++-------------
 2 files changed, 18 insertions(+), 31 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hpp b/include/crocoddyl/core/actions/diff-lqr.hpp
index 0c53759..7e4dd3a 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hpp
+++ b/include/crocoddyl/core/actions/diff-lqr.hpp
@@ -312,7 +312,6 @@ class DifferentialActionModelLQRTpl
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index d99cf5a..dbb7101 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -14,8 +14,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Aq, const MatrixXs& Av, const MatrixXs& B,
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, 2 * nq + nu_);
@@ -33,8 +32,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N, const VectorXs& f,
     const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, 2 * nq + nu_);
@@ -51,8 +49,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(Aq, Av, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -73,8 +70,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
       r_(VectorXs::Ones(nu)),
       g_(VectorXs::Zero(0)),
       h_(VectorXs::Zero(0)),
-      drift_free_(drift_free),
-      updated_lqr_(false) {}
+      drift_free_(drift_free) {}
 
 template <typename Scalar>
 DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
@@ -82,8 +78,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
@@ -177,19 +172,16 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Fx.leftCols(nq) = Aq_;
-    data->Fx.rightCols(nq) = Av_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(2 * nq);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx.leftCols(nq) = Aq_;
+  data->Fx.rightCols(nq) = Av_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(2 * nq);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -209,12 +201,9 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Hx = H_.leftCols(2 * nq);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Hx = H_.leftCols(2 * nq);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -463,7 +452,6 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From dafcc716843bb1db3e69222dffdbabb7ec10154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 17/72] fix: LQR models reject state and input matrices with
 the wrong number of columns

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 15 +++++++++------
 include/crocoddyl/core/actions/lqr.hxx      | 12 +++++++-----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index dbb7101..5bee72c 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -357,20 +357,23 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
     const MatrixXs& H, const VectorXs& f, const VectorXs& q, const VectorXs& r,
     const VectorXs& g, const VectorXs& h) {
   const std::size_t nq = state_->get_nq();
-  if (static_cast<std::size_t>(Aq.rows()) != nq) {
+  if (static_cast<std::size_t>(Aq.rows()) != nq ||
+      static_cast<std::size_t>(Aq.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Aq should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(Av.rows()) != nq) {
+  if (static_cast<std::size_t>(Av.rows()) != nq ||
+      static_cast<std::size_t>(Av.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Av should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(B.rows()) != nq) {
-    throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nq) + " rows)");
+  if (static_cast<std::size_t>(B.rows()) != nq ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
+    throw_pretty("Invalid argument: "
+                 << "B has wrong dimension (it should be " +
+                        std::to_string(nq) + " x " + std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != 2 * nq ||
       static_cast<std::size_t>(Q.cols()) != 2 * nq) {
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index c8bcba7..78bca51 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -339,15 +339,17 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
                                         const VectorXs& q, const VectorXs& r,
                                         const VectorXs& g, const VectorXs& h) {
   const std::size_t nx = state_->get_nx();
-  if (static_cast<std::size_t>(A.rows()) != nx) {
+  if (static_cast<std::size_t>(A.rows()) != nx ||
+      static_cast<std::size_t>(A.cols()) != nx) {
     throw_pretty(
         "Invalid argument: " << "A should be a squared matrix with size " +
                                     std::to_string(nx));
   }
-  if (static_cast<std::size_t>(B.rows()) != nx) {
-    throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nx) + " rows)");
+  if (static_cast<std::size_t>(B.rows()) != nx ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
+    throw_pretty("Invalid argument: "
+                 << "B has wrong dimension (it should be " +
+                        std::to_string(nx) + " x " + std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != nx ||
       static_cast<std::size_t>(Q.cols()) != nx) {
-- 
2.43.0


From b1ae4accf6dd5aaad40829d7ee3161fd4b900dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 18/72] fix: copies of an action model keep the null control of
 terminal evaluations

---
 include/crocoddyl/core/action-base.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/action-base.hxx b/include/crocoddyl/core/action-base.hxx
index f059805..03c4260 100644
--- a/include/crocoddyl/core/action-base.hxx
+++ b/include/crocoddyl/core/action-base.hxx
@@ -42,6 +42,7 @@ ActionModelAbstractTpl<Scalar>::ActionModelAbstractTpl(
       ng_T_(other.ng_T_),
       nh_T_(other.nh_T_),
       state_(other.state_),
+      unone_(other.unone_),
       g_lb_(other.g_lb_),
       g_ub_(other.g_ub_),
       u_lb_(other.u_lb_),
-- 
2.43.0


From 1f40f0f0fc2621c4edf5fa994f8913d294bc9037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 19/72] fix: integrated models refuse data of another type
 instead of dereferencing null

---
 include/crocoddyl/core/integrator/euler.hxx | 2 +-
 include/crocoddyl/core/integrator/rk.hxx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index 9c65e4e..fd538f0 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -177,7 +177,7 @@ template <typename Scalar>
 bool IntegratedActionModelEulerTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     return differential_->checkData(d->differential);
   } else {
     return false;
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 3145433..7d054d7 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -357,7 +357,7 @@ template <typename Scalar>
 bool IntegratedActionModelRKTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     for (std::size_t i = 0; i < ni_; ++i) {
       if (!differential_->checkData(d->differential[i])) {
         return false;
-- 
2.43.0


From 4491cc575da9bf30cc0dccc553eb0031957e4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 20/72] fix: exact second-stage Jacobian of the third-order
 Runge-Kutta integrator

---
 include/crocoddyl/core/integrator/rk.hxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 7d054d7..26306a1 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -206,11 +206,7 @@ void IntegratedActionModelRKTpl<Scalar>::calcDiff(
     //   is ki_data.Fx
     d->dki_dx[i].topRows(nv) = d->dyi_dx[i].bottomRows(nv);
     dkvi_dq.noalias() = dki_dqi * dqi_dq;
-    if (i == 1) {
-      dkvi_dv = time_step_ / Scalar(2.) * dki_dqi;
-    } else {
-      dkvi_dv.noalias() = dki_dqi * dqi_dv;
-    }
+    dkvi_dv.noalias() = dki_dqi * dqi_dv;
     dkvi_dq.noalias() += dki_dvi * dvi_dq;
     dkvi_dv.noalias() += dki_dvi * dvi_dv;
     //  ii. d->dki_du[i].noalias() = d->dki_dy[i] * d->dyi_du[i], where dki_dy
-- 
2.43.0


From 5d11e6d5114fc0ab5a19d6ebcc3bfaeae5f3612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 21/72] fix: Runge-Kutta terminal derivatives follow the kept
 state

---
 include/crocoddyl/core/integrator/rk.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 26306a1..6bb4f97 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -320,6 +320,7 @@ void IntegratedActionModelRKTpl<Scalar>::calcDiff(
   const std::shared_ptr<DifferentialActionDataAbstract>& k0_data =
       d->differential[0];
   differential_->calcDiff(k0_data, x);
+  state_->Jintegrate(x, d->dx, d->Fx, d->Fx);
   d->Lx = k0_data->Lx;
   d->Lxx = k0_data->Lxx;
   d->Gx = k0_data->Gx;
-- 
2.43.0


From 162caa80c1ea3de607800dc7c3d7e4dd94e49d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:19 +0000
Subject: [PATCH 22/72] fix: returned Jacobian products of a control
 parametrization start from zero

---
 include/crocoddyl/core/control-base.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/control-base.hxx b/include/crocoddyl/core/control-base.hxx
index 14b1a46..7a8f762 100644
--- a/include/crocoddyl/core/control-base.hxx
+++ b/include/crocoddyl/core/control-base.hxx
@@ -33,7 +33,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyByJacobian_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs AJ(A.rows(), nu_);
+  MatrixXs AJ = MatrixXs::Zero(A.rows(), nu_);
   multiplyByJacobian(data, A, AJ, op);
   return AJ;
 }
@@ -43,7 +43,7 @@ typename MathBaseTpl<Scalar>::MatrixXs
 ControlParametrizationModelAbstractTpl<Scalar>::multiplyJacobianTransposeBy_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
-  MatrixXs JTA(nu_, A.cols());
+  MatrixXs JTA = MatrixXs::Zero(nu_, A.cols());
   multiplyJacobianTransposeBy(data, A, JTA, op);
   return JTA;
 }
-- 
2.43.0


From f1e63d1c40403051afa4383035b98078d663da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:31 +0000
Subject: [PATCH 23/72] fix: squashed actuation forwards the derivative of the
 torque with respect to the state

---
 include/crocoddyl/core/actuation/actuation-squashing.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/actuation/actuation-squashing.hpp b/include/crocoddyl/core/actuation/actuation-squashing.hpp
index d8ce15e..0955d5d 100644
--- a/include/crocoddyl/core/actuation/actuation-squashing.hpp
+++ b/include/crocoddyl/core/actuation/actuation-squashing.hpp
@@ -58,6 +58,7 @@ class ActuationSquashingModelTpl : public ActuationModelAbstractTpl<_Scalar> {
 
     squashing_->calcDiff(d->squashing, u);
     actuation_->calcDiff(d->actuation, x, d->squashing->u);
+    data->dtau_dx = d->actuation->dtau_dx;
     data->dtau_du.noalias() = d->actuation->dtau_du * d->squashing->du_ds;
   };
 
-- 
2.43.0


From b0c882f107b117d8f1901292501aaf8a41af5c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:31 +0000
Subject: [PATCH 24/72] fix: replacing thrusters discards the thrust map of the
 previous ones

---
 .../crocoddyl/multibody/actuations/floating-base-thrusters.hpp   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
index ccc5c60..59e3533 100644
--- a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
+++ b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
@@ -302,6 +302,7 @@ class ActuationModelFloatingBaseThrustersTpl
     }
     thrusters_ = thrusters;
     // Update the mapping matrix from thrusters thrust to body force/moments
+    W_thrust_.template topRows<6>().leftCols(n_thrusters_).setZero();
     for (std::size_t i = 0; i < n_thrusters_; ++i) {
       const Thruster& p = thrusters_[i];
       const Vector3s& f_z = p.pose.rotation() * Vector3s::UnitZ();
-- 
2.43.0


From 3b807088b3faa621d14c9b5b18b24f84fb9ac128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:31 +0000
Subject: [PATCH 25/72] fix: every data object of the thruster actuation
 follows the current thrusters

---
 .../multibody/actuations/floating-base-thrusters.hpp   | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
index 59e3533..7526318 100644
--- a/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
+++ b/include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp
@@ -170,8 +170,7 @@ class ActuationModelFloatingBaseThrustersTpl
                  thrusters.size()),
         thrusters_(thrusters),
         n_thrusters_(thrusters.size()),
-        W_thrust_(state_->get_nv(), nu_),
-        update_data_(true) {
+        W_thrust_(state_->get_nv(), nu_) {
     if (!state->get_pinocchio()->existJointName("root_joint")) {
       throw_pretty(
           "Invalid argument: "
@@ -205,9 +204,7 @@ class ActuationModelFloatingBaseThrustersTpl
           "Invalid argument: " << "u has wrong dimension (it should be " +
                                       std::to_string(nu_) + ")");
     }
-    if (update_data_) {
-      updateData(data);
-    }
+    updateData(data);
     data->tau.noalias() = data->dtau_du * u;
   }
 
@@ -322,7 +319,6 @@ class ActuationModelFloatingBaseThrustersTpl
     // torque inputs
     Mtau_ = pseudoInverse(W_thrust_);
     S_.noalias() = W_thrust_ * Mtau_;
-    update_data_ = true;
   }
 
   const MatrixXs& get_Wthrust() const { return W_thrust_; }
@@ -346,7 +342,6 @@ class ActuationModelFloatingBaseThrustersTpl
                    //!< joint torque inputs
   MatrixXs S_;     //!< Selection matrix for under-actuation part
 
-  bool update_data_;
   using Base::nu_;
   using Base::state_;
 
@@ -358,7 +353,6 @@ class ActuationModelFloatingBaseThrustersTpl
     for (std::size_t k = 0; k < nv; ++k) {
       data->tau_set[k] = if_static(S_(k, k));
     }
-    update_data_ = false;
   }
 
   // Use for floating-point types
-- 
2.43.0


From 20e4a22694aa2c05476696569a36c00ffd6ee0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 26/72] fix: every constructor of a shooting problem
 initialises its update flag and number of threads

---
 include/crocoddyl/core/optctrl/shooting.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index bb33d35..8a6359b 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -78,7 +78,8 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_datas_(running_datas),
       nx_(running_models[0]->get_state()->get_nx()),
       ndx_(running_models[0]->get_state()->get_ndx()),
-      nthreads_(1) {
+      nthreads_(1),
+      is_updated_(false) {
   if (static_cast<std::size_t>(x0.size()) != nx_) {
     throw_pretty(
         "Invalid argument: " << "x0 has wrong dimension (it should be " +
@@ -134,7 +135,9 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_models_(problem.get_runningModels()),
       running_datas_(problem.get_runningDatas()),
       nx_(problem.get_nx()),
-      ndx_(problem.get_ndx()) {}
+      ndx_(problem.get_ndx()),
+      nthreads_(problem.nthreads_),
+      is_updated_(false) {}
 
 template <typename Scalar>
 ShootingProblemTpl<Scalar>::~ShootingProblemTpl() {}
-- 
2.43.0


From e0e4fc58e47962bb3df10d943c94c67c7ab2f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 27/72] fix: shooting problem with given data rejects an
 inconsistent terminal node

---
 include/crocoddyl/core/optctrl/shooting.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index 8a6359b..a321dcc 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -111,6 +111,16 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
                    << " node is not consistent with the action model")
     }
   }
+  if (terminal_model_->get_state()->get_nx() != nx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "nx in terminal node is not consistent with the other nodes")
+  }
+  if (terminal_model_->get_state()->get_ndx() != ndx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "ndx in terminal node is not consistent with the other nodes")
+  }
   if (!terminal_model->checkData(terminal_data)) {
     throw_pretty("Invalid argument: "
                  << "terminal action data is not consistent with the terminal "
-- 
2.43.0


From b451796bf77a85c011d395023d5bffbfcfea2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 28/72] fix: replacing the running models of a shooting problem
 uses the given models

---
 include/crocoddyl/core/optctrl/shooting.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index a321dcc..ca486c3 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -472,7 +472,7 @@ void ShootingProblemTpl<Scalar>::set_x0(const VectorXs& x0_in) {
 template <typename Scalar>
 void ShootingProblemTpl<Scalar>::set_runningModels(
     const std::vector<std::shared_ptr<ActionModelAbstract> >& models) {
-  for (std::size_t i = 0; i < T_; ++i) {
+  for (std::size_t i = 0; i < models.size(); ++i) {
     const std::shared_ptr<ActionModelAbstract>& model = models[i];
     if (model->get_state()->get_nx() != nx_) {
       throw_pretty("Invalid argument: "
@@ -490,7 +490,7 @@ void ShootingProblemTpl<Scalar>::set_runningModels(
   running_models_.clear();
   running_datas_.clear();
   for (std::size_t i = 0; i < T_; ++i) {
-    const std::shared_ptr<ActionModelAbstract>& model = running_models_[i];
+    const std::shared_ptr<ActionModelAbstract>& model = models[i];
     running_models_.push_back(model);
     running_datas_.push_back(model->createData());
   }
-- 
2.43.0


From 1181e173527dad340c8d14bb7cb950b137a1392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 29/72] fix: box QP validates the range of the acceptance
 threshold

---
 src/core/solvers/box-qp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 17b4160..092d3cc 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -28,7 +28,7 @@ BoxQP::BoxQP(const std::size_t nx, const std::size_t maxiter,
       qo_(nx),
       Ho_(nx, nx) {
   // Check if values have a proper range
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     std::cerr << "Warning: th_acceptstep value should between 0 and 0.5"
               << std::endl;
   }
@@ -217,7 +217,7 @@ void BoxQP::set_nx(const std::size_t nx) {
 void BoxQP::set_maxiter(const std::size_t maxiter) { maxiter_ = maxiter; }
 
 void BoxQP::set_th_acceptstep(const double th_acceptstep) {
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     throw_pretty(
         "Invalid argument: " << "th_acceptstep value should between 0 and 0.5");
   }
-- 
2.43.0


From c6d306ec88a5d3319f4e0bf74096ddf443d6050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 30/72] fix: box QP accepts only steps that decrease its
 regularized objective

---
 src/core/solvers/box-qp.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 092d3cc..856f7c8 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -106,6 +106,9 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     // Compute the Cauchy point and active set
     g_ = q;
     g_.noalias() += H * x_;
+    if (reg_ != 0.) {
+      g_.noalias() += reg_ * x_;
+    }
     for (std::size_t j = 0; j < nx_; ++j) {
       const double gj = g_(j);
       const double xj = x_(j);
@@ -159,11 +162,10 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
     dx_.setZero();
     for (std::size_t i = 0; i < nf_; ++i) {
       dx_(solution_.free_idx[i]) = dxf(i);
-      g_(solution_.free_idx[i]) = -qf(i);
     }
 
     // Try different step lengths
-    fold_ = 0.5 * x_.dot(H * x_) + q.dot(x_);
+    fold_ = 0.5 * (x_.dot(H * x_) + reg_ * x_.squaredNorm()) + q.dot(x_);
     for (std::vector<double>::const_iterator it = alphas_.begin();
          it != alphas_.end(); ++it) {
       double steplength = *it;
@@ -171,7 +173,8 @@ const BoxQPSolution& BoxQP::solve(const Eigen::MatrixXd& H,
         xnew_(i) =
             std::max(std::min(x_(i) + steplength * dx_(i), ub(i)), lb(i));
       }
-      fnew_ = 0.5 * xnew_.dot(H * xnew_) + q.dot(xnew_);
+      fnew_ = 0.5 * (xnew_.dot(H * xnew_) + reg_ * xnew_.squaredNorm()) +
+              q.dot(xnew_);
       if (fold_ - fnew_ > th_acceptstep_ * g_.dot(x_ - xnew_)) {
         x_ = xnew_;
         break;
-- 
2.43.0


From f6e68773bef107abb1f580f1a4ee8f6c36cfb5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:33 +0000
Subject: [PATCH 31/72] fix: line search evaluates running nodes without
 controls as running nodes

---
 src/core/solvers/box-ddp.cpp  | 4 +---
 src/core/solvers/box-fddp.cpp | 8 ++------
 src/core/solvers/ddp.cpp      | 4 +---
 src/core/solvers/fddp.cpp     | 8 ++------
 4 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b25a38d..b2da02d 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -134,10 +134,8 @@ void SolverBoxDDP::forwardPass(double steplength) {
       if (m->get_has_control_limits()) {  // clamp control
         us_try_[t] = us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
       }
-      m->calc(d, xs_try_[t], us_try_[t]);
-    } else {
-      m->calc(d, xs_try_[t]);
     }
+    m->calc(d, xs_try_[t], us_try_[t]);
     xnext_ = d->xnext;
     cost_try_ += d->cost;
 
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 06f7dcf..f516de2 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -125,10 +125,8 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
           us_try_[t] =
               us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
         }
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
@@ -163,10 +161,8 @@ void SolverBoxFDDP::forwardPass(const double steplength) {
           us_try_[t] =
               us_try_[t].cwiseMax(m->get_u_lb()).cwiseMin(m->get_u_ub());
         }
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index d0327f1..01386ce 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -271,10 +271,8 @@ void SolverDDP::forwardPass(const double steplength) {
       us_try_[t].noalias() = us_[t];
       us_try_[t].noalias() -= k_[t] * steplength;
       us_try_[t].noalias() -= K_[t] * dx_[t];
-      m->calc(d, xs_try_[t], us_try_[t]);
-    } else {
-      m->calc(d, xs_try_[t]);
     }
+    m->calc(d, xs_try_[t], us_try_[t]);
     xs_try_[t + 1] = d->xnext;
     cost_try_ += d->cost;
 
diff --git a/src/core/solvers/fddp.cpp b/src/core/solvers/fddp.cpp
index 6864abf..3aab718 100644
--- a/src/core/solvers/fddp.cpp
+++ b/src/core/solvers/fddp.cpp
@@ -195,10 +195,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
@@ -232,10 +230,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-- 
2.43.0


From 78961f8b2d75a1d06c569848da4ef96326a04cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:26 +0000
Subject: [PATCH 32/72] fix: inequality feasibility takes the same norm over
 running and terminal nodes

---
 src/core/solver-base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2bdb394..2039e51 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -147,8 +147,9 @@ double SolverAbstract::computeInequalityFeasibility() {
             problem_->get_terminalData()
                 ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
                 .cwiseMin(problem_->get_terminalModel()->get_g_ub());
-        tmp_feas_ += (problem_->get_terminalData()->g - g_adj_.back())
-                         .lpNorm<Eigen::Infinity>();
+        tmp_feas_ = std::max(tmp_feas_,
+                             (problem_->get_terminalData()->g - g_adj_.back())
+                                 .lpNorm<Eigen::Infinity>());
       }
       break;
     case L1:
@@ -157,8 +158,7 @@ double SolverAbstract::computeInequalityFeasibility() {
           g_adj_[t] = datas[t]
                           ->g.cwiseMax(models[t]->get_g_lb())
                           .cwiseMin(models[t]->get_g_ub());
-          tmp_feas_ =
-              std::max(tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<1>());
+          tmp_feas_ += (datas[t]->g - g_adj_[t]).lpNorm<1>();
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
-- 
2.43.0


From 4761ddbc6faf5f7782aeaadbf1b3c68201a0a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:26 +0000
Subject: [PATCH 33/72] fix: inequality feasibility uses the bounds of the
 node's own constraints

---
 src/core/solver-base.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2039e51..73fb8e6 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -135,18 +135,21 @@ double SolverAbstract::computeInequalityFeasibility() {
     case LInf:
       for (std::size_t t = 0; t < T; ++t) {
         if (models[t]->get_ng() > 0) {
+          const std::size_t ng = models[t]->get_ng();
           g_adj_[t] = datas[t]
-                          ->g.cwiseMax(models[t]->get_g_lb())
-                          .cwiseMin(models[t]->get_g_ub());
+                          ->g.cwiseMax(models[t]->get_g_lb().head(ng))
+                          .cwiseMin(models[t]->get_g_ub().head(ng));
           tmp_feas_ = std::max(
               tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<Eigen::Infinity>());
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
+        const std::size_t ng_T = problem_->get_terminalModel()->get_ng_T();
         g_adj_.back() =
             problem_->get_terminalData()
-                ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
-                .cwiseMin(problem_->get_terminalModel()->get_g_ub());
+                ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb().head(ng_T))
+                .cwiseMin(
+                    problem_->get_terminalModel()->get_g_ub().head(ng_T));
         tmp_feas_ = std::max(tmp_feas_,
                              (problem_->get_terminalData()->g - g_adj_.back())
                                  .lpNorm<Eigen::Infinity>());
@@ -155,17 +158,20 @@ double SolverAbstract::computeInequalityFeasibility() {
     case L1:
       for (std::size_t t = 0; t < T; ++t) {
         if (models[t]->get_ng() > 0) {
+          const std::size_t ng = models[t]->get_ng();
           g_adj_[t] = datas[t]
-                          ->g.cwiseMax(models[t]->get_g_lb())
-                          .cwiseMin(models[t]->get_g_ub());
+                          ->g.cwiseMax(models[t]->get_g_lb().head(ng))
+                          .cwiseMin(models[t]->get_g_ub().head(ng));
           tmp_feas_ += (datas[t]->g - g_adj_[t]).lpNorm<1>();
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
+        const std::size_t ng_T = problem_->get_terminalModel()->get_ng_T();
         g_adj_.back() =
             problem_->get_terminalData()
-                ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
-                .cwiseMin(problem_->get_terminalModel()->get_g_ub());
+                ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb().head(ng_T))
+                .cwiseMin(
+                    problem_->get_terminalModel()->get_g_ub().head(ng_T));
         tmp_feas_ +=
             (problem_->get_terminalData()->g - g_adj_.back()).lpNorm<1>();
       }
-- 
2.43.0


From 75c4c0146b5d2e9773222b5bc5cf0cf6da90404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:52 +0000
Subject: [PATCH 34/72] fix: step lengths are validated including the first one

---
 src/core/solvers/box-qp.cpp | 6 ++++++
 src/core/solvers/ddp.cpp    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 856f7c8..ec217d8 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -242,7 +242,13 @@ void BoxQP::set_reg(const double reg) {
 }
 
 void BoxQP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "at least one alpha is needed.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index 01386ce..a0c2ecb 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -562,7 +562,13 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "at least one alpha is needed.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
-- 
2.43.0


From 8178acf2b1d7540f0b52e8e7e3b6c3f2cb844959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:11 +0000
Subject: [PATCH 35/72] fix: the regularization can be increased from zero, so
 that solving always ends

---
 src/core/solvers/ddp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index a0c2ecb..ec2ea43 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -394,7 +394,11 @@ void SolverDDP::computeGains(const std::size_t t) {
 }
 
 void SolverDDP::increaseRegularization() {
-  preg_ *= reg_incfactor_;
+  if (preg_ == 0.) {  // a factor cannot increase a null regularization
+    preg_ = reg_min_ > 0. ? reg_min_ : 1e-9;
+  } else {
+    preg_ *= reg_incfactor_;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From 73e04d6f44f42bc66679a411fa78505f4980d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:03 +0000
Subject: [PATCH 36/72] fix: box solvers handle nodes with different control
 dimensions

---
 src/core/solvers/box-ddp.cpp  | 3 +++
 src/core/solvers/box-fddp.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b2da02d..6ac7187 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -77,6 +77,9 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
 
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
 
     START_PROFILER("SolverBoxDDP::boxQP");
     const BoxQPSolution& boxqp_sol =
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index f516de2..1ba57d2 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -76,6 +76,9 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
 
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
 
     const BoxQPSolution& boxqp_sol =
         qp_.solve(Quu_[t], Qu_[t], du_lb_[t], du_ub_[t], k_[t]);
-- 
2.43.0


From 2bec91bffd03cc75095403861bc7f32582b7d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:22 +0000
Subject: [PATCH 37/72] fix: SolverIntro reads the kernel of the constraint
 Jacobian only when it is rank deficient in the controls

---
 src/core/solvers/intro.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index dcb2f20..f15fbe3 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -245,7 +245,10 @@ double SolverIntro::calcDiff() {
           Hu_rank_[t] = Hu_lu_[t].rank();
           YZ_[t].leftCols(Hu_rank_[t]).noalias() =
               (Hu_lu_[t].permutationP() * data->Hu).transpose();
-          YZ_[t].rightCols(model->get_nu() - Hu_rank_[t]) = Hu_lu_[t].kernel();
+          if (Hu_rank_[t] < model->get_nu()) {
+            YZ_[t].rightCols(model->get_nu() - Hu_rank_[t]) =
+                Hu_lu_[t].kernel();
+          }
           const Eigen::Block<Eigen::MatrixXd, Eigen::Dynamic, Eigen::Dynamic,
                              Eigen::RowMajor>
               Y = YZ_[t].leftCols(Hu_lu_[t].rank());
-- 
2.43.0


From 9c65260059d48a3d385c38d9244a4aba9a322651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:40 +0000
Subject: [PATCH 38/72] fix: DifferentialActionModelNumDiff keeps the control
 limits of its model

---
 include/crocoddyl/core/numdiff/diff-action.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index 9a8f3ce..d7f6cbe 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -24,6 +24,8 @@ DifferentialActionModelNumDiffTpl<Scalar>::DifferentialActionModelNumDiffTpl(
   e_hess_ = sqrt(Scalar(2.0) * e_jac_);
   if (with_gauss_approx_ && nr_ == 1)
     throw_pretty("No Gauss approximation possible with nr = 1");
+  this->set_u_lb(model_->get_u_lb());
+  this->set_u_ub(model_->get_u_ub());
 }
 
 template <typename Scalar>
-- 
2.43.0


From 6cf88a36a523eecf9a05ed0cc460b0c8e4ef50b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:40 +0000
Subject: [PATCH 39/72] fix: numerical-differentiation action models report the
 constraint bounds of their model

---
 include/crocoddyl/core/numdiff/action.hpp      | 10 ++++++++++
 include/crocoddyl/core/numdiff/action.hxx      | 12 ++++++++++++
 include/crocoddyl/core/numdiff/diff-action.hpp | 10 ++++++++++
 include/crocoddyl/core/numdiff/diff-action.hxx | 12 ++++++++++++
 4 files changed, 44 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/action.hpp b/include/crocoddyl/core/numdiff/action.hpp
index 43ab73d..4cb4248 100644
--- a/include/crocoddyl/core/numdiff/action.hpp
+++ b/include/crocoddyl/core/numdiff/action.hpp
@@ -125,6 +125,16 @@ class ActionModelNumDiffTpl : public ActionModelAbstractTpl<_Scalar> {
    */
   const std::shared_ptr<Base>& get_model() const;
 
+  /**
+   * @brief Return the lower bound of the inequality constraints
+   */
+  virtual const VectorXs& get_g_lb() const override;
+
+  /**
+   * @brief Return the upper bound of the inequality constraints
+   */
+  virtual const VectorXs& get_g_ub() const override;
+
   /**
    * @brief Return the disturbance constant used in the numerical
    * differentiation routine
diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 4896a91..6c84733 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -346,6 +346,18 @@ ActionModelNumDiffTpl<Scalar>::get_model() const {
   return model_;
 }
 
+template <typename Scalar>
+const typename MathBaseTpl<Scalar>::VectorXs&
+ActionModelNumDiffTpl<Scalar>::get_g_lb() const {
+  return model_->get_g_lb();
+}
+
+template <typename Scalar>
+const typename MathBaseTpl<Scalar>::VectorXs&
+ActionModelNumDiffTpl<Scalar>::get_g_ub() const {
+  return model_->get_g_ub();
+}
+
 template <typename Scalar>
 const Scalar ActionModelNumDiffTpl<Scalar>::get_disturbance() const {
   return e_jac_;
diff --git a/include/crocoddyl/core/numdiff/diff-action.hpp b/include/crocoddyl/core/numdiff/diff-action.hpp
index d65ef6a..4dd584b 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hpp
+++ b/include/crocoddyl/core/numdiff/diff-action.hpp
@@ -133,6 +133,16 @@ class DifferentialActionModelNumDiffTpl
    */
   const std::shared_ptr<Base>& get_model() const;
 
+  /**
+   * @brief Return the lower bound of the inequality constraints
+   */
+  virtual const VectorXs& get_g_lb() const override;
+
+  /**
+   * @brief Return the upper bound of the inequality constraints
+   */
+  virtual const VectorXs& get_g_ub() const override;
+
   /**
    * @brief Return the disturbance constant used in the numerical
    * differentiation routine
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index d7f6cbe..bf7d177 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -341,6 +341,18 @@ DifferentialActionModelNumDiffTpl<Scalar>::get_model() const {
   return model_;
 }
 
+template <typename Scalar>
+const typename MathBaseTpl<Scalar>::VectorXs&
+DifferentialActionModelNumDiffTpl<Scalar>::get_g_lb() const {
+  return model_->get_g_lb();
+}
+
+template <typename Scalar>
+const typename MathBaseTpl<Scalar>::VectorXs&
+DifferentialActionModelNumDiffTpl<Scalar>::get_g_ub() const {
+  return model_->get_g_ub();
+}
+
 template <typename Scalar>
 const Scalar DifferentialActionModelNumDiffTpl<Scalar>::get_disturbance()
     const {
-- 
2.43.0


From 4366ff6b54434ee68040c905faf91ae2b2074abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:40 +0000
Subject: [PATCH 40/72] fix: ResidualModelNumDiff computes the disturbance of a
 terminal evaluation

---
 include/crocoddyl/core/numdiff/residual.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/residual.hxx b/include/crocoddyl/core/numdiff/residual.hxx
index 84af121..c79f54c 100644
--- a/include/crocoddyl/core/numdiff/residual.hxx
+++ b/include/crocoddyl/core/numdiff/residual.hxx
@@ -89,7 +89,10 @@ void ResidualModelNumDiffTpl<Scalar>::calcDiff(
   assertStableStateFD(x);
 
   // Computing the d residual(x,u) / dx
+  model_->get_state()->diff(model_->get_state()->zero(), x, d->dx);
+  d->x_norm = d->dx.norm();
   d->dx.setZero();
+  d->xh_jac = e_jac_ * std::max(Scalar(1.), d->x_norm);
   for (std::size_t ix = 0; ix < state_->get_ndx(); ++ix) {
     d->dx(ix) = d->xh_jac;
     model_->get_state()->integrate(x, d->dx, d->xp);
-- 
2.43.0


From 471c619efac7096967720c9f1f2d6f51e37e1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:40 +0000
Subject: [PATCH 41/72] fix: ControlParametrizationModelNumDiff reports the
 control value

---
 include/crocoddyl/core/numdiff/control.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/numdiff/control.hxx b/include/crocoddyl/core/numdiff/control.hxx
index bf3d9fd..d0a9f4c 100644
--- a/include/crocoddyl/core/numdiff/control.hxx
+++ b/include/crocoddyl/core/numdiff/control.hxx
@@ -23,6 +23,7 @@ void ControlParametrizationModelNumDiffTpl<Scalar>::calc(
     const Scalar t, const Eigen::Ref<const VectorXs>& u) const {
   std::shared_ptr<Data> data_nd = std::static_pointer_cast<Data>(data);
   model_->calc(data_nd->data_0, t, u);
+  data->w = data_nd->data_0->w;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 923881a29ff554eff248cc67927d1464e89562a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:40 +0000
Subject: [PATCH 42/72] fix: ConstraintModelNumDiff keeps the bounds and the
 terminal flag of its model

---
 include/crocoddyl/core/numdiff/constraint.hpp | 2 ++
 include/crocoddyl/core/numdiff/constraint.hxx | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/constraint.hpp b/include/crocoddyl/core/numdiff/constraint.hpp
index eccd5d9..26c069a 100644
--- a/include/crocoddyl/core/numdiff/constraint.hpp
+++ b/include/crocoddyl/core/numdiff/constraint.hpp
@@ -129,8 +129,10 @@ class ConstraintModelNumDiffTpl : public ConstraintModelAbstractTpl<_Scalar> {
   void set_reevals(const std::vector<ReevaluationFunction>& reevals);
 
  protected:
+  using Base::lb_;
   using Base::nu_;
   using Base::state_;
+  using Base::ub_;
   using Base::unone_;
 
  private:
diff --git a/include/crocoddyl/core/numdiff/constraint.hxx b/include/crocoddyl/core/numdiff/constraint.hxx
index 41ca28c..9c2f4c5 100644
--- a/include/crocoddyl/core/numdiff/constraint.hxx
+++ b/include/crocoddyl/core/numdiff/constraint.hxx
@@ -14,9 +14,12 @@ template <typename Scalar>
 ConstraintModelNumDiffTpl<Scalar>::ConstraintModelNumDiffTpl(
     const std::shared_ptr<Base>& model)
     : Base(model->get_state(), model->get_nu(), model->get_ng(),
-           model->get_nh()),
+           model->get_nh(), model->get_T_constraint()),
       model_(model),
-      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {}
+      e_jac_(sqrt(Scalar(2.0) * std::numeric_limits<Scalar>::epsilon())) {
+  lb_ = model_->get_lb();
+  ub_ = model_->get_ub();
+}
 
 template <typename Scalar>
 void ConstraintModelNumDiffTpl<Scalar>::calc(
-- 
2.43.0


From 1171655805f1f2f02be4fe2b4c2724724700b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:40 +0000
Subject: [PATCH 43/72] fix: StateNumDiff::Jintegrate honours the assignment
 operator

---
 include/crocoddyl/core/numdiff/state.hxx | 43 ++++++++++++++++++++----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/state.hxx b/include/crocoddyl/core/numdiff/state.hxx
index b72e785..8b9c201 100644
--- a/include/crocoddyl/core/numdiff/state.hxx
+++ b/include/crocoddyl/core/numdiff/state.hxx
@@ -145,7 +145,7 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                          Eigen::Ref<MatrixXs> Jfirst,
                                          Eigen::Ref<MatrixXs> Jsecond,
                                          const Jcomponent firstsecond,
-                                         const AssignmentOp) const {
+                                         const AssignmentOp op) const {
   assert_pretty(
       is_a_Jcomponent(firstsecond),
       ("firstsecond must be one of the Jcomponent {both, first, second}"));
@@ -162,6 +162,7 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
   VectorXs tmp_x_ = VectorXs::Zero(nx_);
   VectorXs dx_ = VectorXs::Zero(ndx_);
   VectorXs x0_ = VectorXs::Zero(nx_);
+  MatrixXs J_ = MatrixXs::Zero(ndx_, ndx_);
 
   // x0_ = integrate(x, dx)
   integrate(x, dx, x0_);
@@ -175,15 +176,29 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
-    Jfirst.setZero();
     for (std::size_t i = 0; i < ndx_; ++i) {
       dx_(i) = xh_jac;
       integrate(x, dx_, tmp_x_);
       integrate(tmp_x_, dx, tmp_x_);
-      diff(x0_, tmp_x_, Jfirst.col(i));
+      diff(x0_, tmp_x_, J_.col(i));
       dx_(i) = Scalar(0.);
     }
-    Jfirst /= xh_jac;
+    J_ /= xh_jac;
+    switch (op) {
+      case setto:
+        Jfirst = J_;
+        break;
+      case addto:
+        Jfirst += J_;
+        break;
+      case rmfrom:
+        Jfirst -= J_;
+        break;
+      default:
+        throw_pretty(
+            "Invalid argument: allowed operators: setto, addto, rmfrom");
+        break;
+    }
   }
   if (firstsecond == second || firstsecond == both) {
     const Scalar dxh_jac = e_jac_ * std::max(Scalar(1.), dx.norm());
@@ -194,14 +209,28 @@ void StateNumDiffTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>& x,
                                       std::to_string(ndx_) + "," +
                                       std::to_string(ndx_) + ")");
     }
-    Jsecond.setZero();
     for (std::size_t i = 0; i < ndx_; ++i) {
       dx_(i) = dxh_jac;
       integrate(x, dx + dx_, tmp_x_);
-      diff(x0_, tmp_x_, Jsecond.col(i));
+      diff(x0_, tmp_x_, J_.col(i));
       dx_(i) = Scalar(0.);
     }
-    Jsecond /= dxh_jac;
+    J_ /= dxh_jac;
+    switch (op) {
+      case setto:
+        Jsecond = J_;
+        break;
+      case addto:
+        Jsecond += J_;
+        break;
+      case rmfrom:
+        Jsecond -= J_;
+        break;
+      default:
+        throw_pretty(
+            "Invalid argument: allowed operators: setto, addto, rmfrom");
+        break;
+    }
   }
 }
 
-- 
2.43.0


From a39063bed7c49e2aa2898e73ef6bd53a147ee3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:30 +0000
Subject: [PATCH 44/72] fix: ActivationBounds::cast does not shrink the bounds
 a second time

---
 include/crocoddyl/core/activations/quadratic-barrier.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/activations/quadratic-barrier.hpp b/include/crocoddyl/core/activations/quadratic-barrier.hpp
index feec6f6..9029025 100644
--- a/include/crocoddyl/core/activations/quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/quadratic-barrier.hpp
@@ -77,8 +77,10 @@ struct ActivationBoundsTpl {
   template <typename NewScalar>
   ActivationBoundsTpl<NewScalar> cast() const {
     typedef ActivationBoundsTpl<NewScalar> ReturnType;
-    ReturnType res(lb.template cast<NewScalar>(), ub.template cast<NewScalar>(),
-                   scalar_cast<NewScalar>(beta));
+    // the bounds are already scaled by beta
+    ReturnType res(lb.template cast<NewScalar>(),
+                   ub.template cast<NewScalar>());
+    res.beta = scalar_cast<NewScalar>(beta);
     return res;
   }
 
-- 
2.43.0


From 4c1ebf643f5f0dca66586ad2e0b156a6e6cd3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:30 +0000
Subject: [PATCH 45/72] fix: StateVector::cast keeps the state limits

---
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index 9c503a6..74fecc3 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -184,6 +184,8 @@ template <typename NewScalar>
 StateVectorTpl<NewScalar> StateVectorTpl<Scalar>::cast() const {
   typedef StateVectorTpl<NewScalar> ReturnType;
   ReturnType res(nx_);
+  res.set_lb(this->lb_.template cast<NewScalar>());
+  res.set_ub(this->ub_.template cast<NewScalar>());
   return res;
 }
 
-- 
2.43.0


From 17f3be189140597dd1c5eeb5fd2bd9617dba9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:30 +0000
Subject: [PATCH 46/72] fix: SquashingModelSmoothSat::cast keeps the smoothing
 factor

---
 include/crocoddyl/core/actuation/squashing/smooth-sat.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
index 900d915..6507f4f 100644
--- a/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
+++ b/include/crocoddyl/core/actuation/squashing/smooth-sat.hpp
@@ -75,6 +75,7 @@ class SquashingModelSmoothSatTpl : public SquashingModelAbstractTpl<_Scalar> {
     typedef SquashingModelSmoothSatTpl<NewScalar> ReturnType;
     ReturnType ret(u_lb_.template cast<NewScalar>(),
                    u_ub_.template cast<NewScalar>(), ns_);
+    ret.set_smooth(scalar_cast<NewScalar>(smooth_));
     return ret;
   }
 
-- 
2.43.0


From 8424c3042bfeb105ef51edec7e826812e1a12fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:30 +0000
Subject: [PATCH 47/72] fix: ActionModelUnicycle::cast keeps the weights, the
 time step and the control limits

---
 include/crocoddyl/core/actions/unicycle.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crocoddyl/core/actions/unicycle.hxx b/include/crocoddyl/core/actions/unicycle.hxx
index afa0add..4824a50 100644
--- a/include/crocoddyl/core/actions/unicycle.hxx
+++ b/include/crocoddyl/core/actions/unicycle.hxx
@@ -115,6 +115,10 @@ template <typename NewScalar>
 ActionModelUnicycleTpl<NewScalar> ActionModelUnicycleTpl<Scalar>::cast() const {
   typedef ActionModelUnicycleTpl<NewScalar> ReturnType;
   ReturnType ret;
+  ret.set_cost_weights(cost_weights_.template cast<NewScalar>());
+  ret.set_dt(scalar_cast<NewScalar>(dt_));
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From d30973c9f941be686c0771788be25ae4aaa914ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:30 +0000
Subject: [PATCH 48/72] fix: copies and casts of the LQR action model keep its
 control limits and constraint bounds

---
 include/crocoddyl/core/actions/lqr.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 78bca51..7d058e6 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -81,6 +81,10 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
+  Base::set_u_lb(copy.get_u_lb());
+  Base::set_u_ub(copy.get_u_ub());
+  Base::set_g_lb(copy.get_g_lb());
+  Base::set_g_ub(copy.get_g_ub());
 }
 
 template <typename Scalar>
@@ -217,6 +221,10 @@ ActionModelLQRTpl<NewScalar> ActionModelLQRTpl<Scalar>::cast() const {
                  H_.template cast<NewScalar>(), f_.template cast<NewScalar>(),
                  q_.template cast<NewScalar>(), r_.template cast<NewScalar>(),
                  g_.template cast<NewScalar>(), h_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From 4bcafb760c1a3ab7bb45a59c136c8477ae067e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:30 +0000
Subject: [PATCH 49/72] fix: copies and casts of the differential LQR action
 model keep its control limits and constraint bounds

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index 5bee72c..3adf255 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -82,6 +82,10 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
+  Base::set_u_lb(copy.get_u_lb());
+  Base::set_u_ub(copy.get_u_ub());
+  Base::set_g_lb(copy.get_g_lb());
+  Base::set_g_ub(copy.get_g_ub());
 }
 
 template <typename Scalar>
@@ -226,6 +230,10 @@ DifferentialActionModelLQRTpl<Scalar>::cast() const {
                  f_.template cast<NewScalar>(), q_.template cast<NewScalar>(),
                  r_.template cast<NewScalar>(), g_.template cast<NewScalar>(),
                  h_.template cast<NewScalar>());
+  ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+  ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
+  ret.set_g_lb(this->g_lb_.template cast<NewScalar>());
+  ret.set_g_ub(this->g_ub_.template cast<NewScalar>());
   return ret;
 }
 
-- 
2.43.0


From 6a0b117c7700067355ab0eda88c4acdfc2e04d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:30 +0000
Subject: [PATCH 50/72] fix: casts of integrated action models keep their
 control limits

---
 include/crocoddyl/core/integrator/euler.hxx | 4 ++++
 include/crocoddyl/core/integrator/rk.hxx    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index fd538f0..7e0faeb 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -165,10 +165,14 @@ IntegratedActionModelEulerTpl<Scalar>::cast() const {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(),
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 6bb4f97..1b6abbe 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -342,10 +342,14 @@ IntegratedActionModelRKTpl<NewScalar> IntegratedActionModelRKTpl<Scalar>::cast()
     ReturnType ret(differential_->template cast<NewScalar>(),
                    control_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   } else {
     ReturnType ret(differential_->template cast<NewScalar>(), rk_type_,
                    scalar_cast<NewScalar>(time_step_), with_cost_residual_);
+    ret.set_u_lb(this->u_lb_.template cast<NewScalar>());
+    ret.set_u_ub(this->u_ub_.template cast<NewScalar>());
     return ret;
   }
 }
-- 
2.43.0


From 2293e788bb55e2f72185a453ee4b8279848217dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:30 +0000
Subject: [PATCH 51/72] fix: casts of numerically differentiated action models
 keep the Gauss-Newton setting

---
 include/crocoddyl/core/numdiff/action.hxx      | 2 +-
 include/crocoddyl/core/numdiff/diff-action.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/numdiff/action.hxx b/include/crocoddyl/core/numdiff/action.hxx
index 6c84733..bd4cb2f 100644
--- a/include/crocoddyl/core/numdiff/action.hxx
+++ b/include/crocoddyl/core/numdiff/action.hxx
@@ -336,7 +336,7 @@ template <typename Scalar>
 template <typename NewScalar>
 ActionModelNumDiffTpl<NewScalar> ActionModelNumDiffTpl<Scalar>::cast() const {
   typedef ActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
   return res;
 }
 
diff --git a/include/crocoddyl/core/numdiff/diff-action.hxx b/include/crocoddyl/core/numdiff/diff-action.hxx
index bf7d177..88298b0 100644
--- a/include/crocoddyl/core/numdiff/diff-action.hxx
+++ b/include/crocoddyl/core/numdiff/diff-action.hxx
@@ -331,7 +331,7 @@ template <typename NewScalar>
 DifferentialActionModelNumDiffTpl<NewScalar>
 DifferentialActionModelNumDiffTpl<Scalar>::cast() const {
   typedef DifferentialActionModelNumDiffTpl<NewScalar> ReturnType;
-  ReturnType res(model_->template cast<NewScalar>());
+  ReturnType res(model_->template cast<NewScalar>(), with_gauss_approx_);
   return res;
 }
 
-- 
2.43.0


From 9f228c19bcf80b361a5f24ed8ed6d75b6983c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:21 +0000
Subject: [PATCH 52/72] fix: friction cone setters keep the replacement of
 invalid values

---
 include/crocoddyl/multibody/friction-cone.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/friction-cone.hxx b/include/crocoddyl/multibody/friction-cone.hxx
index ff4f22a..639317e 100644
--- a/include/crocoddyl/multibody/friction-cone.hxx
+++ b/include/crocoddyl/multibody/friction-cone.hxx
@@ -232,12 +232,12 @@ void FrictionConeTpl<Scalar>::set_nsurf(const Vector3s& nsurf) {
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_mu(const Scalar mu) {
+  mu_ = mu;
   if (mu < Scalar(0.)) {
     mu_ = Scalar(1.);
     std::cerr << "Warning: mu has to be a positive value, set to 1."
               << std::endl;
   }
-  mu_ = mu;
 }
 
 template <typename Scalar>
@@ -247,23 +247,23 @@ void FrictionConeTpl<Scalar>::set_inner_appr(const bool inner_appr) {
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_min_nforce(const Scalar min_nforce) {
+  min_nforce_ = min_nforce;
   if (min_nforce < Scalar(0.)) {
     min_nforce_ = Scalar(0.);
     std::cerr << "Warning: min_nforce has to be a positive value, set to 0"
               << std::endl;
   }
-  min_nforce_ = min_nforce;
 }
 
 template <typename Scalar>
 void FrictionConeTpl<Scalar>::set_max_nforce(const Scalar max_nforce) {
+  max_nforce_ = max_nforce;
   if (max_nforce < Scalar(0.)) {
     max_nforce_ = std::numeric_limits<Scalar>::infinity();
     std::cerr << "Warning: max_nforce has to be a positive value, set to "
                  "infinity value"
               << std::endl;
   }
-  max_nforce_ = max_nforce;
 }
 
 template <typename Scalar>
-- 
2.43.0


From c25ccc325b2d2c9976db6f9ce3f672289cc38108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:21 +0000
Subject: [PATCH 53/72] fix: friction cone given by a normal is oriented along
 it

---
 include/crocoddyl/multibody/friction-cone.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/friction-cone.hxx b/include/crocoddyl/multibody/friction-cone.hxx
index 639317e..d002ad4 100644
--- a/include/crocoddyl/multibody/friction-cone.hxx
+++ b/include/crocoddyl/multibody/friction-cone.hxx
@@ -137,7 +137,7 @@ void FrictionConeTpl<Scalar>::update(const Vector3s& normal, const Scalar mu,
         << "Warning: normal is not an unitary vector, then we normalized it"
         << std::endl;
   }
-  R_ = Quaternions::FromTwoVectors(nsurf, Vector3s::UnitZ()).toRotationMatrix();
+  R_ = Quaternions::FromTwoVectors(Vector3s::UnitZ(), nsurf).toRotationMatrix();
   set_mu(mu);
   set_inner_appr(inner_appr);
   set_min_nforce(min_nforce);
@@ -183,7 +183,7 @@ const typename MathBaseTpl<Scalar>::Matrix3s& FrictionConeTpl<Scalar>::get_R()
 
 template <typename Scalar>
 typename MathBaseTpl<Scalar>::Vector3s FrictionConeTpl<Scalar>::get_nsurf() {
-  return R_.row(2).transpose();
+  return R_.col(2);
 }
 
 template <typename Scalar>
@@ -227,7 +227,7 @@ void FrictionConeTpl<Scalar>::set_nsurf(const Vector3s& nsurf) {
         << std::endl;
   }
   R_ =
-      Quaternions::FromTwoVectors(normal, Vector3s::UnitZ()).toRotationMatrix();
+      Quaternions::FromTwoVectors(Vector3s::UnitZ(), normal).toRotationMatrix();
 }
 
 template <typename Scalar>
-- 
2.43.0


From 6e5f12656248ab686ba02c995a9d808930cab685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:21 +0000
Subject: [PATCH 54/72] fix: CoP support built from a wrench cone constrains
 only the centre of pressure

---
 include/crocoddyl/multibody/cop-support.hxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/multibody/cop-support.hxx b/include/crocoddyl/multibody/cop-support.hxx
index 0cef53c..51c4891 100644
--- a/include/crocoddyl/multibody/cop-support.hxx
+++ b/include/crocoddyl/multibody/cop-support.hxx
@@ -22,11 +22,10 @@ CoPSupportTpl<Scalar>::CoPSupportTpl(const Matrix3s& R, const Vector2s& box)
 
 template <typename Scalar>
 CoPSupportTpl<Scalar>::CoPSupportTpl(const WrenchConeTpl<Scalar>& other)
-    : A_(other.get_A()),
-      ub_(other.get_ub()),
-      lb_(other.get_lb()),
-      R_(other.get_R()),
-      box_(other.get_box()) {}
+    : R_(other.get_R()), box_(other.get_box()) {
+  // Update the inequality matrix and bounds
+  update();
+}
 
 template <typename Scalar>
 CoPSupportTpl<Scalar>::CoPSupportTpl(const CoPSupportTpl<Scalar>& other)
-- 
2.43.0


From 447fa2f20d03bd6e0a4a88092f52626894ab5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:21 +0000
Subject: [PATCH 55/72] fix: resizing the Ipopt interface recounts its
 constraints

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 33797f2..44cb6c0 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -52,6 +52,7 @@ IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
 
 void IpoptInterface::resizeData() {
   const std::size_t T = problem_->get_T();
+  nconst_ = 0;
   nvar_ = 0;
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-- 
2.43.0


From c9b314df7526a33a17366fff4e5a00cc13f4ec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:21 +0000
Subject: [PATCH 56/72] fix: Ipopt objective is accumulated from zero

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 44cb6c0..7bfed1c 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -263,6 +263,7 @@ bool IpoptInterface::eval_f(Ipopt::Index, const Ipopt::Number* x, bool,
     model->calc(data, datas_[t]->x, datas_[t]->u);
   }
 
+  obj_value = 0.;
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp simd reduction(+ : obj_value)
 #endif
-- 
2.43.0


From 1b77ce4ec42772b89a11c26ebe763d0b74999160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:21 +0000
Subject: [PATCH 57/72] fix: Ipopt derivatives are computed at the point where
 they are requested

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 7bfed1c..582925f 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -496,6 +496,7 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
       model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
                                          datas_[t]->xnext);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x, datas_[t]->u);
       model_next->get_state()->Jintegrate(
           xs_[t + 1], datas_[t]->dxnext, datas_[t]->Jint_dxnext,
@@ -642,6 +643,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
       datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
 
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x,
                       datas_[t]->u);  // this might be removed
       model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
-- 
2.43.0


From 263d6250143c0e62f69ccacd5cbc628108976d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:21 +0000
Subject: [PATCH 58/72] fix: Ipopt terminal Hessian is scaled by the objective
 factor

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 582925f..5ad9f28 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -705,7 +705,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
         if (idx_col > idx_row) {
           break;
         }
-        values[idx] = datas_[T]->Ldxdx(idx_row, idx_col);
+        values[idx] = obj_factor * datas_[T]->Ldxdx(idx_row, idx_col);
         idx++;
       }
     }
-- 
2.43.0


From 59d79a70ba1727c61b395043aaaeb2bbb48dddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:54 +0000
Subject: [PATCH 59/72] fix: keep the active dimension when removing an
 inactive contact or impulse

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 4 +++-
 include/crocoddyl/multibody/impulses/multiple-impulses.hxx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index 3534be4..0978c8e 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -60,7 +60,9 @@ template <typename Scalar>
 void ContactModelMultipleTpl<Scalar>::removeContact(const std::string& name) {
   typename ContactModelContainer::iterator it = contacts_.find(name);
   if (it != contacts_.end()) {
-    nc_ -= it->second->contact->get_nc();
+    if (it->second->active) {
+      nc_ -= it->second->contact->get_nc();
+    }
     nc_total_ -= it->second->contact->get_nc();
     contacts_.erase(it);
     active_set_.erase(name);
diff --git a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
index a4efe87..748b4b7 100644
--- a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
+++ b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
@@ -41,7 +41,9 @@ template <typename Scalar>
 void ImpulseModelMultipleTpl<Scalar>::removeImpulse(const std::string& name) {
   typename ImpulseModelContainer::iterator it = impulses_.find(name);
   if (it != impulses_.end()) {
-    nc_ -= it->second->impulse->get_nc();
+    if (it->second->active) {
+      nc_ -= it->second->impulse->get_nc();
+    }
     nc_total_ -= it->second->impulse->get_nc();
     impulses_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From 67d1cb791744c0f7a67a411f8ad0e27cfd247bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:54 +0000
Subject: [PATCH 60/72] fix: add the external forces of contacts and impulses
 on the same joint

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 4 ++--
 include/crocoddyl/multibody/impulses/multiple-impulses.hxx | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index 0978c8e..ee9fc57 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -254,7 +254,7 @@ void ContactModelMultipleTpl<Scalar>::updateForce(
         m_i->contact->updateForce(d_i, force_i);
         const pinocchio::JointIndex joint =
             state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-        data->fext[joint] = d_i->fext;
+        data->fext[joint] += d_i->fext;
       } else {
         m_i->contact->setZeroForce(d_i);
       }
@@ -275,7 +275,7 @@ void ContactModelMultipleTpl<Scalar>::updateForce(
         m_i->contact->updateForce(d_i, force_i);
         const pinocchio::JointIndex joint =
             state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-        data->fext[joint] = d_i->fext;
+        data->fext[joint] += d_i->fext;
         nc += nc_i;
       } else {
         m_i->contact->setZeroForce(d_i);
diff --git a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
index 748b4b7..f9cc3af 100644
--- a/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
+++ b/include/crocoddyl/multibody/impulses/multiple-impulses.hxx
@@ -183,7 +183,7 @@ void ImpulseModelMultipleTpl<Scalar>::updateForce(
       m_i->impulse->updateForce(d_i, force_i);
       const pinocchio::JointIndex joint =
           state_->get_pinocchio()->frames[d_i->frame].parentJoint;
-      data->fext[joint] = d_i->fext;
+      data->fext[joint] += d_i->fext;
       nc += nc_i;
     } else {
       m_i->impulse->setZeroForce(d_i);
-- 
2.43.0


From bc1a340224c4ce9a2d056c1254c469a368c62ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:54 +0000
Subject: [PATCH 61/72] fix: keep setComputeAllContacts when casting a contact
 stack

---
 include/crocoddyl/multibody/contacts/multiple-contacts.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
index ee9fc57..8de0874 100644
--- a/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
+++ b/include/crocoddyl/multibody/contacts/multiple-contacts.hxx
@@ -427,6 +427,7 @@ ContactModelMultipleTpl<NewScalar> ContactModelMultipleTpl<Scalar>::cast()
     const ContactType& m_i = it_m->second->template cast<NewScalar>();
     ret.addContact(name, m_i.contact, m_i.active);
   }
+  ret.setComputeAllContacts(compute_all_contacts_);
   return ret;
 }
 
-- 
2.43.0


From 40bfdfe13d7b8c72e51d138c3f39edbd43393d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:54 +0000
Subject: [PATCH 62/72] fix: LQR get_Lxu and get_Luu return their own block

---
 include/crocoddyl/core/actions/lqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 7cf0d52..b8d5d07 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -223,8 +223,8 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   DEPRECATED("Use get_q", const VectorXs& get_lx() const { return get_q(); })
   DEPRECATED("Use get_r", const VectorXs& get_lu() const { return get_r(); })
   DEPRECATED("Use get_Q", const MatrixXs& get_Lxx() const { return get_Q(); })
-  DEPRECATED("Use get_R", const MatrixXs& get_Lxu() const { return get_R(); })
-  DEPRECATED("Use get_N", const MatrixXs& get_Luu() const { return get_N(); })
+  DEPRECATED("Use get_N", const MatrixXs& get_Lxu() const { return get_N(); })
+  DEPRECATED("Use get_R", const MatrixXs& get_Luu() const { return get_R(); })
   DEPRECATED(
       "Use set_LQR", void set_Fx(const MatrixXs& A) {
         set_LQR(A, B_, Q_, R_, N_, G_, H_, f_, q_, r_, g_, h_);
-- 
2.43.0


From 9d5879670468da858925c25fdbfa885b7dcb5a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:54 +0000
Subject: [PATCH 63/72] fix: measure the 1D contact reference along the
 constrained axis

---
 include/crocoddyl/multibody/contacts/contact-1d.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/contacts/contact-1d.hxx b/include/crocoddyl/multibody/contacts/contact-1d.hxx
index e85096e..fbba012 100644
--- a/include/crocoddyl/multibody/contacts/contact-1d.hxx
+++ b/include/crocoddyl/multibody/contacts/contact-1d.hxx
@@ -82,7 +82,7 @@ void ContactModel1DTpl<Scalar>::calc(
   const Eigen::Ref<const Matrix3s> oRf = d->pinocchio->oMf[id_].rotation();
   if (gains_[0] != Scalar(0.)) {
     d->dp = d->pinocchio->oMf[id_].translation() -
-            (xref_ * Raxis_ * Vector3s::UnitZ());
+            (xref_ * Raxis_.transpose() * Vector3s::UnitZ());
     d->dp_local.noalias() = oRf.transpose() * d->dp;
     d->a0_local += gains_[0] * d->dp_local;
   }
-- 
2.43.0


From 4e2f14befaf6d8461b20d69f55005e0e4a4feb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:54 +0000
Subject: [PATCH 64/72] fix: express the 2D contact force in the contact frame

---
 include/crocoddyl/multibody/contacts/contact-2d.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/contacts/contact-2d.hxx b/include/crocoddyl/multibody/contacts/contact-2d.hxx
index d4e1d8e..8dd87fd 100644
--- a/include/crocoddyl/multibody/contacts/contact-2d.hxx
+++ b/include/crocoddyl/multibody/contacts/contact-2d.hxx
@@ -134,7 +134,9 @@ void ContactModel2DTpl<Scalar>::updateForce(
   }
   Data* d = static_cast<Data*>(data.get());
   const Eigen::Ref<const Matrix3s> R = d->jMf.rotation();
-  data->f.linear() = R.col(0) * force[0] + R.col(2) * force[1];
+  data->f.linear()[0] = force[0];
+  data->f.linear()[1] = Scalar(0.);
+  data->f.linear()[2] = force[1];
   data->f.angular().setZero();
   data->fext.linear() = R.col(0) * force[0] + R.col(2) * force[1];
   data->fext.angular() = d->jMf.translation().cross(data->fext.linear());
-- 
2.43.0


From cd949ee1b4e45af2724fb16030e178ea650ae159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:54 +0000
Subject: [PATCH 65/72] fix: 6D impulse derivative uses the local-world-aligned
 velocity

---
 include/crocoddyl/multibody/impulses/impulse-6d.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/impulses/impulse-6d.hxx b/include/crocoddyl/multibody/impulses/impulse-6d.hxx
index c617b8b..61e1784 100644
--- a/include/crocoddyl/multibody/impulses/impulse-6d.hxx
+++ b/include/crocoddyl/multibody/impulses/impulse-6d.hxx
@@ -61,7 +61,8 @@ void ImpulseModel6DTpl<Scalar>::calcDiff(
     case pinocchio::ReferenceFrame::LOCAL_WORLD_ALIGNED:
       const Eigen::Ref<const Matrix3s> oRf = d->pinocchio->oMf[id_].rotation();
       d->v0 = pinocchio::getFrameVelocity(*state_->get_pinocchio().get(),
-                                          *d->pinocchio, id_, type_);
+                                          *d->pinocchio, id_,
+                                          pinocchio::LOCAL_WORLD_ALIGNED);
       pinocchio::skew(d->v0.linear(), d->vv_skew);
       pinocchio::skew(d->v0.angular(), d->vw_skew);
       d->vv_world_skew.noalias() = d->vv_skew * oRf;
-- 
2.43.0


From f7018b7ee8ced9bb2c20c97206a5fd5d7eefaf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:55 +0000
Subject: [PATCH 66/72] fix: force residuals refresh the Jacobians of every
 data after a reference change

---
 .../multibody/residuals/contact-cop-position.hpp          | 2 --
 .../multibody/residuals/contact-cop-position.hxx          | 8 +-------
 include/crocoddyl/multibody/residuals/contact-force.hpp   | 2 --
 include/crocoddyl/multibody/residuals/contact-force.hxx   | 8 +-------
 .../multibody/residuals/contact-friction-cone.hpp         | 2 --
 .../multibody/residuals/contact-friction-cone.hxx         | 8 +-------
 .../crocoddyl/multibody/residuals/contact-wrench-cone.hpp | 2 --
 .../crocoddyl/multibody/residuals/contact-wrench-cone.hxx | 8 +-------
 8 files changed, 4 insertions(+), 36 deletions(-)

diff --git a/include/crocoddyl/multibody/residuals/contact-cop-position.hpp b/include/crocoddyl/multibody/residuals/contact-cop-position.hpp
index baa03f5..076d8d0 100644
--- a/include/crocoddyl/multibody/residuals/contact-cop-position.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-cop-position.hpp
@@ -248,8 +248,6 @@ class ResidualModelContactCoPPositionTpl
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
-                              //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   CoPSupport cref_;           //!< Reference support region of CoP
 };
diff --git a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
index dd38c78..fa54b6e 100644
--- a/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-cop-position.hxx
@@ -15,7 +15,6 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
     const CoPSupport& cref, const std::size_t nu, const bool fwddyn)
     : Base(state, 4, nu, fwddyn ? true : false, fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       cref_(cref) {}
 
@@ -25,7 +24,6 @@ ResidualModelContactCoPPositionTpl<_Scalar>::ResidualModelContactCoPPositionTpl(
     const CoPSupport& cref)
     : Base(state, 4),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       cref_(cref) {}
 
@@ -50,9 +48,7 @@ template <typename Scalar>
 void ResidualModelContactCoPPositionTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -84,7 +80,6 @@ void ResidualModelContactCoPPositionTpl<Scalar>::updateJacobians(
   const Matrix46& A = cref_.get_A();
   data->Rx.noalias() = A * df_dx;
   data->Ru.noalias() = A * df_du;
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -137,7 +132,6 @@ template <typename Scalar>
 void ResidualModelContactCoPPositionTpl<Scalar>::set_reference(
     const CoPSupport& reference) {
   cref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/multibody/residuals/contact-force.hpp b/include/crocoddyl/multibody/residuals/contact-force.hpp
index 953e548..1d59871 100644
--- a/include/crocoddyl/multibody/residuals/contact-force.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-force.hpp
@@ -237,8 +237,6 @@ class ResidualModelContactForceTpl : public ResidualModelAbstractTpl<_Scalar> {
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
-                              //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   Force fref_;  //!< Reference spatial contact force in the contact coordinates
 };
diff --git a/include/crocoddyl/multibody/residuals/contact-force.hxx b/include/crocoddyl/multibody/residuals/contact-force.hxx
index 28096aa..d61f269 100644
--- a/include/crocoddyl/multibody/residuals/contact-force.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-force.hxx
@@ -18,7 +18,6 @@ ResidualModelContactForceTpl<Scalar>::ResidualModelContactForceTpl(
     const bool fwddyn)
     : Base(state, nc, nu, fwddyn ? true : false, fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (nc > 6) {
@@ -40,7 +39,6 @@ ResidualModelContactForceTpl<Scalar>::ResidualModelContactForceTpl(
     const Force& fref, const std::size_t nc)
     : Base(state, nc),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (nc > 6) {
@@ -89,9 +87,7 @@ template <typename Scalar>
 void ResidualModelContactForceTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -136,7 +132,6 @@ void ResidualModelContactForceTpl<Scalar>::updateJacobians(
     default:
       break;
   }
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -188,7 +183,6 @@ template <typename Scalar>
 void ResidualModelContactForceTpl<Scalar>::set_reference(
     const Force& reference) {
   fref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp b/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp
index a181476..1d638c2 100644
--- a/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-friction-cone.hpp
@@ -224,8 +224,6 @@ class ResidualModelContactFrictionConeTpl
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
-                              //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   FrictionCone fref_;         //!< Reference contact friction cone
 };
diff --git a/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx b/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
index 73fdcd7..fb4d6ea 100644
--- a/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-friction-cone.hxx
@@ -20,7 +20,6 @@ ResidualModelContactFrictionConeTpl<Scalar>::
     : Base(state, fref.get_nf() + 1, nu, fwddyn ? true : false,
            fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -38,7 +37,6 @@ ResidualModelContactFrictionConeTpl<Scalar>::
                                         const FrictionCone& fref)
     : Base(state, fref.get_nf() + 1),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -71,9 +69,7 @@ template <typename Scalar>
 void ResidualModelContactFrictionConeTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -121,7 +117,6 @@ void ResidualModelContactFrictionConeTpl<Scalar>::updateJacobians(
     default:
       break;
   }
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -173,7 +168,6 @@ template <typename Scalar>
 void ResidualModelContactFrictionConeTpl<Scalar>::set_reference(
     const FrictionCone& reference) {
   fref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp
index 7c7031a..1969144 100644
--- a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp
+++ b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hpp
@@ -232,8 +232,6 @@ class ResidualModelContactWrenchConeTpl
  private:
   bool fwddyn_;  //!< Indicates if we are using this function for forward
                  //!< dynamics
-  bool update_jacobians_;     //!< Indicates if we need to update the Jacobians
-                              //!< (used for inverse dynamics case)
   pinocchio::FrameIndex id_;  //!< Reference frame id
   WrenchCone fref_;           //!< Reference contact wrench cone
 };
diff --git a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
index a57e3d1..2f9e98e 100644
--- a/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
+++ b/include/crocoddyl/multibody/residuals/contact-wrench-cone.hxx
@@ -17,7 +17,6 @@ ResidualModelContactWrenchConeTpl<Scalar>::ResidualModelContactWrenchConeTpl(
     : Base(state, fref.get_nf() + 13, nu, fwddyn ? true : false,
            fwddyn ? true : false, true),
       fwddyn_(fwddyn),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -34,7 +33,6 @@ ResidualModelContactWrenchConeTpl<Scalar>::ResidualModelContactWrenchConeTpl(
     const WrenchCone& fref)
     : Base(state, fref.get_nf() + 13),
       fwddyn_(true),
-      update_jacobians_(true),
       id_(id),
       fref_(fref) {
   if (static_cast<pinocchio::FrameIndex>(state->get_pinocchio()->nframes) <=
@@ -67,9 +65,7 @@ template <typename Scalar>
 void ResidualModelContactWrenchConeTpl<Scalar>::calcDiff(
     const std::shared_ptr<ResidualDataAbstract>& data,
     const Eigen::Ref<const VectorXs>&, const Eigen::Ref<const VectorXs>&) {
-  if (fwddyn_ || update_jacobians_) {
-    updateJacobians(data);
-  }
+  updateJacobians(data);
 }
 
 template <typename Scalar>
@@ -101,7 +97,6 @@ void ResidualModelContactWrenchConeTpl<Scalar>::updateJacobians(
   const MatrixX6s& A = fref_.get_A();
   data->Rx.noalias() = A * df_dx;
   data->Ru.noalias() = A * df_du;
-  update_jacobians_ = false;
 }
 
 template <typename Scalar>
@@ -154,7 +149,6 @@ template <typename Scalar>
 void ResidualModelContactWrenchConeTpl<Scalar>::set_reference(
     const WrenchCone& reference) {
   fref_ = reference;
-  update_jacobians_ = true;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From f053d7916e05d015e38efb3e52eb84689e4993df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:55 +0000
Subject: [PATCH 67/72] fix: multibody actions return their upper bound in
 get_g_ub

---
 include/crocoddyl/multibody/actions/contact-fwddyn.hxx | 2 +-
 include/crocoddyl/multibody/actions/contact-invdyn.hxx | 2 +-
 include/crocoddyl/multibody/actions/free-fwddyn.hxx    | 2 +-
 include/crocoddyl/multibody/actions/free-invdyn.hxx    | 2 +-
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
index 04793bf..e4ce077 100644
--- a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
@@ -415,7 +415,7 @@ DifferentialActionModelContactFwdDynamicsTpl<Scalar>::get_g_ub() const {
   if (constraints_ != nullptr) {
     return constraints_->get_ub();
   } else {
-    return g_lb_;
+    return g_ub_;
   }
 }
 
diff --git a/include/crocoddyl/multibody/actions/contact-invdyn.hxx b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
index b3d60be..9fa3c7a 100644
--- a/include/crocoddyl/multibody/actions/contact-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
@@ -457,7 +457,7 @@ DifferentialActionModelContactInvDynamicsTpl<Scalar>::get_g_ub() const {
   if (constraints_ != nullptr) {
     return constraints_->get_ub();
   } else {
-    return g_lb_;
+    return g_ub_;
   }
 }
 
diff --git a/include/crocoddyl/multibody/actions/free-fwddyn.hxx b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
index 723d2f0..7ff8e91 100644
--- a/include/crocoddyl/multibody/actions/free-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
@@ -309,7 +309,7 @@ DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::get_g_ub() const {
   if (constraints_ != nullptr) {
     return constraints_->get_ub();
   } else {
-    return g_lb_;
+    return g_ub_;
   }
 }
 
diff --git a/include/crocoddyl/multibody/actions/free-invdyn.hxx b/include/crocoddyl/multibody/actions/free-invdyn.hxx
index 6a30f4d..5d34bc3 100644
--- a/include/crocoddyl/multibody/actions/free-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-invdyn.hxx
@@ -303,7 +303,7 @@ DifferentialActionModelFreeInvDynamicsTpl<Scalar>::get_g_ub() const {
   if (constraints_ != nullptr) {
     return constraints_->get_ub();
   } else {
-    return g_lb_;
+    return g_ub_;
   }
 }
 
diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index c16a94a..8d3470c 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -355,7 +355,7 @@ ActionModelImpulseFwdDynamicsTpl<Scalar>::get_g_ub() const {
   if (constraints_ != nullptr) {
     return constraints_->get_ub();
   } else {
-    return g_lb_;
+    return g_ub_;
   }
 }
 
-- 
2.43.0


From 2a529a293fd70cf82dedb8d8eb5014c8094b5ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:55 +0000
Subject: [PATCH 68/72] fix: impulse dynamics derivatives account for the
 restitution coefficient

---
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index 8d3470c..2b23007 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -266,7 +266,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
       data->Kinv);
 
   pinocchio::computeForwardKinematicsDerivatives(
-      *pinocchio_, data->pinocchio, q, data->pinocchio.dq_after, data->vnone);
+      *pinocchio_, data->pinocchio, q, data->pinocchio.dq_after + r_coeff_ * v,
+      data->vnone);
   impulses_->calcDiff(data->multibody.impulses, x);
   impulses_->updateRneaDiff(data->multibody.impulses, data->pinocchio);
 
@@ -287,6 +288,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
       a_partial_da * data->multibody.impulses->dv0_dq.topRows(nc);
   data->Fx.bottomRightCorner(nv, nv).noalias() =
       a_partial_dtau * data->pinocchio.M;
+  data->Fx.bottomRightCorner(nv, nv).noalias() -=
+      r_coeff_ * a_partial_da * data->multibody.impulses->Jc.topRows(nc);
 
   // Computing the cost derivatives
   if (enable_force_) {
@@ -295,7 +298,8 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
     data->df_dx.topLeftCorner(nc, nv).noalias() +=
         f_partial_da * data->multibody.impulses->dv0_dq.topRows(nc);
     data->df_dx.topRightCorner(nc, nv).noalias() =
-        f_partial_da * data->multibody.impulses->Jc.topRows(nc);
+        (Scalar(1.) + r_coeff_) * f_partial_da *
+        data->multibody.impulses->Jc.topRows(nc);
     impulses_->updateVelocityDiff(data->multibody.impulses,
                                   data->Fx.bottomRows(nv));
     impulses_->updateForceDiff(data->multibody.impulses,
-- 
2.43.0


From 86da30f2e6e2ee3cfed79b960f8bac2c043fb974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:55 +0000
Subject: [PATCH 69/72] fix: impulse dynamics derivatives account for the
 armature

---
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index 2b23007..6ad9311 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -280,6 +280,9 @@ void ActionModelImpulseFwdDynamicsTpl<Scalar>::initCalcDiff(
   data->pinocchio.M.template triangularView<Eigen::StrictlyLower>() =
       data->pinocchio.M.transpose()
           .template triangularView<Eigen::StrictlyLower>();
+  if (!with_armature_) {
+    data->pinocchio.M.diagonal() += armature_;
+  }
   data->Fx.topLeftCorner(nv, nv).setIdentity();
   data->Fx.topRightCorner(nv, nv).setZero();
   data->Fx.bottomLeftCorner(nv, nv).noalias() =
-- 
2.43.0


From c373dc9b8432b3251cc744992d6794ee9932928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:55 +0000
Subject: [PATCH 70/72] fix: quasi-static inverse dynamics ignores stale rows
 of inactive contacts

---
 include/crocoddyl/multibody/actions/contact-invdyn.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/multibody/actions/contact-invdyn.hxx b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
index 9fa3c7a..a796a0c 100644
--- a/include/crocoddyl/multibody/actions/contact-invdyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-invdyn.hxx
@@ -292,7 +292,7 @@ void DifferentialActionModelContactInvDynamicsTpl<Scalar>::quasiStatic(
   const std::size_t nq = state_->get_nq();
   const std::size_t nv = state_->get_nv();
   const std::size_t nu = actuation_->get_nu();
-  std::size_t nc = contacts_->get_nc_total();
+  std::size_t nc = contacts_->get_nc();
   const Eigen::VectorBlock<const Eigen::Ref<const VectorXs>, Eigen::Dynamic> q =
       x.head(nq);
   d->tmp_xstatic.head(nq) = q;
-- 
2.43.0


From e9a16f48f2c793df8a1ca6d4a496eec8bf321d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:55 +0000
Subject: [PATCH 71/72] fix: casting a multibody action keeps its armature

---
 include/crocoddyl/multibody/actions/contact-fwddyn.hxx | 6 ++++++
 include/crocoddyl/multibody/actions/free-fwddyn.hxx    | 6 ++++++
 include/crocoddyl/multibody/actions/impulse-fwddyn.hxx | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
index e4ce077..87c96d6 100644
--- a/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/contact-fwddyn.hxx
@@ -280,6 +280,9 @@ DifferentialActionModelContactFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<ConstraintType>(
             constraints_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
@@ -288,6 +291,9 @@ DifferentialActionModelContactFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<ContactType>(contacts_->template cast<NewScalar>()),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
diff --git a/include/crocoddyl/multibody/actions/free-fwddyn.hxx b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
index 7ff8e91..b538481 100644
--- a/include/crocoddyl/multibody/actions/free-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/free-fwddyn.hxx
@@ -197,12 +197,18 @@ DifferentialActionModelFreeFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         std::make_shared<ConstraintType>(
             constraints_->template cast<NewScalar>()));
+    if (!without_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
         std::static_pointer_cast<StateType>(state_->template cast<NewScalar>()),
         actuation_->template cast<NewScalar>(),
         std::make_shared<CostType>(costs_->template cast<NewScalar>()));
+    if (!without_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
diff --git a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
index 6ad9311..916e87c 100644
--- a/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
+++ b/include/crocoddyl/multibody/actions/impulse-fwddyn.hxx
@@ -158,6 +158,9 @@ ActionModelImpulseFwdDynamicsTpl<Scalar>::cast() const {
             constraints_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(r_coeff_),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   } else {
     ReturnType ret(
@@ -166,6 +169,9 @@ ActionModelImpulseFwdDynamicsTpl<Scalar>::cast() const {
         std::make_shared<CostType>(costs_->template cast<NewScalar>()),
         scalar_cast<NewScalar>(r_coeff_),
         scalar_cast<NewScalar>(JMinvJt_damping_), enable_force_);
+    if (!with_armature_) {
+      ret.set_armature(armature_.template cast<NewScalar>());
+    }
     return ret;
   }
 }
-- 
2.43.0


From 2a6c36cd8a3d909a486c7f8defac5d13062a8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:06 +0000
Subject: [PATCH 72/72] fix: state residual cost uses the Jacobian of any state
 manifold

---
 include/crocoddyl/multibody/residuals/state.hxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/multibody/residuals/state.hxx b/include/crocoddyl/multibody/residuals/state.hxx
index 856ee7e..6e8efee 100644
--- a/include/crocoddyl/multibody/residuals/state.hxx
+++ b/include/crocoddyl/multibody/residuals/state.hxx
@@ -99,7 +99,7 @@ template <typename Scalar>
 void ResidualModelStateTpl<Scalar>::calcCostDiff(
     const std::shared_ptr<CostDataAbstract>& cdata,
     const std::shared_ptr<ResidualDataAbstract>& rdata,
-    const std::shared_ptr<ActivationDataAbstract>& adata, const bool) {
+    const std::shared_ptr<ActivationDataAbstract>& adata, const bool update_u) {
   const std::size_t nv = state_->get_nv();
   if (pin_model_) {
     typedef Eigen::Block<MatrixXs> MatrixBlock;
@@ -123,8 +123,7 @@ void ResidualModelStateTpl<Scalar>::calcCostDiff(
     cdata->Lx.tail(nv) = adata->Ar.tail(nv);
     cdata->Lxx.diagonal().tail(nv) = adata->Arr.diagonal().tail(nv);
   } else {
-    cdata->Lx = adata->Ar;
-    cdata->Lxx.diagonal() = adata->Arr.diagonal();
+    Base::calcCostDiff(cdata, rdata, adata, update_u);
   }
 }
 
-- 
2.43.0

