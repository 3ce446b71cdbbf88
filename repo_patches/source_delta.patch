From 76433159d7a946ad076dae0feaf0f9b007ad1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:25 +0000
Subject: [PATCH 01/21] fix: SO3::ln returned zero for half turns whose two
 largest diagonal entries are equal

For R = diag-tied rotations close to pi, e.g. a half turn about (1,1,0)/sqrt(2),
both strict comparisons failed and the column of the smallest diagonal entry,
which is zero, was used.
---
 src/geometry/SO3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 395ad64..c1e0eba 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -189,14 +189,14 @@ Mat3 SO3::ln(double *ro) const
         Mat31 w;
         double d = std::cos(o);
 
-        if( R_(0,0) > R_(1,1) && R_(0,0) > R_(2,2) )
+        if( R_(0,0) >= R_(1,1) && R_(0,0) >= R_(2,2) )
         {
             // For stability, we average the two elements since it is almost symetric
             w << R_(0,0) - d,
                  0.5 * ( R_(0,1) + R_(1,0)),
                  0.5 * ( R_(0,2) + R_(2,0));
         }
-        else if( R_(1,1) > R_(0,0) && R_(1,1) > R_(2,2) )
+        else if( R_(1,1) >= R_(0,0) && R_(1,1) >= R_(2,2) )
         {
             w << 0.5 * ( R_(1,0) + R_(0,1)),
                  R_(1,1) - d,
-- 
2.43.0


From e4ab928ad85c2bff1a31e6bea46f39cf2893ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:39 +0000
Subject: [PATCH 02/21] fix: isSO3 accepted every matrix of unit determinant

Shears and non-uniform scalings of determinant one are not rotations: check
orthonormality as well.
---
 src/geometry/SO3.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index c1e0eba..97cca3c 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -284,6 +284,9 @@ bool mrob::isSO3(Mat3 R)
         return false;
     if ( fabs(det - 1.0) > 1e-6)
         return false;
+    // unit determinant is not enough, e.g. shear or non-uniform scaling
+    if ( (R * R.transpose() - Mat3::Identity()).norm() > 1e-6)
+        return false;
     return true;
 
 }
-- 
2.43.0


From fc6365284dbddcc5bb422a8073211a39a767df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:39 +0000
Subject: [PATCH 03/21] fix: isSE3 accepted negative deviations of the last row

The signed sum of differences let rows such as 0 0 -1 1 or 1 -1 0 1 pass.
---
 src/geometry/SE3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3.cpp b/src/geometry/SE3.cpp
index 9073980..34990bf 100644
--- a/src/geometry/SE3.cpp
+++ b/src/geometry/SE3.cpp
@@ -293,7 +293,7 @@ bool mrob::isSE3(Mat4 T)
         return false;
     Mat<1,4> one;
     one << 0,0,0,1;
-    if ( (T.row(3)-one).sum() > 1e-6 )
+    if ( (T.row(3)-one).cwiseAbs().sum() > 1e-6 )
         return false;
     return true;
 }
-- 
2.43.0


From 6151fce471fe6223acf93caaaa0e87da46cb82c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:05 +0000
Subject: [PATCH 04/21] fix: fourth order compounding used the transposed cross
 block in B_rho_phi

The rho-phi block of B = E[x1^ x2 x2^T x1^T] needs <<E[phi1 rho1^T], Sigma2_phiphi>>;
the code passed the other off-diagonal block of Sigma1.
---
 src/geometry/SE3cov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3cov.cpp b/src/geometry/SE3cov.cpp
index 71e35d6..b69a777 100644
--- a/src/geometry/SE3cov.cpp
+++ b/src/geometry/SE3cov.cpp
@@ -71,7 +71,7 @@ SE3Cov SE3Cov::compound_4th_order(const SE3 &pose_increment, const Mat6 &increme
                      brackets(sigma_1_rr, sigma_2_tt);
 
     Mat3 B_rho_phi = brackets(sigma_1_tt, sigma_2_tr) +
-                     brackets(sigma_1_rt, sigma_2_tt);// There is a mistake in Barfoots p.265,
+                     brackets(sigma_1_tr, sigma_2_tt);
 
     Mat3 B_phi_phi = brackets(sigma_1_tt, sigma_2_tt);
 
-- 
2.43.0


From 4876fbfb95f4cd52767fed797a9eda408be274af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 05/21] fix: Factor2Poses3d did not invert the observation when
 the node order is reversed

---
 src/FGraph/factors/factor2Poses3d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses3d.cpp b/src/FGraph/factors/factor2Poses3d.cpp
index 012e3b3..31a3eae 100644
--- a/src/FGraph/factors/factor2Poses3d.cpp
+++ b/src/FGraph/factors/factor2Poses3d.cpp
@@ -45,14 +45,14 @@ Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &n
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * observation );
     }
 }
 
@@ -72,14 +72,14 @@ Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &no
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * observation.T() );
     }
 }
 
-- 
2.43.0


From b1d444a89336aa827dfeb916f536a0b74eed429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 06/21] fix: Factor2Poses2d with reversed node order encoded a
 different measurement

---
 src/FGraph/factors/factor2Poses2d.cpp      | 24 ++++++++++++++--------
 src/FGraph/mrob/factors/factor2Poses2d.hpp |  1 +
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 6dc0e61..24fc71d 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -31,7 +31,7 @@ using namespace mrob;
 Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &nodeOrigin,
                                std::shared_ptr<Node> &nodeTarget, const Mat3 &obsInf, bool updateNodeTarget,
                                Factor::robustFactorType robust_type):
-        Factor(3, 6, robust_type), obs_(observation), W_(obsInf)
+        Factor(3, 6, robust_type), obs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -40,12 +40,11 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     else
     {
-        // we reverse the order and simply invert the observation function (not always true)
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
 
-        // reverse observations to account for this
-        obs_ = -observation;
+        // set reverse mode, the observation is still expressed from the origin
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
@@ -57,8 +56,9 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
 
 void Factor2Poses2d::evaluate_residuals() {
     // Evaluation of h(i,j)
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    uint_t originIndex = reversedNodeOrder_ ? 1 : 0;
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(originIndex).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(1 - originIndex).get()->get_state();
 
     // r = h(i,j) - obs = Ri^T * (xj- xi) - obs .  From "i", i.e, at its reference frame, we observe xj
     Mat31 h = nodeTarget - nodeOrigin;
@@ -74,8 +74,9 @@ void Factor2Poses2d::evaluate_residuals() {
 
 void Factor2Poses2d::evaluate_jacobians()
 {
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    uint_t originIndex = reversedNodeOrder_ ? 1 : 0;
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(originIndex).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(1 - originIndex).get()->get_state();
 
     // r =  Ri^T * (xj- xi) - obs
     // J1 = [-R1^T,    J2 = [R1^T 0]
@@ -87,6 +88,13 @@ void Factor2Poses2d::evaluate_jacobians()
     J_ <<   -c1, -s1, -s1*dx + c1*dy,     c1, s1, 0,
              s1, -c1, -c1*dx - s1*dy,    -s1, c1, 0,
               0,   0,    -1,              0,  0, 1;
+    if (reversedNodeOrder_)
+    {
+        // blocks follow the order of the nodes in the list
+        Mat3 Jorigin = J_.leftCols<3>();
+        J_.leftCols<3>() = J_.rightCols<3>().eval();
+        J_.rightCols<3>() = Jorigin;
+    }
 }
 
 void Factor2Poses2d::evaluate_chi2()
diff --git a/src/FGraph/mrob/factors/factor2Poses2d.hpp b/src/FGraph/mrob/factors/factor2Poses2d.hpp
index f0b043b..b77ab0d 100644
--- a/src/FGraph/mrob/factors/factor2Poses2d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses2d.hpp
@@ -74,6 +74,7 @@ namespace mrob{
         Mat31 obs_, r_; //and residuals
         Mat3 W_;//inverse of observation covariance (information matrix)
         Mat<3,6> J_;//Joint Jacobian
+        bool reversedNodeOrder_;//true if the origin node is the second one in the list
 
     public:
         EIGEN_MAKE_ALIGNED_OPERATOR_NEW // as proposed by Eigen
-- 
2.43.0


From 966d03de14b024b3ae78bde8cbc66d24d2f9ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 07/21] fix: Factor2Poses2d initialised the target pose without
 rotating the observation

---
 src/FGraph/factors/factor2Poses2d.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 24fc71d..4747cd7 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -48,7 +48,14 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     if (updateNodeTarget)
     {
-        Mat31 dx = nodeOrigin->get_state() +  obs_ - nodeTarget->get_state();
+        // the observation is expressed at the origin frame: x_target = x_origin (+) obs
+        Mat31 origin = nodeOrigin->get_state(), prediction;
+        double c1 = std::cos(origin(2)),
+               s1 = std::sin(origin(2));
+        prediction << origin(0) + c1*obs_(0) - s1*obs_(1),
+                      origin(1) + s1*obs_(0) + c1*obs_(1),
+                      origin(2) + obs_(2);
+        Mat31 dx = prediction - nodeTarget->get_state();
         nodeTarget->update(dx);
     }
 }
-- 
2.43.0


From 0af3c8597d6370e6b0cd969202227a0ca34205c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 08/21] fix: Factor2Poses2dOdom Jacobian ignored the first
 rotation of the odometry

---
 src/FGraph/factors/factor2Poses2d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 4747cd7..38b5c30 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -149,7 +149,9 @@ void Factor2Poses2dOdom::evaluate_jacobians()
     // Get the position of node we are traversing from
     Mat31 node1 = get_neighbour_nodes()->at(0).get()->get_state();
 
-    auto s = -obs_(1) * std::sin(node1(2)), c = obs_(1) * std::cos(node1(2));
+    // the translation is applied after the first rotation
+    double heading = node1(2) + obs_(0);
+    auto s = -obs_(1) * std::sin(heading), c = obs_(1) * std::cos(heading);
 
     // Jacobians for odometry model which are: G and -I
     J_ <<   1, 0, s,    -1, 0, 0,
-- 
2.43.0


From cafe099f7ddc2adfeda9438e80577a59e05ad318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 09/21] fix: Factor1Pose1Landmark3d ignored the
 initializeLandmark option

---
 src/FGraph/factors/factor1Pose1Landmark3d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor1Pose1Landmark3d.cpp b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
index 05a1f6f..507e421 100644
--- a/src/FGraph/factors/factor1Pose1Landmark3d.cpp
+++ b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
@@ -50,7 +50,9 @@ Factor1Pose1Landmark3d::Factor1Pose1Landmark3d(const Mat31 &observation, std::sh
 
     if (initializeLandmark)
     {
-        // TODO Initialize landmark value to whatever observation we see from current pose
+        // Initialize landmark value to whatever observation we see from current pose
+        Mat4 Tx = nodePose->get_state();
+        nodeLandmark->set_state(SE3(Tx).transform(obs_));
     }
 }
 
-- 
2.43.0


From 6c29b0b6a2fe26e6dacb58392151935b44715b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:33 +0000
Subject: [PATCH 10/21] fix: Node::rm_factor erased end() when the factor was
 not attached

---
 src/FGraph/node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index f318f49..3dd7737 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -52,6 +52,8 @@ bool Node::rm_factor(std::shared_ptr<Factor> &factor)
         if (*f == factor)
             break;
     }
+    if (f == neighbourFactors_.end())
+        return false;
     neighbourFactors_.erase(f);
     return true;
 }
-- 
2.43.0


From 46bd5618569aa5d403b03737558988e73a5119ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 11/21] fix: wrap_angle did not terminate for large angles

---
 src/FGraph/node.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index 3dd7737..67acca8 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -23,6 +23,8 @@
 
 #include "mrob/node.hpp"
 
+#include <cmath>
+
 using namespace mrob;
 
 Node::Node(uint_t dim, nodeMode mode):
@@ -63,6 +65,9 @@ double mrob::wrap_angle(double angle)
 {
     double pi2 = 2 * M_PI;
 
+    // exact remainder in (-2pi, 2pi). Adding one turn at a time does not end for large angles
+    angle = std::fmod(angle, pi2);
+
     while (angle < -M_PI) angle += pi2;
     while (angle >= M_PI) angle -= pi2;
 
-- 
2.43.0


From 95d052cc0e5c3f0f595ce88f143ad62a133bafcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 12/21] fix: RANSAC robust weight was never assigned

---
 src/FGraph/factor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FGraph/factor.cpp b/src/FGraph/factor.cpp
index 06182c2..192f446 100644
--- a/src/FGraph/factor.cpp
+++ b/src/FGraph/factor.cpp
@@ -63,6 +63,9 @@ matData_t Factor::evaluate_robust_weight(matData_t u, matData_t params)
             robust_weight_ = 1.0/params/params;
             break;
         case RANSAC:
+            // p(u) = 1/2u^2    if u < d
+            //        d
+            robust_weight_ = u < 1.0 ? 1.0 : 0.0;
             break;
         case QUADRATIC:
         default:
-- 
2.43.0


From 6fdd7fe3f6c6152d7fd08b7bf86bb441ff42695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 13/21] fix: robust weights were evaluated at sqrt(chi2)
 instead of u = sqrt(r'Wr)

chi2 = 1/2 r'Wr, so u = sqrt(2 chi2), as documented in factor.hpp.
---
 src/FGraph/factor_graph_solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index ed667b3..1666ae4 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -319,7 +319,7 @@ void FGraphSolve::build_adjacency()
             {
                 uint_t iRow = indFactorsMatrix[i] + l;
                 uint_t iCol = indFactorsMatrix[i] + k;
-                robust_weight = f->evaluate_robust_weight(std::sqrt(f->get_chi2()));
+                robust_weight = f->evaluate_robust_weight(std::sqrt(2.0 * f->get_chi2()));
                 W_.insert(iRow,iCol) = robust_weight * f->get_information_matrix()(l,k);
             }
         }
-- 
2.43.0


From 22a1ab0262f1a0dfb3a1a22b3d48be490cb011fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 14/21] fix: Levenberg-Marquardt ignored the damping given to
 FGraphSolve::solve

---
 src/FGraph/factor_graph_solve.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index 1666ae4..df8f3fa 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -144,8 +144,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
 
     // LM trust region as described in Bertsekas (p.105)
 
-    // 0) parameter initialization
-    lambda_ = 1e-5;
+    // 0) parameter initialization, lambda_ is already set by solve()
     // sigma reference to the fidelity of the model at the proposed solution \in [0,1]
     matData_t sigma1(0.25), sigma2(0.8);// 0 < sigma1 < sigma2 < 1
     matData_t beta1(2.0), beta2(0.25); // lambda updates multiplier values, beta1 > 1 > beta2 >0
-- 
2.43.0


From cf74952add144779a90d04decb6cc2b0127ab19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 15/21] fix: Levenberg-Marquardt accepted steps with a NaN
 error

---
 src/FGraph/factor_graph_solve.cpp | 2 +-
 src/common/optimizer.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index df8f3fa..154f241 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -168,7 +168,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
                   << iter << " lambda = " << lambda_ << ", error " << currentChi2
                   << ", and delta = " << deltaChi2
                   << std::endl;
-        if (deltaChi2 < 0)
+        if (!(deltaChi2 >= 0))// also rejects NaN
         {
             // proposed dx did not improve, repeat 1) and reduce area of optimization = increase lambda
             lambda_ *= beta1;
diff --git a/src/common/optimizer.cpp b/src/common/optimizer.cpp
index 8e68128..e1bb915 100644
--- a/src/common/optimizer.cpp
+++ b/src/common/optimizer.cpp
@@ -122,7 +122,7 @@ uint_t Optimizer::optimize_levenberg_marquardt()
         improvement = true;
 
         // 2) Check for convergence, hillclimb
-        if (diff_error < 0)
+        if (!(diff_error >= 0))// also rejects NaN
         {
             //std::cout << "no improvement\n";
             lambda_ *= beta1;
-- 
2.43.0


From fdb1abdf0f865244fcf3450ea1a858fcbbc2eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:27 +0000
Subject: [PATCH 16/21] fix: dense gradient was accumulated once per connected
 node

---
 src/FGraph/factor_graph_solve_dense.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 916e8a7..ff3e851 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -117,6 +117,10 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 matrix_index += (*nodes_connected)[m]->get_dim();
             }
 
+            // Gradient: Grad(n) = \sum J_n_t*W*r
+            gradient_.segment(indNodesMatrix[n], N) +=
+                    J_n_t * f->get_information_matrix() * f->get_residual();
+
             // Calculate the second part corresponding on the second factor
             matrix_index = 0;
             for (uint_t m = 0; m < nodes_connected->size() ; ++m)
@@ -125,9 +129,6 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
-                // Gradient: Grad(n) = \sum J_n_t*W*r
-                gradient_.segment(indNodesMatrix[n], N) +=
-                        J_n_t * f->get_information_matrix() * f->get_residual();
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
-- 
2.43.0


From 33e47dd5c354dab0a0acc8b562d6cb12eedbd289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:27 +0000
Subject: [PATCH 17/21] fix: the dense solver indexed anchor nodes outside of
 the state

---
 src/FGraph/factor_graph_solve_dense.cpp | 28 +++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index ff3e851..e9bcf6f 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -76,24 +76,24 @@ void FGraphSolveDense::calculate_gradient_hessian()
 
     // 3) calculate the indexes for the nodes for block allocation
     std::vector<uint_t> indNodesMatrix, indNodeId;
-    indNodesMatrix.reserve(nodes_.size());
-    indNodeId.reserve(nodes_.size());
+    indNodesMatrix.reserve(active_nodes_.size());
+    indNodeId.reserve(active_nodes_.size());
     uint_t N = 0, M = 0;
-    for (size_t i = 0; i < nodes_.size(); ++i)
+    for (size_t i = 0; i < active_nodes_.size(); ++i)
     {
         // calculate the indices to access
-        uint_t dim = nodes_[i]->get_dim();
+        uint_t dim = active_nodes_[i]->get_dim();
         indNodesMatrix.push_back(N);
-        indNodeId.push_back(nodes_[i]->get_id()); //bookkeeps the nodes ids
+        indNodeId.push_back(active_nodes_[i]->get_id()); //bookkeeps the nodes ids
         N += dim;
     }
     assert(N == stateDim_ && "FGraphSolveDense::HessianAndGradient: State Dimensions are not coincident\n");
 
     // 4) create Hessian and gradient, by traversing all nodes, looking for its factors
     //    and completing the rows in the Hessian and gradient.
-    for (uint_t n = 0; n < nodes_.size(); ++n)
+    for (uint_t n = 0; n < active_nodes_.size(); ++n)
     {
-        auto node = nodes_[n];
+        auto node = active_nodes_[n];
         uint_t node_id =  node->get_id();
         N = node->get_dim();
         auto factors = node->get_neighbour_factors();
@@ -132,6 +132,8 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
+                if (it == indNodeId.end())
+                    continue;// anchor nodes are not part of the state
                 auto index = std::distance(indNodeId.begin(), it);
                 // Only the current block row is filled in (corresponding to the n-node). We could use a triang view...
                 hessian_.block(indNodesMatrix[n], indNodesMatrix[index],N,M) +=
@@ -146,25 +148,25 @@ void FGraphSolveDense::calculate_gradient_hessian()
 void FGraphSolveDense::update_state()
 {
     int acc_start = 0;
-    for (uint_t i = 0; i < nodes_.size(); i++)
+    for (uint_t i = 0; i < active_nodes_.size(); i++)
     {
         // node update is the negative of dx just calculated.
         // x = x - alpha * H^(-1) * Grad = x - dx
         // Depending on the optimization, it is already taking care of the step alpha, so we assume alpha = 1
-        const auto &node_update = dx_.block(acc_start, 0, nodes_[i]->get_dim(), 1);
-        nodes_[i]->update(node_update);
+        const auto &node_update = dx_.block(acc_start, 0, active_nodes_[i]->get_dim(), 1);
+        active_nodes_[i]->update(node_update);
 
-        acc_start += nodes_[i]->get_dim();
+        acc_start += active_nodes_[i]->get_dim();
     }
 }
 void FGraphSolveDense::bookkeep_state()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_auxiliary_state(n->get_state());
 }
 void FGraphSolveDense::update_state_from_bookkeep()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_state(n->get_auxiliary_state());
 }
 
-- 
2.43.0


From cbc0bb242d33b807db340de9ea9ce59256f9f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:01 +0000
Subject: [PATCH 18/21] fix: arun rejected point sets with equal singular
 values (squares, cubes, small clouds)

---
 src/PCRegistration/arun.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/PCRegistration/arun.cpp b/src/PCRegistration/arun.cpp
index 89af244..81fe449 100644
--- a/src/PCRegistration/arun.cpp
+++ b/src/PCRegistration/arun.cpp
@@ -42,7 +42,7 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
      *  2) calculate dispersion from centroids qx = x_i - cx
      *  3) calculate matrix H = sum qx_i * qy_i^T
      *  4) svd decomposition: H = U*D*V'
-     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
+     *      4.5) look for co-linear solutions, that is only one of the 3 singular values is not zero
      *  5) Calculate the rotation solution R = V*U'
      *      5.5) check for correct solution (det = +1) or reflection (det = -1)
      *      step 5.5 is actually unnecessary IF applying Umeyama technique
@@ -75,17 +75,11 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
                  ",\n V = " << SVD.matrixV() << std::endl;*/
 
 
-    // 4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
-    double l_prev = SVD.singularValues()(0), l;
-    for(int i =1; i < 3; ++i)
-    {
-        l = SVD.singularValues()(i);
-        if (fabs(l - l_prev) < 1e-6)
-
-            return 0; //they are co-linear, there exist infinite transformations
-        else
-            l_prev = l;//this works because we assume that they singular values are ordered.
-    }
+    // 4.5) look for co-linear solutions: the second singular value vanishes (relative to the first one).
+    // Equal singular values are fine (symmetric point sets), the solution is still unique.
+    const Mat31 &sv = SVD.singularValues();
+    if (!(sv(1) > 1e-9 * sv(0)))
+        return 0; //they are co-linear, there exist infinite transformations
 
 
     // 5) Calculate the rotation solution R = V*U'
-- 
2.43.0


From 8d6833f08ecce23d2bed5ad81d2f484fb180c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:25 +0000
Subject: [PATCH 19/21] fix: Plane Hessian counted the second order term
 Gi*Gj*Q twice

---
 src/PCRegistration/plane.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index b61d2fc..236cc00 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -285,7 +285,7 @@ Mat6 Plane::calculate_hessian(uint_t t)
     Mat4 ddQ, &Q = matrixQ_[t];
 
     // H = pi' * dd Q * pi, where dd Q = Bij + Bij' and
-    // Bij = (Gi*Gj + Gj*Gi)Q*0.5 + Gi * dQ (previous gradient)
+    // Bij = (Gi*Gj + Gj*Gi)Q*0.5 + Gi * Q * Gj'
     // Upper triangular matrix
     for (uint_t i =0 ; i< 6 ; ++i)
     {
@@ -295,7 +295,7 @@ Mat6 Plane::calculate_hessian(uint_t t)
             ddQ = lieGenerativeMatrices_[i]*lieGenerativeMatrices_[j] + lieGenerativeMatrices_[j]*lieGenerativeMatrices_[i];
             //compound operator *= as in a*=b (this multiplies on the right: a*=b is equivalent to a = a*b)
             ddQ *= 0.5 * Q;
-            ddQ += lieGenerativeMatrices_[i] * gradQ_[j];
+            ddQ += lieGenerativeMatrices_[i] * Q * lieGenerativeMatrices_[j].transpose();
             ddQ += ddQ.transpose().eval();
             hessian(i,j) = planeEstimation_.dot(ddQ*planeEstimation_);
         }
-- 
2.43.0


From 714bd4a62772b3132715d862332481597edd368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:50 +0000
Subject: [PATCH 20/21] fix: Plane::clear_points removed the time indexes,
 later accesses were out of bounds

---
 src/PCRegistration/plane.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 236cc00..ea8f847 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -116,7 +116,9 @@ std::vector<Mat31>& Plane::get_points(uint_t t)
 
 void Plane::clear_points()
 {
-    allPlanePoints_.clear();
+    for (auto &points : allPlanePoints_)
+        points.clear();
+    numberPoints_ = 0;
 }
 
 
-- 
2.43.0


From f5aad4dbc2c17418460ec465043c144fe9ec5c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:26 +0000
Subject: [PATCH 21/21] fix: SO3::ln keeps tiny rotations when rounding lifts
 the trace above 3

---
 src/geometry/SO3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 97cca3c..43b4b24 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -141,7 +141,7 @@ Mat3 SO3::ln(double *ro) const
         // Special case tr =1  and theta -> 0
         if ( std::isnan(o) )
         {
-            d1 = 0.0;
+            d1 = 0.5; // limit of o/(2 sin o): R - R^T still holds the tiny rotation
             o = 0.0;
         }
         // 2) incorrect x/sin when approaching 0. The other problematic point o = pi is handled below
-- 
2.43.0

