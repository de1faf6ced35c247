From 7a8d29982ad3762ddc2e1ccc4c76b612ea9742ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:19 +0000
Subject: [PATCH 01/26] fix: SO3::ln picks the largest diagonal element when
 the two largest are tied

For rotations of more than 90 degrees about an axis with equal x and y
components, R(0,0) == R(1,1) > R(2,2) fell through to the z column, which is
zero there, so the logarithm came out as 0 or as a rotation about z.
---
 src/geometry/SO3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 395ad64..c1e0eba 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -189,14 +189,14 @@ Mat3 SO3::ln(double *ro) const
         Mat31 w;
         double d = std::cos(o);
 
-        if( R_(0,0) > R_(1,1) && R_(0,0) > R_(2,2) )
+        if( R_(0,0) >= R_(1,1) && R_(0,0) >= R_(2,2) )
         {
             // For stability, we average the two elements since it is almost symetric
             w << R_(0,0) - d,
                  0.5 * ( R_(0,1) + R_(1,0)),
                  0.5 * ( R_(0,2) + R_(2,0));
         }
-        else if( R_(1,1) > R_(0,0) && R_(1,1) > R_(2,2) )
+        else if( R_(1,1) >= R_(0,0) && R_(1,1) >= R_(2,2) )
         {
             w << 0.5 * ( R_(1,0) + R_(0,1)),
                  R_(1,1) - d,
-- 
2.43.0


From 5b0d8d98e67abf6343025b81a75f37a916ae4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:19 +0000
Subject: [PATCH 02/26] fix: Factor2Poses3d inverts the observation when the
 origin node has the larger id

The result of SE3::inv() was discarded, so a factor whose target node was
created before its origin was evaluated with the observation in the wrong
direction.
---
 src/FGraph/factors/factor2Poses3d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses3d.cpp b/src/FGraph/factors/factor2Poses3d.cpp
index 012e3b3..31a3eae 100644
--- a/src/FGraph/factors/factor2Poses3d.cpp
+++ b/src/FGraph/factors/factor2Poses3d.cpp
@@ -45,14 +45,14 @@ Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &n
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * observation );
     }
 }
 
@@ -72,14 +72,14 @@ Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &no
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * observation.T() );
     }
 }
 
-- 
2.43.0


From 8431923ba6eccad109814a39f2d39b3b14ffeaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 03/26] fix: Factor2Poses2d keeps the observation's frame and
 the origin's perspective

The residual is R_o^T (x_t - x_o) - obs, but the target node was initialised
with x_o + obs (not rotated into the global frame), and with the origin
created after the target the observation was negated, which is only its
inverse for a zero heading.
---
 src/FGraph/factors/factor2Poses2d.cpp      | 27 ++++++++++++++--------
 src/FGraph/mrob/factors/factor2Poses2d.hpp |  1 +
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 6dc0e61..3c46c57 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -23,6 +23,7 @@
 
 #include <iostream>
 #include <mrob/factors/factor2Poses2d.hpp>
+#include <Eigen/Geometry> // for Rotation2D
 
 
 using namespace mrob;
@@ -31,7 +32,7 @@ using namespace mrob;
 Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &nodeOrigin,
                                std::shared_ptr<Node> &nodeTarget, const Mat3 &obsInf, bool updateNodeTarget,
                                Factor::robustFactorType robust_type):
-        Factor(3, 6, robust_type), obs_(observation), W_(obsInf)
+        Factor(3, 6, robust_type), obs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -40,16 +41,19 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     else
     {
-        // we reverse the order and simply invert the observation function (not always true)
+        // nodes are stored by increasing id, the residual still is evaluated from the origin
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
 
-        // reverse observations to account for this
-        obs_ = -observation;
+        // set reverse mode
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
-        Mat31 dx = nodeOrigin->get_state() +  obs_ - nodeTarget->get_state();
+        // the observation is expressed at the origin's reference frame
+        Mat31 xOrigin = nodeOrigin->get_state(), obsGlobal = obs_;
+        obsGlobal.head(2) = Eigen::Rotation2Dd(xOrigin(2)) * obs_.head<2>();
+        Mat31 dx = xOrigin + obsGlobal - nodeTarget->get_state();
         nodeTarget->update(dx);
     }
 }
@@ -57,8 +61,9 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
 
 void Factor2Poses2d::evaluate_residuals() {
     // Evaluation of h(i,j)
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    uint_t originIndex = reversedNodeOrder_ ? 1 : 0;
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(originIndex).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(1 - originIndex).get()->get_state();
 
     // r = h(i,j) - obs = Ri^T * (xj- xi) - obs .  From "i", i.e, at its reference frame, we observe xj
     Mat31 h = nodeTarget - nodeOrigin;
@@ -74,8 +79,9 @@ void Factor2Poses2d::evaluate_residuals() {
 
 void Factor2Poses2d::evaluate_jacobians()
 {
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    uint_t originIndex = reversedNodeOrder_ ? 1 : 0;
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(originIndex).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(1 - originIndex).get()->get_state();
 
     // r =  Ri^T * (xj- xi) - obs
     // J1 = [-R1^T,    J2 = [R1^T 0]
@@ -87,6 +93,9 @@ void Factor2Poses2d::evaluate_jacobians()
     J_ <<   -c1, -s1, -s1*dx + c1*dy,     c1, s1, 0,
              s1, -c1, -c1*dx - s1*dy,    -s1, c1, 0,
               0,   0,    -1,              0,  0, 1;
+    // Jacobian blocks follow the order of the neighbour nodes
+    if (reversedNodeOrder_)
+        J_.leftCols<3>().swap(J_.rightCols<3>());
 }
 
 void Factor2Poses2d::evaluate_chi2()
diff --git a/src/FGraph/mrob/factors/factor2Poses2d.hpp b/src/FGraph/mrob/factors/factor2Poses2d.hpp
index f0b043b..1cc86ba 100644
--- a/src/FGraph/mrob/factors/factor2Poses2d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses2d.hpp
@@ -74,6 +74,7 @@ namespace mrob{
         Mat31 obs_, r_; //and residuals
         Mat3 W_;//inverse of observation covariance (information matrix)
         Mat<3,6> J_;//Joint Jacobian
+        bool reversedNodeOrder_;// true if the origin node has a larger id than the target
 
     public:
         EIGEN_MAKE_ALIGNED_OPERATOR_NEW // as proposed by Eigen
-- 
2.43.0


From dec559d1e913a63d2ed3c6daa283508b9d74dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 04/26] fix: Factor2Poses2dOdom Jacobian accounts for the first
 rotation

The prediction translates along theta + drot1, the Jacobian was evaluated at
theta.
---
 src/FGraph/factors/factor2Poses2d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 3c46c57..292ee24 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -143,7 +143,9 @@ void Factor2Poses2dOdom::evaluate_jacobians()
     // Get the position of node we are traversing from
     Mat31 node1 = get_neighbour_nodes()->at(0).get()->get_state();
 
-    auto s = -obs_(1) * std::sin(node1(2)), c = obs_(1) * std::cos(node1(2));
+    // heading while translating, after the first rotation
+    auto heading = node1(2) + obs_(0);
+    auto s = -obs_(1) * std::sin(heading), c = obs_(1) * std::cos(heading);
 
     // Jacobians for odometry model which are: G and -I
     J_ <<   1, 0, s,    -1, 0, 0,
-- 
2.43.0


From b4858d3f163e08fd846da37de01b0a4d989332fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:30 +0000
Subject: [PATCH 05/26] fix: wrap_angle terminates for infinite and very large
 angles

---
 src/FGraph/node.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index f318f49..a0215fd 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -22,6 +22,7 @@
  */
 
 #include "mrob/node.hpp"
+#include <cmath>
 
 using namespace mrob;
 
@@ -61,8 +62,14 @@ double mrob::wrap_angle(double angle)
 {
     double pi2 = 2 * M_PI;
 
-    while (angle < -M_PI) angle += pi2;
-    while (angle >= M_PI) angle -= pi2;
+    if (angle >= -M_PI && angle < M_PI)
+        return angle;
+
+    // remainder in constant time: repeated subtraction does not end for angles so large that
+    // they do not change when subtracting 2pi, or infinite (the result is NaN)
+    angle = std::fmod(angle, pi2);
+    if (angle < -M_PI) angle += pi2;
+    if (angle >= M_PI) angle -= pi2;
 
     return angle;
 }
-- 
2.43.0


From 6430875346a14c8179824b3d5e680180f303ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:30 +0000
Subject: [PATCH 06/26] fix: Node::rm_factor returns false when the factor is
 not a neighbour

It erased the end iterator, which is undefined.
---
 src/FGraph/node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index a0215fd..8bb859c 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -53,6 +53,8 @@ bool Node::rm_factor(std::shared_ptr<Factor> &factor)
         if (*f == factor)
             break;
     }
+    if (f == neighbourFactors_.end())
+        return false;// not a neighbour, nothing to remove
     neighbourFactors_.erase(f);
     return true;
 }
-- 
2.43.0


From 474d9062551af4d3e72fae02bbee095623fcbe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:30 +0000
Subject: [PATCH 07/26] fix: FGraphSolveDense adds each factor once to the
 gradient of a node

It was added once per node connected to the factor, doubling the gradient of
binary factors.
---
 src/FGraph/factor_graph_solve_dense.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 916e8a7..ff3e851 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -117,6 +117,10 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 matrix_index += (*nodes_connected)[m]->get_dim();
             }
 
+            // Gradient: Grad(n) = \sum J_n_t*W*r
+            gradient_.segment(indNodesMatrix[n], N) +=
+                    J_n_t * f->get_information_matrix() * f->get_residual();
+
             // Calculate the second part corresponding on the second factor
             matrix_index = 0;
             for (uint_t m = 0; m < nodes_connected->size() ; ++m)
@@ -125,9 +129,6 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
-                // Gradient: Grad(n) = \sum J_n_t*W*r
-                gradient_.segment(indNodesMatrix[n], N) +=
-                        J_n_t * f->get_information_matrix() * f->get_residual();
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
-- 
2.43.0


From a91e516b8450dcba9d5d919c677cde84dd0a33b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:06 +0000
Subject: [PATCH 08/26] fix: FGraphSolveDense leaves anchor nodes out of the
 problem

It indexed anchors inside matrices sized for the active nodes only (writing
out of bounds) and would have updated them.
---
 src/FGraph/factor_graph_solve_dense.cpp | 31 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index ff3e851..bbebcdc 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -74,26 +74,26 @@ void FGraphSolveDense::calculate_gradient_hessian()
         f->evaluate_chi2();
     }
 
-    // 3) calculate the indexes for the nodes for block allocation
+    // 3) calculate the indexes for the (active) nodes for block allocation
     std::vector<uint_t> indNodesMatrix, indNodeId;
-    indNodesMatrix.reserve(nodes_.size());
-    indNodeId.reserve(nodes_.size());
+    indNodesMatrix.reserve(active_nodes_.size());
+    indNodeId.reserve(active_nodes_.size());
     uint_t N = 0, M = 0;
-    for (size_t i = 0; i < nodes_.size(); ++i)
+    for (size_t i = 0; i < active_nodes_.size(); ++i)
     {
         // calculate the indices to access
-        uint_t dim = nodes_[i]->get_dim();
+        uint_t dim = active_nodes_[i]->get_dim();
         indNodesMatrix.push_back(N);
-        indNodeId.push_back(nodes_[i]->get_id()); //bookkeeps the nodes ids
+        indNodeId.push_back(active_nodes_[i]->get_id()); //bookkeeps the nodes ids
         N += dim;
     }
     assert(N == stateDim_ && "FGraphSolveDense::HessianAndGradient: State Dimensions are not coincident\n");
 
     // 4) create Hessian and gradient, by traversing all nodes, looking for its factors
     //    and completing the rows in the Hessian and gradient.
-    for (uint_t n = 0; n < nodes_.size(); ++n)
+    for (uint_t n = 0; n < active_nodes_.size(); ++n)
     {
-        auto node = nodes_[n];
+        auto node = active_nodes_[n];
         uint_t node_id =  node->get_id();
         N = node->get_dim();
         auto factors = node->get_neighbour_factors();
@@ -129,6 +129,9 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
+                // Anchor nodes are constant, they are not part of the estimated state
+                if (node2->get_node_mode() == Node::nodeMode::ANCHOR)
+                    continue;
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
@@ -146,25 +149,25 @@ void FGraphSolveDense::calculate_gradient_hessian()
 void FGraphSolveDense::update_state()
 {
     int acc_start = 0;
-    for (uint_t i = 0; i < nodes_.size(); i++)
+    for (uint_t i = 0; i < active_nodes_.size(); i++)
     {
         // node update is the negative of dx just calculated.
         // x = x - alpha * H^(-1) * Grad = x - dx
         // Depending on the optimization, it is already taking care of the step alpha, so we assume alpha = 1
-        const auto &node_update = dx_.block(acc_start, 0, nodes_[i]->get_dim(), 1);
-        nodes_[i]->update(node_update);
+        const auto &node_update = dx_.block(acc_start, 0, active_nodes_[i]->get_dim(), 1);
+        active_nodes_[i]->update(node_update);
 
-        acc_start += nodes_[i]->get_dim();
+        acc_start += active_nodes_[i]->get_dim();
     }
 }
 void FGraphSolveDense::bookkeep_state()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_auxiliary_state(n->get_state());
 }
 void FGraphSolveDense::update_state_from_bookkeep()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_state(n->get_auxiliary_state());
 }
 
-- 
2.43.0


From 0c30f3faba13785e5b531e1c8d92a972c2903dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:06 +0000
Subject: [PATCH 09/26] fix: robust weights are evaluated at the documented
 distance u = sqrt(r'Wr)

chi2 is half of r'Wr, so every kernel was evaluated at u/sqrt(2).
---
 src/FGraph/factor_graph_solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index ed667b3..5778606 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -319,7 +319,7 @@ void FGraphSolve::build_adjacency()
             {
                 uint_t iRow = indFactorsMatrix[i] + l;
                 uint_t iCol = indFactorsMatrix[i] + k;
-                robust_weight = f->evaluate_robust_weight(std::sqrt(f->get_chi2()));
+                robust_weight = f->evaluate_robust_weight(std::sqrt(2.0*f->get_chi2()));// u = sqrt(r'Wr), chi2 = 0.5 r'Wr
                 W_.insert(iRow,iCol) = robust_weight * f->get_information_matrix()(l,k);
             }
         }
-- 
2.43.0


From 8f38612d817206fd08ff77087c50ddcf139cb6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:06 +0000
Subject: [PATCH 10/26] fix: RANSAC robust weight is set as documented

It was never assigned, so every RANSAC factor had zero weight.
---
 src/FGraph/factor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FGraph/factor.cpp b/src/FGraph/factor.cpp
index 06182c2..ddc2623 100644
--- a/src/FGraph/factor.cpp
+++ b/src/FGraph/factor.cpp
@@ -63,6 +63,9 @@ matData_t Factor::evaluate_robust_weight(matData_t u, matData_t params)
             robust_weight_ = 1.0/params/params;
             break;
         case RANSAC:
+            // p(u) = 1/2u^2    if u < d
+            //        d
+            robust_weight_ = (u < 1.0) ? 1.0 : 0.0;
             break;
         case QUADRATIC:
         default:
-- 
2.43.0


From 0cceabbe1f40cfaeee49fc7939c64c3300f0cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:06 +0000
Subject: [PATCH 11/26] fix: FGraphSolveDense applies the robust weights of its
 factors

---
 src/FGraph/factor_graph_solve_dense.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index bbebcdc..7eea01d 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <iterator>
 #include <iostream>
+#include <cmath>
 
 using namespace mrob;
 
@@ -102,6 +103,8 @@ void FGraphSolveDense::calculate_gradient_hessian()
             auto f = (*factors)[i];
             auto nodes_connected = f->get_neighbour_nodes();
             MatX J = f->get_jacobian();
+            // information matrix, including the robust weight (1 if no robust factor is used) at u = sqrt(r'Wr)
+            MatX W = f->evaluate_robust_weight(std::sqrt(2.0*f->get_chi2())) * f->get_information_matrix();
             uint_t D = f->get_dim();
 
             // get the trans Jacobian corresponding to the node n. Always premultiplies in Hessian
@@ -119,7 +122,7 @@ void FGraphSolveDense::calculate_gradient_hessian()
 
             // Gradient: Grad(n) = \sum J_n_t*W*r
             gradient_.segment(indNodesMatrix[n], N) +=
-                    J_n_t * f->get_information_matrix() * f->get_residual();
+                    J_n_t * W * f->get_residual();
 
             // Calculate the second part corresponding on the second factor
             matrix_index = 0;
@@ -138,7 +141,7 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 auto index = std::distance(indNodeId.begin(), it);
                 // Only the current block row is filled in (corresponding to the n-node). We could use a triang view...
                 hessian_.block(indNodesMatrix[n], indNodesMatrix[index],N,M) +=
-                        J_n_t * f->get_information_matrix() * J_m;
+                        J_n_t * W * J_m;
             }
         }
     }
-- 
2.43.0


From c12fb19ade05e1548c20700188f71c54648f08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:06 +0000
Subject: [PATCH 12/26] fix: FGraphSolve::solve uses the lambda it is given for
 LM

optimize_levenberg_marquardt() overwrote it with 1e-5.
---
 src/FGraph/factor_graph_solve.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index 5778606..df692df 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -144,8 +144,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
 
     // LM trust region as described in Bertsekas (p.105)
 
-    // 0) parameter initialization
-    lambda_ = 1e-5;
+    // 0) parameter initialization, lambda_ is set in solve()
     // sigma reference to the fidelity of the model at the proposed solution \in [0,1]
     matData_t sigma1(0.25), sigma2(0.8);// 0 < sigma1 < sigma2 < 1
     matData_t beta1(2.0), beta2(0.25); // lambda updates multiplier values, beta1 > 1 > beta2 >0
-- 
2.43.0


From b6d6fd7417a6853c0530fb00120a9a12d9a1f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:06 +0000
Subject: [PATCH 13/26] fix: FGraph::get_node and get_factor reject unknown ids

In release builds, an id that was never handed out indexed out of bounds.
---
 src/FGraph/factor_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph.cpp b/src/FGraph/factor_graph.cpp
index 99b882e..3097f95 100644
--- a/src/FGraph/factor_graph.cpp
+++ b/src/FGraph/factor_graph.cpp
@@ -91,14 +91,14 @@ std::shared_ptr<Node>& FGraph::get_node(factor_id_t key)
 {
     // TODO key on a set or map?
     assert(key < nodes_.size() && "FGraph::get_node: incorrect key");
-    return nodes_[key];// XXX test key  again
+    return nodes_.at(key);// throws if the key is out of range
 }
 
 std::shared_ptr<Factor>& FGraph::get_factor(factor_id_t key)
 {
     // TODO key on a set or map?
     assert(key < factors_.size() && "FGraph::get_node: incorrect key");
-    return factors_[key];
+    return factors_.at(key);
 }
 
 
-- 
2.43.0


From 0ebe145cb49cbd19a44ff61fd7deb69a00123a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:12 +0000
Subject: [PATCH 14/26] fix: adding a node or factor that is already on the
 graph has no effect

As documented. The second time it changed its id, and the element was counted
and processed twice.
---
 src/FGraph/factor_graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/FGraph/factor_graph.cpp b/src/FGraph/factor_graph.cpp
index 3097f95..aff17f3 100644
--- a/src/FGraph/factor_graph.cpp
+++ b/src/FGraph/factor_graph.cpp
@@ -43,6 +43,9 @@ FGraph::~FGraph()
 
 factor_id_t FGraph::add_factor(std::shared_ptr<Factor> &factor)
 {
+	// already on the graph
+	if (factor->get_id() < factors_.size() && factors_[factor->get_id()] == factor)
+	    return factor->get_id();
 	factor->set_id(factors_.size());
 	factors_.push_back(factor);
     auto *list = factor->get_neighbour_nodes();
@@ -70,6 +73,9 @@ factor_id_t FGraph::add_eigen_factor(std::shared_ptr<Factor> &factor)
 
 factor_id_t FGraph::add_node(std::shared_ptr<Node> &node)
 {
+	// already on the graph
+	if (node->get_id() < nodes_.size() && nodes_[node->get_id()] == node)
+	    return node->get_id();
 	node->set_id(nodes_.size());
 	nodes_.push_back(node);
 	switch(node->get_node_mode())
-- 
2.43.0


From bcd30e4894aad2d542d0e888d57e80983f3f49d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:12 +0000
Subject: [PATCH 15/26] fix: isSO3 and isSE3 reject matrices that are not
 rotations or rigid transformations

isSO3 accepted any matrix with unit determinant and isSE3 any last row whose
signed differences do not add up to more than the tolerance.
---
 src/geometry/SE3.cpp | 2 +-
 src/geometry/SO3.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry/SE3.cpp b/src/geometry/SE3.cpp
index 9073980..550d699 100644
--- a/src/geometry/SE3.cpp
+++ b/src/geometry/SE3.cpp
@@ -293,7 +293,7 @@ bool mrob::isSE3(Mat4 T)
         return false;
     Mat<1,4> one;
     one << 0,0,0,1;
-    if ( (T.row(3)-one).sum() > 1e-6 )
+    if ( !((T.row(3)-one).cwiseAbs().sum() <= 1e-6) )
         return false;
     return true;
 }
diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index c1e0eba..51305f9 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -284,6 +284,9 @@ bool mrob::isSO3(Mat3 R)
         return false;
     if ( fabs(det - 1.0) > 1e-6)
         return false;
+    // R'R = I, written such that it is false for NaN
+    if ( !((R.transpose()*R - Mat3::Identity()).norm() <= 1e-6) )
+        return false;
     return true;
 
 }
-- 
2.43.0


From 069a2d2e33a9b4960651cd0340f275eee182e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:12 +0000
Subject: [PATCH 16/26] fix: points added to a Plane after its first estimation
 are taken into account

The matrices S are only calculated when empty, so later points were ignored.
---
 src/PCRegistration/plane.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index b61d2fc..f3157fc 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -104,6 +104,13 @@ void Plane::push_back_point(Mat31 &point, uint_t t)
         //allPlanePoints_[t].push_back(homogeneousPoint);
         allPlanePoints_[t].push_back(point);
         ++numberPoints_;
+        // S is calculated only once, so it needs to account for this point if it is already there
+        if (!matrixS_.empty())
+        {
+            Mat41 pHomog;
+            pHomog << point , 1.0;
+            matrixS_[t] += pHomog * pHomog.transpose();
+        }
     }
 }
 
-- 
2.43.0


From c38f164543e467d5dc5ab525d875d441f31cee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:12 +0000
Subject: [PATCH 17/26] fix: Plane::clear_points removes the points and keeps
 the plane usable

It removed the per-time containers, which are indexed by every other method,
and kept the number of points and the matrices S.
---
 src/PCRegistration/plane.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index f3157fc..0f54476 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -123,7 +123,12 @@ std::vector<Mat31>& Plane::get_points(uint_t t)
 
 void Plane::clear_points()
 {
-    allPlanePoints_.clear();
+    // one (empty) set of points per time index is kept
+    for (auto &points : allPlanePoints_)
+        points.clear();
+    numberPoints_ = 0;
+    for (Mat4 &S : matrixS_)
+        S.setZero();
 }
 
 
-- 
2.43.0


From 400e9f24886a5c247c29ed65c199d881bdc07dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:34 +0000
Subject: [PATCH 18/26] fix: PlaneRegistration::solve_initialize pairs the
 means of the same plane

When a plane was not observed in the first pose, the following planes were
paired with the mean of another plane and the last one was read out of bounds.
---
 src/PCRegistration/plane_registration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 552285a..c964a08 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -260,6 +260,8 @@ uint_t PlaneRegistration::solve_initialize()
         it->second->calculate_all_matrices_S();
         if (it->second->get_number_points(0) > 0 )
             Y_points_all.push_back(it->second->get_mean_point(0));
+        else
+            Y_points_all.push_back(Mat31::Zero());// not observed at t = 0, it keeps the order of planes
     }
 
     uint_t t = 0;
@@ -277,7 +279,7 @@ uint_t PlaneRegistration::solve_initialize()
         uint_t cont =0;
         for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
         {
-            if (it->second->get_number_points(t) > 0 )
+            if (it->second->get_number_points(t) > 0 && it->second->get_number_points(0) > 0 )
             {
                 X_points.push_back(it->second->get_mean_point(t));
                 Y_points.push_back(Y_points_all[cont]);
-- 
2.43.0


From 086cfc4b0404d695233330cf365af5f6aea1b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:35 +0000
Subject: [PATCH 19/26] fix: arun only rejects configurations whose rotation is
 not unique

It rejected any pair of singular values closer than 1e-6, among them symmetric
point clouds (a cube), and any small one.
---
 src/PCRegistration/arun.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/PCRegistration/arun.cpp b/src/PCRegistration/arun.cpp
index 89af244..7ff9b9c 100644
--- a/src/PCRegistration/arun.cpp
+++ b/src/PCRegistration/arun.cpp
@@ -75,22 +75,16 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
                  ",\n V = " << SVD.matrixV() << std::endl;*/
 
 
-    // 4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
-    double l_prev = SVD.singularValues()(0), l;
-    for(int i =1; i < 3; ++i)
-    {
-        l = SVD.singularValues()(i);
-        if (fabs(l - l_prev) < 1e-6)
-
-            return 0; //they are co-linear, there exist infinite transformations
-        else
-            l_prev = l;//this works because we assume that they singular values are ordered.
-    }
-
-
     // 5) Calculate the rotation solution R = V*U'
     Mat3 R = SVD.matrixV() * SVD.matrixU().transpose();
 
+    // 4.5) look for degenerate configurations. The rotation is unique iff l2 + det(R) * l3 > 0 (Umeyama).
+    // Otherwise, points are co-linear (l2 = l3 = 0) or l2 = l3 for a reflection.
+    // Singular values scale with the points, so the threshold is relative to the largest one.
+    Mat31 l = SVD.singularValues();
+    if ( !(l(1) + (R.determinant() < 0.0 ? -l(2) : l(2)) > 1e-9 * l(0)) )
+        return 0; // there exist infinite transformations
+
     // 5.5) check for correct solution (det = +1) or reflection (det = -1)
     // that is, solve the problem for co-planar set of points and centroid, when is l1 > l2 > l3 = 0
     // Since H = D1*u1*v1' + D2*u2*v2' + D3*u3*v3',    and D3 = 0, we can swap signs in V
-- 
2.43.0


From db2068203651119894f0f7b091aca2638d083bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:02 +0000
Subject: [PATCH 20/26] fix: fourth order compounding uses the transposed cross
 block of the first covariance

The term is E[ad(x1) S2 ad(x1)'].  Its lower-left block needs the (theta, rho)
block of S1; with the (rho, theta) block the result only agrees when that block
is symmetric, and can even be indefinite.
---
 src/geometry/SE3cov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3cov.cpp b/src/geometry/SE3cov.cpp
index 71e35d6..a3380dd 100644
--- a/src/geometry/SE3cov.cpp
+++ b/src/geometry/SE3cov.cpp
@@ -71,7 +71,7 @@ SE3Cov SE3Cov::compound_4th_order(const SE3 &pose_increment, const Mat6 &increme
                      brackets(sigma_1_rr, sigma_2_tt);
 
     Mat3 B_rho_phi = brackets(sigma_1_tt, sigma_2_tr) +
-                     brackets(sigma_1_rt, sigma_2_tt);// There is a mistake in Barfoots p.265,
+                     brackets(sigma_1_tr, sigma_2_tt);// E[-a^ C b^] = <<E[ba'],C'>>: the transposed block, as in Barfoot p.265
 
     Mat3 B_phi_phi = brackets(sigma_1_tt, sigma_2_tt);
 
-- 
2.43.0


From 8850b399b133f3765f49c8155bfa6ecd8cb59dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:51 +0000
Subject: [PATCH 21/26] fix: Levenberg-Marquardt rejects steps whose error is
 not a number

---
 src/FGraph/factor_graph_solve.cpp | 2 +-
 src/common/optimizer.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index df692df..af284fc 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -168,7 +168,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
                   << iter << " lambda = " << lambda_ << ", error " << currentChi2
                   << ", and delta = " << deltaChi2
                   << std::endl;
-        if (deltaChi2 < 0)
+        if (!(deltaChi2 >= 0))// also when the error is not a number (singular problem)
         {
             // proposed dx did not improve, repeat 1) and reduce area of optimization = increase lambda
             lambda_ *= beta1;
diff --git a/src/common/optimizer.cpp b/src/common/optimizer.cpp
index 8e68128..ac6c3dd 100644
--- a/src/common/optimizer.cpp
+++ b/src/common/optimizer.cpp
@@ -122,7 +122,7 @@ uint_t Optimizer::optimize_levenberg_marquardt()
         improvement = true;
 
         // 2) Check for convergence, hillclimb
-        if (diff_error < 0)
+        if (!(diff_error >= 0))// also when the error is not a number (singular problem)
         {
             //std::cout << "no improvement\n";
             lambda_ *= beta1;
-- 
2.43.0


From 19be06aec39f70e4b24d2edd921eb32ff8280f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:46 +0000
Subject: [PATCH 22/26] fix: estimate_plane keeps its accuracy for elongated
 sets of points

---
 src/PCRegistration/estimate_plane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PCRegistration/estimate_plane.cpp b/src/PCRegistration/estimate_plane.cpp
index 101d284..83a2740 100644
--- a/src/PCRegistration/estimate_plane.cpp
+++ b/src/PCRegistration/estimate_plane.cpp
@@ -52,7 +52,7 @@ Mat41 estimate_plane_centered(const Eigen::Ref<const MatX> X)
 
 
     Eigen::SelfAdjointEigenSolver<Mat3> eigs;
-    eigs.computeDirect(C);
+    eigs.compute(C);// computeDirect loses half of the digits on elongated sets of points
 
     Mat31 normal = eigs.eigenvectors().col(0);
 
-- 
2.43.0


From f00f5a6e16e191cfdbc761c3b5ab123c2daedfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:47 +0000
Subject: [PATCH 23/26] fix: Plane::estimate_plane_incrementally updates the
 matrix Q it replaces

---
 src/PCRegistration/plane.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 0f54476..dd009f3 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -160,11 +160,14 @@ double Plane::estimate_plane()
 double Plane::estimate_plane_incrementally(uint_t t)
 {
     accumulatedQ_ -= matrixQ_[t];
-    accumulatedQ_ +=  trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    // Q at t is kept, for the next incremental updates and derivatives
+    matrixQ_[t] = trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    accumulatedQ_ += matrixQ_[t];
     //std::cout << "new acc Q " << accumulatedQ_ << std::endl;
     Eigen::SelfAdjointEigenSolver<Mat4> eigs(accumulatedQ_);
     planeEstimation_ = eigs.eigenvectors().col(0);
-    return eigs.eigenvalues()(0);
+    lambda_ = eigs.eigenvalues()(0);
+    return lambda_;
 }
 
 double Plane::get_error_incremental(uint_t t) const
-- 
2.43.0


From 225490207118f42231cce48d606004f8c4751c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 24/26] fix: CreatePoints labelled the last points of large
 clouds with a plane out of range

---
 src/PCRegistration/create_points.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/create_points.cpp b/src/PCRegistration/create_points.cpp
index f27a0dc..9280ff3 100644
--- a/src/PCRegistration/create_points.cpp
+++ b/src/PCRegistration/create_points.cpp
@@ -179,7 +179,8 @@ CreatePoints::CreatePoints(uint_t numberPoints, uint_t numberPlanes, uint_t numb
         for (uint_t i = 0; i < numberPoints_ ; ++i)
         {
             // parameter is the length of the observed plane
-            uint_t planeId = std::floor((float)i * (float)numberPlanes_/ (float)numberPoints_);
+            // (integer arithmetic: in single precision, the last points of large clouds get an id out of range)
+            uint_t planeId = (size_t)i * numberPlanes_ / numberPoints_;
             Mat31 point = planePoses_[planeId].transform( samplePoints_.samplePoint() );
             point = transInvPose.transform(point);
             X_[t].push_back( point );//XXX this should go away, only PC on planes
-- 
2.43.0


From 5a07d27d7d80e04b836c91289d76c3452f7c29c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:20 +0000
Subject: [PATCH 25/26] fix: gradient plane registration filled the trajectory
 with NaN when a pose has no observation

The step was normalised by the number of points of the pose (or, over all
poses, of the last one) without checking that there are any.
---
 src/PCRegistration/plane_registration.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index c964a08..1668b64 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -160,6 +160,9 @@ uint_t PlaneRegistration::solve_interpolate_gradient(bool singleIteration)
                 jacobian += it->second->calculate_gradient(t);
                 numberPoints += it->second->get_number_points(t);
             }
+            // a pose without any observation does not contribute (0/0)
+            if (numberPoints == 0.0)
+                continue;
             // XXX this could be changed to time stamps later
             accumulatedJacobian +=  (tau *  t  / numberPoints / numberPoses_) * jacobian;
 
@@ -214,14 +217,13 @@ uint_t PlaneRegistration::solve_gradient_all_poses(bool singleIteration)
 
         // 2) calculate Gradient
         MatX1 jacobian = MatX1::Zero(numberPoses_*6);
-        double  numberPoints; //, tau = 1.0 / (double)(numberPoses_-1);
+        std::vector<double> numberPoints(numberPoses_, 0.0); //, tau = 1.0 / (double)(numberPoses_-1);
         for (uint_t t = 1 ; t < numberPoses_; ++t)
         {
-            numberPoints = 0.0;
             for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
             {
                 jacobian.segment<6>(t*6) += it->second->calculate_gradient(t);
-                numberPoints += it->second->get_number_points(t);
+                numberPoints[t] += it->second->get_number_points(t);
             }
 
         }
@@ -230,7 +232,10 @@ uint_t PlaneRegistration::solve_gradient_all_poses(bool singleIteration)
         Mat61 dxi;
         for (uint_t t = 1 ; t < numberPoses_; ++t)
         {
-            Mat61 dxi = -(alpha_ / numberPoints / numberPoses_ )*jacobian.segment<6>(t*6);
+            // a pose without any observation is not moved (0/0)
+            if (numberPoints[t] == 0.0)
+                continue;
+            Mat61 dxi = -(alpha_ / numberPoints[t] / numberPoses_ )*jacobian.segment<6>(t*6);
             trajectory_->at(t).update_lhs(dxi);
         }
         ++solveIters_;
-- 
2.43.0


From f74f1f70a864631116573e4424e296aa12232c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:04 +0000
Subject: [PATCH 26/26] fix: SO3::ln dropped the rotation of nearly identical
 rotations whose trace rounds above 3

---
 src/geometry/SO3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 51305f9..c1904a4 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -141,7 +141,7 @@ Mat3 SO3::ln(double *ro) const
         // Special case tr =1  and theta -> 0
         if ( std::isnan(o) )
         {
-            d1 = 0.0;
+            d1 = 0.5;// limit value, there may still be a small rotation in R
             o = 0.0;
         }
         // 2) incorrect x/sin when approaching 0. The other problematic point o = pi is handled below
-- 
2.43.0

