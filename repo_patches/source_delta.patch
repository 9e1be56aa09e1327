From 278a901cbdb9ea40857ea28ca7eb28c9cc5e5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:42 +0000
Subject: [PATCH 01/42] fix: SO3::ln picks a wrong axis when the two largest
 diagonal entries are equal

---
 src/geometry/SO3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 395ad64..c1e0eba 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -189,14 +189,14 @@ Mat3 SO3::ln(double *ro) const
         Mat31 w;
         double d = std::cos(o);
 
-        if( R_(0,0) > R_(1,1) && R_(0,0) > R_(2,2) )
+        if( R_(0,0) >= R_(1,1) && R_(0,0) >= R_(2,2) )
         {
             // For stability, we average the two elements since it is almost symetric
             w << R_(0,0) - d,
                  0.5 * ( R_(0,1) + R_(1,0)),
                  0.5 * ( R_(0,2) + R_(2,0));
         }
-        else if( R_(1,1) > R_(0,0) && R_(1,1) > R_(2,2) )
+        else if( R_(1,1) >= R_(0,0) && R_(1,1) >= R_(2,2) )
         {
             w << 0.5 * ( R_(1,0) + R_(0,1)),
                  R_(1,1) - d,
-- 
2.43.0


From af2415bd766e3d7f911dc29049e9f94acaf8eedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:42 +0000
Subject: [PATCH 02/42] fix: SO3::ln drops small rotations when round-off makes
 the trace exceed 3

---
 src/geometry/SO3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index c1e0eba..98af237 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -141,7 +141,7 @@ Mat3 SO3::ln(double *ro) const
         // Special case tr =1  and theta -> 0
         if ( std::isnan(o) )
         {
-            d1 = 0.0;
+            d1 = 0.5;
             o = 0.0;
         }
         // 2) incorrect x/sin when approaching 0. The other problematic point o = pi is handled below
-- 
2.43.0


From 4633a047612b2d0dd8ffaf487f126ba71ef29099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:07 +0000
Subject: [PATCH 03/42] fix: isSO3 accepts non-orthogonal matrices of unit
 determinant

---
 src/geometry/SO3.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 98af237..6add1d9 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -279,12 +279,11 @@ void SO3::print_lie(void) const
 
 bool mrob::isSO3(Mat3 R)
 {
-    matData_t det = R.determinant();
-    if (det  < 0)
+    // Orthogonal (which includes unit determinant, up to its sign). Written such that NaN's are rejected
+    if ( !((R * R.transpose() - Mat3::Identity()).norm() <= 1e-6) )
         return false;
-    if ( fabs(det - 1.0) > 1e-6)
-        return false;
-    return true;
+    // and proper
+    return R.determinant() > 0;
 
 }
 
-- 
2.43.0


From acb99e16582b1d477483be3b50bbe867e015ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:07 +0000
Subject: [PATCH 04/42] fix: isSE3 accepts wrong last rows whose differences
 cancel or are negative

---
 src/geometry/SE3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3.cpp b/src/geometry/SE3.cpp
index 9073980..9966e41 100644
--- a/src/geometry/SE3.cpp
+++ b/src/geometry/SE3.cpp
@@ -293,7 +293,7 @@ bool mrob::isSE3(Mat4 T)
         return false;
     Mat<1,4> one;
     one << 0,0,0,1;
-    if ( (T.row(3)-one).sum() > 1e-6 )
+    if ( !((T.row(3)-one).norm() <= 1e-6) )
         return false;
     return true;
 }
-- 
2.43.0


From 78f5eddb34f56d1642e4f2e0ca7b64618494303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 05/42] fix: fourth-order covariance compounding uses a wrong
 block in its rho-phi correction

---
 src/geometry/SE3cov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3cov.cpp b/src/geometry/SE3cov.cpp
index 71e35d6..cc8ffdb 100644
--- a/src/geometry/SE3cov.cpp
+++ b/src/geometry/SE3cov.cpp
@@ -71,7 +71,7 @@ SE3Cov SE3Cov::compound_4th_order(const SE3 &pose_increment, const Mat6 &increme
                      brackets(sigma_1_rr, sigma_2_tt);
 
     Mat3 B_rho_phi = brackets(sigma_1_tt, sigma_2_tr) +
-                     brackets(sigma_1_rt, sigma_2_tt);// There is a mistake in Barfoots p.265,
+                     brackets(sigma_1_tr, sigma_2_tt);// There is a mistake in Barfoots p.265,
 
     Mat3 B_phi_phi = brackets(sigma_1_tt, sigma_2_tt);
 
-- 
2.43.0


From f84a0f7126f73a96eac111ff3b028400742d960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 06/42] fix: Factor2Poses3d ignores the inversion of the
 observation when the target node was created first

---
 src/FGraph/factors/factor2Poses3d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses3d.cpp b/src/FGraph/factors/factor2Poses3d.cpp
index 012e3b3..51a770d 100644
--- a/src/FGraph/factors/factor2Poses3d.cpp
+++ b/src/FGraph/factors/factor2Poses3d.cpp
@@ -45,14 +45,14 @@ Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &n
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( (SE3(TxOrigin) * SE3(observation)).T() );
     }
 }
 
@@ -72,14 +72,14 @@ Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &no
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( (SE3(TxOrigin) * SE3(observation)).T() );
     }
 }
 
-- 
2.43.0


From d3e3250e28cce99876b023e774266ee551dc4785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 07/42] fix: Factor2Poses2d changes its observation model when
 the target node was created first

---
 src/FGraph/factors/factor2Poses2d.cpp      | 33 ++++++++++++++--------
 src/FGraph/mrob/factors/factor2Poses2d.hpp |  3 +-
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 6dc0e61..5912b2b 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -31,7 +31,7 @@ using namespace mrob;
 Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &nodeOrigin,
                                std::shared_ptr<Node> &nodeTarget, const Mat3 &obsInf, bool updateNodeTarget,
                                Factor::robustFactorType robust_type):
-        Factor(3, 6, robust_type), obs_(observation), W_(obsInf)
+        Factor(3, 6, robust_type), obs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -40,12 +40,11 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     else
     {
-        // we reverse the order and simply invert the observation function (not always true)
+        // nodes are stored ordered by id, the observation keeps its meaning (from origin we observe target)
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
-
-        // reverse observations to account for this
-        obs_ = -observation;
+        // set reverse mode
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
@@ -57,8 +56,9 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
 
 void Factor2Poses2d::evaluate_residuals() {
     // Evaluation of h(i,j)
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    uint_t originIndex = reversedNodeOrder_ ? 1 : 0;
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(originIndex).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(1 - originIndex).get()->get_state();
 
     // r = h(i,j) - obs = Ri^T * (xj- xi) - obs .  From "i", i.e, at its reference frame, we observe xj
     Mat31 h = nodeTarget - nodeOrigin;
@@ -74,8 +74,9 @@ void Factor2Poses2d::evaluate_residuals() {
 
 void Factor2Poses2d::evaluate_jacobians()
 {
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    uint_t originIndex = reversedNodeOrder_ ? 1 : 0;
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(originIndex).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(1 - originIndex).get()->get_state();
 
     // r =  Ri^T * (xj- xi) - obs
     // J1 = [-R1^T,    J2 = [R1^T 0]
@@ -84,9 +85,17 @@ void Factor2Poses2d::evaluate_jacobians()
            s1 = std::sin(nodeOrigin(2)),
            dx = nodeTarget(0) - nodeOrigin(0),
            dy = nodeTarget(1) - nodeOrigin(1);
-    J_ <<   -c1, -s1, -s1*dx + c1*dy,     c1, s1, 0,
-             s1, -c1, -c1*dx - s1*dy,    -s1, c1, 0,
-              0,   0,    -1,              0,  0, 1;
+    Mat3 Jo, Jt;
+    Jo <<   -c1, -s1, -s1*dx + c1*dy,
+             s1, -c1, -c1*dx - s1*dy,
+              0,   0,    -1;
+    Jt <<    c1, s1, 0,
+            -s1, c1, 0,
+              0,  0, 1;
+    if (reversedNodeOrder_)
+        J_ << Jt, Jo;
+    else
+        J_ << Jo, Jt;
 }
 
 void Factor2Poses2d::evaluate_chi2()
diff --git a/src/FGraph/mrob/factors/factor2Poses2d.hpp b/src/FGraph/mrob/factors/factor2Poses2d.hpp
index f0b043b..1f1ecec 100644
--- a/src/FGraph/mrob/factors/factor2Poses2d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses2d.hpp
@@ -73,7 +73,8 @@ namespace mrob{
         // declared here but initialized on child classes
         Mat31 obs_, r_; //and residuals
         Mat3 W_;//inverse of observation covariance (information matrix)
-        Mat<3,6> J_;//Joint Jacobian
+        Mat<3,6> J_;
+        bool reversedNodeOrder_;//Joint Jacobian
 
     public:
         EIGEN_MAKE_ALIGNED_OPERATOR_NEW // as proposed by Eigen
-- 
2.43.0


From 707aaa33855bc4ebb8d511e8ce3e053c3dc0a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 08/42] fix: Factor2Poses2d initialises the target node without
 rotating the observation

---
 src/FGraph/factors/factor2Poses2d.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 5912b2b..417703d 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -48,7 +48,13 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     if (updateNodeTarget)
     {
-        Mat31 dx = nodeOrigin->get_state() +  obs_ - nodeTarget->get_state();
+        // the observation is expressed in the frame of the origin
+        Mat31 origin = nodeOrigin->get_state();
+        Mat31 dx = origin + obs_ - nodeTarget->get_state();
+        double c1 = std::cos(origin(2)),
+               s1 = std::sin(origin(2));
+        dx(0) += c1*obs_(0) - s1*obs_(1) - obs_(0);
+        dx(1) += s1*obs_(0) + c1*obs_(1) - obs_(1);
         nodeTarget->update(dx);
     }
 }
-- 
2.43.0


From cd96e98c41f1c8e43b45efb7605cf67571b28f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 09/42] fix: Factor2Poses2dOdom Jacobian ignores the first
 rotation of the odometry

---
 src/FGraph/factors/factor2Poses2d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 417703d..117997e 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -149,7 +149,8 @@ void Factor2Poses2dOdom::evaluate_jacobians()
     // Get the position of node we are traversing from
     Mat31 node1 = get_neighbour_nodes()->at(0).get()->get_state();
 
-    auto s = -obs_(1) * std::sin(node1(2)), c = obs_(1) * std::cos(node1(2));
+    // the translation is applied after the first rotation, see get_odometry_prediction
+    auto s = -obs_(1) * std::sin(node1(2) + obs_(0)), c = obs_(1) * std::cos(node1(2) + obs_(0));
 
     // Jacobians for odometry model which are: G and -I
     J_ <<   1, 0, s,    -1, 0, 0,
-- 
2.43.0


From b68299b68a3fdb182e0b3913085c2c8aab035aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 10/42] fix: Factor1Pose1Landmark3d ignores initializeLandmark

---
 src/FGraph/factors/factor1Pose1Landmark3d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor1Pose1Landmark3d.cpp b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
index 05a1f6f..094e024 100644
--- a/src/FGraph/factors/factor1Pose1Landmark3d.cpp
+++ b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
@@ -50,7 +50,9 @@ Factor1Pose1Landmark3d::Factor1Pose1Landmark3d(const Mat31 &observation, std::sh
 
     if (initializeLandmark)
     {
-        // TODO Initialize landmark value to whatever observation we see from current pose
+        // Initialize landmark value to whatever observation we see from current pose
+        Mat4 Tx = nodePose->get_state();
+        nodeLandmark->set_state( SE3(Tx).transform(obs_) );
     }
 }
 
-- 
2.43.0


From 4097b9d0b00be7c9cd73798bd739f286b8dbb62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 11/42] fix: wrap_angle does not terminate for very large or
 infinite angles

---
 src/FGraph/node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index f318f49..000f4d9 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -61,6 +61,8 @@ double mrob::wrap_angle(double angle)
 {
     double pi2 = 2 * M_PI;
 
+    // Far from the range, all complete turns are removed at once. Non-finite angles become NaN
+    if ( !(std::fabs(angle) < 10*pi2) ) angle = std::fmod(angle, pi2);
     while (angle < -M_PI) angle += pi2;
     while (angle >= M_PI) angle -= pi2;
 
-- 
2.43.0


From 66e20d61e89940f38dd6381bcfe29796ba8afa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 12/42] fix: Node::rm_factor erases past the end when the
 factor is not a neighbour

---
 src/FGraph/node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index 000f4d9..c1d17a7 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -52,6 +52,8 @@ bool Node::rm_factor(std::shared_ptr<Factor> &factor)
         if (*f == factor)
             break;
     }
+    if (f == neighbourFactors_.end())
+        return false;
     neighbourFactors_.erase(f);
     return true;
 }
-- 
2.43.0


From d607e898165c074c5dcfea0b66da6ab26fb0edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 13/42] fix: FGraph get_node and get_factor read out of bounds
 for an invalid id

---
 src/FGraph/factor_graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph.cpp b/src/FGraph/factor_graph.cpp
index 99b882e..c213f0e 100644
--- a/src/FGraph/factor_graph.cpp
+++ b/src/FGraph/factor_graph.cpp
@@ -91,14 +91,14 @@ std::shared_ptr<Node>& FGraph::get_node(factor_id_t key)
 {
     // TODO key on a set or map?
     assert(key < nodes_.size() && "FGraph::get_node: incorrect key");
-    return nodes_[key];// XXX test key  again
+    return nodes_.at(key);// throws if the key is not in the graph
 }
 
 std::shared_ptr<Factor>& FGraph::get_factor(factor_id_t key)
 {
     // TODO key on a set or map?
     assert(key < factors_.size() && "FGraph::get_node: incorrect key");
-    return factors_[key];
+    return factors_.at(key);// throws if the key is not in the graph
 }
 
 
-- 
2.43.0


From c1112448e2614dbb11406bca10eda955cf716a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:47 +0000
Subject: [PATCH 14/42] fix: Factor2Poses2dOdom is wrong when the target node
 was created first

---
 src/FGraph/factors/factor2Poses2d.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 117997e..4067e56 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -125,7 +125,6 @@ Factor2Poses2dOdom::Factor2Poses2dOdom(const Mat31 &observation, std::shared_ptr
                          const Mat3 &obsInf, bool updateNodeTarget, Factor::robustFactorType robust_type) :
                          Factor2Poses2d(observation, nodeOrigin, nodeTarget, obsInf, false, robust_type)
 {
-    assert(nodeOrigin->get_id() < nodeTarget->get_id() && "Factor2Poses2dOdom::Factor2Poses2dodom: Node origin id is posterior to the destination node\n");
     if (updateNodeTarget)
     {
         Mat31 dx = get_odometry_prediction(nodeOrigin->get_state(), obs_) - nodeTarget->get_state();
@@ -136,8 +135,9 @@ Factor2Poses2dOdom::Factor2Poses2dOdom(const Mat31 &observation, std::shared_ptr
 void Factor2Poses2dOdom::evaluate_residuals()
 {
     // Evaluation of residuals as g (x_origin, observation) - x_dest
-    auto    stateOrigin = get_neighbour_nodes()->at(0).get()->get_state(), // x[i - 1]
-            stateTarget = get_neighbour_nodes()->at(1).get()->get_state(); // x[i]
+    uint_t originIndex = reversedNodeOrder_ ? 1 : 0;
+    auto    stateOrigin = get_neighbour_nodes()->at(originIndex).get()->get_state(), // x[i - 1]
+            stateTarget = get_neighbour_nodes()->at(1 - originIndex).get()->get_state(); // x[i]
     auto prediction = get_odometry_prediction(stateOrigin, obs_);
 
     r_ =  prediction - stateTarget;
@@ -147,15 +147,20 @@ void Factor2Poses2dOdom::evaluate_residuals()
 void Factor2Poses2dOdom::evaluate_jacobians()
 {
     // Get the position of node we are traversing from
-    Mat31 node1 = get_neighbour_nodes()->at(0).get()->get_state();
+    Mat31 node1 = get_neighbour_nodes()->at(reversedNodeOrder_ ? 1 : 0).get()->get_state();
 
     // the translation is applied after the first rotation, see get_odometry_prediction
     auto s = -obs_(1) * std::sin(node1(2) + obs_(0)), c = obs_(1) * std::cos(node1(2) + obs_(0));
 
     // Jacobians for odometry model which are: G and -I
-    J_ <<   1, 0, s,    -1, 0, 0,
-            0, 1, c,    0, -1, 0,
-            0, 0, 1,    0, 0, -1;
+    Mat3 Jo;
+    Jo <<   1, 0, s,
+            0, 1, c,
+            0, 0, 1;
+    if (reversedNodeOrder_)
+        J_ << -Mat3::Identity(), Jo;
+    else
+        J_ << Jo, -Mat3::Identity();
 }
 
 
-- 
2.43.0


From ef3476b83a012fa8d3a535c839514b471660a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:47 +0000
Subject: [PATCH 15/42] fix: the RANSAC kernel never sets its weight, which
 disables all its factors

---
 src/FGraph/factor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FGraph/factor.cpp b/src/FGraph/factor.cpp
index 06182c2..0937cbd 100644
--- a/src/FGraph/factor.cpp
+++ b/src/FGraph/factor.cpp
@@ -63,6 +63,7 @@ matData_t Factor::evaluate_robust_weight(matData_t u, matData_t params)
             robust_weight_ = 1.0/params/params;
             break;
         case RANSAC:
+            robust_weight_ = (u < 1.0) ? 1.0 : 0.0;// same threshold as Huber
             break;
         case QUADRATIC:
         default:
-- 
2.43.0


From 5b039331c2bd82c05d1443c4a888e299c585226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:47 +0000
Subject: [PATCH 16/42] fix: FGraphSolve Levenberg-Marquardt ignores the
 requested lambda

---
 src/FGraph/factor_graph_solve.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index ed667b3..7aca115 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -144,8 +144,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
 
     // LM trust region as described in Bertsekas (p.105)
 
-    // 0) parameter initialization
-    lambda_ = 1e-5;
+    // 0) parameter initialization, lambda_ is set on solve()
     // sigma reference to the fidelity of the model at the proposed solution \in [0,1]
     matData_t sigma1(0.25), sigma2(0.8);// 0 < sigma1 < sigma2 < 1
     matData_t beta1(2.0), beta2(0.25); // lambda updates multiplier values, beta1 > 1 > beta2 >0
-- 
2.43.0


From ed16547d1f23775a562939cff31c80ead1c75bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:47 +0000
Subject: [PATCH 17/42] fix: FGraphSolve reports errors of the rejected states
 after a Levenberg-Marquardt rollback

---
 src/FGraph/factor_graph_solve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index 7aca115..a7f281d 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -173,6 +173,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
             // proposed dx did not improve, repeat 1) and reduce area of optimization = increase lambda
             lambda_ *= beta1;
             this->synchronize_nodes_state();
+            this->chi2(true);// residuals and errors of the restored states
             continue;
         }
 
-- 
2.43.0


From 83ce1167c4f90288ff740639e711854ccf5eddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:47 +0000
Subject: [PATCH 18/42] fix: FGraphSolve Levenberg-Marquardt keeps states with
 NaN error

---
 src/FGraph/factor_graph_solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index a7f281d..8d757c0 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -168,7 +168,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
                   << iter << " lambda = " << lambda_ << ", error " << currentChi2
                   << ", and delta = " << deltaChi2
                   << std::endl;
-        if (deltaChi2 < 0)
+        if (!(deltaChi2 >= 0))// also true for NaN
         {
             // proposed dx did not improve, repeat 1) and reduce area of optimization = increase lambda
             lambda_ *= beta1;
-- 
2.43.0


From 00d2705e2ca66be455a0c582557c4307ea33bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:47 +0000
Subject: [PATCH 19/42] fix: Optimizer Levenberg-Marquardt keeps states with
 NaN error

---
 src/common/optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/optimizer.cpp b/src/common/optimizer.cpp
index 8e68128..57d5f8e 100644
--- a/src/common/optimizer.cpp
+++ b/src/common/optimizer.cpp
@@ -122,7 +122,7 @@ uint_t Optimizer::optimize_levenberg_marquardt()
         improvement = true;
 
         // 2) Check for convergence, hillclimb
-        if (diff_error < 0)
+        if (!(diff_error >= 0))// also true for NaN
         {
             //std::cout << "no improvement\n";
             lambda_ *= beta1;
-- 
2.43.0


From 6e088302feda2560b7abf3c26a0f88dc1449f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:47 +0000
Subject: [PATCH 20/42] fix: FGraphSolveDense counts the gradient of a factor
 once per connected node

---
 src/FGraph/factor_graph_solve_dense.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 916e8a7..ff3e851 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -117,6 +117,10 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 matrix_index += (*nodes_connected)[m]->get_dim();
             }
 
+            // Gradient: Grad(n) = \sum J_n_t*W*r
+            gradient_.segment(indNodesMatrix[n], N) +=
+                    J_n_t * f->get_information_matrix() * f->get_residual();
+
             // Calculate the second part corresponding on the second factor
             matrix_index = 0;
             for (uint_t m = 0; m < nodes_connected->size() ; ++m)
@@ -125,9 +129,6 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
-                // Gradient: Grad(n) = \sum J_n_t*W*r
-                gradient_.segment(indNodesMatrix[n], N) +=
-                        J_n_t * f->get_information_matrix() * f->get_residual();
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
-- 
2.43.0


From 22ef9e7868f94f50d86db4dfee62e1b71ab614e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:47 +0000
Subject: [PATCH 21/42] fix: FGraphSolveDense indexes out of bounds and moves
 anchor nodes

---
 src/FGraph/factor_graph_solve_dense.cpp | 29 ++++++++++++++-----------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index ff3e851..e500e41 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -76,24 +76,24 @@ void FGraphSolveDense::calculate_gradient_hessian()
 
     // 3) calculate the indexes for the nodes for block allocation
     std::vector<uint_t> indNodesMatrix, indNodeId;
-    indNodesMatrix.reserve(nodes_.size());
-    indNodeId.reserve(nodes_.size());
+    indNodesMatrix.reserve(active_nodes_.size());
+    indNodeId.reserve(active_nodes_.size());
     uint_t N = 0, M = 0;
-    for (size_t i = 0; i < nodes_.size(); ++i)
+    for (size_t i = 0; i < active_nodes_.size(); ++i)
     {
         // calculate the indices to access
-        uint_t dim = nodes_[i]->get_dim();
+        uint_t dim = active_nodes_[i]->get_dim();
         indNodesMatrix.push_back(N);
-        indNodeId.push_back(nodes_[i]->get_id()); //bookkeeps the nodes ids
+        indNodeId.push_back(active_nodes_[i]->get_id()); //bookkeeps the nodes ids
         N += dim;
     }
     assert(N == stateDim_ && "FGraphSolveDense::HessianAndGradient: State Dimensions are not coincident\n");
 
     // 4) create Hessian and gradient, by traversing all nodes, looking for its factors
     //    and completing the rows in the Hessian and gradient.
-    for (uint_t n = 0; n < nodes_.size(); ++n)
+    for (uint_t n = 0; n < active_nodes_.size(); ++n)
     {
-        auto node = nodes_[n];
+        auto node = active_nodes_[n];
         uint_t node_id =  node->get_id();
         N = node->get_dim();
         auto factors = node->get_neighbour_factors();
@@ -129,6 +129,9 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
+                // Anchors are constant: they are not part of the state
+                if (node2->get_node_mode() == Node::nodeMode::ANCHOR)
+                    continue;
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
@@ -146,25 +149,25 @@ void FGraphSolveDense::calculate_gradient_hessian()
 void FGraphSolveDense::update_state()
 {
     int acc_start = 0;
-    for (uint_t i = 0; i < nodes_.size(); i++)
+    for (uint_t i = 0; i < active_nodes_.size(); i++)
     {
         // node update is the negative of dx just calculated.
         // x = x - alpha * H^(-1) * Grad = x - dx
         // Depending on the optimization, it is already taking care of the step alpha, so we assume alpha = 1
-        const auto &node_update = dx_.block(acc_start, 0, nodes_[i]->get_dim(), 1);
-        nodes_[i]->update(node_update);
+        const auto &node_update = dx_.block(acc_start, 0, active_nodes_[i]->get_dim(), 1);
+        active_nodes_[i]->update(node_update);
 
-        acc_start += nodes_[i]->get_dim();
+        acc_start += active_nodes_[i]->get_dim();
     }
 }
 void FGraphSolveDense::bookkeep_state()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_auxiliary_state(n->get_state());
 }
 void FGraphSolveDense::update_state_from_bookkeep()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_state(n->get_auxiliary_state());
 }
 
-- 
2.43.0


From a2a6fd4481bbf5a998a3974763888d2ae672b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 22/42] fix: node.cpp includes <cmath> for fmod

---
 src/FGraph/node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index c1d17a7..f904421 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -22,6 +22,7 @@
  */
 
 #include "mrob/node.hpp"
+#include <cmath>
 
 using namespace mrob;
 
-- 
2.43.0


From e8526c75bec8ae56c0340c880479e970bcbfba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 23/42] fix: Factor2Poses3d linearises differently when the
 target node was created first

---
 src/FGraph/factors/factor2Poses3d.cpp      | 33 ++++++++++++++--------
 src/FGraph/mrob/factors/factor2Poses3d.hpp |  1 +
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses3d.cpp b/src/FGraph/factors/factor2Poses3d.cpp
index 51a770d..8123a02 100644
--- a/src/FGraph/factors/factor2Poses3d.cpp
+++ b/src/FGraph/factors/factor2Poses3d.cpp
@@ -32,7 +32,7 @@ using namespace mrob;
 Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &nodeOrigin,
         std::shared_ptr<Node> &nodeTarget, const Mat6 &obsInf, bool updateNodeTarget,
         Factor::robustFactorType robust_type):
-        Factor(6,12,robust_type), Tobs_(observation), W_(obsInf)
+        Factor(6,12,robust_type), Tobs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -44,22 +44,22 @@ Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &n
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
 
-        // inverse observations to correctly modify this
-        Tobs_ = Tobs_.inv();
+        // the observation keeps its meaning (from origin we observe target), set reverse mode
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( (SE3(TxOrigin) * SE3(observation)).T() );
+        nodeTarget->set_state( TxOrigin * Tobs_.T() );
     }
 }
 
 Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &nodeOrigin,
         std::shared_ptr<Node> &nodeTarget, const Mat6 &obsInf, bool updateNodeTarget,
         Factor::robustFactorType robust_type):
-        Factor(6,12, robust_type), Tobs_(observation), W_(obsInf)
+        Factor(6,12, robust_type), Tobs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -71,15 +71,15 @@ Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &no
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
 
-        // inverse observations to correctly modify this
-        Tobs_ = Tobs_.inv();
+        // the observation keeps its meaning (from origin we observe target), set reverse mode
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( (SE3(TxOrigin) * SE3(observation)).T() );
+        nodeTarget->set_state( TxOrigin * Tobs_.T() );
     }
 }
 
@@ -91,8 +91,9 @@ void Factor2Poses3d::evaluate_residuals()
     // NOTE: We could also use the adjoint to refer the manifold coordinates obs w.r.t xo but in this case that
     // does not briung any advantage on the xo to the global frame (identity)
     // (xo reference)T_obs * T_xo  = T_xo * (global)T_obs. (rhs is what we use here)
-    Mat4 TxOrigin = get_neighbour_nodes()->at(0)->get_state();
-    Mat4 TxTarget = get_neighbour_nodes()->at(1)->get_state();
+    uint_t originIndex = reversedNodeOrder_ ? 1 : 0;
+    Mat4 TxOrigin = get_neighbour_nodes()->at(originIndex)->get_state();
+    Mat4 TxTarget = get_neighbour_nodes()->at(1 - originIndex)->get_state();
     Tr_ = SE3(TxOrigin) * Tobs_ * SE3(TxTarget).inv();
     r_ = Tr_.ln_vee();
 
@@ -100,8 +101,16 @@ void Factor2Poses3d::evaluate_residuals()
 void Factor2Poses3d::evaluate_jacobians()
 {
     // it assumes you already have evaluated residuals
-    J_.topLeftCorner<6,6>() = Mat6::Identity();
-    J_.topRightCorner<6,6>() = -Tr_.adj();
+    if (!reversedNodeOrder_)
+    {
+        J_.topLeftCorner<6,6>() = Mat6::Identity();
+        J_.topRightCorner<6,6>() = -Tr_.adj();
+    }
+    else
+    {
+        J_.topLeftCorner<6,6>() = -Tr_.adj();
+        J_.topRightCorner<6,6>() = Mat6::Identity();
+    }
 }
 
 void Factor2Poses3d::evaluate_chi2()
diff --git a/src/FGraph/mrob/factors/factor2Poses3d.hpp b/src/FGraph/mrob/factors/factor2Poses3d.hpp
index ec8bbf8..cc11419 100644
--- a/src/FGraph/mrob/factors/factor2Poses3d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses3d.hpp
@@ -106,6 +106,7 @@ class Factor2Poses3d : public Factor
     SE3 Tr_; // Residual Transformation
     Mat6 W_;//inverse of observation covariance (information matrix)
     Mat<6,12> J_;//Joint Jacobian
+    bool reversedNodeOrder_;
 
   public:
     EIGEN_MAKE_ALIGNED_OPERATOR_NEW // as proposed by Eigen
-- 
2.43.0


From adcdf5e90b4a2c969af7048a8ed364b4e4b4f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:13 +0000
Subject: [PATCH 24/42] fix: arun rejects symmetric and small point sets as
 colinear

The test compared consecutive singular values absolutely, which fails for
any point set with two equal singular values (cube, square, equilateral
triangle) or with coordinates below 1e-3, and let NaN through.
---
 src/PCRegistration/arun.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/PCRegistration/arun.cpp b/src/PCRegistration/arun.cpp
index 89af244..b31d757 100644
--- a/src/PCRegistration/arun.cpp
+++ b/src/PCRegistration/arun.cpp
@@ -42,7 +42,7 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
      *  2) calculate dispersion from centroids qx = x_i - cx
      *  3) calculate matrix H = sum qx_i * qy_i^T
      *  4) svd decomposition: H = U*D*V'
-     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
+     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are zero
      *  5) Calculate the rotation solution R = V*U'
      *      5.5) check for correct solution (det = +1) or reflection (det = -1)
      *      step 5.5 is actually unnecessary IF applying Umeyama technique
@@ -75,17 +75,10 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
                  ",\n V = " << SVD.matrixV() << std::endl;*/
 
 
-    // 4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
-    double l_prev = SVD.singularValues()(0), l;
-    for(int i =1; i < 3; ++i)
-    {
-        l = SVD.singularValues()(i);
-        if (fabs(l - l_prev) < 1e-6)
-
-            return 0; //they are co-linear, there exist infinite transformations
-        else
-            l_prev = l;//this works because we assume that they singular values are ordered.
-    }
+    // 4.5) look for co-linear solutions, that is H has rank lower than 2 (relative to its scale, also true for NaN).
+    // Equal singular values (symmetric point sets) do have a solution.
+    if (!(SVD.singularValues()(1) > 1e-10 * SVD.singularValues()(0)))
+        return 0; //they are co-linear, there exist infinite transformations
 
 
     // 5) Calculate the rotation solution R = V*U'
-- 
2.43.0


From 687117afbb164ed53b172530db3c6fbbf2194ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:27 +0000
Subject: [PATCH 25/42] fix: arrays of wrong shape are rejected instead of read
 out of bounds

The size checks of the point cloud functions and SE3::transform_array were
asserts, absent from the release builds and the Python module.
---
 src/PCRegistration/arun.cpp           | 5 +++--
 src/PCRegistration/estimate_plane.cpp | 7 +++++--
 src/PCRegistration/gicp.cpp           | 7 +++++--
 src/PCRegistration/weight_point.cpp   | 7 +++++--
 src/geometry/SE3.cpp                  | 4 +++-
 5 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/PCRegistration/arun.cpp b/src/PCRegistration/arun.cpp
index b31d757..4f54b0c 100644
--- a/src/PCRegistration/arun.cpp
+++ b/src/PCRegistration/arun.cpp
@@ -22,6 +22,7 @@
  */
 
 #include <Eigen/LU>
+#include <stdexcept>
 #include <Eigen/SVD>
 
 #include <memory>
@@ -33,9 +34,9 @@ using namespace Eigen;
 
 int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &T)
 {
-    assert(X.cols() == 3  && "PCRegistration::Arun: Incorrect sizing, we expect Nx3");
+    if (X.cols() != 3 || Y.cols() != 3 || Y.rows() != X.rows())
+        throw std::invalid_argument("PCRegistration::Arun: Incorrect sizing, we expect the same number of correspondences Nx3");
     assert(X.rows() >= 3  && "PCRegistration::Arun: Incorrect sizing, we expect at least 3 correspondences (not aligned)");
-    assert(Y.rows() == X.rows()  && "PCRegistration::Arun: Same number of correspondences");
     uint_t N = X.rows();
     /** Algorithm:
      *  1) calculate centroids cx = sum x_i. cy = sum y_i
diff --git a/src/PCRegistration/estimate_plane.cpp b/src/PCRegistration/estimate_plane.cpp
index 101d284..746c313 100644
--- a/src/PCRegistration/estimate_plane.cpp
+++ b/src/PCRegistration/estimate_plane.cpp
@@ -23,6 +23,7 @@
 
 #include "mrob/estimate_plane.hpp"
 #include <Eigen/Eigenvalues>
+#include <stdexcept>
 
 using namespace mrob;
 
@@ -31,7 +32,8 @@ Mat41 estimate_plane_centered(const Eigen::Ref<const MatX> X);
 Mat41 mrob::estimate_plane(const Eigen::Ref<const MatX> X)
 {
     // Initialization
-    assert(X.cols() == 3  && "Estimate_plane: Incorrect sizing, we expect Nx3");
+    if (X.cols() != 3)
+        throw std::invalid_argument("Estimate_plane: Incorrect sizing, we expect Nx3");
     assert(X.rows() >= 3  && "Estimate_plane: Incorrect sizing, we expect at least 3 correspondences (not aligned)");
 
     // Plane estimation, centered approach
@@ -77,7 +79,8 @@ Mat31 mrob::estimate_normal(const Eigen::Ref<const MatX> X)
 Mat31 mrob::estimate_centroid(const Eigen::Ref<const MatX> X)
 {
     // Initialization
-    assert(X.cols() == 3  && "Estimate_centroid: Incorrect sizing, we expect Nx3");
+    if (X.cols() != 3)
+        throw std::invalid_argument("Estimate_centroid: Incorrect sizing, we expect Nx3");
     assert(X.rows() >= 3  && "Estimate_centroid: Incorrect sizing, we expect at least 3 correspondences (not aligned)");
 
     uint_t N = X.rows();
diff --git a/src/PCRegistration/gicp.cpp b/src/PCRegistration/gicp.cpp
index f52a83a..674b602 100644
--- a/src/PCRegistration/gicp.cpp
+++ b/src/PCRegistration/gicp.cpp
@@ -22,6 +22,7 @@
  */
 
 #include <Eigen/LU> // for inverse and determinant
+#include <stdexcept>
 
 #include <memory>
 #include <iostream>
@@ -33,9 +34,11 @@ using namespace mrob;
 int PCRegistration::gicp(const Eigen::Ref<const MatX> X, const Eigen::Ref<const MatX> Y,
            const Eigen::Ref<const MatX> covX, const Eigen::Ref<const MatX> covY, SE3 &T, double tol)
 {
-    assert(X.cols() == 3  && "PCRegistration::Gicp: Incorrect sizing, we expect Nx3");
+    if (X.cols() != 3 || Y.cols() != 3 || Y.rows() != X.rows())
+        throw std::invalid_argument("PCRegistration::Gicp: Incorrect sizing, we expect the same number of correspondences Nx3");
+    if (covX.cols() != 3 || covY.cols() != 3 || covX.rows() != 3*X.rows() || covY.rows() != 3*X.rows())
+        throw std::invalid_argument("PCRegistration::Gicp: Incorrect sizing, we expect one 3x3 covariance per point, stacked as 3Nx3");
     assert(X.rows() >= 3  && "PCRegistration::Gicp: Incorrect sizing, we expect at least 3 correspondences (not aligned)");
-    assert(Y.rows() == X.rows()  && "PCRegistration::Gicp: Same number of correspondences");
     uint_t N = X.rows();
     // TODO precalculation of T by reduced Arun
     // TODO different number of iterations and convergence criterion
diff --git a/src/PCRegistration/weight_point.cpp b/src/PCRegistration/weight_point.cpp
index 0b97498..031dd7a 100644
--- a/src/PCRegistration/weight_point.cpp
+++ b/src/PCRegistration/weight_point.cpp
@@ -22,6 +22,7 @@
  */
 
 #include <Eigen/LU> // for inverse and determinant
+#include <stdexcept>
 
 #include <memory>
 #include <iostream>
@@ -33,9 +34,11 @@ using namespace mrob;
 int PCRegistration::weighted_point(const Eigen::Ref<const MatX> X, const Eigen::Ref<const MatX> Y,
            const Eigen::Ref<const MatX1> weight,  SE3 &T, double tol)
 {
-    assert(X.cols() == 3  && "PCRegistration::Gicp: Incorrect sizing, we expect Nx3");
+    if (X.cols() != 3 || Y.cols() != 3 || Y.rows() != X.rows())
+        throw std::invalid_argument("PCRegistration::Weighted_point: Incorrect sizing, we expect the same number of correspondences Nx3");
+    if (weight.rows() != X.rows())
+        throw std::invalid_argument("PCRegistration::Weighted_point: Incorrect sizing, we expect one weight per correspondence");
     assert(X.rows() >= 3  && "PCRegistration::Gicp: Incorrect sizing, we expect at least 3 correspondences (not aligned)");
-    assert(Y.rows() == X.rows()  && "PCRegistration::Gicp: Same number of correspondences");
     uint_t N = X.rows();
     // TODO precalculation of T by reduced Arun
 
diff --git a/src/geometry/SE3.cpp b/src/geometry/SE3.cpp
index 9966e41..3f4197e 100644
--- a/src/geometry/SE3.cpp
+++ b/src/geometry/SE3.cpp
@@ -23,6 +23,7 @@
 
 #include "mrob/SE3.hpp"
 #include <cmath>
+#include <stdexcept>
 #include <iostream>
 #include <memory>
 
@@ -203,7 +204,8 @@ Mat31 SE3::transform(const Mat31 & p) const
 
 MatX SE3::transform_array(const MatX &P) const
 {
-    assert(P.cols() == 3 && "SE3::transformArray: incorrect data structure, it is required an Nx3 input");
+    if (P.cols() != 3)
+        throw std::invalid_argument("SE3::transformArray: incorrect data structure, it is required an Nx3 input");
     uint_t N = P.rows();
     MatX res(N,3);
     for (uint_t i = 0; i < N; ++i)
-- 
2.43.0


From 23ae5f4d1d8b2f96c7d4f78496b43c1c404c2192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:29 +0000
Subject: [PATCH 26/42] fix: plane estimation loses the normal of elongated
 point sets

computeDirect() has errors of 1e-4 rad for a 100:1 planar set and returns an
unrelated normal for a 1000:1 one; use the iterative eigen solver.
---
 src/PCRegistration/estimate_plane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PCRegistration/estimate_plane.cpp b/src/PCRegistration/estimate_plane.cpp
index 746c313..e509a45 100644
--- a/src/PCRegistration/estimate_plane.cpp
+++ b/src/PCRegistration/estimate_plane.cpp
@@ -54,7 +54,7 @@ Mat41 estimate_plane_centered(const Eigen::Ref<const MatX> X)
 
 
     Eigen::SelfAdjointEigenSolver<Mat3> eigs;
-    eigs.computeDirect(C);
+    eigs.compute(C);// computeDirect() loses the normal of elongated point sets
 
     Mat31 normal = eigs.eigenvectors().col(0);
 
-- 
2.43.0


From c86772dbd8dc5b2c88b20d8c149d7cc4251a22ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:27 +0000
Subject: [PATCH 27/42] fix: points added to a Plane after its first estimation
 were ignored

---
 src/PCRegistration/plane.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index b61d2fc..9903a68 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -104,6 +104,13 @@ void Plane::push_back_point(Mat31 &point, uint_t t)
         //allPlanePoints_[t].push_back(homogeneousPoint);
         allPlanePoints_[t].push_back(point);
         ++numberPoints_;
+        // keep S up to date if it was already calculated
+        if (!matrixS_.empty())
+        {
+            Mat41 pHomog;
+            pHomog << point, 1.0;
+            matrixS_[t] += pHomog * pHomog.transpose();
+        }
     }
 }
 
-- 
2.43.0


From e86be60f902cff2435c4e110e29f95b58dd5a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:27 +0000
Subject: [PATCH 28/42] fix: Plane::clear_points left no room for observations
 and a stale count

It emptied the list of observations itself, so the next access was out of
bounds, kept the number of points and the accumulated matrices S.
---
 src/PCRegistration/plane.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 9903a68..e053f5c 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -123,7 +123,10 @@ std::vector<Mat31>& Plane::get_points(uint_t t)
 
 void Plane::clear_points()
 {
-    allPlanePoints_.clear();
+    for (auto &points : allPlanePoints_)
+        points.clear();
+    numberPoints_ = 0;
+    matrixS_.clear();
 }
 
 
-- 
2.43.0


From 6b5715066eee2276af499eab3bc117a39af2aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:27 +0000
Subject: [PATCH 29/42] fix: Plane::estimate_plane_incrementally keeps the
 replaced Q and the error

A second incremental estimation of the same time subtracted the original Q
again, and gradient and get_error() still were those before the update.
---
 src/PCRegistration/plane.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index e053f5c..2e0e18a 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -157,12 +157,14 @@ double Plane::estimate_plane()
 // Is this really used anywhere?
 double Plane::estimate_plane_incrementally(uint_t t)
 {
-    accumulatedQ_ -= matrixQ_[t];
-    accumulatedQ_ +=  trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    accumulatedQ_ -= matrixQ_.at(t);
+    matrixQ_[t] = trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    accumulatedQ_ += matrixQ_[t];
     //std::cout << "new acc Q " << accumulatedQ_ << std::endl;
     Eigen::SelfAdjointEigenSolver<Mat4> eigs(accumulatedQ_);
     planeEstimation_ = eigs.eigenvectors().col(0);
-    return eigs.eigenvalues()(0);
+    lambda_ = eigs.eigenvalues()(0);
+    return lambda_;
 }
 
 double Plane::get_error_incremental(uint_t t) const
-- 
2.43.0


From 0baad5b9ad7723ff5f2eeeb85cf74140b360908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:27 +0000
Subject: [PATCH 30/42] fix: Plane time indices are checked instead of read out
 of bounds

Also for calls before the first estimation, when S and Q do not exist yet.
---
 src/PCRegistration/mrob/plane.hpp |  2 +-
 src/PCRegistration/plane.cpp      | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/PCRegistration/mrob/plane.hpp b/src/PCRegistration/mrob/plane.hpp
index 4262842..64a0f10 100644
--- a/src/PCRegistration/mrob/plane.hpp
+++ b/src/PCRegistration/mrob/plane.hpp
@@ -55,7 +55,7 @@ class Plane{
      */
     void push_back_point(Mat31 &point, uint_t t);
     std::vector<Mat31>& get_points(uint_t t);
-    uint_t get_number_points(uint_t t) {return allPlanePoints_[t].size();};
+    uint_t get_number_points(uint_t t) {return allPlanePoints_.at(t).size();};
     uint_t get_total_number_points() {return numberPoints_;};
     void clear_points();
     void set_trajectory(const std::shared_ptr<const std::vector<SE3>> &trajectory) {trajectory_ = trajectory;};
diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 2e0e18a..c45dfe4 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -171,7 +171,7 @@ double Plane::get_error_incremental(uint_t t) const
 {
     Mat4 Q = accumulatedQ_;
     //std::cout << "accumulated Q from prev version " << accumulatedQ_ << std::endl;
-    Q -= matrixQ_[t];
+    Q -= matrixQ_.at(t);
     //std::cout << "substract: Q " << Q << std::endl;
     Q +=  trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
     //std::cout << "new acc Q " << Q << std::endl;
@@ -201,8 +201,8 @@ void Plane::calculate_all_matrices_S(bool reset)
 
 Mat31 Plane::get_mean_point(uint_t t)
 {
-    assert(!matrixS_.empty() && "Plane::get_mean_point: S matrix empty");
-    return matrixS_[t].topRightCorner<3,1>()/matrixS_[t](3,3);
+    calculate_all_matrices_S();// if not done yet
+    return matrixS_.at(t).topRightCorner<3,1>()/matrixS_[t](3,3);
 }
 
 void Plane::calculate_all_matrices_Q()
@@ -222,7 +222,7 @@ Mat61 Plane::calculate_gradient(uint_t t)
     gradQ_.clear();//used for Hessian, we bookeep all calculated gradients
 
     // calculate dQ/dxi for the submatrix S
-    Mat4 dQ, &Q = matrixQ_[t];
+    Mat4 dQ, &Q = matrixQ_.at(t);
 
     // dQ / d xi(0) = [0
     //               -q3
@@ -294,7 +294,7 @@ Mat61 Plane::calculate_gradient(uint_t t)
 Mat6 Plane::calculate_hessian(uint_t t)
 {
     Mat6 hessian = Mat6::Zero();
-    Mat4 ddQ, &Q = matrixQ_[t];
+    Mat4 ddQ, &Q = matrixQ_.at(t);
 
     // H = pi' * dd Q * pi, where dd Q = Bij + Bij' and
     // Bij = (Gi*Gj + Gj*Gi)Q*0.5 + Gi * dQ (previous gradient)
-- 
2.43.0


From 317bb4e6b9cc04213c3d5230c7f21c83a206dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:41 +0000
Subject: [PATCH 31/42] fix: solve_initialize pairs wrong planes when one is
 not observed at the first pose

---
 src/PCRegistration/plane_registration.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 552285a..02119e0 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -250,17 +250,9 @@ uint_t PlaneRegistration::solve_quaternion_plane()
 
 uint_t PlaneRegistration::solve_initialize()
 {
-    // Initialize matrices of , all points in the Y matrix
-    std::vector<Mat31> Y_points_all;
-    Y_points_all.reserve(numberPlanes_);
-
-    // update data structure for init. All point in the fist pose
+    // update data structure for init
     for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
-    {
         it->second->calculate_all_matrices_S();
-        if (it->second->get_number_points(0) > 0 )
-            Y_points_all.push_back(it->second->get_mean_point(0));
-    }
 
     uint_t t = 0;
     // create points Y,X, for t = 1, ... T, minimum 3 planes per pose
@@ -274,16 +266,15 @@ uint_t PlaneRegistration::solve_initialize()
         X_points.clear();
         Y_points.clear();
         number_points = 0;
-        uint_t cont =0;
         for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
         {
-            if (it->second->get_number_points(t) > 0 )
+            // only planes observed both at the first pose and at t provide a correspondence
+            if (it->second->get_number_points(0) > 0 && it->second->get_number_points(t) > 0 )
             {
                 X_points.push_back(it->second->get_mean_point(t));
-                Y_points.push_back(Y_points_all[cont]);
+                Y_points.push_back(it->second->get_mean_point(0));
                 number_points++;
             }
-            cont++;
         }
         // Create the matrices X,Y
         MatX X(number_points,3), Y(number_points,3);
-- 
2.43.0


From e57b222f86da2ac75da286bce21b4357929adb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:41 +0000
Subject: [PATCH 32/42] fix: gradient plane registration divides by zero at
 poses without observations

---
 src/PCRegistration/plane_registration.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 02119e0..920822b 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -160,6 +160,9 @@ uint_t PlaneRegistration::solve_interpolate_gradient(bool singleIteration)
                 jacobian += it->second->calculate_gradient(t);
                 numberPoints += it->second->get_number_points(t);
             }
+            // a pose without observations has no gradient
+            if (numberPoints == 0.0)
+                continue;
             // XXX this could be changed to time stamps later
             accumulatedJacobian +=  (tau *  t  / numberPoints / numberPoses_) * jacobian;
 
@@ -214,23 +217,24 @@ uint_t PlaneRegistration::solve_gradient_all_poses(bool singleIteration)
 
         // 2) calculate Gradient
         MatX1 jacobian = MatX1::Zero(numberPoses_*6);
-        double  numberPoints; //, tau = 1.0 / (double)(numberPoses_-1);
+        MatX1 numberPoints = MatX1::Zero(numberPoses_); //, tau = 1.0 / (double)(numberPoses_-1);
         for (uint_t t = 1 ; t < numberPoses_; ++t)
         {
-            numberPoints = 0.0;
             for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
             {
                 jacobian.segment<6>(t*6) += it->second->calculate_gradient(t);
-                numberPoints += it->second->get_number_points(t);
+                numberPoints(t) += it->second->get_number_points(t);
             }
 
         }
         // 3) update results Tf = exp(-dxi) * Tf (our convention, we expanded from the left)
         // 3-1)
-        Mat61 dxi;
         for (uint_t t = 1 ; t < numberPoses_; ++t)
         {
-            Mat61 dxi = -(alpha_ / numberPoints / numberPoses_ )*jacobian.segment<6>(t*6);
+            // a pose without observations has no gradient
+            if (numberPoints(t) == 0.0)
+                continue;
+            Mat61 dxi = -(alpha_ / numberPoints(t) / numberPoses_ )*jacobian.segment<6>(t*6);
             trajectory_->at(t).update_lhs(dxi);
         }
         ++solveIters_;
-- 
2.43.0


From 3e80e41bf869a2d2e123172ba4f3f82b48d9544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:41 +0000
Subject: [PATCH 33/42] fix: GRADIENT_ALL_POSES ignores singleIteration

---
 src/PCRegistration/plane_registration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 920822b..30f60ed 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -92,7 +92,7 @@ uint_t PlaneRegistration::solve(SolveMode mode, bool singleIteration)
             return solve_initialize();
         case SolveMode::GRADIENT_ALL_POSES:
             time_profiles_.start();
-            solve_gradient_all_poses();
+            solve_gradient_all_poses(singleIteration);
             time_profiles_.stop();
             break;
         case SolveMode::GRADIENT_BENGIOS_NAG:
-- 
2.43.0


From 6c7d21cb5ecde475d4a9ab525ed5de6f6cc8d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:41 +0000
Subject: [PATCH 34/42] fix: print_evaluate writes out of bounds with added
 planes and reads an unset Hessian

---
 src/PCRegistration/plane_registration.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 30f60ed..c0792e2 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -42,6 +42,8 @@ PlaneRegistration::PlaneRegistration():
     // Optmizer does not establish the size for this matrices and thus it is required
     gradient_.resize(6);
     hessian_.resize(6,6);
+    gradient__.setZero();
+    hessian__.setZero();
 }
 
 
@@ -411,8 +413,8 @@ std::vector<double> PlaneRegistration::print_evaluate()
     result[5] = initial_error_/k;
     result[6] = get_current_error()/k; //TODO this does not work for GN (but yes to GN ini...)
 
-    MatX allPlanes(numberPlanes_,4);
-    MatX allNormals(numberPlanes_,3);
+    MatX allPlanes(planes_.size(),4);
+    MatX allNormals(planes_.size(),3);
     uint_t i = 0;
 
 
-- 
2.43.0


From 5cd38037a19f5f6fb1d26a14d94562e5bc5b3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:41 +0000
Subject: [PATCH 35/42] fix: CreatePoints rounds plane ids in single precision,
 out of range for many points

---
 src/PCRegistration/create_points.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/create_points.cpp b/src/PCRegistration/create_points.cpp
index f27a0dc..32462ea 100644
--- a/src/PCRegistration/create_points.cpp
+++ b/src/PCRegistration/create_points.cpp
@@ -25,6 +25,7 @@
 #include "mrob/create_points.hpp"
 
 #include <chrono>
+#include <cstdint>
 #include <cassert>
 #include <iostream>
 #include <cmath>
@@ -179,7 +180,7 @@ CreatePoints::CreatePoints(uint_t numberPoints, uint_t numberPlanes, uint_t numb
         for (uint_t i = 0; i < numberPoints_ ; ++i)
         {
             // parameter is the length of the observed plane
-            uint_t planeId = std::floor((float)i * (float)numberPlanes_/ (float)numberPoints_);
+            uint_t planeId = (uint64_t)i * numberPlanes_ / numberPoints_;
             Mat31 point = planePoses_[planeId].transform( samplePoints_.samplePoint() );
             point = transInvPose.transform(point);
             X_[t].push_back( point );//XXX this should go away, only PC on planes
-- 
2.43.0


From e58a5a02dd3cb87c8b4dfee40db70adc9f01d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:41 +0000
Subject: [PATCH 36/42] fix: CreatePoints time indices are checked instead of
 read out of bounds

---
 src/PCRegistration/create_points.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/create_points.cpp b/src/PCRegistration/create_points.cpp
index 32462ea..d6fc5bd 100644
--- a/src/PCRegistration/create_points.cpp
+++ b/src/PCRegistration/create_points.cpp
@@ -209,13 +209,13 @@ void CreatePoints::create_plane_registration(PlaneRegistration& planeReg)
 std::vector<Mat31>& CreatePoints::get_point_cloud(uint_t t)
 {
     assert(t < numberPoses_ && "CreatePoints::getPointCloud: temporal index larger than number of calculated poses\n");
-    return X_[t];
+    return X_.at(t);
 }
 
 std::vector<uint_t>& CreatePoints::get_point_plane_ids(uint_t t)
 {
     assert(t < numberPoses_ && "CreatePoints::get_plane_id: temporal index larger than number of calculated poses\n");
-    return pointId_[t];
+    return pointId_.at(t);
 }
 
 SE3 CreatePoints::get_ground_truth_pose(uint_t i)
-- 
2.43.0


From da549857a2ebca8cccd0f0f559df0113bdc64b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:05 +0000
Subject: [PATCH 37/42] fix: solve_interpolate_gradient applies an
 uninitialised increment in other solve modes

---
 src/PCRegistration/plane_registration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index c0792e2..8c02c19 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -171,7 +171,7 @@ uint_t PlaneRegistration::solve_interpolate_gradient(bool singleIteration)
         }
         // 3) update results Tf = exp(-dxi) * Tf (our convention, we expanded from the left)
         // 3-1)
-        Mat61 dxi, xiFinal;
+        Mat61 dxi = Mat61::Zero(), xiFinal;
         if (solveMode_ == SolveMode::GRADIENT)
         {
             double alpha = alpha_;
-- 
2.43.0


From aa3f3160de49a9da084a8133de946ddc65309bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:06 +0000
Subject: [PATCH 38/42] fix: noise-free scenes construct normal distributions
 of zero deviation

---
 src/PCRegistration/create_points.cpp      | 8 ++++----
 src/PCRegistration/mrob/create_points.hpp | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/PCRegistration/create_points.cpp b/src/PCRegistration/create_points.cpp
index d6fc5bd..3f6ab61 100644
--- a/src/PCRegistration/create_points.cpp
+++ b/src/PCRegistration/create_points.cpp
@@ -81,7 +81,7 @@ SO3 SampleUniformSE3::sampleOrientation()
 }
 
 SamplePlanarSurface::SamplePlanarSurface(double zStd, double biasStd):
-        x_(-1.0,1.0), y_(-1.0,1.0), z_(0.0,zStd), bias_(0.0,biasStd)
+        x_(-1.0,1.0), y_(-1.0,1.0), z_(0.0,1.0), bias_(0.0,1.0), zStd_(zStd), biasStd_(biasStd)
 {
     assert(zStd >= 0.0 && "\nSamplePlanarSurface::SamplePlanarSurfaceincorrect z bounds");
     auto seed = std::chrono::system_clock::now().time_since_epoch().count();
@@ -94,13 +94,13 @@ SamplePlanarSurface::~SamplePlanarSurface()
 
 void SamplePlanarSurface::sampleBias()
 {
-    xBias_ = bias_(generator_);
-    yBias_ = bias_(generator_);
+    xBias_ = biasStd_ * bias_(generator_);
+    yBias_ = biasStd_ * bias_(generator_);
 }
 
 Mat31 SamplePlanarSurface::samplePoint()
 {
-    return Mat31(x_(generator_) + xBias_, y_(generator_) + yBias_, z_(generator_) );
+    return Mat31(x_(generator_) + xBias_, y_(generator_) + yBias_, zStd_ * z_(generator_) );
 }
 
 CreatePoints::CreatePoints(uint_t numberPoints, uint_t numberPlanes, uint_t numberPoses,
diff --git a/src/PCRegistration/mrob/create_points.hpp b/src/PCRegistration/mrob/create_points.hpp
index f8a283a..6112bdc 100644
--- a/src/PCRegistration/mrob/create_points.hpp
+++ b/src/PCRegistration/mrob/create_points.hpp
@@ -74,7 +74,8 @@ class SamplePlanarSurface{
   protected:
     std::default_random_engine generator_;
     std::uniform_real_distribution<double> x_, y_;
-    std::normal_distribution<double> z_, bias_;
+    std::normal_distribution<double> z_, bias_;// unit deviation, a zero one is not allowed
+    double zStd_, biasStd_;
     double xBias_ {}, yBias_ {};
 };
 
-- 
2.43.0


From d157ab1356b5209fe581f3296630559bb1cb5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:03 +0000
Subject: [PATCH 39/42] fix: Plane::clear_points keeps the matrices S in step
 with the observation times

---
 src/PCRegistration/plane.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index c45dfe4..7b52e72 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -126,7 +126,9 @@ void Plane::clear_points()
     for (auto &points : allPlanePoints_)
         points.clear();
     numberPoints_ = 0;
-    matrixS_.clear();
+    // the matrices S already calculated are now those of no points
+    for (Mat4 &S : matrixS_)
+        S.setZero();
 }
 
 
-- 
2.43.0


From 02314462042b9a5987a70d2bda5303fab3b988fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:24 +0000
Subject: [PATCH 40/42] fix: factors expose uninitialised residuals and
 Jacobians before their first evaluation

---
 src/FGraph/mrob/factors/factor1Pose1Landmark2d.hpp         | 2 +-
 src/FGraph/mrob/factors/factor1Pose1Landmark3d.hpp         | 4 ++--
 src/FGraph/mrob/factors/factor1Pose1Plane4d.hpp            | 4 ++--
 src/FGraph/mrob/factors/factor1Pose2d.hpp                  | 2 +-
 src/FGraph/mrob/factors/factor1Pose3d.hpp                  | 2 +-
 src/FGraph/mrob/factors/factor2Poses2d.hpp                 | 4 ++--
 src/FGraph/mrob/factors/factor2Poses3d.hpp                 | 4 ++--
 src/PCRegistration/mrob/factors/factor1PosePoint2Plane.hpp | 2 +-
 8 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/FGraph/mrob/factors/factor1Pose1Landmark2d.hpp b/src/FGraph/mrob/factors/factor1Pose1Landmark2d.hpp
index 14b5622..7bdd4f8 100644
--- a/src/FGraph/mrob/factors/factor1Pose1Landmark2d.hpp
+++ b/src/FGraph/mrob/factors/factor1Pose1Landmark2d.hpp
@@ -87,7 +87,7 @@ class Factor1Pose1Landmark2d : public Factor
     Mat31 state_;
     matData_t dx_, dy_, q_; // increments from pose to landmark (x,y) and q squared L2 distance
     Mat2 W_;//inverse of observation covariance (information matrix)
-    Mat<2,5> J_;//Joint Jacobian, Block will depend on order
+    Mat<2,5> J_ = Mat<2,5>::Zero();//Joint Jacobian, Block will depend on order
     bool reversedNodeOrder_;//flag to keep order when building the adjacency matrix. This should be transparent for the user
 
   public:
diff --git a/src/FGraph/mrob/factors/factor1Pose1Landmark3d.hpp b/src/FGraph/mrob/factors/factor1Pose1Landmark3d.hpp
index 8141b20..da1e8db 100644
--- a/src/FGraph/mrob/factors/factor1Pose1Landmark3d.hpp
+++ b/src/FGraph/mrob/factors/factor1Pose1Landmark3d.hpp
@@ -87,10 +87,10 @@ class Factor1Pose1Landmark3d : public Factor
     const Eigen::Ref<const MatX> get_jacobian() const {return J_;};
 
   protected:
-    Mat31 obs_, r_, landmark_;
+    Mat31 obs_, r_ = Mat31::Zero(), landmark_ = Mat31::Zero();
     SE3 Tinv_;
     Mat3 W_;//inverse of observation covariance (information matrix)
-    Mat<3,9> J_;//Joint Jacobian
+    Mat<3,9> J_ = Mat<3,9>::Zero();//Joint Jacobian
     bool reversedNodeOrder_;//flag to keep order when building the adjacency matrix. This should be transparent for the user
 
   public:
diff --git a/src/FGraph/mrob/factors/factor1Pose1Plane4d.hpp b/src/FGraph/mrob/factors/factor1Pose1Plane4d.hpp
index a9d1f53..e42b1b2 100644
--- a/src/FGraph/mrob/factors/factor1Pose1Plane4d.hpp
+++ b/src/FGraph/mrob/factors/factor1Pose1Plane4d.hpp
@@ -64,8 +64,8 @@ class Factor1Pose1Plane4d : public Factor
 
 
   private:
-    Mat41 obs_, r_; //residuals
-    Mat<4,10> J_;//Jacobians dimensions obs x [plane(4) + pose(6)]
+    Mat41 obs_, r_ = Mat41::Zero(); //residuals
+    Mat<4,10> J_ = Mat<4,10>::Zero();//Jacobians dimensions obs x [plane(4) + pose(6)]
     Mat4 W_;//inverse of observation covariance (information matrix)
     bool reversedNodeOrder_;
     // intermediate variables to keep
diff --git a/src/FGraph/mrob/factors/factor1Pose2d.hpp b/src/FGraph/mrob/factors/factor1Pose2d.hpp
index 412f3af..f8ea62a 100644
--- a/src/FGraph/mrob/factors/factor1Pose2d.hpp
+++ b/src/FGraph/mrob/factors/factor1Pose2d.hpp
@@ -61,7 +61,7 @@ namespace mrob{
         const Eigen::Ref<const MatX> get_jacobian() const {return J_;};
 
     protected:
-        Mat31 obs_, r_; //and residuals
+        Mat31 obs_, r_ = Mat31::Zero(); //and residuals
         Mat3 W_;//inverse of observation covariance (information matrix)
         Mat3 J_;//Jacobian
     };
diff --git a/src/FGraph/mrob/factors/factor1Pose3d.hpp b/src/FGraph/mrob/factors/factor1Pose3d.hpp
index a2c8216..22374e2 100644
--- a/src/FGraph/mrob/factors/factor1Pose3d.hpp
+++ b/src/FGraph/mrob/factors/factor1Pose3d.hpp
@@ -65,7 +65,7 @@ class Factor1Pose3d : public Factor
 
 
   protected:
-    Mat61 r_; //and residuals
+    Mat61 r_ = Mat61::Zero(); //and residuals
     SE3 Tobs_, Tr_;//Transformation for the observation and the residual
     Mat6 W_;//inverse of observation covariance (information matrix)
     Mat6 J_;//Jacobian
diff --git a/src/FGraph/mrob/factors/factor2Poses2d.hpp b/src/FGraph/mrob/factors/factor2Poses2d.hpp
index 1f1ecec..d679d1f 100644
--- a/src/FGraph/mrob/factors/factor2Poses2d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses2d.hpp
@@ -71,9 +71,9 @@ namespace mrob{
         // The Jacobian's correspondent nodes are ordered on the vector<Node>
         // being [0]->J1 and [1]->J2
         // declared here but initialized on child classes
-        Mat31 obs_, r_; //and residuals
+        Mat31 obs_, r_ = Mat31::Zero(); //and residuals
         Mat3 W_;//inverse of observation covariance (information matrix)
-        Mat<3,6> J_;
+        Mat<3,6> J_ = Mat<3,6>::Zero();
         bool reversedNodeOrder_;//Joint Jacobian
 
     public:
diff --git a/src/FGraph/mrob/factors/factor2Poses3d.hpp b/src/FGraph/mrob/factors/factor2Poses3d.hpp
index cc11419..30bf10f 100644
--- a/src/FGraph/mrob/factors/factor2Poses3d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses3d.hpp
@@ -102,10 +102,10 @@ class Factor2Poses3d : public Factor
     // being [0]->J_origin and [1]->J_target
     // declared here but initialized on child classes
     SE3 Tobs_; // Transformation from observation. NOTE: In Xorigin frame
-    Mat61 r_; //and residuals
+    Mat61 r_ = Mat61::Zero(); //and residuals
     SE3 Tr_; // Residual Transformation
     Mat6 W_;//inverse of observation covariance (information matrix)
-    Mat<6,12> J_;//Joint Jacobian
+    Mat<6,12> J_ = Mat<6,12>::Zero();//Joint Jacobian
     bool reversedNodeOrder_;
 
   public:
diff --git a/src/PCRegistration/mrob/factors/factor1PosePoint2Plane.hpp b/src/PCRegistration/mrob/factors/factor1PosePoint2Plane.hpp
index e311863..9532f4a 100644
--- a/src/PCRegistration/mrob/factors/factor1PosePoint2Plane.hpp
+++ b/src/PCRegistration/mrob/factors/factor1PosePoint2Plane.hpp
@@ -85,7 +85,7 @@ class Factor1PosePoint2Plane: public Factor
     // the residual of the point projected to the plane:
     Mat1 r_;//residual, for convention, we will keep an eigen object for the scalar
     Mat1 W_;
-    Mat<1,6> J_;
+    Mat<1,6> J_ = Mat<1,6>::Zero();
 };
 
 }
-- 
2.43.0


From 343445e4d1847439f9c13e514632e1e1c557fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:24 +0000
Subject: [PATCH 41/42] fix: Gauss-Newton on a singular system updates the
 states with uninitialised memory

---
 src/FGraph/factor_graph_solve.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index 8d757c0..9bc3e21 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -132,7 +132,14 @@ void FGraphSolve::optimize_gauss_newton(bool useLambda)
     cholesky.compute(L_);
     time_profiles_.stop("Gauss Newton create Cholesky");
     time_profiles_.start();
-    dx_ = cholesky.solve(b_);
+    if (cholesky.info() == Eigen::Success)
+        dx_ = cholesky.solve(b_);
+    else
+    {
+        // the factorization stopped at a singular pivot, the rest of it is not initialised
+        std::cout << "FGraphSolve::optimize_gauss_newton: singular system, states are not updated" << std::endl;
+        dx_ = MatX1::Zero(N_);
+    }
     time_profiles_.stop("Gauss Newton solve Cholesky");
 
 }
-- 
2.43.0


From fe1b9d029ca5c2a0cbd600ce7bc989a706ae1567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:22 +0000
Subject: [PATCH 42/42] fix: plane observations given with a negative distance
 never had a zero residual

---
 src/FGraph/factors/factor1Pose1Plane4d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FGraph/factors/factor1Pose1Plane4d.cpp b/src/FGraph/factors/factor1Pose1Plane4d.cpp
index 6ec8057..2dbc7b9 100644
--- a/src/FGraph/factors/factor1Pose1Plane4d.cpp
+++ b/src/FGraph/factors/factor1Pose1Plane4d.cpp
@@ -35,6 +35,9 @@ Factor1Pose1Plane4d::Factor1Pose1Plane4d(const Mat41 &observation, std::shared_p
 {
     // ensure that plane 4d, normal \in P2 and distance \in R
     obs_.head(3).normalize();
+    // all observations have d > 0 (see evaluate_residuals), (n,d) and (-n,-d) are the same plane
+    if (obs_(3) < 0.0)
+        obs_ = -obs_;
     // To preserve the order when building the Adjacency matrix
     if (nodePose->get_id() < nodePlane->get_id())
     {
-- 
2.43.0

