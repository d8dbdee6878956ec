From dc35693ad805118df2c146f42374ed2a9af7438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 01/19] fix: column map of the constraint matrix on a rank that
 owns no particle

---
 Constraint/ConstraintCollector.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Constraint/ConstraintCollector.cpp b/Constraint/ConstraintCollector.cpp
index 47b234b..120ef46 100644
--- a/Constraint/ConstraintCollector.cpp
+++ b/Constraint/ConstraintCollector.cpp
@@ -346,10 +346,12 @@ int ConstraintCollector::buildConstraintMatrixVector(const Teuchos::RCP<const TM
     // 3.1 column map has to cover the contiguous range of the mobility map locally owned
     const int mobMin = mobMapRcp->getMinGlobalIndex();
     const int mobMax = mobMapRcp->getMaxGlobalIndex();
-    std::vector<int> colMapIndex(mobMax - mobMin + 1);
+    // min/max are not valid indices if this rank owns nothing, so count by local size
+    const int mobLocalSize = mobMapRcp->getNodeNumElements();
+    std::vector<int> colMapIndex(mobLocalSize);
 #pragma omp parallel for
-    for (int i = mobMin; i <= mobMax; i++) {
-        colMapIndex[i - mobMin] = i;
+    for (int i = 0; i < mobLocalSize; i++) {
+        colMapIndex[i] = mobMin + i;
     }
     // this is the list of the columns that have nnz entries
     // if the column index is out of [mobMinLID, mobMaxLID], add it to the map
-- 
2.43.0


From 721462a0db50650812575111f8c423b5cb5cd792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 02/19] fix: APGD does not end on an empty problem or with an
 all-one initial guess

---
 Constraint/BCQPSolver.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index c05f0f7..61acef7 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -257,7 +257,8 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
 
     // allocate vectors
     Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy
-    Teuchos::RCP<TV> ykRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, yk=xk
+    boundProjection(xkRcp);                                                 // start from a feasible point
+    Teuchos::RCP<TV> ykRcp = Teuchos::rcp(new TV(*xkRcp, Teuchos::Copy));   // deep copy, yk=xk
 
     Teuchos::RCP<TV> xkp1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
     Teuchos::RCP<TV> ykp1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
@@ -266,6 +267,18 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
 
     Teuchos::RCP<TV> tempVecRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // temporary result holder
 
+    // check if initial guess works (always the case for an empty problem)
+    Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
+    ARcp->apply(*xkRcp, *AxbRcp);
+    mvCount++;
+    gVecRcp->update(1.0, *bRcp, 1.0, *AxbRcp, 0.0);
+    double resmin = fabs(checkProjectionResidual(xkRcp, gVecRcp, tempVecRcp));
+    history.push_back(std::array<double, 6>{{0, 0, 0, 0, resmin, 1.0 * mvCount}});
+    if (resmin < tol) {
+        xsolRcp = xkRcp;
+        return 0;
+    }
+
     Teuchos::RCP<TV> xhatkRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
     xhatkRcp->putScalar(1.0);
 
@@ -280,17 +293,19 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
 
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
-    double Lk = (tempNorm2 / xkdiffNorm2);
+    double Lk = 1.0; // no estimate available if xk is the probe vector, or A is zero along xkdiff
+    if (tempNorm2 > 0 && xkdiffNorm2 > 0) {
+        Lk = tempNorm2 / xkdiffNorm2;
+    }
     double tk = 1.0 / Lk;
 
-    Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
     Teuchos::RCP<TV> Axbkp1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
 
-    history.push_back(std::array<double, 6>{{0, 0, 0, tk, 0, 1.0 * mvCount}});
+    // the best solution so far
+    xhatkRcp->update(1.0, *xkRcp, 0.0);
 
     // enter main loop
     int iteCount = 0;
-    double resmin = std::numeric_limits<double>::max();
     bool stagFlag = false;
 
     while (iteCount < iteMax) {
@@ -371,7 +386,7 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
         }
 
         // line 29-30, Mazhar, 2015
-        Lk *= 0.9;
+        Lk = std::max(0.9 * Lk, std::numeric_limits<double>::min());
         tk = 1 / Lk;
 
         // next iteration
-- 
2.43.0


From 0f66205e653f5b4389a0058f03e5af7800dd2a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 03/19] fix: BBPGD returns its last iterate, and a feasible one

---
 Constraint/BCQPSolver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 61acef7..c0c9042 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -141,8 +141,9 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     spdlog::debug("solving APGD");
     spdlog::debug("Constraint operator ARcp is "+ ARcp->description());
 
-    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy));   // deep copy, xk=x0
-    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xkm1=x0
+    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xk=x0
+    boundProjection(xkRcp);                                                 // start from a feasible point
+    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xkRcp, Teuchos::Copy)); // deep copy, xkm1=x0
 
     Teuchos::RCP<TV> gradkRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));   // the grad vector
     Teuchos::RCP<TV> gradkm1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // the grad vector
@@ -232,6 +233,10 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
             break;
         }
 
+        if (iteCount == iteMax) {
+            break; // the last iterate stays in xk
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
-- 
2.43.0


From 1c40e1183463eae0205ba35587d7d18ec2a1e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 04/19] fix: constraint force and velocity are those of the
 returned solution

---
 Constraint/ConstraintSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Constraint/ConstraintSolver.cpp b/Constraint/ConstraintSolver.cpp
index d03baff..b0de4d2 100644
--- a/Constraint/ConstraintSolver.cpp
+++ b/Constraint/ConstraintSolver.cpp
@@ -98,8 +98,11 @@ void ConstraintSolver::solveConstraints() {
     DMatRcp->apply(*gammaBiRcp, *forcebRcp);
     mobOpRcp->apply(*forcebRcp, *velbRcp);
     // unilateral second
+    // the working vectors of the operator hold the last iterate, not always the solution
     Teuchos::RCP<TV> forceRcp = MOpRcp->getForce();
     Teuchos::RCP<TV> velRcp = MOpRcp->getVel();
+    DMatRcp->apply(*gammaRcp, *forceRcp);
+    mobOpRcp->apply(*forceRcp, *velRcp);
     forceuRcp->update(1.0, *forceRcp, -1.0, *forcebRcp, 0.0); // force_u = force - force_b
     veluRcp->update(1.0, *velRcp, -1.0, *velbRcp, 0.0);       // vel_u = vel - vel_b
 }
-- 
2.43.0


From 6a01561f998521c0ad723977651d298efea09d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 05/19] fix: snapshot interval one step short when timeSnap/dt
 is rounded down

---
 Sylinder/SylinderSystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index a95ae57..8c154a2 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -880,7 +880,9 @@ void SylinderSystem::updateSylinderMap() {
 }
 
 bool SylinderSystem::getIfWriteResultCurrentStep() {
-    return (stepCount % static_cast<int>(runConfig.timeSnap / runConfig.dt) == 0);
+    // the ratio may be rounded to just below the intended integer
+    const int every = static_cast<int>(runConfig.timeSnap / runConfig.dt + 1e-6);
+    return (stepCount % std::max(every, 1) == 0);
 }
 
 void SylinderSystem::prepareStep() {
-- 
2.43.0


From 1437126f15bf4fcd7e9a68ab15df46fc262472a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 06/19] fix: bounding box of particles with negative
 coordinates

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 8c154a2..6d56396 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1180,7 +1180,7 @@ void SylinderSystem::calcBoundingBox(double localLow[3], double localHigh[3], do
     double lx, ly, lz;
     lx = ly = lz = std::numeric_limits<double>::max();
     double hx, hy, hz;
-    hx = hy = hz = std::numeric_limits<double>::min();
+    hx = hy = hz = std::numeric_limits<double>::lowest();
 
     for (int i = 0; i < nLocal; i++) {
         const auto &sy = sylinderContainer[i];
-- 
2.43.0


From d0e60fae3a6a594bf66015bc62954f37d07b6b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 07/19] fix: search radius does not cover the collision radius

---
 Sylinder/SylinderNear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderNear.hpp b/Sylinder/SylinderNear.hpp
index a8c3959..383cc3d 100644
--- a/Sylinder/SylinderNear.hpp
+++ b/Sylinder/SylinderNear.hpp
@@ -106,7 +106,7 @@ struct SylinderNearEP {
      * @return PS::F64
      */
     PS::F64 getRSearch() const {
-        return std::max(length + 2 * radius, lengthCollision + 2 * lengthCollision) * (1 + colBuf);
+        return std::max(length + 2 * radius, lengthCollision + 2 * radiusCollision) * (1 + colBuf);
     }
 
     /**
-- 
2.43.0


From d56ea581a8a1ab205ff4bbdbe07f55ffb4cda586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 08/19] fix: boundary contact distance of short sylinders
 treated as spheres

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 6d56396..7c1effd 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1125,7 +1125,7 @@ void SylinderSystem::collectBoundaryCollision() {
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
                     } else if (deltanorm <
-                               (1 + runConfig.sylinderColBuf * 2) * sy.radiusCollision) { // inside boundary but close
+                               (1 + runConfig.sylinderColBuf * 2) * radius) { // inside boundary but close
                         que.emplace_back(deltanorm - radius, 0, sy.gid, sy.gid, sy.globalIndex, sy.globalIndex,
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
-- 
2.43.0


From 1459cd7555fe77b55b1d77f57cdfa0ad49023667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 09/19] fix: periodic image of a tiny negative offset is the
 excluded upper bound

---
 Util/GeoUtil.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Util/GeoUtil.hpp b/Util/GeoUtil.hpp
index 6247f85..427b199 100644
--- a/Util/GeoUtil.hpp
+++ b/Util/GeoUtil.hpp
@@ -32,6 +32,9 @@ inline void findPBCImage(const Real &lb, const Real &ub, Real &x) {
     while (x < lb) {
         x += L;
     }
+    if (x >= ub) { // x + L rounded up
+        x = lb;
+    }
 }
 
 /**
-- 
2.43.0


From 81cf331b63e563c6be6884820818b401c73fc581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 10/19] fix: Brownian motion leaves the plane of a monolayer

---
 Sylinder/SylinderSystem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 7c1effd..cdbb141 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -793,6 +793,8 @@ void SylinderSystem::calcVelocityNonCon() {
                 velBPtr(6 * i + 2, 0) = 0; // vz
                 velBPtr(6 * i + 3, 0) = 0; // omegax
                 velBPtr(6 * i + 4, 0) = 0; // omegay
+                auto &sy = sylinderContainer[i];
+                sy.velBrown[2] = sy.omegaBrown[0] = sy.omegaBrown[1] = 0;
             }
         }
         velocityNonConRcp->update(1.0, *velocityBrownRcp, 1.0);
-- 
2.43.0


From 2ebc4b7dc00a8ee95781a865567bda5d9e7c7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 11/19] fix: boundary projection has no direction on the
 boundary, at the center and on the axis

---
 Boundary/Boundary.cpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/Boundary/Boundary.cpp b/Boundary/Boundary.cpp
index 4a6fc87..a7bc907 100644
--- a/Boundary/Boundary.cpp
+++ b/Boundary/Boundary.cpp
@@ -4,6 +4,9 @@
 #include <limits>
 constexpr double eps = std::numeric_limits<double>::epsilon() * 1e4;
 
+// length of delta for a point on the boundary, so that its direction is always defined
+constexpr double minDelta = 1e-100;
+
 /************************************************************
  *
  *     spherical shell
@@ -24,12 +27,12 @@ void SphereShell::initialize(const YAML::Node &config) {
 void SphereShell::project(const double query[3], double project[3], double delta[3]) const {
     Evec3 Query = ECmap3(query) - ECmap3(center); // center to query
     double QueryR = Query.norm();
-    Evec3 Proj = radius * (1 / QueryR) * Query; // radius * norm direction of Query
-    Evec3 PQ = Query - Proj;
-    bool out = QueryR > radius;
-    if ((inside && out) || (!inside && !out)) {
-        PQ *= -1;
+    Evec3 direction = Evec3(0, 0, 1); // any direction for a point at the center
+    if (QueryR > 0) {
+        direction = Query / QueryR;
     }
+    Evec3 Proj = radius * direction; // radius * norm direction of Query
+    Evec3 PQ = (inside ? -1.0 : 1.0) * std::max(fabs(QueryR - radius), minDelta) * direction;
     Proj += ECmap3(center);
     project[0] = Proj[0];
     project[1] = Proj[1];
@@ -106,10 +109,7 @@ void Wall::project(const double query[3], double project[3], double delta[3]) co
     Evec3 CQ = Query - ECmap3(center);
     double t = CQ.dot(ECmap3(norm));
     Evec3 Proj = Query - t * ECmap3(norm);
-    Evec3 PQ = Query - Proj;
-    if (t < 0) {
-        PQ *= -1;
-    }
+    Evec3 PQ = std::max(fabs(t), minDelta) * ECmap3(norm);
     project[0] = Proj[0];
     project[1] = Proj[1];
     project[2] = Proj[2];
@@ -178,17 +178,13 @@ void Tube::project(const double query[3], double project[3], double delta_[3]) c
     double t = (Query - ECmap3(center)).dot(ECmap3(axis));
     Evec3 ProjAxis = ECmap3(center) + t * ECmap3(axis);
     Evec3 ProjAxisQ = Query - ProjAxis;
-    Evec3 Proj = ProjAxis + radius * (ProjAxisQ.normalized());
-    Evec3 delta = Query - Proj;
-    if (ProjAxisQ.norm() > radius) { // Q is outside the tube
-        if (inside) {
-            delta *= -1;
-        }
-    } else { // Q is inside the tube
-        if (!inside) {
-            delta *= -1;
-        }
+    double QueryR = ProjAxisQ.norm();
+    Evec3 direction = ECmap3(axis).unitOrthogonal(); // any direction for a point on the axis
+    if (QueryR > eps * (radius + fabs(t))) {         // a shorter offset is rounding, not orthogonal to the axis
+        direction = ProjAxisQ / QueryR;
     }
+    Evec3 Proj = ProjAxis + radius * direction;
+    Evec3 delta = (inside ? -1.0 : 1.0) * std::max(fabs(QueryR - radius), minDelta) * direction;
     project[0] = Proj[0];
     project[1] = Proj[1];
     project[2] = Proj[2];
-- 
2.43.0


From 450297d538e4772cf250646c575970ba33375fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 12/19] fix: run stops on a link that spans half the periodic
 box

---
 Sylinder/SylinderSystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index cdbb141..1a6fd6f 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1444,7 +1444,8 @@ void SylinderSystem::collectLinkBilateral() {
                     findPBCImage(runConfig.simBoxLow[k], runConfig.simBoxHigh[k], xk, trg);
                     centerJ[k] = xk;
                     // error check
-                    if (fabs(trg - xk) > 0.5 * (runConfig.simBoxHigh[k] - runConfig.simBoxLow[k])) {
+                    // with a tolerance for rounding, half a box apart is fine
+                    if (fabs(trg - xk) > (0.5 + 1e-8) * (runConfig.simBoxHigh[k] - runConfig.simBoxLow[k])) {
                         spdlog::critical("pbc image error in bilateral links");
                         std::exit(1);
                     }
-- 
2.43.0


From 9f966d14a40df5dc0b3504fab644567e12644e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 13/19] fix: contact of particles with crossing center lines
 has no direction

---
 Sylinder/SylinderNear.hpp | 42 +++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/Sylinder/SylinderNear.hpp b/Sylinder/SylinderNear.hpp
index 383cc3d..a72c1e2 100644
--- a/Sylinder/SylinderNear.hpp
+++ b/Sylinder/SylinderNear.hpp
@@ -269,7 +269,7 @@ class CalcSylinderNearForce {
             collision = true;
             const double delta0 = sep;
             const double gamma = sep < 0 ? -sep : 0;
-            const Evec3 normI = (Ploc - Qloc).normalized();
+            const Evec3 normI = contactNormal(Ploc, Qloc, centerI, centerJ, Evec3(0, 0, 1), Evec3(0, 0, 1));
             const Evec3 normJ = -normI;
             const Evec3 posI = Ploc - centerI;
             const Evec3 posJ = Qloc - centerJ;
@@ -326,7 +326,7 @@ class CalcSylinderNearForce {
             collision = true;
             const double delta0 = sep;
             const double gamma = sep < 0 ? -sep : 0;
-            const Evec3 normI = (Ploc - Qloc).normalized();
+            const Evec3 normI = contactNormal(Ploc, Qloc, centerI, centerJ, Evec3(0, 0, 1), directionJ);
             const Evec3 normJ = -normI;
             const Evec3 posI = Ploc - centerI;
             const Evec3 posJ = Qloc - centerJ;
@@ -387,7 +387,7 @@ class CalcSylinderNearForce {
             collision = true;
             const double delta0 = sep;
             const double gamma = sep < 0 ? -sep : 0;
-            const Evec3 normI = (Ploc - Qloc).normalized();
+            const Evec3 normI = contactNormal(Ploc, Qloc, centerI, centerJ, directionI, directionJ);
             const Evec3 normJ = -normI;
             const Evec3 posI = Ploc - centerI;
             const Evec3 posJ = Qloc - centerJ;
@@ -407,6 +407,40 @@ class CalcSylinderNearForce {
         return collision;
     }
 
+    /**
+     * @brief unit vector along which I is pushed away from J
+     *
+     * When the two center lines meet (Ploc = Qloc, up to rounding) the line joining them
+     * has no direction. Then I is pushed away from the center of J,
+     * or across one of the two if the centers coincide, too.
+     *
+     * @param Ploc location of force on I (lab frame)
+     * @param Qloc location of force on J (lab frame)
+     * @param centerI center location of I (lab frame)
+     * @param centerJ center location of J (lab frame)
+     * @param dirI direction of I
+     * @param dirJ direction of J
+     * @return Evec3
+     */
+    static Evec3 contactNormal(const Evec3 &Ploc, const Evec3 &Qloc, const Evec3 &centerI, const Evec3 &centerJ,
+                               const Evec3 &dirI, const Evec3 &dirJ) {
+        // differences below this are rounding errors of the locations
+        const double tol = 1e-10 * (Ploc.norm() + Qloc.norm());
+        Evec3 norm = Ploc - Qloc;
+        if (norm.norm() > tol)
+            return norm.normalized();
+        norm = centerI - centerJ;
+        if (norm.norm() > tol)
+            return norm.normalized();
+        norm = Evec3(0, 0, 1).cross(dirI);
+        if (norm.squaredNorm() > 0)
+            return norm.normalized();
+        norm = Evec3(0, 0, 1).cross(dirJ);
+        if (norm.squaredNorm() > 0)
+            return norm.normalized();
+        return Evec3(1, 0, 0);
+    }
+
     /**
      * @brief compute collision stress for a pair of sylinders
      *
@@ -447,7 +481,7 @@ class CalcSylinderNearForce {
         InvGAMMAI = aI * Emat3::Identity() + (bI - aI) * (dirI * dirI.transpose());
         InvGAMMAJ = aJ * Emat3::Identity() + (bJ - aJ) * (dirJ * dirJ.transpose());
 
-        Evec3 F1 = (Qloc - Ploc).normalized();
+        Evec3 F1 = -contactNormal(Ploc, Qloc, centerI, centerJ, dirI, dirJ);
         Emat3 rIf = (centerI) * (-F1.transpose()); // Newton's law
         Emat3 rJf = (centerJ) * (F1.transpose());
         Evec3 xICf = (Ploc - centerI).cross(-F1); // Newton's law
-- 
2.43.0


From 2689b08deb42a99674c1f6d68ca88fd216e0d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:30 +0000
Subject: [PATCH 14/19] fix: monolayer particle with an axis normal to the
 plane gets a zero direction

---
 Sylinder/SylinderSystem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 1a6fd6f..d951af9 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -916,7 +916,11 @@ void SylinderSystem::prepareStep() {
             sy.pos[2] = monoZ;
             Evec3 drt = Emapq(sy.orientation) * Evec3(0, 0, 1);
             drt[2] = 0;
-            drt.normalize();
+            if (drt.squaredNorm() > 0) {
+                drt.normalize();
+            } else { // axis exactly normal to the plane, any direction in the plane is as near
+                drt = Evec3(1, 0, 0);
+            }
             Emapq(sy.orientation).setFromTwoVectors(Evec3(0, 0, 1), drt);
         }
     }
-- 
2.43.0


From 13e737c40ae73af508508ac7abcb13ef78cc7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 15/19] fix: domain decomposition reads beyond the samples with
 fewer particles than ranks

---
 FDPS/domain_info.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/FDPS/domain_info.hpp b/FDPS/domain_info.hpp
index 8092f87..4e6e65e 100644
--- a/FDPS/domain_info.hpp
+++ b/FDPS/domain_info.hpp
@@ -104,9 +104,11 @@ namespace ParticleSimulator{
 					const S32 iend,
 					F64 & xlow,
 					F64 & xhigh) {
-            if(istart == 0) xlow  = pos_root_domain_.low_.x;
+            if(istart <= 0) xlow  = pos_root_domain_.low_.x;
+	    else if(istart >= np) xlow  = pos_root_domain_.high_.x;
 	    else xlow  = 0.5 * (pos_sample[istart-1].x + pos_sample[istart].x);
-            if(iend == np - 1) xhigh = pos_root_domain_.high_.x;
+            if(iend >= np - 1) xhigh = pos_root_domain_.high_.x;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.x;
 	    else xhigh = 0.5 * (pos_sample[iend].x + pos_sample[iend+1].x);
         }
         void calculateBoundaryOfDomainY(const S32 np,
@@ -115,9 +117,11 @@ namespace ParticleSimulator{
 					const S32 iend,
 					F64 & xlow,
 					F64 & xhigh) {
-            if(istart == 0) xlow  = pos_root_domain_.low_.y;
+            if(istart <= 0) xlow  = pos_root_domain_.low_.y;
+	    else if(istart >= np) xlow  = pos_root_domain_.high_.y;
 	    else xlow  = 0.5 * (pos_sample[istart-1].y + pos_sample[istart].y);
-            if(iend == np - 1) xhigh = pos_root_domain_.high_.y;
+            if(iend >= np - 1) xhigh = pos_root_domain_.high_.y;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.y;
 	    else xhigh = 0.5 * (pos_sample[iend].y + pos_sample[iend+1].y);
         }
 #ifndef PARTICLE_SIMULATOR_TWO_DIMENSION	
@@ -127,9 +131,11 @@ namespace ParticleSimulator{
 					const S32 iend,
 					F64 & xlow,
 					F64 & xhigh) {
-            if(istart == 0) xlow  = pos_root_domain_.low_.z;
+            if(istart <= 0) xlow  = pos_root_domain_.low_.z;
+	    else if(istart >= np) xlow  = pos_root_domain_.high_.z;
 	    else xlow  = 0.5 * (pos_sample[istart-1].z + pos_sample[istart].z);
-            if(iend == np - 1) xhigh = pos_root_domain_.high_.z;
+            if(iend >= np - 1) xhigh = pos_root_domain_.high_.z;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.z;
 	    else xhigh = 0.5 * (pos_sample[iend].z + pos_sample[iend+1].z);
         }	
 #endif
-- 
2.43.0


From 62247ff5469b1290fb0e373484fb6fee6f53da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:19 +0000
Subject: [PATCH 16/19] fix: image of a particle on the edge of the periodic
 domain is wrong, or its search never ends, when the box is not exact in
 floating point

---
 FDPS/tree_for_force_utils.hpp | 58 +++++++++--------------------------
 1 file changed, 15 insertions(+), 43 deletions(-)

diff --git a/FDPS/tree_for_force_utils.hpp b/FDPS/tree_for_force_utils.hpp
index 522024c..16c6fef 100644
--- a/FDPS/tree_for_force_utils.hpp
+++ b/FDPS/tree_for_force_utils.hpp
@@ -137,53 +137,25 @@ namespace ParticleSimulator{
     }
 
 
+    // image of [low, high) along a periodic axis that contains pos. The image i is [low+i*len, low+(i+1)*len)
+    // as computed: rounded in the same way as the images of particles, even on the edge of the domain
+    inline S32 CalcIDOfImageInterval(const F64 low, const F64 high, const F64 pos){
+        const F64 len = high - low;
+        S32 id = (S32)std::floor((pos - low) / len);
+        while(pos < low + id*len) id--;
+        while(low + (id+1)*len <= pos) id++;
+        return id;
+    }
+
     inline S32vec CalcIDOfImageDomain(const F64ort & pos_root_domain,
                                       const F64vec & pos_target,
                                       const bool periodic_axis[]){
-        if( pos_root_domain.contained(pos_target) ){
-            return S32vec(0.0);
+        S32vec id(0.0);
+        for(S32 k=0; k<DIMENSION; k++){
+            if(periodic_axis[k] == false) continue;
+            id[k] = CalcIDOfImageInterval(pos_root_domain.low_[k], pos_root_domain.high_[k], pos_target[k]);
         }
-        const F64vec size_root_domain = pos_root_domain.getFullLength();
-#ifdef PARTICLE_SIMULATOR_TWO_DIMENSION
-        for(S32 lev=1;; lev++){
-            S32 lev_x = 0;
-            S32 lev_y = 0;
-            if(periodic_axis[0] == true) lev_x = lev;
-            if(periodic_axis[1] == true) lev_y = lev;
-            for(S32 ix=-lev_x; ix<=lev_x; ix++){
-                for(S32 iy=-lev_y; iy<=lev_y; iy++){
-                    if( (std::abs(ix) !=lev_x || periodic_axis[0] == false) 
-                        && (std::abs(iy) != lev_y  || periodic_axis[1] == false) ) continue;
-                    const F64vec shift_tmp(ix*size_root_domain.x, iy*size_root_domain.y);
-                    if( pos_root_domain.contained(pos_target + shift_tmp) ){
-                        return S32vec(-ix, -iy);
-                    }
-                }
-            }
-        }
-#else
-        for(S32 lev=1;; lev++){
-            S32 lev_x = 0;
-            S32 lev_y = 0;
-            S32 lev_z = 0;
-            if(periodic_axis[0] == true) lev_x = lev;
-            if(periodic_axis[1] == true) lev_y = lev;
-            if(periodic_axis[2] == true) lev_z = lev;
-            for(S32 ix=-lev_x; ix<=lev_x; ix++){
-                for(S32 iy=-lev_y; iy<=lev_y; iy++){
-                    for(S32 iz=-lev_z; iz<=lev_z; iz++){
-                        if( (std::abs(ix) !=lev_x || periodic_axis[0] == false) 
-                            && (std::abs(iy) != lev_y  || periodic_axis[1] == false) 
-                            && (std::abs(iz) != lev_z || periodic_axis[2] == false) ) continue;
-                        const F64vec shift_tmp(ix*size_root_domain.x, iy*size_root_domain.y, iz*size_root_domain.z);
-                        if( pos_root_domain.contained(pos_target + shift_tmp) ){
-                            return S32vec(-ix, -iy, -iz);
-                        }
-                    }
-                }
-            }
-        }
-#endif
+        return id;
     }
 
     template<class Tptcl>
-- 
2.43.0


From 1060a1ae409c8d2e023b8035e83040b5ba63fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:15 +0000
Subject: [PATCH 17/19] fix: LCP_BBPGD returns the iterate before the last, or
 an infeasible starting guess, at the iteration limit

---
 Collision/CPSolver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index d76ab13..279e041 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -302,8 +302,9 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
     // map must match
     TEUCHOS_TEST_FOR_EXCEPTION(!this->mapRcp->isSameAs(*(xsolRcp->getMap())), std::invalid_argument,
                                "xsolrcp and A operator do not have the same Map.");
-    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy));   // deep copy, xk=x0
-    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xkm1=x0
+    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xk=x0
+    clipZero(xkRcp);                                                        // start from a feasible point
+    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xkRcp, Teuchos::Copy)); // deep copy, xkm1=x0
 
     Teuchos::RCP<TV> gradkRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));   // the grad vector
     Teuchos::RCP<TV> gradkm1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // the grad vector
@@ -387,6 +388,10 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
 
         alpha = a / b; // new step size
 
+        if (iteCount == iteMax) {
+            break; // the last iterate stays in xk
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
-- 
2.43.0


From 55aa958eab0456bd8e8e69c229913b091c77a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:28 +0000
Subject: [PATCH 18/19] fix: LCP_APGD never ends for an empty problem or a
 starting guess of ones

---
 Collision/CPSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 279e041..107fb9a 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -442,7 +442,10 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
 
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
-    double Lk = (tempNorm2 / xkdiffNorm2);
+    double Lk = 1.0; // no estimate available if xk is the probe vector
+    if (tempNorm2 > 0 && xkdiffNorm2 > 0) {
+        Lk = tempNorm2 / xkdiffNorm2;
+    }
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
-- 
2.43.0


From d13ffdd4702268275fcfd3d2b0d5c2f0356d04a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 19/19] fix: LCP_mmNewton measures its residual from unset or
 previous vectors, and reports stagnation or a negative starting guess as
 solved

---
 Collision/CPSolver.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 107fb9a..cc1114c 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -658,14 +658,16 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     // TODO: Preconditioner
     // Teuchos::RCP<TOP> precOp;
     // problemRCP->setRightPrec(precOp);
+    clipZero(xRcp); // start from a feasible point
     ARcp->apply(*xRcp, *yRcp);
     mvCount++;
     yRcp->update(1.0, *bRcp, 1.0); // y = A.dot(x) + b
     double oldErr;
     double tk = 0;
+    int errorCode = 0;
     while (iteCount++ < iteMax) {
         // check convergence
-        // xkRcp, ykRcp saves last step
+        // xkRcp, ykRcp saves last step (not set before the first step)
 
 #ifdef DEBUGLCPCOL
         // detailed tolerance for debug build
@@ -674,7 +676,7 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
         double resxMax = tempVecRcp->normInf();
         tempVecRcp->update(1.0, *yRcp, -1.0, *ykRcp, 0.0);
         double resAxbMax = tempVecRcp->normInf();
-        double resPhi = checkResiduePhi(xkRcp, ykRcp, tempVecRcp);
+        double resPhi = checkResiduePhi(xRcp, yRcp, tempVecRcp);
         history.push_back(std::array<double, 6>{{1.0 * iteCount, resxMax, resAxbMax, tk, resPhi, 1.0 * mvCount}});
         if (tk > 0 && fabs(resxMax) < tol && fabs(resAxbMax) < tol && fabs(resPhi) < tol) {
             // converge, stop
@@ -682,9 +684,9 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
         }
 #else
         // use simple phi tolerance check
-        double resPhi = checkResiduePhi(xkRcp, ykRcp, tempVecRcp);
+        double resPhi = checkResiduePhi(xRcp, yRcp, tempVecRcp);
         history.push_back(std::array<double, 6>{{1.0 * iteCount, 0, 0, tk, resPhi, 1.0 * mvCount}});
-        if (tk > 0 && fabs(resPhi) < tol) {
+        if (fabs(resPhi) < tol) {
             break;
         }
 #endif
@@ -698,6 +700,7 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
         //##### Test the stopping criterias used #####
         double rel_err = fabs(err - oldErr) / fabs(oldErr);
         if (rel_err < tol_rel || err < tol_abs) {
+            errorCode = 1; // no more progress, not converged
             break;
         }
 
@@ -737,7 +740,8 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
             if (commRcp->getRank() == 0) {
                 std::cout << "local minimum" << std::endl;
             }
-            return 1;
+            errorCode = 1;
+            break;
         }
 
         //    # Test whether our direction is a sufficient descent direction
@@ -781,7 +785,7 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
 
     xsolRcp.swap(xRcp);
 
-    return 0;
+    return errorCode;
 }
 
 int CPSolver::test_LCP(double tol, int maxIte, int solverChoice) {
-- 
2.43.0

