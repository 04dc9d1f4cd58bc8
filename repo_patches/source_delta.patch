From 82e9fb629cd006741ba38fe9be36b73f4b57d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 01/17] fix: collision no longer throws on processes that own
 no degrees of freedom

---
 src/library/natrium/collision_advanced/CollisionOperator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionOperator.h b/src/library/natrium/collision_advanced/CollisionOperator.h
index 09a6801..09b6b50 100644
--- a/src/library/natrium/collision_advanced/CollisionOperator.h
+++ b/src/library/natrium/collision_advanced/CollisionOperator.h
@@ -103,7 +103,7 @@ public:
 
 		}
 
-        if (1e-10 >= genData.density) {
+        if ((length > 0) and (1e-10 >= genData.density)) {
             throw DensityZeroException(
                     "Density too small in collision. Decrease time step size.");
         }
@@ -215,7 +215,7 @@ public:
 
 		}
 
-        if (1e-10 >= genData.density) {
+        if ((length > 0) and (1e-10 >= genData.density)) {
             throw DensityZeroException(
                     "Density too small in collision. Decrease time step size.");
         }
-- 
2.43.0


From 6541ae00413863523e888e2255ba4b78a70c77aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 02/17] fix: exact-difference forcing no longer shifts the
 prescribed velocity during initialization

---
 src/library/natrium/collision_advanced/CollisionOperator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionOperator.h b/src/library/natrium/collision_advanced/CollisionOperator.h
index 09b6b50..2484578 100644
--- a/src/library/natrium/collision_advanced/CollisionOperator.h
+++ b/src/library/natrium/collision_advanced/CollisionOperator.h
@@ -93,7 +93,7 @@ public:
 			//Initialize an object of the desired collision scheme and run the relaxation process
 
 			collisionScheme.relax(genData.fLocal, genData, specData);
-            if (genData.problemDescription.hasExternalForce()) {
+            if (genData.problemDescription.hasExternalForce() and not inInitializationProcedure) {
                 postCollisionApplyForces<T_D, T_Q, T_equilibrium>(u_raw, ii, genData);
             }
 			//Finally copy the updated distribution function back to the global distribution function
@@ -201,7 +201,7 @@ public:
 
            // collisionScheme.relaxWithG(genData.fLocal, genData.gLocal, genData, specData);
             collisionScheme.relaxWithG(genData.fLocal, genData.gLocal, genData, specData, eq);
-            if (genData.problemDescription.hasExternalForce()) {
+            if (genData.problemDescription.hasExternalForce() and not inInitializationProcedure) {
                 postCollisionApplyForces<T_D, T_Q, T_equilibrium>(u_raw, ii, genData);
             }
             mSS_raw[ii] = genData.maskShockSensor;
-- 
2.43.0


From 62297155c7be3225d60df9a2b555015c5f84267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 03/17] fix: D3Q45 and D3Q77 collide with the quartic
 equilibrium when it is configured

---
 src/library/natrium/collision_advanced/CollisionSelection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionSelection.h b/src/library/natrium/collision_advanced/CollisionSelection.h
index ff1ef31..e5ba008 100644
--- a/src/library/natrium/collision_advanced/CollisionSelection.h
+++ b/src/library/natrium/collision_advanced/CollisionSelection.h
@@ -196,10 +196,10 @@ inline void selectCollision<3>(SolverConfiguration& configuration,
     DEFINE_POSSIBLE_COLLISION(3,27, Stencil_D3Q27, BGK_REGULARIZED, BGK_EQUILIBRIUM, Regularized, BGKEquilibrium);
 
     DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 	DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 
     //DEFINE_POSSIBLE_COLLISION(3,27, Stencil_RD3Q27, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, IncompressibleEquilibrium);
-- 
2.43.0


From 5f94c31379056b1929c2595a3661f15ae64891e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 04/17] fix: DELLAR_RELAX_ONLY_N relaxes the isotropic moment N
 instead of the y-component of J

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 2eb5849..285c773 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -326,7 +326,7 @@ template<> const array<double, 9> make_diag(double tau, MomentBasis basis,
 		// Dellar relax only moment 'N'
 	case DELLAR_RELAX_ONLY_N: {
 		assert(basis == DELLAR_D2Q9);
-		diag.at(8) = 1.0;
+		diag.at(6) = 1.0;
 		break;
 	} /* case DELLAR_RELAX_FULL */
 
-- 
2.43.0


From 5e08ff350a6d0c785b3fe01b96d3b3b2339c5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 05/17] fix: shifted-velocity forces act with the D'Humieres
 D3Q19 relaxation rates

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 285c773..2d3d8de 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -385,7 +385,9 @@ template<> const array<double, 19> make_diag(double tau, MomentBasis basis,
 			double s10 = 1.4;
 			double s4 = 1.2;
 			double s16 = 1.98;
-			diag = {{0, s1, s2, 0, s4, 0, s4, 0, s4, s9, s10, s9, s10, s13, s13, s13, s16, s16, s16}};
+			// conserved moments relax with tau, so that shifted-velocity forces act
+			const double s0 = 1. / tau;
+			diag = {{s0, s1, s2, s0, s4, s0, s4, s0, s4, s9, s10, s9, s10, s13, s13, s13, s16, s16, s16}};
 			break;
 		} /* case DHUMIERES_D3Q19 */
 		default: {
-- 
2.43.0


From 82a0b1f17ad3d9710219de128c493a95fd593404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:17 +0000
Subject: [PATCH 06/17] fix: shifted-velocity forces add dt*F to the momentum
 with regularized collisions

---
 .../natrium/collision_advanced/CollisionSchemes.h      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/library/natrium/collision_advanced/CollisionSchemes.h b/src/library/natrium/collision_advanced/CollisionSchemes.h
index d7b0612..3ceda63 100644
--- a/src/library/natrium/collision_advanced/CollisionSchemes.h
+++ b/src/library/natrium/collision_advanced/CollisionSchemes.h
@@ -185,10 +185,20 @@ public:
 			}
 		}
 
+		// momentum that a shifted velocity has added to the equilibrium
+		std::array<double, T_D> j1 = {{ 0.0 }};
+		for (int a = 0; a < T_Q; a++) {
+			for (int b = 0; b < T_D; b++) {
+				j1[b] += (fLocal[a] - genData.feq[a]) * genData.e[a][b];
+			}
+		}
+
 		std::array<double, T_Q> fi1 = {{ 0.0 }};
 
 		for (int a = 0; a < T_Q; a++) {
 			for (int b = 0; b < T_D; b++) {
+				fi1[a] += genData.weight[a] / genData.cs2 * genData.e[a][b]
+						* j1[b];
 				for (int c = 0; c < T_D; c++) {
 
 					fi1[a] += genData.weight[a]
-- 
2.43.0


From 1a775efb50db71ac3a68223d3dd03b8d5da29432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 07/17] fix: the Prandtl-number correction of g carries the
 whole energy flux (divide by cs^2, not by the temperature)

---
 .../natrium/collision_advanced/AuxiliaryCollisionFunctions.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h b/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
index 648da1d..02964d3 100644
--- a/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
+++ b/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
@@ -509,7 +509,7 @@ inline void calculateGeqFromFeq(const std::array<double, T_Q>& feq,std::array<do
         for (size_t a = 0; a < T_D; a++) {
             for (size_t i = 0; i < T_Q; i++) {
                 gStar[i] += p.weight[i] * (centeredFluxTensorG[a] * p.e[i][a]) /
-                                    p.temperature;
+                                    p.cs2;
                     }
                 }
             }
-- 
2.43.0


From 82a114d6d7415f5f8f3788f657506212e62eedc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 08/17] fix: central flux of the SEDG face integral subtracts
 the neighbor value (constant states are preserved)

---
 src/library/natrium/advection/SEDGMinLee.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 5d38864..930a39e 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -514,7 +514,7 @@ void SEDGMinLee<dim>::assembleAndDistributeInternalFace(size_t alpha,
 
 		if (m_useCentralFlux) {
 			cell_entry = 0.5 * prefactor;
-			neighbor_entry = 0.5 * prefactor;
+			neighbor_entry = -0.5 * prefactor;
 
 		} else if (exn < 0) { // otherwise: no contributions
 			cell_entry = prefactor;
-- 
2.43.0


From a6aba447aa440ef8bd5daa6ea9be1e1bf8410f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 09/17] fix: central flux at a velocity wall subtracts the
 opposite distribution

---
 src/library/natrium/boundaries/VelocityNeqBounceBack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 07174ae..4c03143 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -98,7 +98,7 @@ template<size_t dim> void VelocityNeqBounceBack<dim>::assembleBoundary(
 
 		if (useCentralFlux) {
 			cellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
-			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
+			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = -0.5 * prefactor;
 			cellFaceVector(thisDoF) = -prefactor * stencil.getWeight(alpha)
 					* density * exu / stencil.getSpeedOfSoundSquare();
 		} else if (exn < 0) {
-- 
2.43.0


From 631495b133216575e90855ca321ea9083a249c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:19 +0000
Subject: [PATCH 10/17] fix: exponential integrator returned NaN for a
 stationary state and for an invariant Krylov space

---
 .../timeintegration/ExponentialTimeIntegrator.cpp     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
index 85fb499..de1288a 100644
--- a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
+++ b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
@@ -111,6 +111,10 @@ template<class MATRIX, class VECTOR> double ExponentialTimeIntegrator<MATRIX,
 	m_w += systemVector;		// w = A*f + u
 
 	double beta = m_w.l2_norm();
+	// stationary state (A*f + u = 0): nothing to add and no Krylov space to build
+	if (0.0 == beta) {
+		return t + dt;
+	}
 
 	// the next two lines set m_V(i,0) =  m_w(i) / beta
 	// in a way that takes care about the individual blocks of block vectors
@@ -144,6 +148,13 @@ template<class MATRIX, class VECTOR> double ExponentialTimeIntegrator<MATRIX,
 			// in a way that takes care about the individual blocks of block vectors
 			m_V.setColumn(j + 1, m_w);
 			m_V.column(j + 1) /= m_H(j + 1, j);
+		} else {
+			// The Krylov space is invariant under A; the remaining basis vectors are zero.
+			// Decouple them, so that m_Hm stays invertible.
+			for (int k = j + 1; k < arnoldiSize; k++) {
+				m_H(k, k) = 1;
+			}
+			break;
 		}
 		m_H(arnoldiSize + 1, arnoldiSize) = 1;
 
-- 
2.43.0


From 3f1e3b771ec312726b21b4dc166d45ce351776b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:59 +0000
Subject: [PATCH 11/17] fix: order the hit points of a cell lexicographically

PointComp compared by closeness, so std::map took all distinct hit points of a cell
for the same point and boundary values were evaluated at the first one only.
---
 src/library/natrium/boundaries/BoundaryHit.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/boundaries/BoundaryHit.h b/src/library/natrium/boundaries/BoundaryHit.h
index cebe408..2da0062 100755
--- a/src/library/natrium/boundaries/BoundaryHit.h
+++ b/src/library/natrium/boundaries/BoundaryHit.h
@@ -96,9 +96,18 @@ public:
 
 template<size_t dim>
 struct PointComp {
+	// lexicographic order (std::map requires a strict weak ordering)
 	bool operator()(const dealii::Point<dim>& lhs,
 			const dealii::Point<dim>& rhs) const {
-		return lhs.distance(rhs) < 1e-10;
+		for (size_t i = 0; i < dim; i++) {
+			if (lhs[i] < rhs[i]) {
+				return true;
+			}
+			if (rhs[i] < lhs[i]) {
+				return false;
+			}
+		}
+		return false;
 	}
 };
 
-- 
2.43.0


From afb4794e3e342a5eff7643f962d21c8b1f5458e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:08 +0000
Subject: [PATCH 12/17] fix: make_stencil truncated the stencil scaling to an
 integer

---
 src/library/natrium/utilities/CFDSolverUtilities.cpp | 2 +-
 src/library/natrium/utilities/CFDSolverUtilities.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/CFDSolverUtilities.cpp b/src/library/natrium/utilities/CFDSolverUtilities.cpp
index be1312d..0abb09c 100644
--- a/src/library/natrium/utilities/CFDSolverUtilities.cpp
+++ b/src/library/natrium/utilities/CFDSolverUtilities.cpp
@@ -297,7 +297,7 @@ std::string CFDSolverUtilities::get_integrator_name(
 } /* get_integrator_by_id */
 
 boost::shared_ptr<Stencil> CFDSolverUtilities::make_stencil(size_t d, size_t q,
-		size_t scaling) {
+		double scaling) {
 	{
 		std::stringstream msg;
 		msg << "Could not create stencil with d=" << d << ", q=" << q << ".";
diff --git a/src/library/natrium/utilities/CFDSolverUtilities.h b/src/library/natrium/utilities/CFDSolverUtilities.h
index 9b05a59..ea491f6 100644
--- a/src/library/natrium/utilities/CFDSolverUtilities.h
+++ b/src/library/natrium/utilities/CFDSolverUtilities.h
@@ -104,7 +104,7 @@ std::string get_integrator_name(
 		const DealIntegratorName& deal_integrator) ;
 
 
-boost::shared_ptr<Stencil> make_stencil(size_t d, size_t q, size_t scaling);
+boost::shared_ptr<Stencil> make_stencil(size_t d, size_t q, double scaling);
 
 
 
-- 
2.43.0


From cbedfe2e7859498ded567da583e21349e2be06e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:08 +0000
Subject: [PATCH 13/17] fix: 3D filters assigned the wrong polynomial degree in
 y to the Legendre modes

---
 src/library/natrium/smoothing/ExponentialFilter.cpp | 2 +-
 src/library/natrium/smoothing/NewFilter.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/smoothing/ExponentialFilter.cpp b/src/library/natrium/smoothing/ExponentialFilter.cpp
index b22858c..bdecf5d 100755
--- a/src/library/natrium/smoothing/ExponentialFilter.cpp
+++ b/src/library/natrium/smoothing/ExponentialFilter.cpp
@@ -124,7 +124,7 @@ inline void ExponentialFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p + 1) * (p + 1) * (p + 1); i++) {
 		size_t ix = i / ((p + 1) * (p + 1));
 		size_t max = ix;
-		size_t iy = ( i % (p+1) * (p+1) ) / (p + 1);
+		size_t iy = (i % ((p + 1) * (p + 1))) / (p + 1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p + 1);
diff --git a/src/library/natrium/smoothing/NewFilter.cpp b/src/library/natrium/smoothing/NewFilter.cpp
index 848c5db..1fa6418 100755
--- a/src/library/natrium/smoothing/NewFilter.cpp
+++ b/src/library/natrium/smoothing/NewFilter.cpp
@@ -124,7 +124,7 @@ inline void NewFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p+1)*(p+1)*(p+1); i++) {
 		size_t ix = i / ((p+1) * (p+1));
 		size_t max = ix;
-		size_t iy = i / (p+1);
+		size_t iy = (i % ((p+1) * (p+1))) / (p+1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p+1);
-- 
2.43.0


From 5596217f012f382a69eeeb973bde1c1a61814ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:41 +0000
Subject: [PATCH 14/17] fix: calculateDensitiesAndVelocities divided the old
 velocity by the density instead of the momentum just summed

---
 src/library/natrium/solver/CFDSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 6965ea1..4de5dde 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1514,7 +1514,7 @@ void CFDSolver<dim>::calculateDensitiesAndVelocities() {
 		size_t i = *it;
 		double one_by_rho_i = 1.0 / writeable_rho(i);
 		for (size_t j = 0; j < dim; j++) {
-			writeable_u[j](i) = m_velocity[j](i) * one_by_rho_i;
+			writeable_u[j](i) *= one_by_rho_i;
 		}
 	}
 
-- 
2.43.0


From 19006fb7f79101e48e9e48e67196ba3d516ce301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:41 +0000
Subject: [PATCH 15/17] fix: initial temperature from f and g used the velocity
 of node i (the direction index) instead of the node itself

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index f21f94f..01f2548 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -82,7 +82,7 @@ public:
                 for (size_t i = 0; i < this->m_stencil->getQ(); i++) {
                     double sum = 0.0;
                     for (size_t a = 0; a < dim; a++) {
-                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i));
+                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it));
                     }
                     temperature += sum * this->m_f.at(i)(*it) / this->getStencil()->getSpeedOfSoundSquare() +
                             m_g.at(i)(*it);
-- 
2.43.0


From a27bb39fd4a35c030d8acf82e7564d5359a1bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:41 +0000
Subject: [PATCH 16/17] fix: the velocity was not divided by the density when g
 is rebuilt from a checkpoint

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 01f2548..e328dfd 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -146,6 +146,9 @@ public:
                             vel[a]+=this->m_stencil->getDirection(i)(a)/scaling *this->m_f.at(i)(*it);
                         }
                     }
+                    for (size_t a = 0; a < dim; a++) {
+                        vel[a] /= density;
+                    }
 
 
                         double temperature = 0.0;
-- 
2.43.0


From 72b927eb7b69cf9c98f85b65e3049ef4988909a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:23 +0000
Subject: [PATCH 17/17] fix: mean velocity and entropy were not the integrals
 over the domain (shape functions missing in the quadrature)

---
 src/library/natrium/solver/PhysicalProperties.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/solver/PhysicalProperties.cpp b/src/library/natrium/solver/PhysicalProperties.cpp
index 952b13d..3416d9d 100644
--- a/src/library/natrium/solver/PhysicalProperties.cpp
+++ b/src/library/natrium/solver/PhysicalProperties.cpp
@@ -325,7 +325,7 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 
 // Integrate ux over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values | dealii::update_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -347,9 +347,10 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 			feCellValues.reinit(cell);
 			for (size_t q = 0; q < n_q_points; q++) {
 				for (size_t i = 0; i < dofs_per_cell; i++) {
-					result += ux(localDoFIndices.at(i)) * feCellValues.JxW(q);
-					area += feCellValues.JxW(q);
+					result += ux(localDoFIndices.at(i))
+							* feCellValues.shape_value(i,q) * feCellValues.JxW(q);
 				}
+				area += feCellValues.JxW(q);
 			}
 		} /* if is locally owned */
 	} /* for all cells */
@@ -370,7 +371,7 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 
 	// Integrate rho over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values | dealii::update_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -397,7 +398,7 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 						// atGhosted gives a vector that also contains the ghost elements
 						result -= f.atGhosted(j)(local_i)
 								* log(f.atGhosted(j)(local_i) / weights.at(j))
-								* feCellValues.JxW(q);
+								* feCellValues.shape_value(i,q) * feCellValues.JxW(q);
 					}
 				}
 			}
-- 
2.43.0

