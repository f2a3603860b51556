From 17e1e07aac9aef9100a1c57ce961a83d404e0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 01/45] hook: let clang parse a never instantiated member
 (guard NATRIUM_VERIF)

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index f21f94f..741b1a4 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -720,7 +720,11 @@ void compressibleFilter() {
                         data.density = 1.34161;
                         data.temperature = 1.12799;
                         data.velocity = u;
+#ifdef NATRIUM_VERIF
+                        BGKEquilibrium<2,25> eq(data); // clang checks this never instantiated member
+#else
                         BGKEquilibrium<2,25> eq;
+#endif
                         eq.calc(feq, data);
                         double gamma = this->getConfiguration()->getHeatCapacityRatioGamma();
                         double C_v = 1. / (gamma - 1.0);
-- 
2.43.0


From 39a7c9745712469d9865684b8e6c2939225f9cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:50 +0000
Subject: [PATCH 02/45] fix: quartic equilibrium for D3Q45 and D3Q77
 incompressible collisions

---
 src/library/natrium/collision_advanced/CollisionSelection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionSelection.h b/src/library/natrium/collision_advanced/CollisionSelection.h
index ff1ef31..e5ba008 100644
--- a/src/library/natrium/collision_advanced/CollisionSelection.h
+++ b/src/library/natrium/collision_advanced/CollisionSelection.h
@@ -196,10 +196,10 @@ inline void selectCollision<3>(SolverConfiguration& configuration,
     DEFINE_POSSIBLE_COLLISION(3,27, Stencil_D3Q27, BGK_REGULARIZED, BGK_EQUILIBRIUM, Regularized, BGKEquilibrium);
 
     DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 	DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 
     //DEFINE_POSSIBLE_COLLISION(3,27, Stencil_RD3Q27, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, IncompressibleEquilibrium);
-- 
2.43.0


From 56ca758256246bc22dc1d6e1a2078f788f943dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 03/45] fix: strict ordering of boundary hit points, so that
 hits at different points stay apart

---
 src/library/natrium/boundaries/BoundaryHit.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/boundaries/BoundaryHit.h b/src/library/natrium/boundaries/BoundaryHit.h
index cebe408..49f19f2 100755
--- a/src/library/natrium/boundaries/BoundaryHit.h
+++ b/src/library/natrium/boundaries/BoundaryHit.h
@@ -98,7 +98,16 @@ template<size_t dim>
 struct PointComp {
 	bool operator()(const dealii::Point<dim>& lhs,
 			const dealii::Point<dim>& rhs) const {
-		return lhs.distance(rhs) < 1e-10;
+		// lexicographic order; coordinates closer than 1e-10 are taken as equal
+		for (size_t i = 0; i < dim; i++) {
+			if (lhs[i] < rhs[i] - 1e-10) {
+				return true;
+			}
+			if (lhs[i] > rhs[i] + 1e-10) {
+				return false;
+			}
+		}
+		return false;
 	}
 };
 
-- 
2.43.0


From 36d9f3182bbe2f2456fc87281fa6c37f0c2b7bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 04/45] fix: evaluate boundary values at the hit point in real
 coordinates

---
 src/library/natrium/boundaries/FEBoundaryValues.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/boundaries/FEBoundaryValues.h b/src/library/natrium/boundaries/FEBoundaryValues.h
index 415c4dd..fe65c0e 100755
--- a/src/library/natrium/boundaries/FEBoundaryValues.h
+++ b/src/library/natrium/boundaries/FEBoundaryValues.h
@@ -226,7 +226,7 @@ public:
 	}
 
 	const dealii::Point<dim>& getPoint(size_t q_point){
-		return m_feValues.get_quadrature().point(q_point);
+		return m_feValues.quadrature_point(q_point);
 	}
 
 	const GlobalBoundaryData& getData() const {
@@ -236,7 +236,8 @@ public:
 private:
 
 	dealii::UpdateFlags getFEValuesFlags(BoundaryFlags& flags) {
-		dealii::UpdateFlags result = dealii::update_values;
+		dealii::UpdateFlags result = dealii::update_values
+				| dealii::update_quadrature_points;
 		if (boundary_drho_dt & flags) {
 			result |= dealii::update_gradients;
 		}
-- 
2.43.0


From 0e31e999bb883a0afa7aac23cce4978472d0c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 05/45] fix: follow semi-Lagrangian paths into refined neighbor
 cells

---
 src/library/natrium/advection/SemiLagrangian.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 9be474a..9395a10 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -419,9 +419,20 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 					// Interior faces
 					el.currentPoint = p_boundary;
 					if (el.currentCell->neighbor(face_id)->has_children()) {
+						// find the child of the neighbor that is behind the crossed part of the face
+						size_t subface = 0;
+						while (dealii::GeometryInfo<dim>::child_cell_on_face(
+								dealii::RefinementCase<dim>::isotropic_refinement,
+								face_id, subface,
+								el.currentCell->face_orientation(face_id),
+								el.currentCell->face_flip(face_id),
+								el.currentCell->face_rotation(face_id))
+								!= child_id) {
+							subface++;
+						}
 						el.currentCell =
-								el.currentCell->child(child_id)->neighbor(
-										face_id);
+								el.currentCell->neighbor_child_on_subface(
+										face_id, subface);
 					} else {
 						el.currentCell = el.currentCell->neighbor(face_id);
 					}
-- 
2.43.0


From 73bc4ac8841cb297df2a95c86f905957032ac191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:10 +0000
Subject: [PATCH 06/45] fix: sign of the neighbor's share in the central flux

---
 src/library/natrium/advection/SEDGMinLee.cpp             | 2 +-
 src/library/natrium/boundaries/VelocityNeqBounceBack.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 5d38864..930a39e 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -514,7 +514,7 @@ void SEDGMinLee<dim>::assembleAndDistributeInternalFace(size_t alpha,
 
 		if (m_useCentralFlux) {
 			cell_entry = 0.5 * prefactor;
-			neighbor_entry = 0.5 * prefactor;
+			neighbor_entry = -0.5 * prefactor;
 
 		} else if (exn < 0) { // otherwise: no contributions
 			cell_entry = prefactor;
diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 07174ae..4c03143 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -98,7 +98,7 @@ template<size_t dim> void VelocityNeqBounceBack<dim>::assembleBoundary(
 
 		if (useCentralFlux) {
 			cellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
-			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
+			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = -0.5 * prefactor;
 			cellFaceVector(thisDoF) = -prefactor * stencil.getWeight(alpha)
 					* density * exu / stencil.getSpeedOfSoundSquare();
 		} else if (exn < 0) {
-- 
2.43.0


From 512621a4ac3aa25c8b9024488377a5b9107475c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:30 +0000
Subject: [PATCH 07/45] fix: path of the do-nothing boundary stays inside its
 current cell

---
 src/library/natrium/advection/SemiLagrangian.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 9395a10..124e1d4 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -389,9 +389,9 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
                         else if (is_do_nothing_bb(Base::getBoundaries()->getBoundary(bi)->getBoundaryName())) {
 
                             // Go back to start and follow the opposite direction to find the departure point
-                            el.currentPoint = el.departurePoint - minus_dtealpha.at(el.currentDirection);
-
-                            el.departurePoint = el.currentPoint - minus_dtealpha.at(el.currentDirection);
+                            // (the way back is followed from the boundary, so that the current point stays inside the current cell)
+                            el.departurePoint = el.departurePoint - 2.0 * minus_dtealpha.at(el.currentDirection);
+                            el.currentPoint = p_boundary;
                             el.currentDirection =
                                     Base::m_stencil->getIndexOfOppositeDirection(
                                             el.currentDirection);
-- 
2.43.0


From 6c68648388e319a93475bd96c3d74f34006b7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:08 +0000
Subject: [PATCH 08/45] fix: command line arguments with a default wrote to a
 dead local variable

---
 src/library/natrium/utilities/CommandLineParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index e01cc0d..2afa8de 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -567,9 +567,8 @@ void CommandLineParser::setArgument(std::string name, std::string description,
 		type default_value) {
 	assert_clean();
 	try {
-		type opt;
 		m_description.add_options()(name.c_str(),
-				po::value<type>(&opt)->default_value(default_value),
+				po::value<type>()->default_value(default_value),
 				description.c_str());
 	} catch (po::error& e) {
 		std::stringstream msg;
-- 
2.43.0


From c90d342f6780e050ee3e2744acfcb0588f8f2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:08 +0000
Subject: [PATCH 09/45] fix: refuse unknown values of --mrt-relax

---
 src/library/natrium/utilities/CommandLineParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index 2afa8de..3b0a91e 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -486,7 +486,7 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 			cfg.setMRTRelaxationTimes(RELAX_FULL);
 		} else if ("dellar-only-N" == relax) {
 			cfg.setMRTRelaxationTimes(DELLAR_RELAX_ONLY_N);
-		} else if ("dhumieres-paper") {
+		} else if ("dhumieres-paper" == relax) {
 			cfg.setMRTRelaxationTimes(RELAX_DHUMIERES_PAPER);
 		} else {
 			std::stringstream msg;
-- 
2.43.0


From 2c526c1e4d4ffd5d02cb8b74c7df7db1652590c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:08 +0000
Subject: [PATCH 10/45] fix: refuse unknown values of --integrator-id instead
 of using uninitialized integrators

---
 src/library/natrium/utilities/CommandLineParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index 3b0a91e..fa35b43 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -266,6 +266,12 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 					"Conflicting arguments: integrator and integrator-id");
 		}
 		int id = getArgument<int>("integrator-id");
+		if ((id < 1) || (id > 15)) {
+			std::stringstream msg;
+			msg << "--integrator-id " << id << " is illegal." << endl;
+			msg << "See --help for allowed options." << endl;
+			throw CommandLineParserException(msg.str());
+		}
 		TimeIntegratorName t;
 		DealIntegratorName d;
 		string s;
-- 
2.43.0


From 2a92b15a62e3be2177b225570d7b0ebfaac5803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:08 +0000
Subject: [PATCH 11/45] fix: empty list of wall normal coordinates can be set

---
 src/library/natrium/solver/SolverConfiguration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.h b/src/library/natrium/solver/SolverConfiguration.h
index e081acb..3cd552a 100644
--- a/src/library/natrium/solver/SolverConfiguration.h
+++ b/src/library/natrium/solver/SolverConfiguration.h
@@ -2480,7 +2480,7 @@ public:
 		std::stringstream s;
 		try {
 			size_t n = wall_normal_coordinates.size();
-			for (size_t i = 0; i < n - 1; i++) {
+			for (size_t i = 0; i + 1 < n; i++) {
 				s << wall_normal_coordinates.at(i) << ",";
 			}
 			if (n != 0) {
-- 
2.43.0


From 3ab41c5dfe858ead1493cd367d9cbc17d3cc34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:08 +0000
Subject: [PATCH 12/45] fix: parameters are declared before the constructor
 reads the XML file

---
 src/library/natrium/solver/SolverConfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.cpp b/src/library/natrium/solver/SolverConfiguration.cpp
index 8ad2100..18b6a0b 100644
--- a/src/library/natrium/solver/SolverConfiguration.cpp
+++ b/src/library/natrium/solver/SolverConfiguration.cpp
@@ -294,8 +294,8 @@ SolverConfiguration::SolverConfiguration() {
 
 }
 
-SolverConfiguration::SolverConfiguration(const std::string& XMLfilename) {
-	SolverConfiguration();
+SolverConfiguration::SolverConfiguration(const std::string& XMLfilename) :
+		SolverConfiguration() {
 	readFromXMLFile(XMLfilename);
 }
 
-- 
2.43.0


From b14a78cea8fd4fa7003a036d7b4efd8ecc61dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 13/45] fix: deal.II time integrators are selected by name, not
 by deal.II's numbering

---
 .../natrium/timeintegration/DealIIWrapper.cpp | 40 +++++++++++++++++--
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index 6e831fa..aab0a17 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -636,6 +636,40 @@ TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
 
 					*/}
 
+/**
+ * @short translate NATriuM's name of the scheme into deal.II's
+ * 		  (the numbering of deal.II's enum depends on the version of deal.II)
+ */
+static dealii::TimeStepping::runge_kutta_method getDealIIMethod(
+		const DealIntegratorName rkScheme) {
+	switch (rkScheme) {
+	case FORWARD_EULER:
+		return dealii::TimeStepping::FORWARD_EULER;
+	case RK_THIRD_ORDER:
+		return dealii::TimeStepping::RK_THIRD_ORDER;
+	case RK_CLASSIC_FOURTH_ORDER:
+		return dealii::TimeStepping::RK_CLASSIC_FOURTH_ORDER;
+	case BACKWARD_EULER:
+		return dealii::TimeStepping::BACKWARD_EULER;
+	case IMPLICIT_MIDPOINT:
+		return dealii::TimeStepping::IMPLICIT_MIDPOINT;
+	case CRANK_NICOLSON:
+		return dealii::TimeStepping::CRANK_NICOLSON;
+	case SDIRK_TWO_STAGES:
+		return dealii::TimeStepping::SDIRK_TWO_STAGES;
+	case HEUN_EULER:
+		return dealii::TimeStepping::HEUN_EULER;
+	case BOGACKI_SHAMPINE:
+		return dealii::TimeStepping::BOGACKI_SHAMPINE;
+	case DOPRI:
+		return dealii::TimeStepping::DOPRI;
+	case FEHLBERG:
+		return dealii::TimeStepping::FEHLBERG;
+	default:
+		return dealii::TimeStepping::CASH_KARP;
+	}
+}
+
 template<class MATRIX, class VECTOR>
 natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 		const DealIntegratorName rkScheme, const DealSolverName linearSolver) :
@@ -644,8 +678,7 @@ natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 	m_solver = linearSolver;
 	assert(rkScheme < 12);
 	assert(NONE != rkScheme);
-	dealii::TimeStepping::runge_kutta_method rk =
-			static_cast<dealii::TimeStepping::runge_kutta_method>((int) rkScheme);
+	dealii::TimeStepping::runge_kutta_method rk = getDealIIMethod(rkScheme);
 	if (rkScheme < 3) {
 		m_dealIIRKStepper = boost::make_shared<
 				dealii::TimeStepping::ExplicitRungeKutta<VECTOR> >(rk);
@@ -669,8 +702,7 @@ natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 	m_solver = linearSolver;
 	assert(rkScheme < 12);
 	assert(NONE != rkScheme);
-	dealii::TimeStepping::runge_kutta_method rk =
-			static_cast<dealii::TimeStepping::runge_kutta_method>((int) rkScheme);
+	dealii::TimeStepping::runge_kutta_method rk = getDealIIMethod(rkScheme);
 	m_dealIIRKEmbedded = boost::make_shared<
 			dealii::TimeStepping::EmbeddedExplicitRungeKutta<VECTOR> >(rk,
 			coarsen_param, refine_param, min_delta, max_delta, refine_tol,
-- 
2.43.0


From 2e970af5c8be6f98c647b5acafa6a69fa6352488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 14/45] fix: restore the time step of the deal.II time
 integrators

---
 .../natrium/timeintegration/DealIIWrapper.cpp  | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index aab0a17..855c0e5 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -610,8 +610,7 @@ block_vector natrium::DealIIWrapper<sparse_block_matrix, block_vector>::evaluate
 template<class MATRIX, class VECTOR>
 double natrium::DealIIWrapper<MATRIX, VECTOR>::step(VECTOR& vector,
 		const MATRIX& systemMatrix, VECTOR& systemVector, double t,
-		double dt) { /*
-TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
+		double dt) {
 
 	if ((0.0 != dt) and dt != this->getTimeStepSize()) {
 		this->setTimeStepSize(dt);
@@ -627,14 +626,13 @@ TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
 	m_systemMatrix = &systemMatrix;
 	m_systemVector = &systemVector;
 	return m_dealIIRKStepper->evolve_one_time_step(
-			dealii::std_cxx11::bind(&DealIIWrapper<MATRIX, VECTOR>::evaluateF,
-					this, dealii::std_cxx11::_1, dealii::std_cxx11::_2),
-			dealii::std_cxx11::bind(
-					&DealIIWrapper<MATRIX, VECTOR>::evaluateIdMinusTauJInverse,
-					this, dealii::std_cxx11::_1, dealii::std_cxx11::_2,
-					dealii::std_cxx11::_3), t, dt, vector);
-
-					*/}
+			[this](const double t, const VECTOR& f) {
+				return this->evaluateF(t, f);
+			}, [this](const double t, const double tau, const VECTOR& f) {
+				return this->evaluateIdMinusTauJInverse(t, tau, f);
+			}, t, dt, vector);
+
+}
 
 /**
  * @short translate NATriuM's name of the scheme into deal.II's
-- 
2.43.0


From fcbdf49e17859e7df6b51943de7a2993f76937ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 15/45] fix: block vectors are reinitialized with the block
 structure of their prototype

---
 src/library/natrium/utilities/SemiParallelMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/SemiParallelMatrix.cpp b/src/library/natrium/utilities/SemiParallelMatrix.cpp
index 7039915..0d0d26a 100755
--- a/src/library/natrium/utilities/SemiParallelMatrix.cpp
+++ b/src/library/natrium/utilities/SemiParallelMatrix.cpp
@@ -34,7 +34,7 @@ template<>
 void reinitVector<block_vector>(block_vector& dst,
 		const block_vector& src) {
 	if (dst.size() != src.size()) {
-		dst.reinit(src.size(), true);
+		dst.reinit(src);
 	}
 }
 
-- 
2.43.0


From 2b73601c51be24c9f5aff139efb1784689a73a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:28 +0000
Subject: [PATCH 16/45] fix: embedded time integrators do not reuse the stage
 of an outdated state

---
 src/library/natrium/timeintegration/DealIIWrapper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index 855c0e5..1db7d59 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -623,6 +623,12 @@ double natrium::DealIIWrapper<MATRIX, VECTOR>::step(VECTOR& vector,
 		dt = this->getTimeStepSize();
 	}
 
+	// the state may have been changed since the last step (e.g. by the collision),
+	// so that the last stage of the last step must not be reused as first stage
+	if (m_dealIIRKEmbedded) {
+		m_dealIIRKEmbedded->free_memory();
+	}
+
 	m_systemMatrix = &systemMatrix;
 	m_systemVector = &systemVector;
 	return m_dealIIRKStepper->evolve_one_time_step(
-- 
2.43.0


From a4767dce849ab71efba0ef6ef1259a3930bd6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:28 +0000
Subject: [PATCH 17/45] fix: exponential integrator leaves a stationary state
 alone instead of dividing by zero

---
 .../natrium/timeintegration/ExponentialTimeIntegrator.cpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
index 85fb499..44ac86e 100644
--- a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
+++ b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
@@ -111,6 +111,10 @@ template<class MATRIX, class VECTOR> double ExponentialTimeIntegrator<MATRIX,
 	m_w += systemVector;		// w = A*f + u
 
 	double beta = m_w.l2_norm();
+	// stationary state
+	if (0.0 == beta) {
+		return t + dt;
+	}
 
 	// the next two lines set m_V(i,0) =  m_w(i) / beta
 	// in a way that takes care about the individual blocks of block vectors
-- 
2.43.0


From bf2036b4b848435c72bcc88431472344a7ab70d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 18/45] fix: write the checkpoint's time and scaling with all
 digits

---
 src/library/natrium/solver/Checkpoint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 8d26035..d22ce42 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -79,6 +79,8 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 	// write status
 	if (is_MPI_rank_0()) {
 		std::ofstream outfile(m_statusFile.string());
+		// all digits, for a restart to continue at exactly the same time
+		outfile.precision(17);
 		outfile << status.iterationNumber << endl;
 		// time
 		outfile << status.time << endl;
-- 
2.43.0


From 8071480bede7dcf7be62d86bcbf9792fa0edacd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 19/45] fix: ignore other files when looking for the most
 recent checkpoint

---
 src/library/natrium/solver/Checkpoint.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index d22ce42..3080894 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -39,16 +39,19 @@ Checkpoint<dim>::Checkpoint(size_t iteration,
 					!= ".stat") {
 				continue;
 			}
-			if (!isG){
-			boost::replace_all(this_filename, "checkpoint_", "");
+			// skip other files, such as the checkpoints of the other distribution
+			const std::string prefix = isG ? "checkpointG_" : "checkpoint_";
+			if (this_filename.compare(0, prefix.size(), prefix) != 0) {
+				continue;
+			}
+			boost::replace_all(this_filename, prefix, "");
 			boost::replace_all(this_filename, ".stat", "");
-            }
-			if (isG)
-            {
-            boost::replace_all(this_filename, "checkpointG_", "");
-            boost::replace_all(this_filename, ".stat", "");
-            }
-			size_t i = std::stoi(this_filename);
+			if (this_filename.empty()
+					or this_filename.find_first_not_of("0123456789")
+							!= std::string::npos) {
+				continue;
+			}
+			size_t i = std::stoul(this_filename);
 			if (i > it){
 				it = i;
 			}
-- 
2.43.0


From ed60111ba8b3bdb526fc737fd517eb997f72d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 20/45] fix: do not overwrite the most recent checkpoint when
 writing the one of iteration 1

---
 src/library/natrium/solver/Checkpoint.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 3080894..96f9597 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -79,6 +79,14 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 		const CheckpointStatus& status) {
 
 	f.updateGhosted();
+
+	// the constructor may have picked an existing checkpoint, which must not be overwritten
+	const std::string name = (m_isG ? "checkpointG_" : "checkpoint_")
+			+ std::to_string(status.iterationNumber);
+	const boost::filesystem::path checkpoint_dir = m_statusFile.parent_path();
+	m_statusFile = checkpoint_dir / (name + ".stat");
+	m_dataFile = checkpoint_dir / (name + ".data");
+
 	// write status
 	if (is_MPI_rank_0()) {
 		std::ofstream outfile(m_statusFile.string());
-- 
2.43.0


From 2d48075a5e3ac0006fbe36c9754f470f72134114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 21/45] fix: restart with velocity sets that are not determined
 by their size

---
 src/library/natrium/solver/Checkpoint.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 96f9597..edb6e00 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -330,9 +330,6 @@ void Checkpoint<dim>::load(DistributionFunctions& f,
 
 	// TODO Enable transfer to new scaling
 	LOG(DETAILED) << "Transfer to new scaling (not implemented)" << endl;
-	// transfer to current stencil scaling, if required
-	boost::shared_ptr<Stencil> old_stencil = CFDSolverUtilities::make_stencil(
-			new_stencil->getD(), new_stencil->getQ(), status.stencilScaling);
 	//f.transferFromOtherScaling(*old_stencil, *new_stencil,
     //dof_handler.locally_owned_dofs());
 	f.compress(dealii::VectorOperation::insert);
-- 
2.43.0


From b537587c0498223bad458829b305dcb171984788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 22/45] fix: calculate the velocity from the populations after
 a restart

---
 src/library/natrium/solver/CFDSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 6965ea1..d808746 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1514,7 +1514,7 @@ void CFDSolver<dim>::calculateDensitiesAndVelocities() {
 		size_t i = *it;
 		double one_by_rho_i = 1.0 / writeable_rho(i);
 		for (size_t j = 0; j < dim; j++) {
-			writeable_u[j](i) = m_velocity[j](i) * one_by_rho_i;
+			writeable_u[j](i) = writeable_u[j](i) * one_by_rho_i;
 		}
 	}
 
-- 
2.43.0


From 63fce14f7f44dc31a476a458cd58cbfc9c8cecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 23/45] fix: do not collide twice in the iteration of a restart

---
 src/library/natrium/solver/CFDSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index d808746..49fe472 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -876,7 +876,10 @@ void CFDSolver<dim>::filter() {
 template<size_t dim>
 void CFDSolver<dim>::run() {
 	m_i = m_iterationStart;
-	collide();
+	// checkpoints contain the populations after the collision
+	if (m_iterationStart == 0) {
+		collide();
+	}
 	while (true) {
 		if (stopConditionMet()) {
 			break;
-- 
2.43.0


From 8b4d2bbe4d598a0b7ae22b3e1bd667ccf8c9ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 24/45] fix: collisions on processes without degrees of freedom

---
 src/library/natrium/collision_advanced/CollisionOperator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionOperator.h b/src/library/natrium/collision_advanced/CollisionOperator.h
index 09a6801..dc64bad 100644
--- a/src/library/natrium/collision_advanced/CollisionOperator.h
+++ b/src/library/natrium/collision_advanced/CollisionOperator.h
@@ -103,7 +103,8 @@ public:
 
 		}
 
-        if (1e-10 >= genData.density) {
+        // there is no density on a process that owns no degrees of freedom
+        if (length > 0 and 1e-10 >= genData.density) {
             throw DensityZeroException(
                     "Density too small in collision. Decrease time step size.");
         }
@@ -215,7 +216,8 @@ public:
 
 		}
 
-        if (1e-10 >= genData.density) {
+        // there is no density on a process that owns no degrees of freedom
+        if (length > 0 and 1e-10 >= genData.density) {
             throw DensityZeroException(
                     "Density too small in collision. Decrease time step size.");
         }
-- 
2.43.0


From 3d6bb272ad3d383e1967562e54774801e61c6ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 25/45] fix: moving walls at corners in semi-Lagrangian
 streaming

A path that is reflected at more than one wall collected the momentum of
every wall with the sign of the destination direction, and populations
that are enclosed in a corner collected it up to 50 times, although they
are not changed by the streaming step.
---
 .../natrium/advection/SemiLagrangian.cpp      | 22 +++++++++++++++++--
 .../natrium/advection/SemiLagrangian.h        |  7 ++++++
 .../natrium/advection/SemiLagrangianTools.h   |  6 +++--
 .../boundaries/VelocityNeqBounceBack.cpp      |  4 ++++
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 124e1d4..0d9bc6d 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -203,6 +203,8 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 			// initialize
 			found_in_cell.clear();
 			std::queue<LagrangianPathTracker<dim> > not_found;
+			// boundary hits of the path that is currently followed
+			std::vector<std::pair<LagrangianPathTracker<dim>, size_t> > path_hits;
 
 			// get global degrees of freedom
 			cell->get_dof_indices(local_dof_indices);
@@ -266,6 +268,8 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 								el.destination.index, el.destination.index,
 								1.0);
 					}
+					// the distribution function is not changed, either, by the boundaries
+					path_hits.clear();
 					not_found.pop();
 					continue;
 				}
@@ -326,6 +330,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 					} else {
 						it->second.push_back(el);
 					}
+					addPathHits(path_hits);
 					not_found.pop();
 
 					// ================================================================================================
@@ -379,7 +384,10 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 												* distance / vel_direction;
 							}
 							if (not sparsity_pattern) {
-								m_boundaryHandler.addHit(el, bi);
+								path_hits.push_back(std::make_pair(el, bi));
+								// every reflection reverses the direction of the path
+								path_hits.back().first.destination.reversed =
+										(el.currentDirection == el.destination.direction);
 							}
 
 						}
@@ -406,8 +414,9 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 							// ================================================================================================
 							if (not sparsity_pattern) {
 								el.currentPoint = p_boundary;
-								m_boundaryHandler.addHit(el, bi);
+								path_hits.push_back(std::make_pair(el, bi));
 							}
+							addPathHits(path_hits);
 							not_found.pop();
 
 						}
@@ -532,6 +541,15 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 //#endif
 } /* fillSparseObject */
 
+template<size_t dim>
+void SemiLagrangian<dim>::addPathHits(
+		std::vector<std::pair<LagrangianPathTracker<dim>, size_t> >& path_hits) {
+	for (size_t k = 0; k < path_hits.size(); k++) {
+		m_boundaryHandler.addHit(path_hits.at(k).first, path_hits.at(k).second);
+	}
+	path_hits.clear();
+}
+
 template<size_t dim>
 int SemiLagrangian<dim>::faceCrossedFirst(
 		const typename dealii::DoFHandler<dim>::active_cell_iterator& cell,
diff --git a/src/library/natrium/advection/SemiLagrangian.h b/src/library/natrium/advection/SemiLagrangian.h
index 09aa337..421e964 100755
--- a/src/library/natrium/advection/SemiLagrangian.h
+++ b/src/library/natrium/advection/SemiLagrangian.h
@@ -82,6 +82,13 @@ private:
 	 */
 	void fillSparseObject(bool sparsity_pattern = false, size_t row_index  = -1);
 
+	/**
+	 * @short hand the boundary hits of a Lagrangian path over to the boundary handler
+	 * @param path_hits list of the hits and boundary ids; is cleared
+	 */
+	void addPathHits(
+			std::vector<std::pair<LagrangianPathTracker<dim>, size_t> >& path_hits);
+
 	/**
 	 * @short update the sparsity pattern of the system matrix
 	 */
diff --git a/src/library/natrium/advection/SemiLagrangianTools.h b/src/library/natrium/advection/SemiLagrangianTools.h
index 9170211..bb12679 100755
--- a/src/library/natrium/advection/SemiLagrangianTools.h
+++ b/src/library/natrium/advection/SemiLagrangianTools.h
@@ -36,11 +36,13 @@ public:
 struct LagrangianPathDestination {
 	size_t index;
 	size_t direction; // in case of a boundary: the outgoing direction
+	bool reversed; // in case of a boundary: the distribution function leaves this boundary opposite to direction (and is reflected at another boundary, afterwards)
 	LagrangianPathDestination(size_t i, size_t alpha) :
-			index(i), direction(alpha) {
+			index(i), direction(alpha), reversed(false) {
 	}
 	LagrangianPathDestination(const LagrangianPathDestination& other) :
-			index(other.index), direction(other.direction) {
+			index(other.index), direction(other.direction), reversed(
+					other.reversed) {
 	}
 };
 
diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 4c03143..5cccfb2 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -179,6 +179,10 @@ void VelocityNeqBounceBack<dim>::calculateBoundaryValues(
 
 	double to_add = 2 * stencil.getWeight(destination.direction)
 			* rho * exu / stencil.getSpeedOfSoundSquare();
+	if (destination.reversed) {
+		// the population that leaves the wall moves in opposite direction
+		to_add = -to_add;
+	}
 
 	/*
 	 * equilibrium for testing:
-- 
2.43.0


From 91e92b8e46bae41a189845d59be6316ba67cb9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 26/45] fix: mean velocity and entropy are integrals (basis
 function values were missing)

---
 src/library/natrium/solver/PhysicalProperties.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/solver/PhysicalProperties.cpp b/src/library/natrium/solver/PhysicalProperties.cpp
index 952b13d..7f06a8b 100644
--- a/src/library/natrium/solver/PhysicalProperties.cpp
+++ b/src/library/natrium/solver/PhysicalProperties.cpp
@@ -325,7 +325,8 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 
 // Integrate ux over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values
+			| dealii::update_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -347,9 +348,11 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 			feCellValues.reinit(cell);
 			for (size_t q = 0; q < n_q_points; q++) {
 				for (size_t i = 0; i < dofs_per_cell; i++) {
-					result += ux(localDoFIndices.at(i)) * feCellValues.JxW(q);
-					area += feCellValues.JxW(q);
+					result += ux(localDoFIndices.at(i))
+							* feCellValues.shape_value(i, q)
+							* feCellValues.JxW(q);
 				}
+				area += feCellValues.JxW(q);
 			}
 		} /* if is locally owned */
 	} /* for all cells */
@@ -370,7 +373,8 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 
 	// Integrate rho over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values
+			| dealii::update_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -397,6 +401,7 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 						// atGhosted gives a vector that also contains the ghost elements
 						result -= f.atGhosted(j)(local_i)
 								* log(f.atGhosted(j)(local_i) / weights.at(j))
+								* feCellValues.shape_value(i, q)
 								* feCellValues.JxW(q);
 					}
 				}
-- 
2.43.0


From 127715c84d03f62da69f0af0f3408a4ee204deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 27/45] fix: benchmarks write their final solution and
 checkpoint

---
 src/library/natrium/solver/BenchmarkCFDSolver.cpp             | 4 ++--
 src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/solver/BenchmarkCFDSolver.cpp b/src/library/natrium/solver/BenchmarkCFDSolver.cpp
index b4a5c97..dcb0348 100644
--- a/src/library/natrium/solver/BenchmarkCFDSolver.cpp
+++ b/src/library/natrium/solver/BenchmarkCFDSolver.cpp
@@ -43,8 +43,8 @@ template<size_t dim> BenchmarkCFDSolver<dim>::BenchmarkCFDSolver(
 } /*BenchmarkCFDSolver constructor */
 
 template<size_t dim>
-void BenchmarkCFDSolver<dim>::output(size_t iteration, bool ) {
-	CFDSolver<dim>::output(iteration);
+void BenchmarkCFDSolver<dim>::output(size_t iteration, bool is_final) {
+	CFDSolver<dim>::output(iteration, is_final);
 	// output error table
 	if (not this->getConfiguration()->isSwitchOutputOff()) {
 		if (this->getIteration()
diff --git a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
index e989a13..dbbe02c 100644
--- a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
+++ b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
@@ -40,8 +40,8 @@ namespace natrium {
     } /*BenchmarkCFDSolver constructor */
 
     template<size_t dim>
-    void BenchmarkCompressibleCFDSolver<dim>::output(size_t iteration, bool ) {
-        CompressibleCFDSolver<dim>::output(iteration);
+    void BenchmarkCompressibleCFDSolver<dim>::output(size_t iteration, bool is_final) {
+        CompressibleCFDSolver<dim>::output(iteration, is_final);
         // output error table
         if (not this->getConfiguration()->isSwitchOutputOff()) {
             if (this->getIteration()
-- 
2.43.0


From 200dcf309f8dba4c319be4a8ba36f9d882c7ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 28/45] fix: only the first process opens the error table

---
 .../natrium/solver/CompressibleErrorStats.cpp    | 16 +++++++++-------
 src/library/natrium/solver/ErrorStats.cpp        | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/library/natrium/solver/CompressibleErrorStats.cpp b/src/library/natrium/solver/CompressibleErrorStats.cpp
index 49877c4..6fa1833 100644
--- a/src/library/natrium/solver/CompressibleErrorStats.cpp
+++ b/src/library/natrium/solver/CompressibleErrorStats.cpp
@@ -34,13 +34,15 @@ namespace natrium {
         m_maxUAnalytic = 0.0;
 
         // create file (if necessary)
-        if (m_solver->getIterationStart() > 0) {
-            m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-                                                                 std::fstream::out | std::fstream::app);
-        } else {
-            m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-                                                                 std::fstream::out);
-            printHeaderLine();
+        if ((not m_outputOff) and is_MPI_rank_0()) {
+            if (m_solver->getIterationStart() > 0) {
+                m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+                                                                     std::fstream::out | std::fstream::app);
+            } else {
+                m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+                                                                     std::fstream::out);
+                printHeaderLine();
+            }
         }
         MPI_sync();
     }
diff --git a/src/library/natrium/solver/ErrorStats.cpp b/src/library/natrium/solver/ErrorStats.cpp
index 80ad3fd..068c7af 100644
--- a/src/library/natrium/solver/ErrorStats.cpp
+++ b/src/library/natrium/solver/ErrorStats.cpp
@@ -29,13 +29,15 @@ ErrorStats<dim>::ErrorStats(BenchmarkCFDSolver<dim> * cfdsolver,
 	m_maxUAnalytic = 0.0;
 
 	// create file (if necessary)
-	if (m_solver->getIterationStart() > 0) {
-		m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-				std::fstream::out | std::fstream::app);
-	} else {
-		m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-				std::fstream::out);
-		printHeaderLine();
+	if ((not m_outputOff) and is_MPI_rank_0()) {
+		if (m_solver->getIterationStart() > 0) {
+			m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+					std::fstream::out | std::fstream::app);
+		} else {
+			m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+					std::fstream::out);
+			printHeaderLine();
+		}
 	}
 	MPI_sync();
 }
-- 
2.43.0


From 5577590060ec106f83af5ffb58420acb51eb7300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 29/45] fix: column number of the time in the legend of the
 global statistics

---
 src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp b/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
index 95b2ceb..6d3fe18 100755
--- a/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
+++ b/src/library/natrium/dataprocessors/GlobalTurbulenceStats.cpp
@@ -90,7 +90,7 @@ void GlobalTurbulenceStats<dim>::printHeaderLine() {
 
 		// write legend file
 		legend_file << "1  iteration" << endl;
-		legend_file << "3  time" << endl;
+		legend_file << "2  time" << endl;
 		size_t k = 3;
 		for (size_t i = 0; i < m_nofObservables; i++) {
 			legend_file << k << "  < " << m_names.at(i) << " >" << endl;
-- 
2.43.0


From 4d27b3e6d1fb7ce8bca78227247b6d2bac797689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 30/45] fix: polynomial degrees of the filters in 3D

---
 src/library/natrium/smoothing/ExponentialFilter.cpp | 2 +-
 src/library/natrium/smoothing/NewFilter.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/smoothing/ExponentialFilter.cpp b/src/library/natrium/smoothing/ExponentialFilter.cpp
index b22858c..bdecf5d 100755
--- a/src/library/natrium/smoothing/ExponentialFilter.cpp
+++ b/src/library/natrium/smoothing/ExponentialFilter.cpp
@@ -124,7 +124,7 @@ inline void ExponentialFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p + 1) * (p + 1) * (p + 1); i++) {
 		size_t ix = i / ((p + 1) * (p + 1));
 		size_t max = ix;
-		size_t iy = ( i % (p+1) * (p+1) ) / (p + 1);
+		size_t iy = (i % ((p + 1) * (p + 1))) / (p + 1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p + 1);
diff --git a/src/library/natrium/smoothing/NewFilter.cpp b/src/library/natrium/smoothing/NewFilter.cpp
index 848c5db..1fa6418 100755
--- a/src/library/natrium/smoothing/NewFilter.cpp
+++ b/src/library/natrium/smoothing/NewFilter.cpp
@@ -124,7 +124,7 @@ inline void NewFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p+1)*(p+1)*(p+1); i++) {
 		size_t ix = i / ((p+1) * (p+1));
 		size_t max = ix;
-		size_t iy = i / (p+1);
+		size_t iy = (i % ((p+1) * (p+1))) / (p+1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p+1);
-- 
2.43.0


From d5478e5e1d8c456067e778ba08feec42af711bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 31/45] fix: implicit time integration on several processes

Only locally owned rows get the identity, and whether the temporary matrix is rebuilt is decided from global quantities.
---
 .../natrium/timeintegration/DealIIWrapper.cpp       |  8 +++++---
 src/library/natrium/timeintegration/ThetaMethod.cpp | 13 ++++++++-----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index 1db7d59..b709d8e 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -291,7 +291,7 @@ distributed_vector natrium::DealIIWrapper<distributed_sparse_matrix,
 	m_tmpMatrix.copy_from(*m_systemMatrix);
 	// I-theta*A
 	m_tmpMatrix *= (-tau);
-	for (size_t i = 0; i < m_tmpMatrix.n(); i++) {
+	for (const auto i : m_tmpMatrix.locally_owned_range_indices()) {
 		m_tmpMatrix.add(i, i, 1.0);
 	}
 
@@ -432,8 +432,10 @@ distributed_block_vector natrium::DealIIWrapper<distributed_sparse_block_matrix,
 	distributed_block_vector result = f;
 
 	// check equality of sparsity patterns
-	if (m_tmpMatrix.memory_consumption()
-			!= m_systemMatrix->memory_consumption()) {
+	// (global number of entries: all MPI processes have to decide the same way)
+	if (m_tmpMatrix.n_block_rows() != m_systemMatrix->n_block_rows()
+			or m_tmpMatrix.n_nonzero_elements()
+					!= m_systemMatrix->n_nonzero_elements()) {
 		size_t n_blocks = m_systemMatrix->n_block_rows();
 		assert(
 				m_systemMatrix->n_block_cols()
diff --git a/src/library/natrium/timeintegration/ThetaMethod.cpp b/src/library/natrium/timeintegration/ThetaMethod.cpp
index 21b0eef..5e742fe 100644
--- a/src/library/natrium/timeintegration/ThetaMethod.cpp
+++ b/src/library/natrium/timeintegration/ThetaMethod.cpp
@@ -77,8 +77,8 @@ template<> double ThetaMethod<distributed_sparse_matrix, distributed_vector>::st
 		m_tmpSystemVector.reinit(f);
 	}
 	// check equality of sparsity patterns
-	// check equality of sparsity patterns
-	if (m_tmpMatrix.memory_consumption() != systemMatrix.memory_consumption()) {
+	// (global number of entries: all MPI processes have to decide the same way)
+	if (m_tmpMatrix.n_nonzero_elements() != systemMatrix.n_nonzero_elements()) {
 		m_tmpMatrix.copy_from(systemMatrix);
 	}
 
@@ -94,7 +94,7 @@ template<> double ThetaMethod<distributed_sparse_matrix, distributed_vector>::st
 	}
 	// I-theta*dt*A
 	m_tmpMatrix *= (-m_theta);
-	for (size_t i = 0; i < m_tmpMatrix.n(); i++) {
+	for (const auto i : m_tmpMatrix.locally_owned_range_indices()) {
 		m_tmpMatrix.add(i, i, 1.0);
 	}
 	// (I-theta*dt*A)f(t) + dt*A*f(t) + dt*b
@@ -193,7 +193,10 @@ template<> double ThetaMethod<distributed_sparse_block_matrix,
 		m_tmpSystemVector.reinit(f);
 	}
 	// check equality of sparsity patterns
-	if (m_tmpMatrix.memory_consumption() != systemMatrix.memory_consumption()) {
+	// (global number of entries: all MPI processes have to decide the same way)
+	if (m_tmpMatrix.n_block_rows() != systemMatrix.n_block_rows()
+			or m_tmpMatrix.n_nonzero_elements()
+					!= systemMatrix.n_nonzero_elements()) {
 		size_t n_blocks = systemMatrix.n_block_rows();
 		assert(systemMatrix.n_block_cols() == systemMatrix.n_block_rows());
 		m_tmpMatrix.reinit(n_blocks, n_blocks);
@@ -224,7 +227,7 @@ template<> double ThetaMethod<distributed_sparse_block_matrix,
 	// I-theta*dt*A
 	m_tmpMatrix *= (-m_theta);
 	for (size_t I = 0; I < m_tmpMatrix.n_block_cols(); I++) {
-		for (size_t i = 0; i < m_tmpMatrix.block(I, I).n(); i++) {
+		for (const auto i : m_tmpMatrix.block(I, I).locally_owned_range_indices()) {
 			m_tmpMatrix.block(I, I).add(i, i, 1.0);
 		}
 	}
-- 
2.43.0


From 40bd2ba9a9934a378e1d78ecce4fac4944003a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 32/45] fix: distribution functions on meshes owned by one of
 several processes

---
 src/library/natrium/solver/DistributionFunctions.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/library/natrium/solver/DistributionFunctions.cpp b/src/library/natrium/solver/DistributionFunctions.cpp
index 9a858fb..380d2cb 100755
--- a/src/library/natrium/solver/DistributionFunctions.cpp
+++ b/src/library/natrium/solver/DistributionFunctions.cpp
@@ -60,13 +60,10 @@ distributed_vector& DistributionFunctions::atGhosted(size_t i) {
 	if (m_dg) {
 		return at(i);
 	} else {
+		// without any ghost element when one process owns the whole mesh
 		if (i == 0) {
-			if (dealii::Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) > 1)
-				assert(m_f0Ghosted.has_ghost_elements());
 			return m_f0Ghosted;
 		} else {
-			if (dealii::Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) > 1)
-				assert(m_fStreamGhosted.has_ghost_elements());
 			return m_fStreamGhosted.block(i - 1);
 		}
 	}
@@ -78,13 +75,10 @@ const distributed_vector& DistributionFunctions::atGhosted(size_t i) const {
 	if (m_dg) {
 		return at(i);
 	} else {
+		// without any ghost element when one process owns the whole mesh
 		if (i == 0) {
-			if (dealii::Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) > 1)
-				assert(m_f0Ghosted.has_ghost_elements());
 			return m_f0Ghosted;
 		} else {
-			if (dealii::Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) > 1)
-				assert(m_fStreamGhosted.has_ghost_elements());
 			return m_fStreamGhosted.block(i - 1);
 		}
 	}
-- 
2.43.0


From 27b468899f8127b0429735cdee35a442af72f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:55 +0000
Subject: [PATCH 33/45] fix: CompressibleTurbulenceStats: Mach number refers to
 the speed of sound of the scaled velocity set

---
 .../natrium/dataprocessors/CompressibleTurbulenceStats.cpp    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
index a9faf73..915760b 100644
--- a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
+++ b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
@@ -119,6 +119,8 @@ CompressibleTurbulenceStats<dim>::CompressibleTurbulenceStats(CompressibleCFDSol
         double solenoidal = 0.0;
         double globalMach = 0.0;
         double totalEnergy = 0.0;
+        // the temperature is relative to the square of the velocity set's speed of sound
+        const double cs2 = m_solver.getStencil()->getSpeedOfSoundSquare();
 
         uxs.resize(n_q_points);
         uys.resize(n_q_points);
@@ -184,7 +186,7 @@ CompressibleTurbulenceStats<dim>::CompressibleTurbulenceStats(CompressibleCFDSol
                             if (3 == dim)
                                 u_magnitude+=uzs.at(q)*uzs.at(q);
                         u_magnitude=sqrt(u_magnitude);
-                        double localMach = u_magnitude/sqrt(m_gamma*Ts.at(q));
+                        double localMach = u_magnitude/sqrt(m_gamma*Ts.at(q)*cs2);
                         if (localMach > globalMach)
                             globalMach=localMach;
 
-- 
2.43.0


From 0d33739a5ad8743505584a0d74184807d4de8350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 34/45] fix: CompressibleCFDSolver: turbulence table showed the
 fields of the iteration before

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 741b1a4..bfe06cd 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -1026,9 +1026,6 @@ void compressibleFilter() {
             this->stream();
             gStream();
             compressibleFilter();
-            if (this->m_configuration->isOutputCompressibleTurbulenceStatistics()) {
-                this->m_compressibleTurbulenceStats->apply();
-            }
             if(this->m_i==200) {
 
 
@@ -1038,6 +1035,11 @@ void compressibleFilter() {
 
             this->collide();
 
+            // density, velocity and temperature of this iteration are known after the collision
+            if (this->m_configuration->isOutputCompressibleTurbulenceStatistics()) {
+                this->m_compressibleTurbulenceStats->apply();
+            }
+
             for (size_t i = 0; i < this->m_dataProcessors.size(); i++) {
                 this->m_dataProcessors.at(i)->apply();
             }
-- 
2.43.0


From 8c5bbf2e3455594b6c10927783eac3e7e21e6b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 35/45] fix: CompressibleTurbulenceStats: legend gives the
 columns of the table

---
 .../natrium/dataprocessors/CompressibleTurbulenceStats.cpp  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
index 915760b..82dbe88 100644
--- a/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
+++ b/src/library/natrium/dataprocessors/CompressibleTurbulenceStats.cpp
@@ -55,11 +55,17 @@ CompressibleTurbulenceStats<dim>::CompressibleTurbulenceStats(CompressibleCFDSol
             std::ofstream legend_file(m_legendFilename, std::fstream::out);
 
             int k = 0;
+            legend_file << k << "  iteration" << endl;
+            k++;
+            legend_file << k << "  time" << endl;
+            k++;
             legend_file << k << "  <dilatation>" << endl;
             k++;
             legend_file << k << "  <solenoidal>" << endl;
             k++;
             legend_file << k << "  maxMach" << endl;
+            k++;
+            legend_file << k << "  totalEnergy" << endl;
             legend_file.close();
 
         } /* is_MPI_rank 0 */
-- 
2.43.0


From 041c5be35306d07dc55fe0a0d8bc4c4d7786c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 36/45] fix: BenchmarkCompressibleCFDSolver: error table was
 never written, as run() calls compressibleOutput()

---
 .../natrium/solver/BenchmarkCompressibleCFDSolver.cpp      | 7 +++----
 .../natrium/solver/BenchmarkCompressibleCFDSolver.h        | 2 +-
 src/library/natrium/solver/CompressibleCFDSolver.h         | 2 +-
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
index dbbe02c..7aa7016 100644
--- a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
+++ b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
@@ -40,8 +40,8 @@ namespace natrium {
     } /*BenchmarkCFDSolver constructor */
 
     template<size_t dim>
-    void BenchmarkCompressibleCFDSolver<dim>::output(size_t iteration, bool is_final) {
-        CompressibleCFDSolver<dim>::output(iteration, is_final);
+    void BenchmarkCompressibleCFDSolver<dim>::compressibleOutput(size_t iteration, bool is_final) {
+        CompressibleCFDSolver<dim>::compressibleOutput(iteration, is_final);
         // output error table
         if (not this->getConfiguration()->isSwitchOutputOff()) {
             if (this->getIteration()
@@ -49,7 +49,7 @@ namespace natrium {
                 m_compressibleErrorStats->printNewLine();
             }
         }
-    } /*output*/
+    } /*compressibleOutput*/
 
     template<size_t dim>
     void BenchmarkCompressibleCFDSolver<dim>::getAllAnalyticDensities(double time,
@@ -59,7 +59,6 @@ namespace natrium {
         // get Function instance
         const boost::shared_ptr<dealii::Function<dim> > f_rho =
                 m_benchmark->getAnalyticRhoFunction(time);
-        cout << time << endl;
         const unsigned int dofs_per_cell = adv_op->getFe()->dofs_per_cell;
         vector<dealii::types::global_dof_index> local_dof_indices(dofs_per_cell);
         typename dealii::DoFHandler<dim>::active_cell_iterator cell =
diff --git a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h
index cd90e3f..299d037 100644
--- a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h
+++ b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h
@@ -40,7 +40,7 @@ namespace natrium {
         /**
          * @short create output data and write to file
          */
-        virtual void output(size_t iteration, bool is_final = false);
+        virtual void compressibleOutput(size_t iteration, bool is_final);
 
 /// gives the possibility for Benchmark instances to add the analytic solution to output
         virtual void addAnalyticSolutionToOutput(dealii::DataOut<dim>& data_out) {
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index bfe06cd..cee4b26 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -413,7 +413,7 @@ void compressibleFilter() {
 		member = writeable;
 	}
 
-	void compressibleOutput(size_t iteration, bool is_final) {
+	virtual void compressibleOutput(size_t iteration, bool is_final) {
 
 
 // start timer
-- 
2.43.0


From c684345580f68c03a202cdb052e4c9d6426a59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:10 +0000
Subject: [PATCH 37/45] fix: CompressibleCFDSolver: restart loads the second
 distribution and does not collide the checkpoint again

---
 src/library/natrium/solver/Checkpoint.h          |  5 +++++
 .../natrium/solver/CompressibleCFDSolver.h       | 16 ++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.h b/src/library/natrium/solver/Checkpoint.h
index 7d2bf23..d93a55f 100755
--- a/src/library/natrium/solver/Checkpoint.h
+++ b/src/library/natrium/solver/Checkpoint.h
@@ -70,6 +70,11 @@ private:
 
 public:
 
+	/// number of refinements of the mesh by the last restart
+	static int getNumberOfRefinements() {
+		return m_numberOfRefinements;
+	}
+
 	/**
 	 * @short Constructor
 	 * @param[in] iteration The iteration number of the checkpoint (save or load).
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index cee4b26..1231d91 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -82,7 +82,7 @@ public:
                 for (size_t i = 0; i < this->m_stencil->getQ(); i++) {
                     double sum = 0.0;
                     for (size_t a = 0; a < dim; a++) {
-                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i));
+                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it));
                     }
                     temperature += sum * this->m_f.at(i)(*it) / this->getStencil()->getSpeedOfSoundSquare() +
                             m_g.at(i)(*it);
@@ -167,8 +167,12 @@ public:
                 }
             }
 
-           // checkpoint->load(m_g, *(this->m_problemDescription), *(this->m_advectionOperator),
-            //                 checkpoint_status);
+            // the second distribution is only guessed from the first one, where the mesh has been
+            // refined by the restart and the checkpoint does not fit
+            if (0 == Checkpoint<dim>::getNumberOfRefinements()) {
+                checkpoint->load(m_g, *(this->m_problemDescription), *(this->m_advectionOperator),
+                                 checkpoint_status);
+            }
 
         }
         m_g.updateGhosted();
@@ -1010,11 +1014,11 @@ void compressibleFilter() {
     void run()
     {
         this->m_i = this->m_iterationStart;
-        if(this->m_i<=1) {
+        // the distributions of a checkpoint have been collided, already
+        if (0 == this->m_iterationStart) {
             initializeDistributions();
-
+            collide();
         }
-        collide();
             while (true) {
             if (this->stopConditionMet()) {
                 break;
-- 
2.43.0


From afed9ad5b3156a10b3391a70318476a016768712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:40 +0000
Subject: [PATCH 38/45] fix: map points across periodic faces that are rotated
 against each other

The vertex permutation of a face rotation was applied the wrong way round, so
coordinatesAcrossPeriodicBoundary() shifted points by a wrong offset when the two
faces of a periodic pair have rotated local numberings.
---
 src/library/natrium/boundaries/PeriodicBoundary.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/boundaries/PeriodicBoundary.cpp b/src/library/natrium/boundaries/PeriodicBoundary.cpp
index b4bd44e..11516d8 100644
--- a/src/library/natrium/boundaries/PeriodicBoundary.cpp
+++ b/src/library/natrium/boundaries/PeriodicBoundary.cpp
@@ -226,20 +226,20 @@ dealii::Point<dim> PeriodicBoundary<dim>::coordinatesAcrossPeriodicBoundary(
 			}
 		}
 		if (orientation[2]) {
-			// face flip
+			// face rotation
 			h[0] = face1_to_face0_vertex[0];
 			h[1] = face1_to_face0_vertex[1];
 			h[2] = face1_to_face0_vertex[2];
 			h[3] = face1_to_face0_vertex[3];
 			for (size_t i = 0; i < 4; i++) {
 				if (0 == h[i])
-					face1_to_face0_vertex[i] = 1;
+					face1_to_face0_vertex[i] = 2;
 				if (1 == h[i])
-					face1_to_face0_vertex[i] = 3;
-				if (2 == h[i])
 					face1_to_face0_vertex[i] = 0;
+				if (2 == h[i])
+					face1_to_face0_vertex[i] = 3;
 				if (3 == h[i])
-					face1_to_face0_vertex[i] = 2;
+					face1_to_face0_vertex[i] = 1;
 			}
 		}
 	} else {
-- 
2.43.0


From 077e126fcbdbcedf86146d51469f8b51088fafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:40 +0000
Subject: [PATCH 39/45] fix: look up periodic faces by face number in the flux
 sparsity pattern

isFaceInBoundary() takes the number of the face in the cell, but got the boundary
id.  Periodic meshes whose boundary ids differ from the face numbers lost the
couplings across the boundary (or indexed faces that do not exist).
---
 src/library/natrium/utilities/DealiiExtensions.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/DealiiExtensions.cpp b/src/library/natrium/utilities/DealiiExtensions.cpp
index ee7eb72..9ab2899 100644
--- a/src/library/natrium/utilities/DealiiExtensions.cpp
+++ b/src/library/natrium/utilities/DealiiExtensions.cpp
@@ -122,8 +122,7 @@ void make_sparser_flux_sparsity_pattern(const DH &dof,
 							boundaries.getPeriodicBoundaries().begin();
 							periodic != boundaries.getPeriodicBoundaries().end();
 							periodic++) {
-						if (periodic->second->isFaceInBoundary(cell,
-								this_face->boundary_id())) {
+						if (periodic->second->isFaceInBoundary(cell, face)) {
 							neighbor_face =
 									periodic->second->getOppositeCellAtPeriodicBoundary(
 											cell, neighbor);
-- 
2.43.0


From be62bb3882e7390f0f852fee75b052e426fad0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:05 +0000
Subject: [PATCH 40/45] fix: relax the heat flux of the second distribution
 with the Prandtl number

The first moment of gStar has to be the centred flux of g.  The weights belong to
the reference temperature, so the normalization is the lattice's cs2; with the local
temperature the thermal diffusivity differed from nu / Pr wherever T is not 1.
---
 .../natrium/collision_advanced/AuxiliaryCollisionFunctions.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h b/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
index 648da1d..02964d3 100644
--- a/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
+++ b/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
@@ -509,7 +509,7 @@ inline void calculateGeqFromFeq(const std::array<double, T_Q>& feq,std::array<do
         for (size_t a = 0; a < T_D; a++) {
             for (size_t i = 0; i < T_Q; i++) {
                 gStar[i] += p.weight[i] * (centeredFluxTensorG[a] * p.e[i][a]) /
-                                    p.temperature;
+                                    p.cs2;
                     }
                 }
             }
-- 
2.43.0


From 90a84401e8842460291ea1c934d204eb5bad6e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:34 +0000
Subject: [PATCH 41/45] fix: give the gas that enters at an equilibrium inflow
 the energy of its temperature

The internal energy distribution at the inflow was always that of temperature 1, whatever
the temperature of the boundary.
---
 .../natrium/boundaries/SLEquilibriumBoundary.h        |  6 ++++++
 .../boundaries/SemiLagrangianBoundaryHandler.cpp      | 11 ++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/boundaries/SLEquilibriumBoundary.h b/src/library/natrium/boundaries/SLEquilibriumBoundary.h
index a0714ca..4b2617e 100755
--- a/src/library/natrium/boundaries/SLEquilibriumBoundary.h
+++ b/src/library/natrium/boundaries/SLEquilibriumBoundary.h
@@ -63,6 +63,12 @@ public:
         return flags;
     }
 
+	/** @short the temperature of the fluid that enters
+	 */
+	double getTemperature() const {
+		return m_temperature;
+	}
+
 
 	virtual void calculateBoundaryValues(
 			FEBoundaryValues<dim>& fe_boundary_values, size_t q_point,
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index e6335e4..040093e 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -7,6 +7,7 @@
 
 #include "SemiLagrangianBoundaryHandler.h"
 #include "BoundaryFlags.h"
+#include "SLEquilibriumBoundary.h"
 
 namespace natrium {
 
@@ -112,8 +113,6 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
     void SemiLagrangianBoundaryHandler<dim>::applyToG(DistributionFunctions &f, DistributionFunctions &g, double t, const double gamma) {
 
         const double C_v = 1. / (gamma - 1.0);
-        const double temperature = 1.0;
-
         std::vector<dealii::Point<dim> > local_hit_points;
         typename HitList<dim>::iterator cell_it = m_hitList.begin();
         typename HitList<dim>::iterator cell_end = m_hitList.end();
@@ -143,10 +142,12 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
 // apply boundaries at hits
                 for (size_t i = 0; i < point_hits.n_hits(); i++) {
                     const BoundaryHit<dim> &hit = point_hits.at(i);
-                    if (m_boundaries.getBoundary(hit.getBoundaryId())->getBoundaryName() ==
-                        VELOCITY_EQUILIBRIUM_BOUNDARY)
+                    boost::shared_ptr<SLEquilibriumBoundary<dim> > inflow =
+                        boost::dynamic_pointer_cast<SLEquilibriumBoundary<dim> >(
+                                m_boundaries.getBoundary(hit.getBoundaryId()));
+                    if (inflow)
                         g.at(hit.getDestination().direction)(hit.getDestination().index) =
-                                f.at(hit.getDestination().direction)(hit.getDestination().index) * (temperature) *
+                                f.at(hit.getDestination().direction)(hit.getDestination().index) * (inflow->getTemperature()) *
                                 (2.0 * C_v - dim);
 // calculate new g distribution functions at hits
 
-- 
2.43.0


From 8a1dfce6ddca954591cb2fd120c0db5545f6be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:24 +0000
Subject: [PATCH 42/45] fix: collide with the current step size of an embedded
 time integrator

---
 src/library/natrium/solver/CFDSolver.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 49fe472..360b6db 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -818,11 +818,8 @@ void CFDSolver<dim>::collide() {
 		CFDSolverUtilities::getWriteableDensity(writeable_rho, m_density,
 				m_advectionOperator->getLocallyOwnedDofs());
 
-		double delta_t = CFDSolverUtilities::calculateTimestep<dim>(
-					*(m_problemDescription->getMesh()),
-					m_configuration->getSedgOrderOfFiniteElement(), *m_stencil,
-					m_configuration->getCFL());
-
+		// embedded time integrators adapt the time step size
+		double delta_t = m_timeIntegrator->getTimeStepSize();
 
 // TODO member function collisionModel
 		selectCollision(*m_configuration, *m_problemDescription, m_f, writeable_rho, writeable_u,
-- 
2.43.0


From eb72f756e3728cbd11266d1f5343c40df0f4b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:24 +0000
Subject: [PATCH 43/45] fix: default CFL limits of the embedded time
 integrators were interchanged

---
 src/library/natrium/solver/SolverConfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.cpp b/src/library/natrium/solver/SolverConfiguration.cpp
index 18b6a0b..f586eac 100644
--- a/src/library/natrium/solver/SolverConfiguration.cpp
+++ b/src/library/natrium/solver/SolverConfiguration.cpp
@@ -107,9 +107,9 @@ SolverConfiguration::SolverConfiguration() {
 			declare_entry("Refinement parameter", "0.8",
 					dealii::Patterns::Double(0, 1),
 					"Parameter for the embedded deal.II methods. This parameter is the factor (<1) by which the time step is multiplied when the time stepping must be refined.");
-			declare_entry("Minimum CFL", "10", dealii::Patterns::Double(),
+			declare_entry("Minimum CFL", "0.05", dealii::Patterns::Double(),
 					"Parameter for the embedded deal.II methods. Smallest CFL allowed.");
-			declare_entry("Maximum CFL", "0.05", dealii::Patterns::Double(),
+			declare_entry("Maximum CFL", "10", dealii::Patterns::Double(),
 					"Parameter for the embedded deal.II methods. Largest CFL allowed.");
 			declare_entry("Refinement tolerance", "1e-8",
 					dealii::Patterns::Double(),
-- 
2.43.0


From 4ea2f6a5fd9c7eb9bce56a7de2301ac18226d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:04 +0000
Subject: [PATCH 44/45] fix: do not stop at the start because the convergence
 threshold exceeds one

---
 src/library/natrium/solver/CFDSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 360b6db..636934a 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -929,7 +929,9 @@ bool CFDSolver<dim>::stopConditionMet() {
 			m_configuration->getConvergenceThreshold();
 	if (m_i % check_interval == 0) {
 		m_solverStats->calculateResiduals(m_i);
-		if ((m_residuumVelocity < convergence_threshold)
+		// no change has been measured before a full interval has passed
+		if ((m_i - m_iterationStart >= check_interval)
+				and (m_residuumVelocity < convergence_threshold)
 		/*and (m_residuumDensity < convergence_threshold)*/) {
 			LOG(BASIC)
 					<< "Stop condition: Simulation converged below threshold "
-- 
2.43.0


From 0bbb3aaf7b3662b7db06ca7dd5b072cfdd280cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:09 +0000
Subject: [PATCH 45/45] fix: a second condition on a boundary was dropped
 silently

---
 .../natrium/problemdescription/BoundaryCollection.h        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/problemdescription/BoundaryCollection.h b/src/library/natrium/problemdescription/BoundaryCollection.h
index c40c90c..1f46df9 100644
--- a/src/library/natrium/problemdescription/BoundaryCollection.h
+++ b/src/library/natrium/problemdescription/BoundaryCollection.h
@@ -96,7 +96,12 @@ public:
 
 	void addBoundary(boost::shared_ptr<Boundary<dim> > boundary) {
 		assert (not boundary->isPeriodic()) ;
-		m_boundaries.insert(std::make_pair(boundary->getBoundaryIndicator(), boundary));
+		bool success = m_boundaries.insert(
+				std::make_pair(boundary->getBoundaryIndicator(), boundary)).second;
+		if (not success) {
+			throw BoundaryCollectionException(
+					"Boundary could not be inserted. Boundary indicators must be unique.");
+		}
 	}
 
 	/**
-- 
2.43.0

