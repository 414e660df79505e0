From d07d8b89f832f144bdfc4a93794b293428399d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 01/55] fix: ARS222, ARS443, ARK232, GARK2 and SSP3(332) copy
 the tracers between stages

The second of each pair of CopyData calls repeated DataType_State, so that the tracers
of the stage were never set and tracer mass was lost in the first step.
---
 src/atm/TimestepSchemeARK232.cpp  | 6 +++---
 src/atm/TimestepSchemeARS222.cpp  | 2 +-
 src/atm/TimestepSchemeARS443.cpp  | 6 +++---
 src/atm/TimestepSchemeGARK2.cpp   | 2 +-
 src/atm/TimestepSchemeSSP3332.cpp | 6 +++---
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index 758f505..cade447 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeARK232::Step(
 		pHorizontalDynamics, pVerticalDynamics, pGrid);
 /*
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicitTermsExplicitly(
 		1, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -116,7 +116,7 @@ void TimestepSchemeARK232::Step(
 */
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
-	pGrid->CopyData(2, 3, DataType_State);
+	pGrid->CopyData(2, 3, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		3, 3, time, m_dImpCf[0][1] * dDeltaT);
 	pGrid->PostProcessSubstage(3, DataType_State);
@@ -137,7 +137,7 @@ void TimestepSchemeARK232::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(4, 5, DataType_State);
-	pGrid->CopyData(4, 5, DataType_State);
+	pGrid->CopyData(4, 5, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		5, 5, time, m_dImpCf[1][2] * dDeltaT);
 	pGrid->PostProcessSubstage(5, DataType_State);
diff --git a/src/atm/TimestepSchemeARS222.cpp b/src/atm/TimestepSchemeARS222.cpp
index 3b2ae8b..39e4310 100644
--- a/src/atm/TimestepSchemeARS222.cpp
+++ b/src/atm/TimestepSchemeARS222.cpp
@@ -85,7 +85,7 @@ void TimestepSchemeARS222::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeARS443.cpp b/src/atm/TimestepSchemeARS443.cpp
index d6ba3f0..38cf802 100644
--- a/src/atm/TimestepSchemeARS443.cpp
+++ b/src/atm/TimestepSchemeARS443.cpp
@@ -117,7 +117,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -138,7 +138,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -159,7 +159,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
diff --git a/src/atm/TimestepSchemeGARK2.cpp b/src/atm/TimestepSchemeGARK2.cpp
index fc9bad2..9422135 100644
--- a/src/atm/TimestepSchemeGARK2.cpp
+++ b/src/atm/TimestepSchemeGARK2.cpp
@@ -103,7 +103,7 @@ void TimestepSchemeGARK2::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeSSP3332.cpp b/src/atm/TimestepSchemeSSP3332.cpp
index 3dd7faa..cd28930 100644
--- a/src/atm/TimestepSchemeSSP3332.cpp
+++ b/src/atm/TimestepSchemeSSP3332.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeSSP3332::Step(
 	// STAGE 1
 	// Compute u1 into index 2
 	pGrid->CopyData(0, 2, DataType_State);
-	pGrid->CopyData(0, 2, DataType_State);
+	pGrid->CopyData(0, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -130,7 +130,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -151,7 +151,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
-- 
2.43.0


From 797e79f74435bf6b8c240f19869d98323d6acd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 02/55] fix: ARK232 overwrote the initial state in its first
 stage

Sub-cycling stage 1 twice stored the intermediate state in instance 0, the initial state
that the later stage combinations start from, so the scheme was inconsistent.
---
 src/atm/TimestepSchemeARK232.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index cade447..8e900a8 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -91,7 +91,7 @@ void TimestepSchemeARK232::Step(
 
 	// STAGE 1
 	// Compute uf1 into index 1
-	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 2, 0, 1, 
+	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 1, 0, 1, 
 		pHorizontalDynamics, pVerticalDynamics, pGrid);
 /*
 	pGrid->CopyData(0, 1, DataType_State);
-- 
2.43.0


From 27f59cda4ffed6af54e5d8335b916f268a962348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 03/55] fix: split explicit scheme takes at least one vertical
 sub-step

For small time steps the number of sub-steps was rounded down to zero, so that neither
the vertical terms nor the diffusion were applied.
---
 src/atm/TimestepSchemeSplitExp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atm/TimestepSchemeSplitExp.cpp b/src/atm/TimestepSchemeSplitExp.cpp
index 99042af..5dfeb41 100644
--- a/src/atm/TimestepSchemeSplitExp.cpp
+++ b/src/atm/TimestepSchemeSplitExp.cpp
@@ -88,6 +88,9 @@ void TimestepSchemeSplitExp::Step(
 	// Compute the stiff time step based on CFL = 1 and c = 350.0 m/s
 	double dStiffDT = dZGridSpace / 350.0;
 	int ns = int (2.0 * dDeltaT / dStiffDT);
+	if (ns < 1) {
+		ns = 1;
+	}
 	//ns = 20;
 	//std::cout << "Number of small steps: " << ns << std::endl;
 
-- 
2.43.0


From 26dfcb8c91451534574b14c5c1c00da3b46b8904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 04/55] fix: ARK232 evaluates the first implicit stage at the
 initial state

The first implicit tendency was evaluated at the result of the first explicit stage, which
reduces the coupled scheme to first order; the tableau evaluates it at the initial state.
---
 src/atm/TimestepSchemeARK232.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index 8e900a8..1cbdef2 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -104,8 +104,12 @@ void TimestepSchemeARK232::Step(
 	pGrid->PostProcessSubstage(1, DataType_Tracers);
 */
 	// Compute ug1 into index 2 (NO IMPLICIT SOLVE NEEDED HERE)
-	SubcycleStageImplicitExplicitly(time, m_dImpCf[0][0], dDeltaT, 1, 1, 2, 
-		pHorizontalDynamics, pVerticalDynamics, pGrid);
+	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
+	pVerticalDynamics->StepImplicitTermsExplicitly(
+		0, 2, time, m_dImpCf[0][0] * dDeltaT);
+	pGrid->PostProcessSubstage(2, DataType_State);
+	pGrid->PostProcessSubstage(2, DataType_Tracers);
 /*
 	pGrid->CopyData(1, 2, DataType_State);
 	pGrid->CopyData(1, 2, DataType_Tracers);
-- 
2.43.0


From 1abccdb9ef8276f7b83e3cc73b57705ae22964b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 05/55] fix: tracer filter must not create negative values in
 elements of negative net mass

---
 src/atm/HighSpeedDynamics.cpp       | 7 ++++++-
 src/atm/HorizontalDynamicsFEM.cpp   | 7 ++++++-
 src/atm/HorizontalDynamicsFEMV2.cpp | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/atm/HighSpeedDynamics.cpp b/src/atm/HighSpeedDynamics.cpp
index 56f44bb..ce7baaa 100644
--- a/src/atm/HighSpeedDynamics.cpp
+++ b/src/atm/HighSpeedDynamics.cpp
@@ -335,7 +335,12 @@ void HighSpeedDynamics::FilterNegativeTracers(
 				}
 */
 				// Apply scaling ratio to points with non-negative mass
-				double dR = dTotalMass / dNonNegativeMass;
+				// (zero if the element holds no net mass, since a negative ratio
+				// would make these points negative)
+				double dR = 0.0;
+				if (dTotalMass > 0.0) {
+					dR = dTotalMass / dNonNegativeMass;
+				}
 
 				for (int i = 0; i < nHorizontalOrder; i++) {
 				for (int j = 0; j < nHorizontalOrder; j++) {
diff --git a/src/atm/HorizontalDynamicsFEM.cpp b/src/atm/HorizontalDynamicsFEM.cpp
index 58a264f..7055b16 100644
--- a/src/atm/HorizontalDynamicsFEM.cpp
+++ b/src/atm/HorizontalDynamicsFEM.cpp
@@ -293,7 +293,12 @@ void HorizontalDynamicsFEM::FilterNegativeTracers(
 				}
 */
 				// Apply scaling ratio to points with non-negative mass
-				double dR = dTotalMass / dNonNegativeMass;
+				// (zero if the element holds no net mass, since a negative ratio
+				// would make these points negative)
+				double dR = 0.0;
+				if (dTotalMass > 0.0) {
+					dR = dTotalMass / dNonNegativeMass;
+				}
 
 				for (int i = 0; i < nHorizontalOrder; i++) {
 				for (int j = 0; j < nHorizontalOrder; j++) {
diff --git a/src/atm/HorizontalDynamicsFEMV2.cpp b/src/atm/HorizontalDynamicsFEMV2.cpp
index 479001c..b7a04a2 100644
--- a/src/atm/HorizontalDynamicsFEMV2.cpp
+++ b/src/atm/HorizontalDynamicsFEMV2.cpp
@@ -288,7 +288,12 @@ void HorizontalDynamicsFEMV2::FilterNegativeTracers(
 				}
 */
 				// Apply scaling ratio to points with non-negative mass
-				double dR = dTotalMass / dNonNegativeMass;
+				// (zero if the element holds no net mass, since a negative ratio
+				// would make these points negative)
+				double dR = 0.0;
+				if (dTotalMass > 0.0) {
+					dR = dTotalMass / dNonNegativeMass;
+				}
 
 				for (int i = 0; i < nHorizontalOrder; i++) {
 				for (int j = 0; j < nHorizontalOrder; j++) {
-- 
2.43.0


From 7f11b6a5553d7482c5e37306f05795f085f8f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 06/55] fix: impose solid lateral boundary conditions on
 Cartesian grids

The tests for patches adjoining the domain edge compared indices including
the halo with the global interior extent, so NoFlux and NoSlip walls were
never imposed, and averaging across the edge used stale halo values.
---
 src/atm/GridCartesianGLL.cpp      |  19 ++++
 src/atm/GridPatchCartesianGLL.cpp | 159 +++++++++++++++++++++---------
 src/atm/GridPatchCartesianGLL.h   |   9 ++
 3 files changed, 143 insertions(+), 44 deletions(-)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index 6d7cdbf..a9bb27a 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -550,6 +550,20 @@ void GridCartesianGLL::ApplyDSS(
 
 		// Apply BC only to state DSS
 		if (eDataType == DataType_State) {
+			for (int c = 0; c < nComponents; c++) {
+				DataArray4D<double> & dState =
+					pPatch->GetDataState(iDataUpdate, GetVarLocation(c));
+
+				DataArray3D<double> dStateComponent;
+				dStateComponent.SetSize(
+					dState.GetSize(1),
+					dState.GetSize(2),
+					dState.GetSize(3));
+				dStateComponent.AttachToData(&(dState[c][0][0][0]));
+
+				pPatch->FillSolidBoundaryHalo(dStateComponent);
+			}
+
 			pPatch->ApplyBoundaryConditions(iDataUpdate, DataType_State, n);
 		}
 
@@ -611,6 +625,11 @@ void GridCartesianGLL::ApplyDSS(
 				pDataUpdate.AttachToData(&(dTopographyDeriv[0][0][0]));
 			}
 
+			// No data is exchanged across solid boundaries
+			if (eDataType != DataType_State) {
+				pPatch->FillSolidBoundaryHalo(pDataUpdate);
+			}
+
 			// Averaging DSS across patch boundaries
 			for (int k = 0; k < nRElements; k++) {
 
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 3ad09cb..eebcd9d 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -780,6 +780,63 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 //std::cout << "\n" << "End of EvaluateTestCase_Perturbation" << "\n";
 }
 
+///////////////////////////////////////////////////////////////////////////////
+
+void GridPatchCartesianGLL::FillSolidBoundaryHalo(
+	DataArray3D<double> & data
+) const {
+
+	// Edges of this patch which lie on a solid boundary
+	const bool fRight =
+		(m_grid.GetBoundaryCondition(Direction_Right)
+			!= Grid::BoundaryCondition_Periodic)
+		&& (m_box.GetAGlobalInteriorEnd()
+			== m_nHorizontalOrder * m_grid.GetABaseResolution());
+
+	const bool fTop =
+		(m_grid.GetBoundaryCondition(Direction_Top)
+			!= Grid::BoundaryCondition_Periodic)
+		&& (m_box.GetBGlobalInteriorEnd()
+			== m_nHorizontalOrder * m_grid.GetBBaseResolution());
+
+	const bool fLeft =
+		(m_grid.GetBoundaryCondition(Direction_Left)
+			!= Grid::BoundaryCondition_Periodic)
+		&& (m_box.GetAGlobalInteriorBegin() == 0);
+
+	const bool fBottom =
+		(m_grid.GetBoundaryCondition(Direction_Bottom)
+			!= Grid::BoundaryCondition_Periodic)
+		&& (m_box.GetBGlobalInteriorBegin() == 0);
+
+	const int nABegin = m_box.GetAInteriorBegin();
+	const int nAEnd = m_box.GetAInteriorEnd();
+	const int nBBegin = m_box.GetBInteriorBegin();
+	const int nBEnd = m_box.GetBInteriorEnd();
+
+	for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+	for (int k = 0; k < data.GetSize(2); k++) {
+		if (fRight) {
+			data[nAEnd][j][k] = data[nAEnd-1][j][k];
+		}
+		if (fLeft) {
+			data[nABegin-1][j][k] = data[nABegin][j][k];
+		}
+	}
+	}
+
+	for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+	for (int k = 0; k < data.GetSize(2); k++) {
+		if (fTop) {
+			data[i][nBEnd][k] = data[i][nBEnd-1][k];
+		}
+		if (fBottom) {
+			data[i][nBBegin-1][k] = data[i][nBBegin][k];
+		}
+	}
+	}
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 #pragma message "TO DO test non-periodic BC on global alpha and beta boundaries"
 void GridPatchCartesianGLL::ApplyBoundaryConditions(
@@ -805,6 +862,12 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 	int nGlobalBBeginIndex = 0;
 	int nGlobalBEndIndex = m_nHorizontalOrder * m_grid.GetBBaseResolution();
 
+	// Metric terms are only available at interior nodes
+	const int nAFirst = m_box.GetAInteriorBegin();
+	const int nALast = m_box.GetAInteriorEnd() - 1;
+	const int nBFirst = m_box.GetBInteriorBegin();
+	const int nBLast = m_box.GetBInteriorEnd() - 1;
+
 //std::cout << m_box.GetAGlobalBegin() << "  " << m_box.GetAGlobalEnd() << std::endl;
 
 	// Impose boundary conditions (everything on levels)
@@ -822,11 +885,12 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryRight =
 			m_grid.GetBoundaryCondition(Direction_Right);
 		if ((eBoundaryRight != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalEnd() == nGlobalAEndIndex)) {
+			(m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex)) {
 			int i = m_box.GetATotalWidth() - 1;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				const int jM = std::min(std::max(j, nBFirst), nBLast);
 				if (eBoundaryRight != Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i-1][j][k];
@@ -846,9 +910,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[k][i-1][j][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i-1][j][k][0];
-					dGab = m_dataContraMetricA[i-1][j][k][1];
-					dGax = m_dataContraMetricA[i-1][j][k][2];
+					dGaa = m_dataContraMetricA[i-1][jM][k][0];
+					dGab = m_dataContraMetricA[i-1][jM][k][1];
+					dGax = m_dataContraMetricA[i-1][jM][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -866,11 +930,12 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryTop =
 			m_grid.GetBoundaryCondition(Direction_Top);
 		if ((eBoundaryTop != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalEnd() == nGlobalBEndIndex)) {
+			(m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex)) {
 			int j = m_box.GetBTotalWidth() - 1;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+				const int iM = std::min(std::max(i, nAFirst), nALast);
 				if (eBoundaryTop != Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i][j-1][k];
@@ -890,9 +955,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j-1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j-1][k][0];
-					dGbb = m_dataContraMetricB[i][j-1][k][1];
-					dGbx = m_dataContraMetricB[i][j-1][k][2];
+					dGba = m_dataContraMetricB[iM][j-1][k][0];
+					dGbb = m_dataContraMetricB[iM][j-1][k][1];
+					dGbx = m_dataContraMetricB[iM][j-1][k][2];
 					//std::cout << dGbb << "\n";
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
@@ -911,11 +976,12 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryLeft =
 			m_grid.GetBoundaryCondition(Direction_Left);
 		if ((eBoundaryLeft != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalBegin() == nGlobalABeginIndex)) {
+			(m_box.GetAGlobalInteriorBegin() == nGlobalABeginIndex)) {
 			int i = 0;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				const int jM = std::min(std::max(j, nBFirst), nBLast);
 				if (eBoundaryLeft == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i+1][j][k];
@@ -935,9 +1001,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i+1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i+1][j][k][0];
-					dGab = m_dataContraMetricA[i+1][j][k][1];
-					dGax = m_dataContraMetricA[i+1][j][k][2];
+					dGaa = m_dataContraMetricA[i+1][jM][k][0];
+					dGab = m_dataContraMetricA[i+1][jM][k][1];
+					dGax = m_dataContraMetricA[i+1][jM][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -955,11 +1021,12 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryBottom =
 			m_grid.GetBoundaryCondition(Direction_Bottom);
 		if ((eBoundaryBottom != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalBegin() == nGlobalBBeginIndex)) {
+			(m_box.GetBGlobalInteriorBegin() == nGlobalBBeginIndex)) {
 			int j = 0;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+				const int iM = std::min(std::max(i, nAFirst), nALast);
 				if (eBoundaryBottom == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i][j+1][k];
@@ -979,9 +1046,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j+1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j+1][k][0];
-					dGbb = m_dataContraMetricB[i][j+1][k][1];
-					dGbx = m_dataContraMetricB[i][j+1][k][2];
+					dGba = m_dataContraMetricB[iM][j+1][k][0];
+					dGbb = m_dataContraMetricB[iM][j+1][k][1];
+					dGbx = m_dataContraMetricB[iM][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1001,10 +1068,11 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryRight =
 			m_grid.GetBoundaryCondition(Direction_Right);
 		if ((eBoundaryRight != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalEnd() == nGlobalAEndIndex)) {
+			(m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex)) {
 			int i = m_box.GetATotalWidth() - 1;
 			
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				const int jM = std::min(std::max(j, nBFirst), nBLast);
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryRight == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1025,9 +1093,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i-1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i-1][j][k][0];
-					dGab = m_dataContraMetricA[i-1][j][k][1];
-					dGax = m_dataContraMetricA[i-1][j][k][2];
+					dGaa = m_dataContraMetricA[i-1][jM][k][0];
+					dGab = m_dataContraMetricA[i-1][jM][k][1];
+					dGax = m_dataContraMetricA[i-1][jM][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1059,9 +1127,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRREdge[i-1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricAREdge[i-1][j][k][0];
-					dGab = m_dataContraMetricAREdge[i-1][j][k][1];
-					dGax = m_dataContraMetricAREdge[i-1][j][k][2];
+					dGaa = m_dataContraMetricAREdge[i-1][jM][k][0];
+					dGab = m_dataContraMetricAREdge[i-1][jM][k][1];
+					dGax = m_dataContraMetricAREdge[i-1][jM][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1079,10 +1147,11 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryTop =
 			m_grid.GetBoundaryCondition(Direction_Top);
 		if ((eBoundaryTop != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalEnd() == nGlobalBEndIndex)) {
+			(m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex)) {
 			int j = m_box.GetBTotalWidth() - 1;
 
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+				const int iM = std::min(std::max(i, nAFirst), nALast);
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryTop == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1103,9 +1172,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j-1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j-1][k][0];
-					dGbb = m_dataContraMetricB[i][j-1][k][1];
-					dGbx = m_dataContraMetricB[i][j-1][k][2];
+					dGba = m_dataContraMetricB[iM][j-1][k][0];
+					dGbb = m_dataContraMetricB[iM][j-1][k][1];
+					dGbx = m_dataContraMetricB[iM][j-1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1137,9 +1206,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRREdge[i][j-1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricBREdge[i][j-1][k][0];
-					dGbb = m_dataContraMetricBREdge[i][j-1][k][1];
-					dGbx = m_dataContraMetricBREdge[i][j-1][k][2];
+					dGba = m_dataContraMetricBREdge[iM][j-1][k][0];
+					dGbb = m_dataContraMetricBREdge[iM][j-1][k][1];
+					dGbx = m_dataContraMetricBREdge[iM][j-1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1157,10 +1226,11 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryLeft =
 			m_grid.GetBoundaryCondition(Direction_Left);
 		if ((eBoundaryLeft != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalBegin() == nGlobalABeginIndex)) {
+			(m_box.GetAGlobalInteriorBegin() == nGlobalABeginIndex)) {
 			int i = 0;
 			
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				const int jM = std::min(std::max(j, nBFirst), nBLast);
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryLeft == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1181,9 +1251,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i+1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i+1][j][k][0];
-					dGab = m_dataContraMetricA[i+1][j][k][1];
-					dGax = m_dataContraMetricA[i+1][j][k][2];
+					dGaa = m_dataContraMetricA[i+1][jM][k][0];
+					dGab = m_dataContraMetricA[i+1][jM][k][1];
+					dGax = m_dataContraMetricA[i+1][jM][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1215,9 +1285,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRREdge[i+1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricAREdge[i+1][j][k][0];
-					dGab = m_dataContraMetricAREdge[i+1][j][k][1];
-					dGax = m_dataContraMetricAREdge[i+1][j][k][2];
+					dGaa = m_dataContraMetricAREdge[i+1][jM][k][0];
+					dGab = m_dataContraMetricAREdge[i+1][jM][k][1];
+					dGax = m_dataContraMetricAREdge[i+1][jM][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1235,10 +1305,11 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryBottom =
 			m_grid.GetBoundaryCondition(Direction_Bottom);
 		if ((eBoundaryBottom != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalBegin() == nGlobalBBeginIndex)) {
+			(m_box.GetBGlobalInteriorBegin() == nGlobalBBeginIndex)) {
 			int j = 0;
 			
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+				const int iM = std::min(std::max(i, nAFirst), nALast);
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryBottom == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1259,9 +1330,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j+1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j+1][k][0];
-					dGbb = m_dataContraMetricB[i][j+1][k][1];
-					dGbx = m_dataContraMetricB[i][j+1][k][2];
+					dGba = m_dataContraMetricB[iM][j+1][k][0];
+					dGbb = m_dataContraMetricB[iM][j+1][k][1];
+					dGbx = m_dataContraMetricB[iM][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1293,9 +1364,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRREdge[i][j+1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricBREdge[i][j+1][k][0];
-					dGbb = m_dataContraMetricBREdge[i][j+1][k][1];
-					dGbx = m_dataContraMetricBREdge[i][j+1][k][2];
+					dGba = m_dataContraMetricBREdge[iM][j+1][k][0];
+					dGbb = m_dataContraMetricBREdge[iM][j+1][k][1];
+					dGbx = m_dataContraMetricBREdge[iM][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
diff --git a/src/atm/GridPatchCartesianGLL.h b/src/atm/GridPatchCartesianGLL.h
index 7f71389..215ad83 100644
--- a/src/atm/GridPatchCartesianGLL.h
+++ b/src/atm/GridPatchCartesianGLL.h
@@ -96,6 +96,15 @@ public:
 		int iDataInstance = 0
 	);
 
+public:
+	///	<summary>
+	///		Copy values on solid boundaries to the halo beyond them (no data
+	///		is exchanged there), so that averaging leaves them unchanged.
+	///	</summary>
+	void FillSolidBoundaryHalo(
+		DataArray3D<double> & data
+	) const;
+
 public:
 	///	<summary>
 	///		Apply boundary conditions to this patch.
-- 
2.43.0


From 2e6d153488a7b1a5e6b4e86c952639f58306868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 07/55] fix: make vertical upwinding of densities conserve mass
 over terrain

The penalty is applied per unit of vertical coordinate, so the flux leaving
one element only equals the flux entering the next when both are weighted
by the Jacobian, which varies with height on Cartesian grids with topography.
---
 src/atm/VerticalDynamicsFEM.cpp | 49 ++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 361319f..2db334e 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -2656,7 +2656,8 @@ void VerticalDynamicsFEM::BuildF(
 		// Calculate weights
 		for (int a = 0; a < nFiniteElements - 1; a++) {
 			int k = (a+1) * nNodesPerFiniteElement;
-			m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
+			m_dUpwindWeights[a] =
+				m_dColumnJacobianREdge[k] * fabs(m_dXiDotREdge[k]);
 		}
 
 		// Loop through all variables
@@ -2706,7 +2707,8 @@ void VerticalDynamicsFEM::BuildF(
 					1);
 
 				for (int k = 0; k < nRElements; k++) {
-					dF[VecFIx(FIxFromCIx(c), k)] -= m_dStateAux[k];
+					dF[VecFIx(FIxFromCIx(c), k)] -=
+						m_dStateAux[k] * m_dColumnInvJacobianNode[k];
 				}
 			}
 		}
@@ -2922,6 +2924,12 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					dSignWeight = 0.0;
 				}
 
+				// Mass-weighted penalty
+				dWeight *=
+					m_dColumnJacobianREdge[a * nNodesPerFiniteElement];
+				dSignWeight *=
+					m_dColumnJacobianREdge[a * nNodesPerFiniteElement];
+
 				int kLeftBegin = (a-1) * nNodesPerFiniteElement;
 				int kLeftEnd = a * nNodesPerFiniteElement;
 
@@ -2935,6 +2943,7 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 						dDG[MatFIx(FWIx, kLeftEnd, FIxFromCIx(c), k)] -=
 							dSignWeight
 							* dPenaltyLeft[k][n]
+							* m_dColumnInvJacobianNode[k]
 							* m_dStateNode[c][n];
 					}
 				}
@@ -2946,6 +2955,7 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 						dDG[MatFIx(FWIx, kRightBegin, FIxFromCIx(c), k)] -=
 							dSignWeight
 							* dPenaltyRight[k][n]
+							* m_dColumnInvJacobianNode[k]
 							* m_dStateNode[c][n];
 					}
 				}
@@ -2955,7 +2965,9 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					int n = iPenaltyLeftBegin[k];
 					for (; n < iPenaltyLeftEnd[k]; n++) {
 						dDG[MatFIx(FIxFromCIx(c), n, FIxFromCIx(c), k)] -=
-							dWeight * dPenaltyLeft[k][n];
+							dWeight
+							* dPenaltyLeft[k][n]
+							* m_dColumnInvJacobianNode[k];
 					}
 				}
 
@@ -2964,7 +2976,9 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					int n = iPenaltyRightBegin[k];
 					for (; n < iPenaltyRightEnd[k]; n++) {
 						dDG[MatFIx(FIxFromCIx(c), n, FIxFromCIx(c), k)] -=
-							dWeight * dPenaltyRight[k][n];
+							dWeight
+							* dPenaltyRight[k][n]
+							* m_dColumnInvJacobianNode[k];
 					}
 				}
 			}
@@ -3985,7 +3999,9 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 				int kRightBegin = a * nNodesPerFiniteElement;
 				int kRightEnd = (a+1) * nNodesPerFiniteElement;
 
-				double dWeight = fabs(m_dXiDotREdge[kLeftEnd]);
+				double dWeight =
+					m_dColumnJacobianREdge[kLeftEnd]
+					* fabs(m_dXiDotREdge[kLeftEnd]);
 
 				double dSignWeight;
 				if (m_dXiDotREdge[kLeftEnd] > 0.0) {
@@ -4001,7 +4017,9 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					int n = iPenaltyLeftBegin[k];
 					for (; n < iPenaltyLeftEnd[k]; n++) {
 						dTracersLUDF[TracerMatFIx(n, k)] -=
-							dWeight * dPenaltyLeft[k][n];
+							dWeight
+							* dPenaltyLeft[k][n]
+							* m_dColumnInvJacobianNode[k];
 					}
 				}
 
@@ -4010,7 +4028,9 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					int n = iPenaltyRightBegin[k];
 					for (; n < iPenaltyRightEnd[k]; n++) {
 						dTracersLUDF[TracerMatFIx(n, k)] -=
-							dWeight * dPenaltyRight[k][n];
+							dWeight
+							* dPenaltyRight[k][n]
+							* m_dColumnInvJacobianNode[k];
 					}
 				}
 			}
@@ -4166,13 +4186,17 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 			if (m_fFullyExplicit) {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
-					m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
+					m_dUpwindWeights[a] =
+						m_dColumnJacobianREdge[k]
+						* fabs(m_dXiDotREdge[k]);
 				}
 
 			} else {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
-					m_dUpwindWeights[a] = fabs(m_dXiDotREdgeInitial[k]);
+					m_dUpwindWeights[a] =
+						m_dColumnJacobianREdge[k]
+						* fabs(m_dXiDotREdgeInitial[k]);
 				}
 			}
 
@@ -4186,7 +4210,8 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 				1);
 
 			for (int k = 0; k < nRElements; k++) {
-				m_vecTracersF[k] -= m_dStateAux[k];
+				m_vecTracersF[k] -=
+					m_dStateAux[k] * m_dColumnInvJacobianNode[k];
 			}
 
 			// Apply implicit velocity correction
@@ -4214,6 +4239,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					// dRhoQ_k/dW_a (left operator)
 					double dLeftJumpConUx =
 						dSignWeight
+						* m_dColumnJacobianREdge[kLeftEnd]
 						* (dataUpdateREdge[WIx][m_iA][m_iB][kLeftEnd]
 							- m_dColumnState[VecFIx(FWIx, kLeftEnd)]);
 
@@ -4222,6 +4248,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 						for (; n < iPenaltyLeftEnd[k]; n++) {
 							m_vecTracersF[k] -=
 								dPenaltyLeft[k][n]
+								* m_dColumnInvJacobianNode[k]
 								* m_dTracerDensityNode[n]
 								* dLeftJumpConUx;
 						}
@@ -4230,6 +4257,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					// dRhoQ_k/dW_a (right operator)
 					double dRightJumpConUx =
 						dSignWeight
+						* m_dColumnJacobianREdge[kRightBegin]
 						* (dataUpdateREdge[WIx][m_iA][m_iB][kRightBegin]
 							- m_dColumnState[VecFIx(FWIx, kRightBegin)]);
 
@@ -4238,6 +4266,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 						for (; n < iPenaltyRightEnd[k]; n++) {
 							m_vecTracersF[k] -=
 								dPenaltyRight[k][n]
+								* m_dColumnInvJacobianNode[k]
 								* m_dTracerDensityNode[n]
 								* dRightJumpConUx;
 						}
-- 
2.43.0


From 639f9a4c9de0478722e305a2c64d267c5f77ae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 08/55] fix: release malloc'd array storage with free instead
 of delete[]

---
 src/base/DataArray1D.h | 2 +-
 src/base/DataArray2D.h | 2 +-
 src/base/DataArray3D.h | 2 +-
 src/base/DataArray4D.h | 2 +-
 src/base/DataStruct.h  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/DataArray1D.h b/src/base/DataArray1D.h
index 5cbd4bb..ceb80ea 100644
--- a/src/base/DataArray1D.h
+++ b/src/base/DataArray1D.h
@@ -168,7 +168,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data != NULL)) {
-			delete[] m_data;
+			free(m_data);
 		}
 		m_fOwnsData = true;
 		m_data = NULL;
diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index 9bff11b..49561f6 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -198,7 +198,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data1D != NULL)) {
-			delete[] m_data1D;
+			free(m_data1D);
 		}
 		m_fOwnsData = true;
 		m_data1D = NULL;
diff --git a/src/base/DataArray3D.h b/src/base/DataArray3D.h
index b0e4d60..c13e4b2 100644
--- a/src/base/DataArray3D.h
+++ b/src/base/DataArray3D.h
@@ -210,7 +210,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data1D != NULL)) {
-			delete[] m_data1D;
+			free(m_data1D);
 		}
 		m_fOwnsData = true;
 		m_data1D = NULL;
diff --git a/src/base/DataArray4D.h b/src/base/DataArray4D.h
index 22d96e6..8b21acb 100644
--- a/src/base/DataArray4D.h
+++ b/src/base/DataArray4D.h
@@ -228,7 +228,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data1D != NULL)) {
-			delete[] m_data1D;
+			free(m_data1D);
 		}
 		m_fOwnsData = true;
 		m_data1D = NULL;
diff --git a/src/base/DataStruct.h b/src/base/DataStruct.h
index 471f41a..0b5f67d 100644
--- a/src/base/DataStruct.h
+++ b/src/base/DataStruct.h
@@ -111,7 +111,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data != NULL)) {
-			delete[] m_data;
+			free(m_data);
 		}
 		m_fOwnsData = true;
 		m_data = NULL;
-- 
2.43.0


From bfe0d90d655b7c3f61dd3a183e2721266c39357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 09/55] fix: finite volume discretization initializes the zero
 boundary derivative used for mass flux on levels

---
 src/atm/GridGLL.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/atm/GridGLL.cpp b/src/atm/GridGLL.cpp
index 720bdf1..4d49015 100644
--- a/src/atm/GridGLL.cpp
+++ b/src/atm/GridGLL.cpp
@@ -213,6 +213,14 @@ void GridGLL::Initialize() {
 			m_dREtaLevels,
 			m_dREtaInterfaces);
 
+		m_opDiffNodeToNodeZeroBoundaries.InitializeInterfaceMethod(
+			LinearColumnDiffFEM::InterpSource_Levels,
+			1,
+			m_dREtaLevels,
+			m_dREtaInterfaces,
+			m_dREtaLevels,
+			true);
+
 		m_opDiffNodeToREdge.InitializeReconstructed(
 			LinearColumnDiffFEM::InterpSource_Levels,
 			LinearColumnDiffFEM::InterpSource_Interfaces,
-- 
2.43.0


From 8c6415c65c7693a5a47aa55eb763501613768b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 10/55] fix: initialize the restart perturbation flag

---
 src/atm/Model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index dcc02fd..5e77100 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -33,6 +33,7 @@ Model::Model(
 	EquationSet::Type eEquationSetType
 ) :
 	m_fGridFromRestartFile(false),
+	m_fRestartPerturbation(false),
 	m_pGrid(NULL),
 	m_pTimestepScheme(NULL),
 	m_pHorizontalDynamics(NULL),
@@ -49,6 +50,7 @@ Model::Model(
 	const EquationSet & eqn
 ) :
 	m_fGridFromRestartFile(false),
+	m_fRestartPerturbation(false),
 	m_pGrid(NULL),
 	m_pTimestepScheme(NULL),
 	m_pHorizontalDynamics(NULL),
@@ -67,6 +69,7 @@ Model::Model(
 	const UserDataMeta & metaUserData
 ) :
 	m_fGridFromRestartFile(false),
+	m_fRestartPerturbation(false),
 	m_pGrid(NULL),
 	m_pTimestepScheme(NULL),
 	m_pHorizontalDynamics(NULL),
-- 
2.43.0


From 91cc532ba795acd97f8a86e73db082ac3d793842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:22 +0000
Subject: [PATCH 11/55] fix: advect tracers in the V2 horizontal dynamics

The tracer update was commented out and the tracer fluxes never computed, so
tracers were not moved by the horizontal wind.
---
 src/atm/HorizontalDynamicsFEMV2.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEMV2.cpp b/src/atm/HorizontalDynamicsFEMV2.cpp
index b7a04a2..cb4cb8f 100644
--- a/src/atm/HorizontalDynamicsFEMV2.cpp
+++ b/src/atm/HorizontalDynamicsFEMV2.cpp
@@ -941,6 +941,17 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 				m_dBetaPressureFlux(i,j,k) =
 					  dBetaBaseFlux
 					* dataInitialNode(PIx,iA,iB,k);
+
+				// Tracer fluxes
+				for (int c = 0; c < nTracerCount; c++) {
+					m_dAlphaTracerFlux(c,i,j,k) =
+						  dAlphaBaseFlux
+						* dataInitialTracer(c,iA,iB,k);
+
+					m_dBetaTracerFlux(c,i,j,k) =
+						  dBetaBaseFlux
+						* dataInitialTracer(c,iA,iB,k);
+				}
 			}
 			}
 			}
@@ -1054,7 +1065,6 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 					dDeltaT * dInvJacobian * (
 						  dDaPressureFluxA
 						+ dDbPressureFluxB);
-/*
 				// Update tracers
 				for (int c = 0; c < nTracerCount; c++) {
 					double dDaTracerFluxA = 0.0;
@@ -1079,7 +1089,6 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 							  dDaTracerFluxA
 							+ dDbTracerFluxB);
 				}
-*/
 			}
 			}
 			}
-- 
2.43.0


From d5aa5676e74834c79a4bf0067738bb5a4a2432dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:52 +0000
Subject: [PATCH 12/55] fix: evaluate tracer terms explicitly in
 StepImplicitTermsExplicitly

---
 src/atm/VerticalDynamicsFEM.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 2db334e..d19864e 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -596,7 +596,10 @@ void VerticalDynamicsFEM::StepImplicitTermsExplicitly(
 				}
 			}
 
-			// Update tracers in column
+			// Update tracers in column (explicitly)
+			const bool fFullyExplicit = m_fFullyExplicit;
+			m_fFullyExplicit = true;
+
 			UpdateColumnTracers(
 				dDeltaT,
 				dataInitialNode,
@@ -606,6 +609,8 @@ void VerticalDynamicsFEM::StepImplicitTermsExplicitly(
 				dataReferenceTracer,
 				dataInitialTracer,
 				dataUpdateTracer);
+
+			m_fFullyExplicit = fFullyExplicit;
 		}
 		}
 	}	     
-- 
2.43.0


From abaec8a4a38d23bd35aa0342ec80c3933e189349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 13/55] fix: vertical tracer filter left negative values in
 columns of negative net mass

---
 src/atm/VerticalDynamicsFEM.cpp   | 7 ++++++-
 src/atm/VerticalDynamicsFEMV2.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index d19864e..3e57768 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -4364,7 +4364,12 @@ void VerticalDynamicsFEM::FilterNegativeTracers(
 				}
 
 				// Apply scaling ratio to points with non-negative mass
-				double dR = dTotalMass / dNonNegativeMass;
+				// (zero if the column holds no net mass, since a negative ratio
+				// would make these points negative)
+				double dR = 0.0;
+				if (dTotalMass > 0.0) {
+					dR = dTotalMass / dNonNegativeMass;
+				}
 
 				for (int k = 0; k < nRElements; k++) {
 					if (dataUpdateTracer[c][i][j][k] > 0.0) {
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index fb360a6..2902d5a 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -4543,7 +4543,12 @@ void VerticalDynamicsFEMV2::FilterNegativeTracers(
 				}
 
 				// Apply scaling ratio to points with non-negative mass
-				double dR = dTotalMass / dNonNegativeMass;
+				// (zero if the column holds no net mass, since a negative ratio
+				// would make these points negative)
+				double dR = 0.0;
+				if (dTotalMass > 0.0) {
+					dR = dTotalMass / dNonNegativeMass;
+				}
 
 				for (int k = 0; k < nRElements; k++) {
 					if (dataUpdateTracer[c][i][j][k] > 0.0) {
-- 
2.43.0


From c5ee831a3ffbb0df72cd66918f740ec514b04883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 14/55] fix: shallow water energy uses the covariant velocity
 components with the contravariant metric

---
 src/atm/GridPatch.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index faa64b6..a51b26c 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -965,20 +965,18 @@ double GridPatch::ComputeTotalEnergy(
 		for (int i = m_box.GetAInteriorBegin(); i < m_box.GetAInteriorEnd(); i++) {
 		for (int j = m_box.GetBInteriorBegin(); j < m_box.GetBInteriorEnd(); j++) {
 		for (int k = 0; k < nRElements; k++) {
-			double dUdotU =
-				+ m_dataContraMetric2DB(i,j,1)
+			// Prognostic velocities are covariant components
+			const double dUdotU =
+				+ m_dataContraMetric2DA(i,j,0)
 					* dataNode(UIx,i,j,k)
 					* dataNode(UIx,i,j,k)
-				- 2.0 * m_dataContraMetric2DA(i,j,1)
+				+ 2.0 * m_dataContraMetric2DA(i,j,1)
 					* dataNode(UIx,i,j,k)
 					* dataNode(VIx,i,j,k)
-				+ m_dataContraMetric2DA(i,j,0)
+				+ m_dataContraMetric2DB(i,j,1)
 					* dataNode(VIx,i,j,k)
 					* dataNode(VIx,i,j,k);
 
-			dUdotU *= m_dataJacobian2D(i,j)
-				* m_dataJacobian2D(i,j);
-
 			const double dKineticEnergy =
 				0.5 * dUdotU * (dataNode(HIx,i,j,k)
 						- m_dataTopography(i,j));
-- 
2.43.0


From d9b18a050189e867723d8e18cc00c011219b1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 15/55] fix: leap years of the standard calendar follow the
 Gregorian rule

---
 src/base/TimeObj.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 064720d..e2f47d8 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -21,6 +21,16 @@
 
 ///////////////////////////////////////////////////////////////////////////////
 
+///	<summary>
+///		Determine if the given year is a leap year of the standard calendar.
+///	</summary>
+static inline bool IsLeapYear(int iYear) {
+	return (((iYear % 4) == 0) && ((iYear % 100) != 0))
+		|| ((iYear % 400) == 0);
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 bool Time::operator==(const Time & time) const {
 	if ((m_eCalendarType != time.m_eCalendarType) ||
 	    (m_eTimeType     != time.m_eTimeType)     ||
@@ -135,7 +145,7 @@ void Time::VerifyTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (IsLeapYear(m_iYear)) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -174,7 +184,7 @@ void Time::NormalizeTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (IsLeapYear(m_iYear)) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -225,7 +235,7 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (IsLeapYear(m_iYear)) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
@@ -245,7 +255,7 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (IsLeapYear(m_iYear)) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
-- 
2.43.0


From 9415a893cf6e3cb9be6f4afa7c00c3f494c61f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 16/55] fix: borrow correctly when normalizing times with
 negative fields

---
 src/base/TimeObj.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index e2f47d8..213988d 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -195,7 +195,7 @@ void Time::NormalizeTime() {
 			nAddedSeconds = m_iMicroSecond / 1000000;
 
 		} else if (m_iMicroSecond < 0) {
-			nAddedSeconds = - (1000000 - m_iSecond) / 1000000;
+			nAddedSeconds = - (999999 - m_iMicroSecond) / 1000000;
 		}
 		m_iMicroSecond -= nAddedSeconds * 1000000;
 		m_iSecond += nAddedSeconds;
@@ -206,7 +206,7 @@ void Time::NormalizeTime() {
 			nAddedDays = m_iSecond / 86400;
 
 		} else if (m_iSecond < 0) {
-			nAddedDays = - (86400 - m_iSecond) / 86400;
+			nAddedDays = - (86399 - m_iSecond) / 86400;
 		}
 
 		m_iSecond -= nAddedDays * 86400;
@@ -217,7 +217,7 @@ void Time::NormalizeTime() {
 		if (m_iMonth >= 12) {
 			nAddedYears = m_iMonth / 12;
 		} else if (m_iMonth < 0) {
-			nAddedYears = - (12 - m_iMonth) / 12;
+			nAddedYears = - (11 - m_iMonth) / 12;
 		}
 		m_iMonth -= nAddedYears * 12;
 		m_iYear += nAddedYears;
-- 
2.43.0


From c3fc0c08626e5df9ded2736611c9a55cf2454385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 17/55] fix: choose the length of February after months have
 been carried into years

---
 src/base/TimeObj.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 213988d..0aa33ec 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -183,12 +183,6 @@ void Time::NormalizeTime() {
 		int nDaysPerMonth[]
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
-		if (m_eCalendarType == CalendarStandard) {
-			if (IsLeapYear(m_iYear)) {
-				nDaysPerMonth[1] = 29;
-			}
-		}
-
 		// Add seconds
 		int nAddedSeconds = 0;
 		if (m_iMicroSecond >= 1000000) {
@@ -226,6 +220,13 @@ void Time::NormalizeTime() {
 			_EXCEPTIONT("Logic error");
 		}
 
+		// Adjust number of days per month
+		if (m_eCalendarType == CalendarStandard) {
+			if (IsLeapYear(m_iYear)) {
+				nDaysPerMonth[1] = 29;
+			}
+		}
+
 		// Subtract months
 		while (m_iDay < 0) {
 			m_iMonth--;
-- 
2.43.0


From 05fc36e47ec5662e1e6ff578929426018df942f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 18/55] fix: keep the number of days in time intervals of more
 than a month

---
 src/base/TimeObj.cpp | 6 ++++++
 src/base/TimeObj.h   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 0aa33ec..b31ce90 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -220,6 +220,12 @@ void Time::NormalizeTime() {
 			_EXCEPTIONT("Logic error");
 		}
 
+		// The length of a month is only known for a given date, so the days
+		// of an interval are not converted to months
+		if (m_eTimeType == TypeDelta) {
+			return;
+		}
+
 		// Adjust number of days per month
 		if (m_eCalendarType == CalendarStandard) {
 			if (IsLeapYear(m_iYear)) {
diff --git a/src/base/TimeObj.h b/src/base/TimeObj.h
index d040041..86cbc72 100644
--- a/src/base/TimeObj.h
+++ b/src/base/TimeObj.h
@@ -357,6 +357,9 @@ public:
 	///	</summary>
 	inline void SetTimeType(TimeType eTimeType) {
 		m_eTimeType = eTimeType;
+		if (m_eCalendarType != CalendarNone) {
+			NormalizeTime();
+		}
 	}
 
 public:
-- 
2.43.0


From 2148cf9ef7448fbeea4379bbb4740b9382a729d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 19/55] fix: reject time strings with missing or non-numeric
 values

---
 src/base/TimeObj.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index b31ce90..93a76a4 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -515,6 +515,16 @@ void Time::FromLongString(const std::string & strLongTime) {
 	if (strLongTime.length() != 23) {
 		_EXCEPTIONT("Invalid Time LongString");
 	}
+	for (int i = 0; i < 23; i++) {
+		if ((i == 4) || (i == 7) || (i == 10) || (i == 16)) {
+			if (strLongTime[i] != '-') {
+				_EXCEPTIONT("Invalid Time LongString");
+			}
+
+		} else if ((strLongTime[i] < '0') || (strLongTime[i] > '9')) {
+			_EXCEPTIONT("Invalid Time LongString");
+		}
+	}
 	m_iYear = atoi(strLongTime.c_str());
 	m_iMonth = atoi(strLongTime.c_str()+5) - 1;
 	m_iDay = atoi(strLongTime.c_str()+8) - 1;
@@ -581,6 +591,13 @@ void Time::FromFormattedString(
 						strFormattedTime.c_str());
 			}
 
+			if (i == j) {
+				_EXCEPTION1(
+					"Malformed Time string (%s): "
+						"Missing value",
+						strFormattedTime.c_str());
+			}
+
 			if (szYear == NULL) {
 				szYear = &(strFormattedTime[j]);
 				j = i + 1;
@@ -611,6 +628,13 @@ void Time::FromFormattedString(
 						strFormattedTime.c_str());
 			}
 
+			if (i == j) {
+				_EXCEPTION1(
+					"Malformed Time string (%s): "
+						"Missing value",
+						strFormattedTime.c_str());
+			}
+
 			state = FormatState_Time;
 
 			if (szHour == NULL) {
@@ -647,6 +671,13 @@ void Time::FromFormattedString(
 						strFormattedTime.c_str());
 			}
 
+			if (i == j) {
+				_EXCEPTION1(
+					"Malformed Time string (%s): "
+						"Missing value",
+						strFormattedTime.c_str());
+			}
+
 			state = FormatState_Free;
 
 			// Record year
-- 
2.43.0


From f43601cde01fb928bef4761f2a216709b998cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:02 +0000
Subject: [PATCH 20/55] fix: give output files which start within the same
 second distinct names

---
 src/atm/OutputManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/atm/OutputManager.cpp b/src/atm/OutputManager.cpp
index 4712aa4..001bc57 100644
--- a/src/atm/OutputManager.cpp
+++ b/src/atm/OutputManager.cpp
@@ -76,6 +76,13 @@ void OutputManager::GetFileName(
 	strFileName += m_strOutputPrefix;
 	strFileName += ".";
 	strFileName += time.ToShortString();
+
+	// Distinguish files which start within the same second
+	if (time.GetMicroSecond() != 0) {
+		char szMicroSecond[16];
+		snprintf(szMicroSecond, 16, "-%06i", time.GetMicroSecond());
+		strFileName += szMicroSecond;
+	}
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 748885910ea4b5e02a7a5562a7b9e0fb4414b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 21/55] fix: resetting a timer group that has no records yet is
 not an error (restarted runs)

---
 src/base/FunctionTimer.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/base/FunctionTimer.cpp b/src/base/FunctionTimer.cpp
index f8e3884..9f1e664 100644
--- a/src/base/FunctionTimer.cpp
+++ b/src/base/FunctionTimer.cpp
@@ -157,13 +157,9 @@ void FunctionTimer::ResetGroupTimeRecord(const char *szName) {
 
 	iter = m_mapGroupData.find(szName);
 
-	// Retrieve existing group record
+	// Discard existing group record (if any)
 	if (iter != m_mapGroupData.end()) {
 		m_mapGroupData.erase(iter);
-
-	// Group record does not exist
-	} else {
-		_EXCEPTION1("Group time record %s does not exist.", szName);
 	}
 }
 
-- 
2.43.0


From 14373264eec3050ef8a91fcd098bfa8472fe43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 22/55] fix: evaluate the physical constants of the test case
 in restarted runs too

---
 src/atm/Model.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index 5e77100..1b55f1c 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -239,22 +239,19 @@ void Model::SetTestCase(
 	// Attach the test case
 	m_pTestCase = pTestCase;
 
-	// Evaluate physical constants and data from TestCase
-	if (!m_fGridFromRestartFile) {
+	// Evaluate physical constants
+	m_pTestCase->EvaluatePhysicalConstants(m_phys);
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
+	// Evaluate data from TestCase
+	if (!m_fGridFromRestartFile) {
 
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase(*pTestCase, m_timeStart);
 	}
 	
-	// Evaluate physical constants and data from TestCase if pertubation is needed on restart
+	// Evaluate data from TestCase if pertubation is needed on restart
 	if ((m_fRestartPerturbation) && (m_fGridFromRestartFile)) {
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
-
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase_Perturbation(*pTestCase, m_timeStart);
 	}
-- 
2.43.0


From 03d31df7de9c55e608852a14f83f2c9af44b6daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 23/55] fix: set the vertical stretching function in restarted
 runs, and accept it in any case on Cartesian grids

---
 src/atm/TempestInitialize.h | 59 +++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/atm/TempestInitialize.h b/src/atm/TempestInitialize.h
index 256769e..c827036 100644
--- a/src/atm/TempestInitialize.h
+++ b/src/atm/TempestInitialize.h
@@ -473,6 +473,28 @@ void _TempestSetupOutputManagers(
 
 ///////////////////////////////////////////////////////////////////////////////
 
+void _TempestSetupVerticalStretch(
+	Grid & grid,
+	_TempestCommandLineVariables & vars
+) {
+	STLStringHelper::ToLower(vars.strVerticalStretch);
+	if (vars.strVerticalStretch == "uniform") {
+
+	} else if (vars.strVerticalStretch == "cubic") {
+		grid.SetVerticalStretchFunction(
+			new VerticalStretchCubic);
+
+	} else if (vars.strVerticalStretch == "pwlinear") {
+		grid.SetVerticalStretchFunction(
+			new VerticalStretchPiecewiseLinear);
+
+	} else {
+		_EXCEPTIONT("Invalid value for --vstretch");
+	}
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 void _TempestSetupCubedSphereModel(
 	Model & model,
 	_TempestCommandLineVariables & vars
@@ -547,20 +569,7 @@ void _TempestSetupCubedSphereModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strVerticalStretch);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-		}
+		_TempestSetupVerticalStretch(*pGrid, vars);
 
 		// Vertical type
 		STLStringHelper::ToLower(vars.strVerticalDiscretization);
@@ -576,6 +585,9 @@ void _TempestSetupCubedSphereModel(
 
 		pGrid->DefineParameters();
 
+		// Set the vertical stretching function
+		_TempestSetupVerticalStretch(*pGrid, vars);
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
@@ -666,21 +678,7 @@ void _TempestSetupCartesianModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strHorizontalDynamics);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-
-		}
+		_TempestSetupVerticalStretch(*pGrid, vars);
 
 		// Set the Model Grid
 		model.SetGrid(pGrid);
@@ -693,6 +691,9 @@ void _TempestSetupCartesianModel(
 
 		pGrid->DefineParameters();
 
+		// Set the vertical stretching function
+		_TempestSetupVerticalStretch(*pGrid, vars);
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
-- 
2.43.0


From c16909257e371bc06f9ca4d4fb9e37e98132021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:49 +0000
Subject: [PATCH 24/55] fix: keep the XZ-domain flag in the checkpoint

---
 src/atm/GridCartesianGLL.cpp | 1 -
 src/atm/GridGLL.cpp          | 2 ++
 src/atm/GridGLL.h            | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index a9bb27a..00c8405 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -52,7 +52,6 @@ void GridCartesianGLL::DefineParameters() {
 	// Add parameters for GridCartesianGLL
 	m_dcGridParameters.PushDataChunk(&m_dGDim);
 	m_dcGridParameters.PushDataChunk(&m_dRefLat);
-	//m_dcGridParameters.PushDataChunk(&m_fCartesianXZ);
 
 	// Call up the stack
 	GridGLL::DefineParameters();
diff --git a/src/atm/GridGLL.cpp b/src/atm/GridGLL.cpp
index 4d49015..5f0935c 100644
--- a/src/atm/GridGLL.cpp
+++ b/src/atm/GridGLL.cpp
@@ -43,6 +43,7 @@ void GridGLL::DefineParameters() {
 	// Initialize the GridParameters relevant to GridGLL
 	m_dcGridParameters.PushDataChunk(&m_nHorizontalOrder);
 	m_dcGridParameters.PushDataChunk(&m_nVerticalOrder);
+	m_dcGridParameters.PushDataChunk(&m_fCartesianXZ);
 
 	// Call up the stack
 	Grid::DefineParameters();
@@ -79,6 +80,7 @@ void GridGLL::SetParameters(
 	// Set the default parameters
 	m_nHorizontalOrder = nHorizontalOrder;
 	m_nVerticalOrder = nVerticalOrder;
+	m_fCartesianXZ = false;
 }
 
 ///////////////////////////////////////////////////////////////////////////////
diff --git a/src/atm/GridGLL.h b/src/atm/GridGLL.h
index 8527b36..40b2ee4 100644
--- a/src/atm/GridGLL.h
+++ b/src/atm/GridGLL.h
@@ -237,7 +237,7 @@ public:
 	///	<summary>
 	///		2D Cartesian flag
 	///	</summary>
-	bool m_fCartesianXZ = false;
+	DataStruct<bool> m_fCartesianXZ;
 
 	///	<summary>
 	///		Get the 2D Cartesian flag
-- 
2.43.0


From 2b34dc0851acf6b6cdcaad46cf7d5a47965f82a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:58 +0000
Subject: [PATCH 25/55] fix: reject truncated, unfinished or mismatched
 checkpoint files

---
 src/atm/OutputManagerComposite.cpp | 45 ++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index e6b472c..2aa6afc 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -208,8 +208,10 @@ void OutputManagerComposite::Output(
 				+ m_vecGridPatchByteSize[i][0];
 		}
 
-		// Write check bits
-		m_ofsActiveOutput.write((const char *)(&m_iCheck), sizeof(int));
+		// Reserve space for check bits (written when the file is complete)
+		const int iCheckIncomplete = 0;
+		m_ofsActiveOutput.write(
+			(const char *)(&iCheckIncomplete), sizeof(int));
 
 		// Write current time
 		const Time & timeCurrent = model.GetCurrentTime();
@@ -409,6 +411,16 @@ void OutputManagerComposite::Output(
 				(const char *)(&(m_vecRecvBuffer[0])),
 				m_vecGridPatchByteSize[iPatchIx][iDataType]);
 		}
+
+		// Write check bits
+		m_ofsActiveOutput.flush();
+		m_ofsActiveOutput.seekp(0);
+		m_ofsActiveOutput.write((const char *)(&m_iCheck), sizeof(int));
+		m_ofsActiveOutput.flush();
+
+		if (!m_ofsActiveOutput) {
+			_EXCEPTIONT("Error writing restart file");
+		}
 	}
 
 	// Barrier
@@ -450,7 +462,7 @@ Time OutputManagerComposite::Input(
 	// Read check bits
 	int iCheckInput;
 	ifsActiveInput.read((char *)(&iCheckInput), sizeof(int));
-	if (iCheckInput != m_iCheck) {
+	if (!ifsActiveInput || (iCheckInput != m_iCheck)) {
 		_EXCEPTION1("Invalid or incompatible input file \"%s\"",
 			strFileName.c_str());
 	}
@@ -467,6 +479,11 @@ Time OutputManagerComposite::Input(
 
 	ifsActiveInput.read(pGridParameters, nGridParametersByteSize);
 
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Unexpected end of input file \"%s\"",
+			strFileName.c_str());
+	}
+
 	// Initialize the Grid from specified parameters
 	m_grid.InitializeDataLocal();
 
@@ -479,6 +496,11 @@ Time OutputManagerComposite::Input(
 
 	ifsActiveInput.read(pGridPatchData, nGridPatchDataByteSize);
 
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Unexpected end of input file \"%s\"",
+			strFileName.c_str());
+	}
+
 	// Distribute GridPatches to processors
 	m_grid.DistributePatches();
 
@@ -533,6 +555,18 @@ Time OutputManagerComposite::Input(
 		_EXCEPTIONT("ActiveInput::tellg() fail");
 	}
 
+	// Verify that the file has the size expected for this Grid
+	const int iPatchLast = m_vecGridPatchByteSize.GetRows() - 1;
+
+	ifsActiveInput.seekg(0, std::ios::end);
+	if (ifsActiveInput.tellg() - posRefFile !=
+		m_vecGridPatchByteLoc[iPatchLast][1]
+		+ m_vecGridPatchByteSize[iPatchLast][1]
+	) {
+		_EXCEPTION1("Input file \"%s\" does not match the Grid",
+			strFileName.c_str());
+	}
+
 	// Load in GridPatch data from file
 	for (int i = 0; i < m_grid.GetActivePatchCount(); i++) {
 		GridPatch * pPatch = m_grid.GetActivePatch(i);
@@ -566,6 +600,11 @@ Time OutputManagerComposite::Input(
 			posRefFile + m_vecGridPatchByteLoc[iPatchIx][1]);
 		ifsActiveInput.read(
 			pActiveStateData, m_vecGridPatchByteSize[iPatchIx][1]);
+
+		if (!ifsActiveInput) {
+			_EXCEPTION1("Unexpected end of input file \"%s\"",
+				strFileName.c_str());
+		}
 	}
 
 	// Close the file
-- 
2.43.0


From 3746cb8d1699dcaa591034849956b294f1fdc1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 26/55] fix: consistent wind transforms at both poles of the
 cubed sphere

---
 src/atm/CubedSphereTrans.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 90fa095..02695ce 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -396,13 +396,15 @@ void CubedSphereTrans::VecTransABPFromRLL(
 
 	double lat;
 
+	// At the poles use the longitude assigned by RLLFromXYP
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
-		if (nP == 4) {
+		if ((dY > 0.0) == (nP == 5)) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -482,6 +484,18 @@ void CubedSphereTrans::VecTransRLLFromABP(
 
 	double lat;
 
+	// At the poles use the longitude assigned by RLLFromXYP
+	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
+		if ((dY > 0.0) == (nP == 5)) {
+			dUlon = dUalpha;
+			dUlat = dUbeta;
+		} else {
+			dUlon = - dUalpha;
+			dUlat = - dUbeta;
+		}
+		return;
+	}
+
 	switch (nP) {
 		// Equatorial panels
 		case 0:
@@ -560,13 +574,15 @@ void CubedSphereTrans::CoVecTransABPFromRLL(
 
 	double lat;
 
+	// At the poles use the longitude assigned by RLLFromXYP
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
-		if (nP == 4) {
+		if ((dY > 0.0) == (nP == 5)) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -652,13 +668,15 @@ void CubedSphereTrans::CoVecTransRLLFromABP(
 
 	double lat;
 
+	// At the poles use the longitude assigned by RLLFromXYP
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
-		if (nP == 4) {
+		if ((dY > 0.0) == (nP == 5)) {
 			dUlon = dUalpha;
+			dUlat = dUbeta;
 		} else {
 			dUlon = - dUalpha;
+			dUlat = - dUbeta;
 		}
-		dUlat = dUbeta;
 		return;
 	}
 
-- 
2.43.0


From 7ded595ff53879c85cd7a1d9ba64984d55cfb298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 27/55] fix: 9-point Gauss quadrature nodes

---
 src/base/GaussQuadrature.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/GaussQuadrature.cpp b/src/base/GaussQuadrature.cpp
index ab51d6e..522e329 100644
--- a/src/base/GaussQuadrature.cpp
+++ b/src/base/GaussQuadrature.cpp
@@ -139,15 +139,15 @@ void GaussQuadrature::GetPoints(
 
 	// Degree 9
 	} else if (nCount == 9) {
-		dG[0] = -1.0;
-		dG[1] = -0.899757995411460;
-		dG[2] = -0.677186279510738;
-		dG[3] = -0.363117463826178;
+		dG[0] = -0.9681602395076261;
+		dG[1] = -0.8360311073266358;
+		dG[2] = -0.6133714327005904;
+		dG[3] = -0.3242534234038089;
 		dG[4] =  0.0;
-		dG[5] = +0.363117463826178;
-		dG[6] = +0.677186279510738;
-		dG[7] = +0.899757995411460;
-		dG[8] = +1.0;
+		dG[5] = +0.3242534234038089;
+		dG[6] = +0.6133714327005904;
+		dG[7] = +0.8360311073266358;
+		dG[8] = +0.9681602395076261;
 
 		dW[0] = 0.0812743883615744;
 		dW[1] = 0.1806481606948574;
-- 
2.43.0


From 84bef1549a279a7715db1c379618ee4f13be566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 28/55] fix: generalized inverse by SVD of matrices with more
 columns than rows

---
 src/base/LinearAlgebra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index d015a04..9c4d3ed 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -647,7 +647,7 @@ void LAPACK::GeneralizedInverseSVD(
 		// Apply inverted singular values to U
 		for (int i = 0; i < dA.GetColumns(); i++) {
 		for (int j = 0; j < dA.GetRows(); j++) {
-			dU[i][j] *= dS[j];
+			dU[j][i] *= dS[j];
 		}
 		}
 
@@ -655,7 +655,7 @@ void LAPACK::GeneralizedInverseSVD(
 		for (int i = 0; i < dA.GetRows(); i++) {
 		for (int j = 0; j < dA.GetColumns(); j++) {
 		for (int k = 0; k < dA.GetRows(); k++) {
-			dOut[i][j] += dVT[i][k] * dU[j][k];
+			dOut[i][j] += dVT[i][k] * dU[k][j];
 		}
 		}
 		}
-- 
2.43.0


From c9a707c560e00f30d641e18876c32e693d31c09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 29/55] fix: size check of banded solves

---
 src/base/LinearAlgebra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index 9c4d3ed..b487a8f 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -161,8 +161,8 @@ int LAPACK::DGBSV(
 	int nKU
 ) {
 	// Check dimensions
-	if (dA.GetRows() < 2 * nKL + nKU + 1) {
-		_EXCEPTIONT("Matrix A has insufficient rows for DGBSV");
+	if (dA.GetColumns() < 2 * nKL + nKU + 1) {
+		_EXCEPTIONT("Matrix A has insufficient columns for DGBSV");
 	}
 	if (dBX.GetRows() < dA.GetRows()) {
 		_EXCEPTIONT("Matrix A / B dimension mismatch in DGBSV");
-- 
2.43.0


From da4dacbe0e8212f377206eab136397ed44328401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 30/55] fix: matrix size and leading dimension of banded
 factorization and solve

---
 src/base/LinearAlgebra.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index b487a8f..4e1296f 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -306,9 +306,9 @@ int LAPACK::DGBTRF(
 	int iKU
 ) {
 	int m = dA.GetRows();
-	int n = dA.GetColumns();
+	int n = m;
 
-	int lda = m;
+	int lda = dA.GetColumns();
 
 	int nInfo;
 
@@ -365,10 +365,9 @@ int LAPACK::DGBTRS(
 	int iKL,
 	int iKU
 ) {
-	int m = dA.GetRows();
-	int n = dA.GetColumns();
+	int n = dA.GetRows();
 
-	int lda = m;
+	int lda = dA.GetColumns();
 	int ldb = dB.GetRows();
 	int nRHS = 1;
 
-- 
2.43.0


From 7172b35b0f40e4bbb949895984cab1b5374fa755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 31/55] fix: self-assignment of DataArray2D keeps its contents

---
 src/base/DataArray2D.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index 49561f6..a9a9780 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -301,8 +301,6 @@ public:
 				Allocate(da.m_sSize[0], da.m_sSize[1]);
 			}
 
-			Deallocate();
-			Allocate(da.m_sSize[0], da.m_sSize[1]);
 			m_eDataType = da.m_eDataType;
 			m_eDataLocation = da.m_eDataLocation;
 		}
-- 
2.43.0


From 74e2f3c58877a307b73a4e4042771c7e8743332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 32/55] fix: the array bounds check accepted indices equal to
 the size

---
 src/base/DataArray1D.h | 4 ++--
 src/base/DataArray2D.h | 8 ++++----
 src/base/DataArray3D.h | 8 ++++----
 src/base/DataArray4D.h | 8 ++++----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/base/DataArray1D.h b/src/base/DataArray1D.h
index ceb80ea..9b0ef36 100644
--- a/src/base/DataArray1D.h
+++ b/src/base/DataArray1D.h
@@ -362,7 +362,7 @@ public:
 	///	</summary>
 	inline T & operator()(size_t i) {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize) {
+		if (i >= m_sSize) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -374,7 +374,7 @@ public:
 	///	</summary>
 	inline const T & operator()(size_t i) const {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize) {
+		if (i >= m_sSize) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index a9a9780..01585f2 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -460,7 +460,7 @@ public:
 	inline const T & operator()(size_t i, size_t j) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -475,7 +475,7 @@ public:
 	inline T & operator()(size_t i, size_t j) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -518,7 +518,7 @@ public:
 	inline T const* operator()(size_t i) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize[0]) {
+		if (i >= m_sSize[0]) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -533,7 +533,7 @@ public:
 	inline T* operator()(size_t i) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize[0]) {
+		if (i >= m_sSize[0]) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
diff --git a/src/base/DataArray3D.h b/src/base/DataArray3D.h
index c13e4b2..255570e 100644
--- a/src/base/DataArray3D.h
+++ b/src/base/DataArray3D.h
@@ -493,7 +493,7 @@ public:
 	///	</summary>
 	inline const T & operator()(size_t i, size_t j, size_t k) const {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -504,7 +504,7 @@ public:
 	///	</summary>
 	inline T & operator()(size_t i, size_t j, size_t k) {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -547,7 +547,7 @@ public:
 	inline T const* operator()(size_t i, size_t j) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -563,7 +563,7 @@ public:
 	inline T* operator()(size_t i, size_t j) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
diff --git a/src/base/DataArray4D.h b/src/base/DataArray4D.h
index 8b21acb..c03e1d6 100644
--- a/src/base/DataArray4D.h
+++ b/src/base/DataArray4D.h
@@ -506,7 +506,7 @@ public:
 	///	</summary>
 	inline const T & operator()(size_t i, size_t j, size_t k, size_t l) const {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2]) || (l > m_sSize[3])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2]) || (l >= m_sSize[3])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -518,7 +518,7 @@ public:
 	///	</summary>
 	inline T & operator()(size_t i, size_t j, size_t k, size_t l) {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2]) || (l > m_sSize[3])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2]) || (l >= m_sSize[3])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -562,7 +562,7 @@ public:
 	inline T const* operator()(size_t i, size_t j, size_t k) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -579,7 +579,7 @@ public:
 	inline T* operator()(size_t i, size_t j, size_t k) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
-- 
2.43.0


From dbe2b4487e4581fa554bb74ceecf0bd040650d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 33/55] fix: no reference to the elements of empty request
 lists in WaitSend

---
 src/atm/Connectivity.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/atm/Connectivity.cpp b/src/atm/Connectivity.cpp
index 76e7da4..63d12f6 100644
--- a/src/atm/Connectivity.cpp
+++ b/src/atm/Connectivity.cpp
@@ -1110,10 +1110,12 @@ const std::vector<ExchangeBuffer *> * ExchangeBufferRegistry::WaitReceive() {
 void ExchangeBufferRegistry::WaitSend() {
 #ifdef TEMPEST_MPIOMP
 	if (m_fActiveAsyncSend) {
-		MPI_Waitall(
-			m_vecSendRequest.size(),
-			&(m_vecSendRequest[0]),
-			&(m_vecSendStatus[0]));
+		if (m_vecSendRequest.size() != 0) {
+			MPI_Waitall(
+				m_vecSendRequest.size(),
+				&(m_vecSendRequest[0]),
+				&(m_vecSendStatus[0]));
+		}
 		m_fActiveAsyncSend = false;
 	}
 #endif
-- 
2.43.0


From 2eb5e1ee8bd3d9dbb8d660f86966d7e9c19c2d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 34/55] fix: reject option values that are not numbers

---
 src/atm/CommandLine.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/atm/CommandLine.h b/src/atm/CommandLine.h
index 52b8f3e..f4bc338 100644
--- a/src/atm/CommandLine.h
+++ b/src/atm/CommandLine.h
@@ -23,6 +23,9 @@
 
 #include <vector>
 #include <string>
+#include <cerrno>
+#include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 
@@ -290,7 +293,16 @@ public:
 		if (ix != 0) {
 			_EXCEPTIONT("Invalid value index.");
 		}
-		m_dValue = atoi(strValue.c_str());
+		char * szEnd;
+		errno = 0;
+		long lValue = strtol(strValue.c_str(), &szEnd, 10);
+		if ((szEnd == strValue.c_str()) || (*szEnd != '\0') ||
+		    (errno == ERANGE) || (lValue > INT_MAX) || (lValue < INT_MIN)
+		) {
+			_EXCEPTION2("Invalid value \"%s\" for option %s: Integer expected",
+				strValue.c_str(), m_strName.c_str());
+		}
+		m_dValue = static_cast<int>(lValue);
 	}
 
 public:
@@ -363,7 +375,13 @@ public:
 		if (ix != 0) {
 			_EXCEPTIONT("Invalid value index.");
 		}
-		m_dValue = atof(strValue.c_str());
+		char * szEnd;
+		double dValue = strtod(strValue.c_str(), &szEnd);
+		if ((szEnd == strValue.c_str()) || (*szEnd != '\0')) {
+			_EXCEPTION2("Invalid value \"%s\" for option %s: Number expected",
+				strValue.c_str(), m_strName.c_str());
+		}
+		m_dValue = dValue;
 	}
 
 public:
-- 
2.43.0


From f9c743837eb608b51a661ed908461b97e5a32686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 35/55] fix: interpolation of columns with a single level used
 values outside the column

---
 src/atm/LinearColumnOperatorFEM.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 8454826..064c569 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -119,7 +119,7 @@ void LinearColumnInterpFEM::Initialize(
 		} else {
 
 			// For nVerticalOrder = 1, override default O(dx) interpolant
-			if ((nVerticalOrder == 1) && (l == 0)) {
+			if ((nVerticalOrder == 1) && (nFiniteElementsIn > 1) && (l == 0)) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[a * nVerticalOrder]),
@@ -129,7 +129,11 @@ void LinearColumnInterpFEM::Initialize(
 				m_iBegin[l] =  a    * nVerticalOrder;
 				m_iEnd[l]   = (a+2) * nVerticalOrder;
 
-			} else if ((nVerticalOrder == 1) && (l == nRElementsOut-1)) {
+			} else if (
+				(nVerticalOrder == 1) &&
+				(nFiniteElementsIn > 1) &&
+				(l == nRElementsOut-1)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[(a-1) * nVerticalOrder]),
-- 
2.43.0


From dbab11b5f8b8eec45770c23b5ba3163eb877ffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 36/55] fix: second derivatives in columns with elements of
 different height

---
 src/atm/LinearColumnOperatorFEM.cpp | 57 ++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 064c569..e0c74aa 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -1123,10 +1123,6 @@ void LinearColumnDiffDiffFEM::Initialize(
 		for (int a = 0; a < nFiniteElements; a++) {
 
 			// Get the derivatives from the FluxCorrectionFunction
-			double dElementDeltaXi =
-				dREtaREdge[(a+1) * nVerticalOrder]
-				- dREtaREdge[a * nVerticalOrder];
-
 			DataArray1D<double> dStandardNode(nVerticalOrder);
 			dStandardNode[0] = 1.0;
 
@@ -1137,7 +1133,20 @@ void LinearColumnDiffDiffFEM::Initialize(
 				dStandardNode,
 				dDiffCorrectionFn);
 
-			dDiffCorrectionFn[0] /= dElementDeltaXi;
+			// Derivatives of the flux correction at the left and right edge,
+			// which have the same value in both elements that share the edge
+			double dDiffCorrectionL = 0.0;
+			double dDiffCorrectionR = 0.0;
+			if (a > 0) {
+				dDiffCorrectionL = 2.0 * dDiffCorrectionFn[0]
+					/ ( dREtaREdge[(a+1) * nVerticalOrder]
+					  - dREtaREdge[(a-1) * nVerticalOrder]);
+			}
+			if (a+1 < nFiniteElements) {
+				dDiffCorrectionR = 2.0 * dDiffCorrectionFn[0]
+					/ ( dREtaREdge[(a+2) * nVerticalOrder]
+					  - dREtaREdge[ a    * nVerticalOrder]);
+			}
 
 			// Build local first derivative operator
 			DataArray2D<double> dDiffNodeToNode(
@@ -1253,9 +1262,9 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 					for (int i = 0; i < nVerticalOrder; i++) {
 						m_dCoeff[ax+j][ax+i] -=
-							0.5 * dPhiR * dCoeffL[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiR * dCoeffL[i] * dDiffCorrectionR;
 						m_dCoeff[ax+j][ax+nVerticalOrder+i] +=
-							0.5 * dPhiR * dCoeffR[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiR * dCoeffR[i] * dDiffCorrectionR;
 					}
 				}
 
@@ -1276,9 +1285,9 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 					for (int i = 0; i < nVerticalOrder; i++) {
 						m_dCoeff[ax+j][ax-nVerticalOrder+i] +=
-							0.5 * dPhiL * dCoeffL[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiL * dCoeffL[i] * dDiffCorrectionL;
 						m_dCoeff[ax+j][ax+i] -=
-							0.5 * dPhiL * dCoeffR[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiL * dCoeffR[i] * dDiffCorrectionL;
 					}
 				}
 			}
@@ -1339,11 +1348,22 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 				double dWlocal = dW[j];
 
+				// Shared nodes also carry the weight of the other element
 				if ((j == 0) && (a != 0)) {
-					dWlocal *= 2.0;
+					dWlocal +=
+						dW[nVerticalOrder]
+						* ( dREtaREdge[ a    * nVerticalOrder]
+						  - dREtaREdge[(a-1) * nVerticalOrder])
+						/ ( dREtaREdge[(a+1) * nVerticalOrder]
+						  - dREtaREdge[ a    * nVerticalOrder]);
 				}
 				if ((j == nVerticalOrder) && (a != nFiniteElements-1)) {
-					dWlocal *= 2.0;
+					dWlocal +=
+						dW[0]
+						* ( dREtaREdge[(a+2) * nVerticalOrder]
+						  - dREtaREdge[(a+1) * nVerticalOrder])
+						/ ( dREtaREdge[(a+1) * nVerticalOrder]
+						  - dREtaREdge[ a    * nVerticalOrder]);
 				}
 
 				for (int i = 0; i <= nVerticalOrder; i++) {
@@ -1440,11 +1460,22 @@ void LinearColumnDiffDiffFEM::InitializeGLLNodes(
 
 			double dWlocal = dW[j];
 
+			// Shared nodes also carry the weight of the other element
 			if ((j == 0) && (a != 0)) {
-				dWlocal *= 2.0;
+				dWlocal +=
+					dW[nVerticalOrder-1]
+					* ( dREtaNode[ a    * (nVerticalOrder-1)]
+					  - dREtaNode[(a-1) * (nVerticalOrder-1)])
+					/ ( dREtaNode[(a+1) * (nVerticalOrder-1)]
+					  - dREtaNode[ a    * (nVerticalOrder-1)]);
 			}
 			if ((j == nVerticalOrder-1) && (a != nFiniteElements-1)) {
-				dWlocal *= 2.0;
+				dWlocal +=
+					dW[0]
+					* ( dREtaNode[(a+2) * (nVerticalOrder-1)]
+					  - dREtaNode[(a+1) * (nVerticalOrder-1)])
+					/ ( dREtaNode[(a+1) * (nVerticalOrder-1)]
+					  - dREtaNode[ a    * (nVerticalOrder-1)]);
 			}
 
 			for (int i = 0; i < nVerticalOrder; i++) {
-- 
2.43.0


From f655b0da976ad380ba8d3a65593c1032ab6501d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 37/55] fix: derivatives at the edges of elements of different
 height

---
 src/atm/LinearColumnOperatorFEM.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index e0c74aa..2a0824e 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -559,10 +559,19 @@ void LinearColumnDiffFEM::InitializeFluxCorrectionMethod(
 				&(m_dCoeff[l][(a+1) * nVerticalOrder]),
 				dREtaOut[l]);
 
-			for (int k = 0; k < nRElementsIn; k++) {
-				m_dCoeff[l][k] *= 0.5 * dDeltaREta;
+			// The derivative at a shared edge is the mean of the derivatives
+			// on both sides weighted by the heights of the elements
+			double dDeltaREtaR =
+				  dREtaREdge[(a+2) * nVerticalOrder]
+				- dREtaREdge[(a+1) * nVerticalOrder];
+
+			for (int k = 0; k < nVerticalOrder; k++) {
+				m_dCoeff[l][a * nVerticalOrder + k] *= 0.5 * dDeltaREta;
+				m_dCoeff[l][(a+1) * nVerticalOrder + k] *= 0.5 * dDeltaREtaR;
 			}
 
+			dDeltaREta = 0.5 * (dDeltaREta + dDeltaREtaR);
+
 		} else {
 			for (int k = 0; k < nRElementsIn; k++) {
 				m_dCoeff[l][k] *= dDeltaREta;
@@ -578,7 +587,9 @@ void LinearColumnDiffFEM::InitializeFluxCorrectionMethod(
 		// Derivatives of the flux correction function at this point
 		DataArray1D<double> dNodesR(1);
 		dNodesR[0] =
-			(dREtaOut[l] - dREtaREdge[a * nVerticalOrder]) / dDeltaREta;
+			(dREtaOut[l] - dREtaREdge[a * nVerticalOrder])
+			/ ( dREtaREdge[(a+1) * nVerticalOrder]
+			  - dREtaREdge[ a    * nVerticalOrder]);
 
 		DataArray1D<double> dNodesL(1);
 		dNodesL[0] = 1.0 - dNodesR[0];
-- 
2.43.0


From a79d84993e5a2d34af7def8a14946d3e7839fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 38/55] fix: linear interpolation to a first or last point on
 an inner interface

---
 src/atm/LinearColumnOperatorFEM.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 2a0824e..b641fd9 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -119,7 +119,11 @@ void LinearColumnInterpFEM::Initialize(
 		} else {
 
 			// For nVerticalOrder = 1, override default O(dx) interpolant
-			if ((nVerticalOrder == 1) && (nFiniteElementsIn > 1) && (l == 0)) {
+			if ((nVerticalOrder == 1) &&
+				(nFiniteElementsIn > 1) &&
+				(l == 0) &&
+				(!fOnREdge)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[a * nVerticalOrder]),
@@ -132,7 +136,8 @@ void LinearColumnInterpFEM::Initialize(
 			} else if (
 				(nVerticalOrder == 1) &&
 				(nFiniteElementsIn > 1) &&
-				(l == nRElementsOut-1)
+				(l == nRElementsOut-1) &&
+				(!fOnREdge)
 			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
-- 
2.43.0


From 183c59a35cf419709fd1dad932fa92742e0f675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 39/55] fix: vertical velocity output uses the metric of each
 node

---
 src/atm/GridPatchCSGLL.cpp        | 4 ++--
 src/atm/GridPatchCartesianGLL.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index cdf2075..816f359 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -1662,7 +1662,7 @@ void GridPatchCSGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRREdge(iA,iB,k,2);
+								/ m_dataDerivRREdge(iA+m,iB+n,k,2);
 #endif
 						}
 						}
@@ -1674,7 +1674,7 @@ void GridPatchCSGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRNode(iA,iB,k,2);
+								/ m_dataDerivRNode(iA+m,iB+n,k,2);
 						}
 						}
 					}
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index eebcd9d..053f0cb 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1864,7 +1864,7 @@ void GridPatchCartesianGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRREdge(iA,iB,k,2);
+								/ m_dataDerivRREdge(iA+m,iB+n,k,2);
 #endif
 						}
 						}
@@ -1876,7 +1876,7 @@ void GridPatchCartesianGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRNode(iA,iB,k,2);
+								/ m_dataDerivRNode(iA+m,iB+n,k,2);
 						}
 						}
 					}
-- 
2.43.0


From d2176a21b4dbe0faf2fabca2715af94784a84301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 40/55] fix: finite volume columns are interpolated to output
 levels in Cartesian grids

---
 src/atm/GridPatchCartesianGLL.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 053f0cb..aea362e 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1719,8 +1719,25 @@ void GridPatchCartesianGLL::InterpolateData(
 				eVerticalDiscType ==
 				Grid::VerticalDiscretization_FiniteVolume
 			) {
-#pragma message "Finite volume interpolation not implemented correctly"
-				opInterp.InitializeIdentity(nRElements);
+				if (eDataLocation == DataLocation_Node) {
+					opInterp.Initialize(
+						LinearColumnInterpFEM::InterpSource_Levels,
+						1,
+						m_grid.GetREtaLevels(),
+						m_grid.GetREtaInterfaces(),
+						dREta);
+
+				} else if (eDataLocation == DataLocation_REdge) {
+					opInterp.Initialize(
+						LinearColumnInterpFEM::InterpSource_Interfaces,
+						1,
+						m_grid.GetREtaLevels(),
+						m_grid.GetREtaInterfaces(),
+						dREta);
+
+				} else {
+					_EXCEPTIONT("Invalid DataLocation");
+				}
 
 			// Invalid vertical discretization type
 			} else {
-- 
2.43.0


From 1afbe80e20e57f27b7a8f2b96cc90c77138b0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 41/55] fix: Richardson number output on the cubed sphere

---
 src/atm/GridPatchCSGLL.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index 816f359..bd32716 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -1428,6 +1428,10 @@ void GridPatchCSGLL::InterpolateData(
 		nComponents = 1;
 		nRElements = 1;
 
+	// Richardson number Data
+	} else if (eDataType == DataType_Richardson) {
+		nComponents = 1;
+
 	// 2D User Data
 	} else if (eDataType == DataType_Auxiliary2D) {
 		nComponents = m_dataUserData2D.GetSize(0);
@@ -1579,6 +1583,9 @@ void GridPatchCSGLL::InterpolateData(
 		} else if (eDataType == DataType_SurfacePressure) {
 			pData.AttachToData(&(m_dataSurfacePressure(0,0)));
 
+		} else if (eDataType == DataType_Richardson) {
+			pData.AttachToData(&(m_dataRichardson(0,0,0)));
+
 		} else if (eDataType == DataType_Auxiliary2D) {
 			pData.AttachToData(&(m_dataUserData2D(c,0,0)));
 		}
-- 
2.43.0


From e85277ade1544d2d7810941af807044b82e495ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 42/55] fix: interface coordinate in shallow-water output

---
 src/atm/OutputManagerReference.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/OutputManagerReference.cpp b/src/atm/OutputManagerReference.cpp
index 43fa105..c20504b 100644
--- a/src/atm/OutputManagerReference.cpp
+++ b/src/atm/OutputManagerReference.cpp
@@ -497,8 +497,8 @@ bool OutputManagerReference::OpenFile(
 			m_pActiveNcOutput->add_var("ilev", ncDouble, dimILev);
 
 		varILev->put(
-			m_grid.GetREtaStretchInterfaces(),
-			m_grid.GetREtaStretchInterfaces().GetRows());
+			m_grid.GetREtaInterfaces(),
+			m_grid.GetREtaInterfaces().GetRows());
 
 		varILev->add_att("long_name", "interface level");
 		varILev->add_att("units", "level");
-- 
2.43.0


From b664fcd0a2a9c0a67d30d86748b09f7317a1c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 43/55] fix: Coriolis parameter follows the inclination of the
 grid

---
 src/atm/GridPatch.cpp      | 2 +-
 src/atm/GridPatchCSGLL.cpp | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index a51b26c..b6499ba 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -1181,7 +1181,7 @@ double GridPatch::ComputeTotalPotentialEnstrophy(
 		for (int j = m_box.GetBInteriorBegin(); j < m_box.GetBInteriorEnd(); j++) {
 		for (int k = 0; k < nRElements; k++) {
 			const double dPlanetaryVorticity =
-				2.0 * phys.GetOmega() * sin(m_dataLat(i,j));
+				m_dataCoriolisF(i,j);
 
 			const double dAbsoluteVorticity =
 				m_dataVorticity(i,j,k) + dPlanetaryVorticity;
diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index bd32716..1f4b33d 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -349,7 +349,10 @@ void GridPatchCSGLL::EvaluateGeometricTerms() {
 	for (int i = 0; i < m_box.GetATotalWidth(); i++) {
 	for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
 		m_dataCoriolisF(i,j) =
-			2.0 * phys.GetOmega() * sin(m_dataLat(i,j));
+			2.0 * phys.GetOmega()
+			* (sin(m_dataLat(i,j)) * cos(phys.GetAlpha())
+				- cos(m_dataLon(i,j)) * cos(m_dataLat(i,j))
+				* sin(phys.GetAlpha()));
 	}
 	}
 
-- 
2.43.0


From b6dcb6176e461f031f3a0a20a9d90499a57b8675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 44/55] fix: Rayleigh strength at the top interface of
 Cartesian grids

---
 src/atm/GridPatchCartesianGLL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index aea362e..254a5ae 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -554,7 +554,7 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 						m_dataLon[i][j],
 						m_dataLat[i][j]);
 			}
-			for (int k = 0; k < m_grid.GetRElements(); k++) {
+			for (int k = 0; k <= m_grid.GetRElements(); k++) {
 				m_dataRayleighStrengthREdge[i][j][k] =
 					test.EvaluateRayleighStrength(
 						m_dataZInterfaces[i][j][k],
-- 
2.43.0


From 7d33a9f7a93816cfd36a4be57f593fb0f6601f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:32 +0000
Subject: [PATCH 45/55] fix: Held-Suarez forcing uses rho*theta for pressure
 and an interpolated surface value

---
 src/atm/HeldSuarezPhysics.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/atm/HeldSuarezPhysics.cpp b/src/atm/HeldSuarezPhysics.cpp
index 2a6728e..dcbd15f 100644
--- a/src/atm/HeldSuarezPhysics.cpp
+++ b/src/atm/HeldSuarezPhysics.cpp
@@ -102,6 +102,10 @@ void HeldSuarezPhysics::Perform(
 			if (pGrid->GetVarLocation(TIx) == DataLocation_REdge) {
 				pPatch->InterpolateREdgeToNode(TIx, 0);
 				pPatch->InterpolateNodeToREdge(RIx, 0);
+
+			// Surface pressure is needed below
+			} else {
+				pPatch->InterpolateNodeToREdge(TIx, 0);
 			}
 		}
 
@@ -111,16 +115,14 @@ void HeldSuarezPhysics::Perform(
 
 			// Calculate surface pressure
 			double dSurfacePressure =
-				phys.PressureFromRhoTheta(
-					dataREdge[RIx][i][j][0] * dataREdge[TIx][i][j][0]);
+				phys.PressureFromRhoTheta(dataREdge[TIx][i][j][0]);
 
 			// Loop over all levels in column
 			for (int k = 0; k < nRElements; k++) {
 
 				// Calculate pressure
 				double dPressure =
-					phys.PressureFromRhoTheta(
-						dataNode[RIx][i][j][k] * dataNode[TIx][i][j][k]);
+					phys.PressureFromRhoTheta(dataNode[TIx][i][j][k]);
 
 				double dSigma = dPressure / dSurfacePressure;
 
-- 
2.43.0


From c7bfff41cf62cbe0c2fcb1e2c4c86724e989de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 46/55] fix: CFConverter and ExtractSurface hang on an empty
 item in a list

---
 util/CFConverter/CFConverter.cpp       | 4 ++++
 util/ExtractSurface/ExtractSurface.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/util/CFConverter/CFConverter.cpp b/util/CFConverter/CFConverter.cpp
index ae2ac23..609c9ce 100644
--- a/util/CFConverter/CFConverter.cpp
+++ b/util/CFConverter/CFConverter.cpp
@@ -162,6 +162,8 @@ void ParseLevelArray(
 					break;
 				}
 
+				iLevelBegin++;
+				iLevelCurrent++;
 				continue;
 			}
 
@@ -234,6 +236,8 @@ void ParseVariableList(
 					break;
 				}
 
+				iVarBegin++;
+				iVarCurrent++;
 				continue;
 			}
 
diff --git a/util/ExtractSurface/ExtractSurface.cpp b/util/ExtractSurface/ExtractSurface.cpp
index e857a49..f8f7eae 100644
--- a/util/ExtractSurface/ExtractSurface.cpp
+++ b/util/ExtractSurface/ExtractSurface.cpp
@@ -162,6 +162,8 @@ void ParseLevelArray(
 					break;
 				}
 
+				iLevelBegin++;
+				iLevelCurrent++;
 				continue;
 			}
 
@@ -233,6 +235,8 @@ void ParseVariableList(
 					break;
 				}
 
+				iVarBegin++;
+				iVarCurrent++;
 				continue;
 			}
 
-- 
2.43.0


From 66673a3edf1db0a8c130adf53f7dc3c6906d56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 47/55] fix: CFConverter divides mixing ratios by density only
 when converting tracer densities

---
 util/CFConverter/CFConverter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/CFConverter/CFConverter.cpp b/util/CFConverter/CFConverter.cpp
index 609c9ce..b1efbb2 100644
--- a/util/CFConverter/CFConverter.cpp
+++ b/util/CFConverter/CFConverter.cpp
@@ -566,8 +566,10 @@ try {
 			if (strQ == "Q") {
 				strQ = "Qv";
 			}
+			bool fTracerDensity = false;
 			varIn = ncdf_in.get_var(strQ.c_str());
 			if (varIn == NULL) {
+				fTracerDensity = true;
 				std::string strRhoQ = "Rho" + strQ;
 				if (!fHasDensity) {
 					_EXCEPTION1("Cannot find variable \"%s\" and density "
@@ -587,8 +589,10 @@ try {
 			data.Allocate(nTime * nLev * nLat * nLon);
 			varIn->get(&(data[0]), nTime, nLev, nLat, nLon);
 
-			for (int i = 0; i < data.GetRows(); i++) {
-				data[i] /= dRho[i];
+			if (fTracerDensity) {
+				for (int i = 0; i < data.GetRows(); i++) {
+					data[i] /= dRho[i];
+				}
 			}
 
 			fOnLevels = true;
-- 
2.43.0


From 3f1323d2ef1710cffb18b02dd19dcdc99d5e975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 48/55] fix: ExtractSurface interpolates interface variables to
 pressure levels from their own data

---
 util/ExtractSurface/ExtractSurface.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/util/ExtractSurface/ExtractSurface.cpp b/util/ExtractSurface/ExtractSurface.cpp
index f8f7eae..23d9141 100644
--- a/util/ExtractSurface/ExtractSurface.cpp
+++ b/util/ExtractSurface/ExtractSurface.cpp
@@ -773,6 +773,20 @@ try {
 				vecNcVar[v]->get(&(dataInt[0][0][0]), 1, nILev, nLat, nLon);
 				fOnInterfaces = true;
 
+				// Values on levels, for interpolation to pressure surfaces
+				for (int k = 0; k < nLev; k++) {
+					double dWI =
+						(dILev[k+1] - dLev[k]) / (dILev[k+1] - dILev[k]);
+
+					for (int i = 0; i < nLat; i++) {
+					for (int j = 0; j < nLon; j++) {
+						dataIn[k][i][j] =
+							dWI * dataInt[k][i][j]
+							+ (1.0 - dWI) * dataInt[k+1][i][j];
+					}
+					}
+				}
+
 				Announce("%s (i)", vecVariableStrings[v].c_str());
 			} else {
 				_EXCEPTION1("Variable \"%s\" has invalid level dimension",
-- 
2.43.0


From 376850ce837b67073b168b695d2ad2d0ecc40b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 49/55] fix: ExtractSurface crashed on geopotential height
 output with more than one time

---
 util/ExtractSurface/ExtractSurface.cpp | 35 +++++++++++++-------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/util/ExtractSurface/ExtractSurface.cpp b/util/ExtractSurface/ExtractSurface.cpp
index 23d9141..3a827b3 100644
--- a/util/ExtractSurface/ExtractSurface.cpp
+++ b/util/ExtractSurface/ExtractSurface.cpp
@@ -687,6 +687,20 @@ try {
 		}
 	}
 
+	// Create output geopotential height variables
+	NcVar * varOutPhiZ = NULL;
+	NcVar * varOutPhiZs = NULL;
+	if (fGeopotentialHeight) {
+		if (nPressureLevels > 0) {
+			varOutPhiZ = ncdf_out.add_var(
+				"PHIZ", ncDouble, dimOutTime, dimOutP, dimOutLat, dimOutLon);
+		}
+		if (fExtractSurface) {
+			varOutPhiZs = ncdf_out.add_var(
+				"PHIZS", ncDouble, dimOutTime, dimOutLat, dimOutLon);
+		}
+	}
+
 	// Loop over all times
 	for (int t = 0; t < nTime; t++) {
 
@@ -929,19 +943,6 @@ try {
 
 			Announce("Geopotential height");
 
-			// Output variables
-			NcVar * varOutZ;
-			NcVar * varOutZs;
-
-			if (nPressureLevels > 0) {
-				varOutZ = ncdf_out.add_var(
-					"PHIZ", ncDouble, dimOutTime, dimOutP, dimOutLat, dimOutLon);
-			}
-			if (fExtractSurface) {
-				varOutZs = ncdf_out.add_var(
-					"PHIZS", ncDouble, dimOutTime, dimOutLat, dimOutLon);
-			}
-
 			// Interpolate onto pressure levels
 			for (int p = 0; p < nPressureLevels; p++) {
 
@@ -972,8 +973,8 @@ try {
 				}
 
 				// Write variable
-				varOutZ->set_cur(t, p, 0, 0);
-				varOutZ->put(&(dataOut[0][0]), 1, 1, nLat, nLon);
+				varOutPhiZ->set_cur(t, p, 0, 0);
+				varOutPhiZ->put(&(dataOut[0][0]), 1, 1, nLat, nLon);
 
 			}
 
@@ -999,8 +1000,8 @@ try {
 				}
 
 				// Write variable
-				varOutZs->set_cur(t, 0, 0);
-				varOutZs->put(&(dataOut[0][0]), 1, nLat, nLon);
+				varOutPhiZs->set_cur(t, 0, 0);
+				varOutPhiZs->put(&(dataOut[0][0]), 1, nLat, nLon);
 
 			}
 		}
-- 
2.43.0


From a28aa268fbcbe69a5af50fb5943b7b935d9282bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 50/55] fix: ExtractSurface total energy left out the internal
 energy unless pressure levels were requested

---
 util/ExtractSurface/ExtractSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/ExtractSurface/ExtractSurface.cpp b/util/ExtractSurface/ExtractSurface.cpp
index 3a827b3..ec2e2f9 100644
--- a/util/ExtractSurface/ExtractSurface.cpp
+++ b/util/ExtractSurface/ExtractSurface.cpp
@@ -721,7 +721,7 @@ try {
 		// Pressure
 		DataArray3D<double> dataP(nLev, nLat, nLon);
 
-		if (nPressureLevels != 0) {
+		if ((nPressureLevels != 0) || (fExtractTotalEnergy)) {
 			NcVar * varP = ncdf_in.get_var("P");
 			if (varP == NULL) {
 				_EXCEPTIONT("Unable to load variable \"P\" from file");
-- 
2.43.0


From 3cc500aab151fe8ee501809275a9fb87837a130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 51/55] fix: ExtractSurface reports missing attributes and
 unsuitable variables instead of crashing

---
 util/ExtractSurface/ExtractSurface.cpp | 36 +++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/util/ExtractSurface/ExtractSurface.cpp b/util/ExtractSurface/ExtractSurface.cpp
index ec2e2f9..b8c1f9d 100644
--- a/util/ExtractSurface/ExtractSurface.cpp
+++ b/util/ExtractSurface/ExtractSurface.cpp
@@ -587,28 +587,47 @@ try {
 			_EXCEPTION1("Unable to load variable \"%s\" from file",
 				vecVariableStrings[v].c_str());
 		}
+		if (vecNcVar[v]->num_dims() != 4) {
+			_EXCEPTION1("Invalid number of dimensions for variable \"%s\"",
+				vecVariableStrings[v].c_str());
+		}
 	}
 
 	// Physical constants
 	Announce("Initializing thermodynamic variables");
 
 	NcAtt * attEarthRadius = ncdf_in.get_att("earth_radius");
+	if (attEarthRadius == NULL) {
+		_EXCEPTIONT("Attribute \"earth_radius\" not found");
+	}
 	double dEarthRadius = attEarthRadius->as_double(0);
 
 	NcAtt * attRd = ncdf_in.get_att("Rd");
+	if (attRd == NULL) {
+		_EXCEPTIONT("Attribute \"Rd\" not found");
+	}
 	double dRd = attRd->as_double(0);
 
 	NcAtt * attCp = ncdf_in.get_att("Cp");
+	if (attCp == NULL) {
+		_EXCEPTIONT("Attribute \"Cp\" not found");
+	}
 	double dCp = attCp->as_double(0);
 
 	double dGamma = dCp / (dCp - dRd);
 
 	NcAtt * attP0 = ncdf_in.get_att("P0");
+	if (attP0 == NULL) {
+		_EXCEPTIONT("Attribute \"P0\" not found");
+	}
 	double dP0 = attP0->as_double(0);
 
 	double dPressureScaling = dP0 * std::pow(dRd / dP0, dGamma);
 
 	NcAtt * attZtop = ncdf_in.get_att("Ztop");
+	if (attZtop == NULL) {
+		_EXCEPTIONT("Attribute \"Ztop\" not found");
+	}
 	double dZtop = attZtop->as_double(0);
 
 	// Input data
@@ -820,10 +839,10 @@ try {
 				} else {
 
 					int kBegin = 0;
-					int kEnd = 3;
+					int kEnd = (nLev < 3)?(nLev):(3);
 
 					PolynomialInterp::LagrangianPolynomialCoeffs(
-						3, dLev, dW, 0.0);
+						kEnd, dLev, dW, 0.0);
 
 					// Loop thorugh all latlon indices
 					for (int i = 0; i < nLat; i++) {
@@ -982,10 +1001,10 @@ try {
 			if (fExtractSurface) {
 
 				int kBegin = 0;
-				int kEnd = 3;
+				int kEnd = (nLev < 3)?(nLev):(3);
 
 				PolynomialInterp::LagrangianPolynomialCoeffs(
-					3, dLev, dW, 0.0);
+					kEnd, dLev, dW, 0.0);
 
 				// Loop thorugh all latlon indices
 				for (int i = 0; i < nLat; i++) {
@@ -1014,6 +1033,9 @@ try {
 			DataArray3D<double> dataU(nLev, nLat, nLon);
 
 			NcVar * varU = ncdf_in.get_var("U");
+			if (varU == NULL) {
+				_EXCEPTIONT("Unable to load variable \"U\" from file");
+			}
 			varU->set_cur(t, 0, 0, 0);
 			varU->get(&(dataU[0][0][0]), 1, nLev, nLat, nLon);
 
@@ -1021,6 +1043,9 @@ try {
 			DataArray3D<double> dataV(nLev, nLat, nLon);
 
 			NcVar * varV = ncdf_in.get_var("V");
+			if (varV == NULL) {
+				_EXCEPTIONT("Unable to load variable \"V\" from file");
+			}
 			varV->set_cur(t, 0, 0, 0);
 			varV->get(&(dataV[0][0][0]), 1, nLev, nLat, nLon);
 
@@ -1028,6 +1053,9 @@ try {
 			DataArray3D<double> dataW(nLev, nLat, nLon);
 
 			NcVar * varW = ncdf_in.get_var("W");
+			if (varW == NULL) {
+				_EXCEPTIONT("Unable to load variable \"W\" from file");
+			}
 			varW->set_cur(t, 0, 0, 0);
 			varW->get(&(dataW[0][0][0]), 1, nLev, nLat, nLon);
 
-- 
2.43.0


From 2c102aac8e30647f6e4ce0db39ba0ff1cc6201c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 52/55] fix: level lists read past the end of the string

---
 util/CFConverter/CFConverter.cpp       | 5 +++--
 util/ExtractSurface/ExtractSurface.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/util/CFConverter/CFConverter.cpp b/util/CFConverter/CFConverter.cpp
index b1efbb2..b97794b 100644
--- a/util/CFConverter/CFConverter.cpp
+++ b/util/CFConverter/CFConverter.cpp
@@ -141,6 +141,7 @@ void ParseLevelArray(
 		) {
 			// Range mode
 			if ((!fRangeMode) &&
+				(iLevelCurrent < strLevels.length()) &&
 				(strLevels[iLevelCurrent] == ':')
 			) {
 				if (vecLevels.size() != 0) {
@@ -149,8 +150,8 @@ void ParseLevelArray(
 				fRangeMode = true;
 			}
 			if (fRangeMode) {
-				if ((strLevels[iLevelCurrent] != ':') &&
-					(iLevelCurrent < strLevels.length())
+				if ((iLevelCurrent < strLevels.length()) &&
+					(strLevels[iLevelCurrent] != ':')
 				) {
 					_EXCEPTION1("Invalid character in pressure range (%c)",
 						strLevels[iLevelCurrent]);
diff --git a/util/ExtractSurface/ExtractSurface.cpp b/util/ExtractSurface/ExtractSurface.cpp
index b8c1f9d..0796e73 100644
--- a/util/ExtractSurface/ExtractSurface.cpp
+++ b/util/ExtractSurface/ExtractSurface.cpp
@@ -141,6 +141,7 @@ void ParseLevelArray(
 		) {
 			// Range mode
 			if ((!fRangeMode) &&
+				(iLevelCurrent < strLevels.length()) &&
 				(strLevels[iLevelCurrent] == ':')
 			) {
 				if (vecLevels.size() != 0) {
@@ -149,8 +150,8 @@ void ParseLevelArray(
 				fRangeMode = true;
 			}
 			if (fRangeMode) {
-				if ((strLevels[iLevelCurrent] != ':') &&
-					(iLevelCurrent < strLevels.length())
+				if ((iLevelCurrent < strLevels.length()) &&
+					(strLevels[iLevelCurrent] != ':')
 				) {
 					_EXCEPTION1("Invalid character in pressure range (%c)",
 						strLevels[iLevelCurrent]);
-- 
2.43.0


From ca329b3171f33f3b40dca911748efad7396a3d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 53/55] fix: no-flux lateral boundaries use the current
 vertical velocity on levels

ApplyBoundaryConditions read the nodal copy of the vertical velocity, which is not exchanged between patches
and not filled beyond solid boundaries, so the flow at walls over terrain depended on the patch layout.
---
 src/atm/GridPatchCartesianGLL.cpp | 36 +++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 254a5ae..dc65fc3 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1064,6 +1064,42 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 
 	// Impose boundary conditions (vertical velocity on interfaces)
 	} else {
+		// Vertical velocity on model levels, at the nodes on either side of
+		// each solid boundary (these values are not exchanged)
+		if (m_grid.GetVarLocation(WIx) == DataLocation_REdge) {
+			const bool fRight =
+				(m_grid.GetBoundaryCondition(Direction_Right)
+					!= Grid::BoundaryCondition_Periodic)
+				&& (m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex);
+			const bool fTop =
+				(m_grid.GetBoundaryCondition(Direction_Top)
+					!= Grid::BoundaryCondition_Periodic)
+				&& (m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex);
+			const bool fLeft =
+				(m_grid.GetBoundaryCondition(Direction_Left)
+					!= Grid::BoundaryCondition_Periodic)
+				&& (m_box.GetAGlobalInteriorBegin() == nGlobalABeginIndex);
+			const bool fBottom =
+				(m_grid.GetBoundaryCondition(Direction_Bottom)
+					!= Grid::BoundaryCondition_Periodic)
+				&& (m_box.GetBGlobalInteriorBegin() == nGlobalBBeginIndex);
+
+			const LinearColumnInterpFEM & opInterpREdgeToNode =
+				dynamic_cast<const GridGLL &>(m_grid).GetOpInterpREdgeToNode();
+
+			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				if ((fRight && (i >= nALast)) || (fTop && (j >= nBLast)) ||
+					(fLeft && (i <= nAFirst)) || (fBottom && (j <= nBFirst))
+				) {
+					opInterpREdgeToNode.Apply(
+						&(m_datavecStateREdge[iDataIndex][WIx][i][j][0]),
+						&(m_datavecStateNode[iDataIndex][WIx][i][j][0]));
+				}
+			}
+			}
+		}
+
 		// Impose boundary conditions along right (alpha+) edge
 		Grid::BoundaryCondition eBoundaryRight =
 			m_grid.GetBoundaryCondition(Direction_Right);
-- 
2.43.0


From 0910984b5901295346bd0dc8f5f29eab04b971c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 54/55] hook: DataArray1D subscripts are bounds-checked under
 DEBUG_ARRAYOUTOFBOUNDS

---
 src/base/DataArray1D.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/base/DataArray1D.h b/src/base/DataArray1D.h
index 9b0ef36..ffd8489 100644
--- a/src/base/DataArray1D.h
+++ b/src/base/DataArray1D.h
@@ -357,6 +357,32 @@ public:
 		return m_data;
 	}
 
+#if defined(DEBUG_ARRAYOUTOFBOUNDS)
+	///	<summary>
+	///		Subscript operator (checked, in place of that of the pointer).
+	///	</summary>
+	template <typename I>
+	__attribute__((no_sanitize("undefined")))
+	inline T & operator[](I i) {
+		if ((m_data == NULL) && (i == 0)) {
+			return *m_data;		// address of an array without data
+		}
+		return (*this)(static_cast<size_t>(i));
+	}
+
+	///	<summary>
+	///		Subscript operator (checked, in place of that of the pointer).
+	///	</summary>
+	template <typename I>
+	__attribute__((no_sanitize("undefined")))
+	inline const T & operator[](I i) const {
+		if ((m_data == NULL) && (i == 0)) {
+			return *m_data;		// address of an array without data
+		}
+		return (*this)(static_cast<size_t>(i));
+	}
+#endif
+
 	///	<summary>
 	///		Parenthetical array accessor.
 	///	</summary>
-- 
2.43.0


From c3b2f80107a7e7243f1266d7ae393d8b3b6d328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 55/55] fix: no implicit terms to evaluate when the vertical is
 fully explicit (ARK232 counted them twice)

---
 src/atm/VerticalDynamicsFEM.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 3e57768..a38bab2 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -442,6 +442,11 @@ void VerticalDynamicsFEM::StepImplicitTermsExplicitly(
 	const Time & time,
 	double dDeltaT
 ) {
+	// If fully explicit there are no implicit terms
+	if (m_fFullyExplicit) {
+		return;
+	}
+
 	// Indices of EquationSet variables
 	const int UIx = 0;
 	const int VIx = 1;
-- 
2.43.0

