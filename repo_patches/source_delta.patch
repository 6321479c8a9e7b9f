From 9513990cfa693faf79584e3f43d65f6158d808ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 01/54] fix: constant-cp species thermo: resetHf298 restores
 the original enthalpy

---
 src/thermo/ConstCpPoly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/ConstCpPoly.cpp b/src/thermo/ConstCpPoly.cpp
index 04f3c54..9e9cea1 100644
--- a/src/thermo/ConstCpPoly.cpp
+++ b/src/thermo/ConstCpPoly.cpp
@@ -32,6 +32,7 @@ void ConstCpPoly::setParameters(double t0, double h0, double s0, double cp0)
     m_logt0 = log(m_t0);
     m_cp0_R = cp0 / GasConstant;
     m_h0_R = h0 / GasConstant;
+    m_h0_R_orig = m_h0_R;
     m_s0_R = s0 / GasConstant;
 }
 
-- 
2.43.0


From 131e5749c4795718c0f0021ae6028835f4c7b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:23 +0000
Subject: [PATCH 02/54] fix: Redlich-Kister composition derivatives of the
 activity coefficients

The matrix of mole fraction derivatives was sized by the number of expansion
terms instead of the number of species (writing out of bounds), was not divided
by RT, and two of its terms were wrong; the diagonal of the mole number
derivatives was accumulated in the wrong entries; the full mole number
derivatives were never computed.
---
 src/thermo/RedlichKisterVPSSTP.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/thermo/RedlichKisterVPSSTP.cpp b/src/thermo/RedlichKisterVPSSTP.cpp
index ecc1e2d..01b3568 100644
--- a/src/thermo/RedlichKisterVPSSTP.cpp
+++ b/src/thermo/RedlichKisterVPSSTP.cpp
@@ -155,6 +155,7 @@ void RedlichKisterVPSSTP::getParameters(AnyMap& phaseNode) const
 void RedlichKisterVPSSTP::initLengths()
 {
     dlnActCoeffdlnN_.resize(m_kk, m_kk);
+    dlnActCoeff_dX_.resize(m_kk, m_kk, 0.0);
 }
 
 void RedlichKisterVPSSTP::s_update_lnActCoeff() const
@@ -336,7 +337,7 @@ void RedlichKisterVPSSTP::s_update_dlnActCoeff_dX_() const
         double sum2Mm1 = 0.0;
         double sumMm2 = 0.0;
         for (size_t m = 0; m < he_vec.size(); m++) {
-            double A_ge = he_vec[m] - T * se_vec[m];
+            double A_ge = (he_vec[m] - T * se_vec[m]) / (GasConstant * T);
             sum += A_ge * poly;
             sum2 += A_ge * (m + 1) * poly;
             poly *= deltaX;
@@ -361,12 +362,12 @@ void RedlichKisterVPSSTP::s_update_dlnActCoeff_dX_() const
                                            + XA * sumMm1 * (1.0 + 2.0 * XB - XA)
                                            - XA * XB * sumMm2 * (1.0 - XA + XB));
             } else if (iB == k) {
-                dlnActCoeff_dX_(k, iA) += ((1.0 - XB) * sum + (1.0 - XA) * XB * sumMm1
-                                           + XB * sumMm1 * (1.0 - 2.0 * XA + XB)
-                                           + XA * XB * sumMm2 * (1.0 - XA + XB));
+                dlnActCoeff_dX_(k, iA) += ((1.0 - XB) * sum + (1.0 - XB) * XA * sumMm1
+                                           + XB * sumMm1 * (XB - 2.0 * XA - 1.0)
+                                           + XA * XB * sumMm2 * (-XA - (1.0 - XB)));
 
                 dlnActCoeff_dX_(k, iB) += (- XA * sum - (1.0 - XB) * XA * sumMm1
-                                           + XA * sumMm1 * (XB - XA - (1.0 - XB))
+                                           + XA * sumMm1 * (2.0 * XB - XA - 1.0)
                                            - XA * XB * sumMm2 * (-XA - (1.0 - XB)));
             } else {
                 dlnActCoeff_dX_(k, iA) += (- XB * sum2 - XA * XB * sum2Mm1);
@@ -395,8 +396,9 @@ void RedlichKisterVPSSTP::getdlnActCoeffdlnN_diag(double* dlnActCoeffdlnN_diag)
     for (size_t j = 0; j < m_kk; j++) {
         dlnActCoeffdlnN_diag[j] = dlnActCoeff_dX_(j, j);
         for (size_t k = 0; k < m_kk; k++) {
-            dlnActCoeffdlnN_diag[k] -= dlnActCoeff_dX_(j, k) * moleFractions_[k];
+            dlnActCoeffdlnN_diag[j] -= dlnActCoeff_dX_(j, k) * moleFractions_[k];
         }
+        dlnActCoeffdlnN_diag[j] *= moleFractions_[j];
     }
 }
 
@@ -411,6 +413,15 @@ void RedlichKisterVPSSTP::getdlnActCoeffdlnX_diag(double* dlnActCoeffdlnX_diag)
 void RedlichKisterVPSSTP::getdlnActCoeffdlnN(const size_t ld, double* dlnActCoeffdlnN)
 {
     s_update_dlnActCoeff_dX_();
+    for (size_t k = 0; k < m_kk; k++) {
+        double sum = 0.0;
+        for (size_t j = 0; j < m_kk; j++) {
+            sum += dlnActCoeff_dX_(k, j) * moleFractions_[j];
+        }
+        for (size_t m = 0; m < m_kk; m++) {
+            dlnActCoeffdlnN_(k, m) = moleFractions_[m] * (dlnActCoeff_dX_(k, m) - sum);
+        }
+    }
     double* data =  & dlnActCoeffdlnN_(0,0);
     for (size_t k = 0; k < m_kk; k++) {
         for (size_t m = 0; m < m_kk; m++) {
@@ -448,7 +459,6 @@ void RedlichKisterVPSSTP::addBinaryInteraction(
     size_t N = max(n_enthalpy, n_entropy);
     m_HE_m_ij.back().resize(N, 0.0);
     m_SE_m_ij.back().resize(N, 0.0);
-    dlnActCoeff_dX_.resize(N, N, 0.0);
 }
 
 }
-- 
2.43.0


From 07e2e53bb70f0c07154c79516917112ead7bc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 03/54] fix: numerical rate derivatives with rate multipliers

Numerical derivatives compared perturbed rate constants that do not include
rate multipliers with rate constants that do.
---
 src/kinetics/BulkKinetics.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 0b6ce9b..544abd8 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -599,10 +599,11 @@ void BulkKinetics::applyEquilibriumConstants_ddT(double* drkcn)
 
 void BulkKinetics::process_ddT(const vector<double>& in, double* drop)
 {
-    // apply temperature derivative
+    // apply temperature derivative; scaled derivatives are evaluated with respect to
+    // unperturbed rate constants, as perturbation factors are already included in 'in'
     copy(in.begin(), in.end(), drop);
     for (auto& rates : m_bulk_rates) {
-        rates->processRateConstants_ddT(drop, m_rfn.data(), m_jac_rtol_delta);
+        rates->processRateConstants_ddT(drop, m_kf0.data(), m_jac_rtol_delta);
     }
 }
 
@@ -611,7 +612,7 @@ void BulkKinetics::process_ddP(const vector<double>& in, double* drop)
     // apply pressure derivative
     copy(in.begin(), in.end(), drop);
     for (auto& rates : m_bulk_rates) {
-        rates->processRateConstants_ddP(drop, m_rfn.data(), m_jac_rtol_delta);
+        rates->processRateConstants_ddP(drop, m_kf0.data(), m_jac_rtol_delta);
     }
 }
 
@@ -644,7 +645,7 @@ void BulkKinetics::process_ddC(StoichManagerN& stoich, const vector<double>& in,
         for (auto& rates : m_bulk_rates) {
             // processing step assigns zeros to entries not dependent on M
             rates->processRateConstants_ddM(
-                outM.data(), m_rfn.data(), m_jac_rtol_delta);
+                outM.data(), m_kf0.data(), m_jac_rtol_delta);
         }
         out += outM;
     }
@@ -683,7 +684,7 @@ Eigen::SparseMatrix<double> BulkKinetics::calculateCompositionDerivatives(
         for (auto& rates : m_bulk_rates) {
             // processing step does not modify entries not dependent on M
             rates->processRateConstants_ddM(
-                outV.data(), m_rfn.data(), m_jac_rtol_delta, false);
+                outV.data(), m_kf0.data(), m_jac_rtol_delta, false);
         }
     }
 
-- 
2.43.0


From 7b60da36d71aa03be5a5ba43d0784fe6442f93cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 04/54] fix: InterfaceKinetics::getDerivativeSettings reported
 swapped settings

---
 src/kinetics/InterfaceKinetics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/InterfaceKinetics.cpp b/src/kinetics/InterfaceKinetics.cpp
index 3d6c3e1..9337b9e 100644
--- a/src/kinetics/InterfaceKinetics.cpp
+++ b/src/kinetics/InterfaceKinetics.cpp
@@ -657,8 +657,8 @@ void InterfaceKinetics::setDerivativeSettings(const AnyMap& settings)
 
 void InterfaceKinetics::getDerivativeSettings(AnyMap& settings) const
 {
-    settings["skip-coverage-dependence"] = m_jac_skip_electrochemistry;
-    settings["skip-electrochemistry"] = m_jac_skip_coverage_dependence;
+    settings["skip-coverage-dependence"] = m_jac_skip_coverage_dependence;
+    settings["skip-electrochemistry"] = m_jac_skip_electrochemistry;
     settings["rtol-delta"] = m_jac_rtol_delta;
 }
 
-- 
2.43.0


From 00360424d88977f00efa50341c8f0f56dd293143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 05/54] fix: composition derivatives of falloff reactions with
 skip-falloff

Entries of falloff reactions held the rate of progress rather than zero before they
were multiplied by third-body efficiencies.
---
 src/kinetics/BulkKinetics.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 544abd8..405396c 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -686,6 +686,9 @@ Eigen::SparseMatrix<double> BulkKinetics::calculateCompositionDerivatives(
             rates->processRateConstants_ddM(
                 outV.data(), m_kf0.data(), m_jac_rtol_delta, false);
         }
+    } else {
+        // neglect third bodies that are part of the rate constant
+        m_multi_concm.scaleM(outV.data(), outV.data(), m_concm.data(), 0.);
     }
 
     // derivatives handled by ThirdBodyCalc
-- 
2.43.0


From f0d1e68636962496e398b07d842ef8e48f77ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 06/54] fix: composition derivatives with legacy rate constants

Legacy rate constants include third-body concentrations, which were applied twice.
---
 src/kinetics/BulkKinetics.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 405396c..e0c3af1 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -390,7 +390,8 @@ Eigen::SparseMatrix<double> BulkKinetics::fwdRatesOfProgress_ddX()
 
     // forward reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     return calculateCompositionDerivatives(m_reactantStoich, rop_rates);
 }
 
@@ -400,7 +401,8 @@ Eigen::SparseMatrix<double> BulkKinetics::revRatesOfProgress_ddX()
 
     // reverse reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     applyEquilibriumConstants(rop_rates.data());
     return calculateCompositionDerivatives(m_revProductStoich, rop_rates);
 }
@@ -411,7 +413,8 @@ Eigen::SparseMatrix<double> BulkKinetics::netRatesOfProgress_ddX()
 
     // forward reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     auto jac = calculateCompositionDerivatives(m_reactantStoich, rop_rates);
 
     // reverse reaction rate coefficients
@@ -425,7 +428,8 @@ Eigen::SparseMatrix<double> BulkKinetics::fwdRatesOfProgress_ddCi()
 
     // forward reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     return calculateCompositionDerivatives(m_reactantStoich, rop_rates, false);
 }
 
@@ -435,7 +439,8 @@ Eigen::SparseMatrix<double> BulkKinetics::revRatesOfProgress_ddCi()
 
     // reverse reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     applyEquilibriumConstants(rop_rates.data());
     return calculateCompositionDerivatives(m_revProductStoich, rop_rates, false);
 }
@@ -446,7 +451,8 @@ Eigen::SparseMatrix<double> BulkKinetics::netRatesOfProgress_ddCi()
 
     // forward reaction rate coefficients
     vector<double>& rop_rates = m_rbuf0;
-    getFwdRateConstants(rop_rates.data());
+    updateROP();
+    copy(m_rfn.begin(), m_rfn.end(), rop_rates.begin());
     auto jac = calculateCompositionDerivatives(m_reactantStoich, rop_rates, false);
 
     // reverse reaction rate coefficients
-- 
2.43.0


From 3ac68fb647d18b49625dac0cf7d771f6c9dbad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 07/54] fix: derivatives of general-order reactions at zero
 concentrations

The derivative with respect to the concentration of an absent species is nonzero for
first-order dependence, and species of zero order do not contribute.
---
 include/cantera/kinetics/StoichManager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cantera/kinetics/StoichManager.h b/include/cantera/kinetics/StoichManager.h
index 0f930a3..30c3e14 100644
--- a/include/cantera/kinetics/StoichManager.h
+++ b/include/cantera/kinetics/StoichManager.h
@@ -407,10 +407,12 @@ public:
             // calculate derivative
             double prod = R[m_rxn];
             double order_i = m_order[i];
-            if (S[m_ic[i]] > 0. && order_i != 0.) {
+            if ((S[m_ic[i]] > 0. && order_i != 0.) ||
+                (S[m_ic[i]] == 0. && order_i >= 1.))
+            {
                 prod *= order_i * std::pow(S[m_ic[i]], order_i - 1);
                 for (size_t j = 0; j < m_n; j++) {
-                    if (i != j) {
+                    if (i != j && m_order[j] != 0.) {
                         if (S[m_ic[j]] > 0) {
                             prod *= std::pow(S[m_ic[j]], m_order[j]);
                         } else {
-- 
2.43.0


From 513fdd44ca780dd015c5b6d469f7d77edb785525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:57 +0000
Subject: [PATCH 08/54] fix: composition derivatives of linear-Burke reactions

The rate of progress, which has no derivative with respect to a third-body concentration,
was multiplied by third-body efficiencies.
---
 src/kinetics/BulkKinetics.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index e0c3af1..d058137 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -681,24 +681,24 @@ Eigen::SparseMatrix<double> BulkKinetics::calculateCompositionDerivatives(
         return out;
     }
 
-    // derivatives due to law of mass action
+    // derivatives due to third-body colliders in law of mass action; third bodies that
+    // are part of the rate constant are handled separately
     copy(scaled.begin(), scaled.end(), outV.begin());
     stoich.multiply(m_act_conc.data(), outV.data());
+    m_multi_concm.scaleM(outV.data(), outV.data(), m_concm.data(), 0.);
+    out += m_multi_concm.derivatives(outV.data());
 
     // derivatives due to reaction rates depending on third-body colliders
     if (!m_jac_skip_falloff) {
+        copy(scaled.begin(), scaled.end(), outV.begin());
+        stoich.multiply(m_act_conc.data(), outV.data());
         for (auto& rates : m_bulk_rates) {
-            // processing step does not modify entries not dependent on M
+            // processing step assigns zeros to entries not dependent on M
             rates->processRateConstants_ddM(
-                outV.data(), m_kf0.data(), m_jac_rtol_delta, false);
+                outV.data(), m_kf0.data(), m_jac_rtol_delta);
         }
-    } else {
-        // neglect third bodies that are part of the rate constant
-        m_multi_concm.scaleM(outV.data(), outV.data(), m_concm.data(), 0.);
+        out += m_multi_concm.derivatives(outV.data());
     }
-
-    // derivatives handled by ThirdBodyCalc
-    out += m_multi_concm.derivatives(outV.data());
     return out;
 }
 
-- 
2.43.0


From 8b2f6358c870c0fe040a52f3ff0b071ac0efa29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:47 +0000
Subject: [PATCH 09/54] fix: InterfaceKinetics::setPhaseStability had no effect
 while all phases exist

---
 include/cantera/kinetics/InterfaceKinetics.h | 13 +++++---
 src/kinetics/InterfaceKinetics.cpp           | 32 +++++++++-----------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/include/cantera/kinetics/InterfaceKinetics.h b/include/cantera/kinetics/InterfaceKinetics.h
index 02e8c17..2220cec 100644
--- a/include/cantera/kinetics/InterfaceKinetics.h
+++ b/include/cantera/kinetics/InterfaceKinetics.h
@@ -430,14 +430,17 @@ protected:
     //! Current temperature of the data
     double m_temp = 0.0;
 
+    //! Recalculate #m_phaseExistsCheck
+    void updatePhaseExistsCheck();
+
     //! Int flag to indicate that some phases in the kinetics mechanism are
-    //! non-existent.
+    //! non-existent or unstable.
     /*!
-     *  We change the ROP vectors to make sure that non-existent phases are
-     *  treated correctly in the kinetics operator. The value of this is equal
-     *  to the number of phases which don't exist.
+     *  We change the ROP vectors to make sure that non-existent and unstable phases
+     *  are treated correctly in the kinetics operator. The value of this is equal
+     *  to the number of phases which don't exist or are not stable.
      */
-    int m_phaseExistsCheck = false;
+    int m_phaseExistsCheck = 0;
 
     //!  Vector of booleans indicating whether phases exist or not
     /*!
diff --git a/src/kinetics/InterfaceKinetics.cpp b/src/kinetics/InterfaceKinetics.cpp
index 9337b9e..2aab680 100644
--- a/src/kinetics/InterfaceKinetics.cpp
+++ b/src/kinetics/InterfaceKinetics.cpp
@@ -548,20 +548,9 @@ void InterfaceKinetics::solvePseudoSteadyStateProblem(
 void InterfaceKinetics::setPhaseExistence(const size_t iphase, const int exists)
 {
     checkPhaseIndex(iphase);
-    if (exists) {
-        if (!m_phaseExists[iphase]) {
-            m_phaseExistsCheck--;
-            m_phaseExistsCheck = std::max(m_phaseExistsCheck, 0);
-            m_phaseExists[iphase] = true;
-        }
-        m_phaseIsStable[iphase] = true;
-    } else {
-        if (m_phaseExists[iphase]) {
-            m_phaseExistsCheck++;
-            m_phaseExists[iphase] = false;
-        }
-        m_phaseIsStable[iphase] = false;
-    }
+    m_phaseExists[iphase] = bool(exists);
+    m_phaseIsStable[iphase] = bool(exists);
+    updatePhaseExistsCheck();
 }
 
 int InterfaceKinetics::phaseExistence(const size_t iphase) const
@@ -579,10 +568,17 @@ int InterfaceKinetics::phaseStability(const size_t iphase) const
 void InterfaceKinetics::setPhaseStability(const size_t iphase, const int isStable)
 {
     checkPhaseIndex(iphase);
-    if (isStable) {
-        m_phaseIsStable[iphase] = true;
-    } else {
-        m_phaseIsStable[iphase] = false;
+    m_phaseIsStable[iphase] = bool(isStable);
+    updatePhaseExistsCheck();
+}
+
+void InterfaceKinetics::updatePhaseExistsCheck()
+{
+    m_phaseExistsCheck = 0;
+    for (size_t n = 0; n < nPhases(); n++) {
+        if (!m_phaseExists[n] || !m_phaseIsStable[n]) {
+            m_phaseExistsCheck++;
+        }
     }
 }
 
-- 
2.43.0


From 21805771bf5ecdd16247a4c09109fcaa1d24fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:02 +0000
Subject: [PATCH 10/54] fix: interface rate constants were stale after changes
 of pressure or adjacent temperature

---
 include/cantera/kinetics/InterfaceRate.h |  4 ++++
 src/kinetics/InterfaceRate.cpp           | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/cantera/kinetics/InterfaceRate.h b/include/cantera/kinetics/InterfaceRate.h
index 5fa1307..05f6a41 100644
--- a/include/cantera/kinetics/InterfaceRate.h
+++ b/include/cantera/kinetics/InterfaceRate.h
@@ -47,6 +47,8 @@ struct InterfaceData : public BlowersMaselData
         electricPotentials.resize(nPhases, 0.);
         standardChemPotentials.resize(nSpecies, 0.);
         standardConcentrations.resize(nSpecies, 0.);
+        phaseTemperatures.resize(nPhases, NAN);
+        phasePressures.resize(nPhases, NAN);
         ready = true;
     }
 
@@ -57,6 +59,8 @@ struct InterfaceData : public BlowersMaselData
     vector<double> electricPotentials; //!< electric potentials of phases
     vector<double> standardChemPotentials; //!< standard state chemical potentials
     vector<double> standardConcentrations; //!< standard state concentrations
+    vector<double> phaseTemperatures; //!< temperatures of phases
+    vector<double> phasePressures; //!< pressures of phases
 };
 
 
diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index 9abaf0d..c050820 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -61,6 +61,16 @@ bool InterfaceData::update(const ThermoPhase& phase, const Kinetics& kin)
         sqrtT = sqrt(T);
         changed = true;
     }
+    // standard states and partial molar properties depend on the state of each phase
+    for (size_t n = 0; n < kin.nPhases(); n++) {
+        double Tn = kin.thermo(n).temperature();
+        double Pn = kin.thermo(n).pressure();
+        if (Tn != phaseTemperatures[n] || Pn != phasePressures[n]) {
+            phaseTemperatures[n] = Tn;
+            phasePressures[n] = Pn;
+            changed = true;
+        }
+    }
     if (changed || mf != m_state_mf_number) {
         surf.getCoverages(coverages.data());
         for (size_t n = 0; n < coverages.size(); n++) {
-- 
2.43.0


From 7df570684e80471479826d45249f3aa8f178c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:02 +0000
Subject: [PATCH 11/54] fix: addCoverageDependence without input left the
 linear/polynomial flag unset

---
 src/kinetics/InterfaceRate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index c050820..243b015 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -211,6 +211,10 @@ void InterfaceRateBase::addCoverageDependence(const string& sp, double a, double
 {
     if (std::find(m_cov.begin(), m_cov.end(), sp) == m_cov.end()) {
         m_cov.push_back(sp);
+        if (m_lindep.size() < m_cov.size()) {
+            // not set from input; the polynomial form includes the linear one
+            m_lindep.push_back(false);
+        }
         m_ac.push_back(a);
         m_ec.push_back(e);
         m_mc.push_back(m);
-- 
2.43.0


From 4281ed1b20ac17f431fc9e0f5bc7412930e92fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:35 +0000
Subject: [PATCH 12/54] fix: surface concentrations with species occupying
 several sites

---
 include/cantera/thermo/SurfPhase.h |  3 +++
 src/thermo/SurfPhase.cpp           | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/cantera/thermo/SurfPhase.h b/include/cantera/thermo/SurfPhase.h
index 7d4aa4b..3fce965 100644
--- a/include/cantera/thermo/SurfPhase.h
+++ b/include/cantera/thermo/SurfPhase.h
@@ -307,6 +307,9 @@ public:
 protected:
     void compositionChanged() override;
 
+    //! Set the density such that the sites occupied by all species add up to #m_n0
+    void updateDensity();
+
     //! Surface site density (kmol m-2)
     double m_n0 = 1.0;
 
diff --git a/src/thermo/SurfPhase.cpp b/src/thermo/SurfPhase.cpp
index 5432272..ec2a717 100644
--- a/src/thermo/SurfPhase.cpp
+++ b/src/thermo/SurfPhase.cpp
@@ -208,10 +208,22 @@ void SurfPhase::setSiteDensity(double n0)
                            "Site density must be positive. Got {}", n0);
     }
     m_n0 = n0;
-    assignDensity(n0 * meanMolecularWeight());
+    updateDensity();
     m_logn0 = log(m_n0);
 }
 
+void SurfPhase::updateDensity()
+{
+    // Species may occupy more than one site
+    double sites = 0.0;
+    double sum = 0.0;
+    for (size_t k = 0; k < m_kk; k++) {
+        sites += moleFraction(k) * size(k);
+        sum += moleFraction(k);
+    }
+    assignDensity(m_n0 * meanMolecularWeight() * sum / sites);
+}
+
 void SurfPhase::setCoverages(const double* theta)
 {
     double sum = 0.0;
@@ -297,7 +309,7 @@ void SurfPhase::setState(const AnyMap& state) {
 void SurfPhase::compositionChanged()
 {
     ThermoPhase::compositionChanged();
-    assignDensity(m_n0 * meanMolecularWeight());
+    updateDensity();
 }
 
 void SurfPhase::_updateThermo(bool force) const
-- 
2.43.0


From 0aa7bb996c9313de2b144ddac0ad5d3005b50741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:19 +0000
Subject: [PATCH 13/54] fix: charge imbalance of reactions with net positive
 charge was accepted

---
 src/kinetics/Reaction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index aa88c39..705ff21 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -603,6 +603,7 @@ void updateUndeclared(vector<string>& undeclared,
 void Reaction::checkBalance(const Kinetics& kin) const
 {
     Composition balr, balp;
+    Composition total; // sum of absolute contributions; charges can be of either sign
 
     // iterate over products and reactants
     for (const auto& [name, stoich] : products) {
@@ -611,6 +612,7 @@ void Reaction::checkBalance(const Kinetics& kin) const
         for (size_t m = 0; m < ph.nElements(); m++) {
             balr[ph.elementName(m)] = 0.0; // so that balr contains all species
             balp[ph.elementName(m)] += stoich * ph.nAtoms(k, m);
+            total[ph.elementName(m)] += fabs(stoich * ph.nAtoms(k, m));
         }
     }
     for (const auto& [name, stoich] : reactants) {
@@ -618,13 +620,14 @@ void Reaction::checkBalance(const Kinetics& kin) const
         size_t k = ph.speciesIndex(name);
         for (size_t m = 0; m < ph.nElements(); m++) {
             balr[ph.elementName(m)] += stoich * ph.nAtoms(k, m);
+            total[ph.elementName(m)] += fabs(stoich * ph.nAtoms(k, m));
         }
     }
 
     string msg;
     bool ok = true;
     for (const auto& [elem, balance] : balr) {
-        double elemsum = balr[elem] + balp[elem];
+        double elemsum = total[elem];
         double elemdiff = fabs(balp[elem] - balr[elem]);
         if (elemsum > 0.0 && elemdiff / elemsum > 1e-4) {
             ok = false;
-- 
2.43.0


From fbba46367190b0d1357c1242a6225d450fbb1f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:11 +0000
Subject: [PATCH 14/54] fix: solvent activity derivatives of the dilute-limit
 Debye-Hueckel model

---
 src/thermo/DebyeHuckel.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/thermo/DebyeHuckel.cpp b/src/thermo/DebyeHuckel.cpp
index c96d9fc..b776207 100644
--- a/src/thermo/DebyeHuckel.cpp
+++ b/src/thermo/DebyeHuckel.cpp
@@ -1060,10 +1060,13 @@ void DebyeHuckel::s_update_d2lnMolalityActCoeff_dT2() const
 
     switch (m_formDH) {
     case DHFORM_DILUTE_LIMIT:
-        for (size_t k = 0; k < m_kk; k++) {
+        for (size_t k = 1; k < m_kk; k++) {
             m_d2lnActCoeffMolaldT2[k] =
                 m_lnActCoeffMolal[k] * d2AdT2 / m_A_Debye;
         }
+        // only part of the solvent activity is proportional to A_Debye
+        m_d2lnActCoeffMolaldT2[0] = 2.0 / 3.0 * d2AdT2 * m_Mnaught *
+            m_IionicMolality * sqrtI;
         break;
 
     case DHFORM_BDOT_AK:
@@ -1166,10 +1169,13 @@ void DebyeHuckel::s_update_dlnMolalityActCoeff_dP() const
 
     switch (m_formDH) {
     case DHFORM_DILUTE_LIMIT:
-        for (size_t k = 0; k < m_kk; k++) {
+        for (size_t k = 1; k < m_kk; k++) {
             m_dlnActCoeffMolaldP[k] =
                 m_lnActCoeffMolal[k] * dAdP / m_A_Debye;
         }
+        // only part of the solvent activity is proportional to A_Debye
+        m_dlnActCoeffMolaldP[0] = 2.0 / 3.0 * dAdP * m_Mnaught *
+            m_IionicMolality * sqrtI;
         break;
 
     case DHFORM_BDOT_AK:
-- 
2.43.0


From a08ef9936019361975d274c85361a925ad9477c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:04 +0000
Subject: [PATCH 15/54] fix: ThermoPhase::invalidateCache leaves no temperature
 that matches the cache

---
 src/thermo/ThermoPhase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermo/ThermoPhase.cpp b/src/thermo/ThermoPhase.cpp
index 2b3993b..5d0bcd5 100644
--- a/src/thermo/ThermoPhase.cpp
+++ b/src/thermo/ThermoPhase.cpp
@@ -1161,7 +1161,7 @@ AnyMap& ThermoPhase::input()
 
 void ThermoPhase::invalidateCache() {
     Phase::invalidateCache();
-    m_tlast += 0.1234;
+    m_tlast = 0.0; // never a valid temperature
 }
 
 void ThermoPhase::equilibrate(const string& XY, const string& solver,
-- 
2.43.0


From 8c3f7769d7ce7d4a70cf272169b99a42c00d8b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:04 +0000
Subject: [PATCH 16/54] fix: coverage-dependent properties stale after a
 reference-state query at a new temperature

---
 include/cantera/thermo/CoverageDependentSurfPhase.h | 5 +++++
 src/thermo/CoverageDependentSurfPhase.cpp           | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/CoverageDependentSurfPhase.h b/include/cantera/thermo/CoverageDependentSurfPhase.h
index 8836200..6c066ff 100644
--- a/include/cantera/thermo/CoverageDependentSurfPhase.h
+++ b/include/cantera/thermo/CoverageDependentSurfPhase.h
@@ -427,6 +427,11 @@ private:
     //! Last value of the state number processed.
     mutable int m_stateNumlast;
 
+    //! Last temperature for which the coverage-dependent properties were evaluated.
+    //! Distinct from #m_tlast, which is also updated when only the reference-state
+    //! properties are evaluated.
+    mutable double m_covTlast = 0.0;
+
     //! Update the species coverage-dependent thermodynamic functions.
     /*!
      * The coverage-dependent enthalpy and entropy are only re-evaluated
diff --git a/src/thermo/CoverageDependentSurfPhase.cpp b/src/thermo/CoverageDependentSurfPhase.cpp
index b942c39..e7f0e10 100644
--- a/src/thermo/CoverageDependentSurfPhase.cpp
+++ b/src/thermo/CoverageDependentSurfPhase.cpp
@@ -457,7 +457,7 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
 {
     int stateNumnow = stateMFNumber();
     double tnow = temperature();
-    if (m_stateNumlast != stateNumnow || m_tlast != tnow) {
+    if (m_stateNumlast != stateNumnow || m_covTlast != tnow) {
         for (size_t k = 0; k < m_kk; k++) {
             m_h_cov[k] = 0.0;
             m_s_cov[k] = 0.0;
@@ -524,6 +524,7 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
             m_mu_cov[k] = m_h_cov[k] - tnow * m_s_cov[k];
         }
         m_stateNumlast = stateNumnow;
+        m_covTlast = tnow;
     }
 }
 
-- 
2.43.0


From 7f0628d4bf981d70b336af8c462176f6bfecbb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:04 +0000
Subject: [PATCH 17/54] fix: MultiTransport overwrites binary diffusion
 coefficients reported to the user

---
 include/cantera/transport/MultiTransport.h |  5 +++++
 src/transport/MultiTransport.cpp           | 17 +++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/cantera/transport/MultiTransport.h b/include/cantera/transport/MultiTransport.h
index 937813b..ab22472 100644
--- a/include/cantera/transport/MultiTransport.h
+++ b/include/cantera/transport/MultiTransport.h
@@ -119,6 +119,11 @@ protected:
 
     double m_thermal_tlast;
 
+    //! Binary diffusion coefficients at unit pressure used for the L matrix, where
+    //! the self-diffusion coefficients are consistent with the species viscosities.
+    //! Evaluated by updateThermal_T().
+    DenseMatrix m_bdiffThermal;
+
     //! Dense matrix for astar
     DenseMatrix m_astar;
 
diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index fb98f4e..19da51a 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -455,9 +455,10 @@ void MultiTransport::updateThermal_T()
         m_rotrelax[k] = std::max(1.0,m_zrot[k]) * m_frot_298[k]/Frot(tr, sqtr);
     }
 
+    m_bdiffThermal = m_bdiff;
     double c = 1.2*GasConstant*m_temp;
     for (size_t k = 0; k < m_nsp; k++) {
-        m_bdiff(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
+        m_bdiffThermal(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
     }
 
     // Calculate the internal heat capacities by subtracting off the translational contributions
@@ -492,15 +493,15 @@ void MultiTransport::eval_L0000(const double* const x)
     for (size_t i = 0; i < m_nsp; i++) {
         // subtract-off the k=i term to account for the first delta
         // function in Eq. (12.121)
-        sum = -x[i]/m_bdiff(i,i);
+        sum = -x[i]/m_bdiffThermal(i,i);
         for (size_t k = 0; k < m_nsp; k++) {
-            sum += x[k]/m_bdiff(i,k);
+            sum += x[k]/m_bdiffThermal(i,k);
         }
 
         sum /= m_mw[i];
         for (size_t j = 0; j != m_nsp; ++j) {
             m_Lmatrix(i,j) = prefactor * x[j]
-                             * (m_mw[j] * sum + x[i]/m_bdiff(i,j));
+                             * (m_mw[j] * sum + x[i]/m_bdiffThermal(i,j));
         }
         // diagonal term is zero
         m_Lmatrix(i,i) = 0.0;
@@ -517,7 +518,7 @@ void MultiTransport::eval_L0010(const double* const x)
         for (size_t i = 0; i < m_nsp; i++) {
             m_Lmatrix(i,j + m_nsp) = - prefactor * x[i] * xj * m_mw[i] *
                                      (1.2 * m_cstar(j,i) - 1.0) /
-                                     ((wj + m_mw[i]) * m_bdiff(j,i));
+                                     ((wj + m_mw[i]) * m_bdiffThermal(j,i));
 
             // the next term is independent of "j";
             // need to do it for the "j,j" term
@@ -553,7 +554,7 @@ void MultiTransport::eval_L1010(const double* x)
         double sum = 0.0;
         for (size_t i = 0; i < m_nsp; i++) {
             double sumwij = m_mw[i] + m_mw[j];
-            double term1 = m_bdiff(i,j) * sumwij*sumwij;
+            double term1 = m_bdiffThermal(i,j) * sumwij*sumwij;
             double term2 = fourmj*m_astar(i,j)*(1.0 + fiveover3pi*
                 (constant3 + (m_crot[i]/m_rotrelax[i]))); //  see Eq. (12.125)
 
@@ -581,7 +582,7 @@ void MultiTransport::eval_L1001(const double* x)
             for (size_t i = 0; i < m_nsp; i++) {
                 // see Eq. (12.127)
                 m_Lmatrix(i+m_nsp,j+2*m_nsp) = constant * m_astar(j,i) * x[i] /
-                                          ((m_mw[j] + m_mw[i]) * m_bdiff(j,i));
+                                          ((m_mw[j] + m_mw[i]) * m_bdiffThermal(j,i));
                 sum += m_Lmatrix(i+m_nsp,j+2*m_nsp);
             }
             m_Lmatrix(j+m_nsp,j+2*m_nsp) += sum;
@@ -631,7 +632,7 @@ void MultiTransport::eval_L0101(const double* x)
             double sum = 0.0;
             for (size_t k = 0; k < m_nsp; k++) {
                 // see Eq. (12.131)
-                double diff_int = m_bdiff(i,k);
+                double diff_int = m_bdiffThermal(i,k);
                 m_Lmatrix(k+2*m_nsp,i+2*m_nsp) = 0.0;
                 sum += x[k]/diff_int;
                 if (k != i) {
-- 
2.43.0


From 8b19bc936d606977b12f9393bbbf252938b58db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:04 +0000
Subject: [PATCH 18/54] fix: BulkKinetics equilibrium constants stale when
 pressure changes at constant temperature and density

---
 src/kinetics/BulkKinetics.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index d058137..ddad948 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -466,10 +466,14 @@ void BulkKinetics::updateROP()
     CachedScalar last = m_cache.getScalar(cacheId);
     double T = thermo().temperature();
     double rho = thermo().density();
+    double P = thermo().pressure();
     int statenum = thermo().stateMFNumber();
 
-    if (last.state1 != T || last.state2 != rho) {
-        // Update properties that are independent of the composition
+    if (last.state1 != T || last.state2 != rho || last.value != P) {
+        // Update properties that depend only on the temperature and pressure. The
+        // pressure may change at constant temperature and density.
+        last.value = P;
+        m_ROP_ok = false;
         thermo().getStandardChemPotentials(m_grt.data());
         fill(m_delta_gibbs0.begin(), m_delta_gibbs0.end(), 0.0);
         double logStandConc = log(thermo().standardConcentration());
-- 
2.43.0


From f05c267fc9d72b1e0536f57ce56a578290782833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:04 +0000
Subject: [PATCH 19/54] fix: BulkKinetics equilibrium constants for
 species-specific standard concentrations

---
 src/kinetics/BulkKinetics.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index ddad948..3e9aa53 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -176,9 +176,8 @@ void BulkKinetics::getEquilibriumConstants(double* kc)
     getReactionDelta(m_grt.data(), delta_gibbs0.data());
 
     double rrt = 1.0 / thermo().RT();
-    double logStandConc = log(thermo().standardConcentration());
     for (size_t i = 0; i < nReactions(); i++) {
-        kc[i] = exp(-delta_gibbs0[i] * rrt + m_dn[i] * logStandConc);
+        kc[i] = exp(-delta_gibbs0[i] * rrt);
     }
 }
 
@@ -476,16 +475,22 @@ void BulkKinetics::updateROP()
         m_ROP_ok = false;
         thermo().getStandardChemPotentials(m_grt.data());
         fill(m_delta_gibbs0.begin(), m_delta_gibbs0.end(), 0.0);
-        double logStandConc = log(thermo().standardConcentration());
 
         // compute Delta G^0 for all reversible reactions
         getRevReactionDelta(m_grt.data(), m_delta_gibbs0.data());
 
-        double rrt = 1.0 / thermo().RT();
+        // the standard concentrations may be different for each species
+        double RT = thermo().RT();
+        for (size_t k = 0; k < m_kk; k++) {
+            m_grt[k] -= RT * thermo().logStandardConc(k);
+        }
+        fill(m_rbuf0.begin(), m_rbuf0.end(), 0.0);
+        getRevReactionDelta(m_grt.data(), m_rbuf0.data());
+
+        double rrt = 1.0 / RT;
         for (size_t i = 0; i < m_revindex.size(); i++) {
             size_t irxn = m_revindex[i];
-            m_rkcn[irxn] = std::min(
-                exp(m_delta_gibbs0[irxn] * rrt - m_dn[irxn] * logStandConc), BigNumber);
+            m_rkcn[irxn] = std::min(exp(m_rbuf0[irxn] * rrt), BigNumber);
         }
 
         for (size_t i = 0; i != m_irrev.size(); ++i) {
-- 
2.43.0


From 9aef44e7033800f6a8bcbd8130138882d7afbda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:38 +0000
Subject: [PATCH 20/54] fix: setChemistry(false) left stale gas-phase
 production rates active in mass-based reactors

---
 include/cantera/zeroD/Reactor.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cantera/zeroD/Reactor.h b/include/cantera/zeroD/Reactor.h
index 5266687..5462f68 100644
--- a/include/cantera/zeroD/Reactor.h
+++ b/include/cantera/zeroD/Reactor.h
@@ -68,6 +68,9 @@ public:
 
     void setChemistry(bool cflag=true) override {
         m_chem = cflag;
+        if (!m_chem) {
+            m_wdot.assign(m_wdot.size(), 0.0);
+        }
     }
 
     //! Returns `true` if changes in the reactor composition due to chemical reactions
-- 
2.43.0


From a63f5bac119308afaa46c03da5bd861d7d77c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:38 +0000
Subject: [PATCH 21/54] fix: ReactorBase density and mass fractions for
 incompressible and pure contents

---
 include/cantera/zeroD/ReactorBase.h | 22 +++-------------------
 src/zeroD/ReactorBase.cpp           | 27 +++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/include/cantera/zeroD/ReactorBase.h b/include/cantera/zeroD/ReactorBase.h
index b343a88..a06bc1d 100644
--- a/include/cantera/zeroD/ReactorBase.h
+++ b/include/cantera/zeroD/ReactorBase.h
@@ -205,13 +205,7 @@ public:
     }
 
     //! Returns the current density (kg/m^3) of the reactor's contents.
-    double density() const {
-        if (m_state.empty()) {
-            throw CanteraError("ReactorBase::density",
-                               "Reactor state empty and/or contents not defined.");
-        }
-        return m_state[1];
-    }
+    double density() const;
 
     //! Returns the current temperature (K) of the reactor's contents.
     double temperature() const {
@@ -243,21 +237,11 @@ public:
     }
 
     //! Return the vector of species mass fractions.
-    const double* massFractions() const {
-        if (m_state.empty()) {
-            throw CanteraError("ReactorBase::massFractions",
-                               "Reactor state empty and/or contents not defined.");
-        }
-        return m_state.data() + 2;
-    }
+    const double* massFractions() const;
 
     //! Return the mass fraction of the *k*-th species.
     double massFraction(size_t k) const {
-        if (m_state.empty()) {
-            throw CanteraError("ReactorBase::massFraction",
-                               "Reactor state empty and/or contents not defined.");
-        }
-        return m_state[k+2];
+        return massFractions()[k];
     }
 
     //! @}
diff --git a/src/zeroD/ReactorBase.cpp b/src/zeroD/ReactorBase.cpp
index 6fa0a13..8443c13 100644
--- a/src/zeroD/ReactorBase.cpp
+++ b/src/zeroD/ReactorBase.cpp
@@ -97,6 +97,33 @@ void ReactorBase::syncState()
     }
 }
 
+double ReactorBase::density() const
+{
+    if (m_state.empty()) {
+        throw CanteraError("ReactorBase::density",
+                           "Reactor state empty and/or contents not defined.");
+    }
+    if (!m_thermo->isCompressible()) {
+        // density is not one of the state variables
+        m_thermo->restoreState(m_state);
+        return m_thermo->density();
+    }
+    return m_state[1];
+}
+
+const double* ReactorBase::massFractions() const
+{
+    if (m_state.empty()) {
+        throw CanteraError("ReactorBase::massFractions",
+                           "Reactor state empty and/or contents not defined.");
+    }
+    if (m_thermo->isPure()) {
+        // composition is not part of the state
+        return m_thermo->massFractions();
+    }
+    return m_state.data() + 2;
+}
+
 void ReactorBase::addInlet(FlowDevice& inlet)
 {
     m_inlet.push_back(&inlet);
-- 
2.43.0


From 7b16b89c133c0eb97379d584b2b842149da9a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:38 +0000
Subject: [PATCH 22/54] fix: mole-based reactors scale the surface species
 rates by the site occupancy twice

---
 src/zeroD/MoleReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 4859a99..afe3386 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -70,7 +70,7 @@ void MoleReactor::evalSurfaces(double* LHS, double* RHS, double* sdot)
         S->syncState();
         kin->getNetProductionRates(&m_work[0]);
         for (size_t k = 0; k < nk; k++) {
-            RHS[loc + k] = m_work[k] * wallarea / surf->size(k);
+            RHS[loc + k] = m_work[k] * wallarea;
         }
         loc += nk;
 
-- 
2.43.0


From e9f47bf45a67298d0bf2c674fad9b8012fa979df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:38 +0000
Subject: [PATCH 23/54] fix: mole-based reactor outlets lose species when the
 downstream phase differs

---
 src/zeroD/ConstPressureMoleReactor.cpp         | 5 +++--
 src/zeroD/IdealGasConstPressureMoleReactor.cpp | 5 +++--
 src/zeroD/IdealGasMoleReactor.cpp              | 5 +++--
 src/zeroD/MoleReactor.cpp                      | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 00c6261..5c6ffc4 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -64,6 +64,7 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
     m_thermo->restoreState(m_state);
 
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -84,9 +85,9 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
     for (auto outlet : m_outlet) {
         // determine enthalpy contribution
         dHdt -= outlet->massFlowRate() * m_enthalpy;
-        // flow of species into system and dilution by other species
+        // flow of species out of system
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasConstPressureMoleReactor.cpp b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
index 757a6cb..6d77cf2 100644
--- a/src/zeroD/IdealGasConstPressureMoleReactor.cpp
+++ b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
@@ -73,6 +73,7 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
 
     m_thermo->getPartialMolarEnthalpies(&m_hk[0]);
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -95,8 +96,8 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
     // add terms for outlets
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
-            // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            // flow of species out of system
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasMoleReactor.cpp b/src/zeroD/IdealGasMoleReactor.cpp
index 5586a7c..2c81e71 100644
--- a/src/zeroD/IdealGasMoleReactor.cpp
+++ b/src/zeroD/IdealGasMoleReactor.cpp
@@ -104,6 +104,7 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
 
     m_thermo->getPartialMolarIntEnergies(&m_uk[0]);
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -126,8 +127,8 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
     // add terms for outlets
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
-            // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            // flow of species out of system
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
         double mdot = outlet->massFlowRate();
         mcvdTdt -= mdot * m_pressure * m_vol / m_mass; // flow work
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index afe3386..3b02b7b 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -232,6 +232,7 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
     evalSurfaces(LHS + m_nsp + m_sidx, RHS + m_nsp + m_sidx, m_sdot.data());
     // inverse molecular weights for conversion
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
     // volume equation
     RHS[1] = m_vdot;
 
@@ -256,9 +257,9 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
 
     // add terms for outlets
     for (auto outlet : m_outlet) {
-        // flow of species into system and dilution by other species
+        // flow of species out of system
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
         // energy update based on mass flow
         double mdot = outlet->massFlowRate();
-- 
2.43.0


From b6dea32867c036c40083990f819e0510967c9ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:38 +0000
Subject: [PATCH 24/54] fix: FlowReactor residual counts only the last species
 in the surface mass flux

---
 src/zeroD/FlowReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/FlowReactor.cpp b/src/zeroD/FlowReactor.cpp
index 5906bec..b028a63 100644
--- a/src/zeroD/FlowReactor.cpp
+++ b/src/zeroD/FlowReactor.cpp
@@ -251,7 +251,7 @@ void FlowReactor::evalDae(double time, double* y, double* ydot, double* residual
     const vector<double>& mw = m_thermo->molecularWeights();
     double sk_wk = 0;
     for (size_t i = 0; i < m_nsp; ++i) {
-        sk_wk = m_sdot[i] * mw[i];
+        sk_wk += m_sdot[i] * mw[i];
     }
     m_thermo->getPartialMolarEnthalpies(m_hk.data());
     // get net production
-- 
2.43.0


From 295073c0175f72b1a384ae3b0e16b010f362e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:56 +0000
Subject: [PATCH 25/54] fix: FlowReactor initial state derivative misses the
 gas constant in the equation of state

---
 src/zeroD/FlowReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/FlowReactor.cpp b/src/zeroD/FlowReactor.cpp
index b028a63..8376abf 100644
--- a/src/zeroD/FlowReactor.cpp
+++ b/src/zeroD/FlowReactor.cpp
@@ -84,7 +84,7 @@ void FlowReactor::getStateDae(double* y, double* ydot)
     a(0, 2) = 1;
     a(0, 3) = - m_rho * GasConstant / m_thermo->meanMolecularWeight();
     for (size_t i = 0; i < m_nsp; ++i) {
-        a(0, m_offset_Y + i) = - m_rho * m_T / mw[i];
+        a(0, m_offset_Y + i) = - m_rho * GasConstant * m_T / mw[i];
     }
 
     // initialize the second row from mass conservation equation (Kee 16.48)
-- 
2.43.0


From 3505c20720775d12dd6591280b4c5cff0fdfa343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:56 +0000
Subject: [PATCH 26/54] fix: isothermal reactors sharing a Solution take over
 the temperature of another reactor

---
 src/zeroD/ConstPressureMoleReactor.cpp | 2 +-
 src/zeroD/ConstPressureReactor.cpp     | 2 +-
 src/zeroD/MoleReactor.cpp              | 2 +-
 src/zeroD/Reactor.cpp                  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 5c6ffc4..e4c921c 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -48,7 +48,7 @@ void ConstPressureMoleReactor::updateState(double* y)
     if (m_energy) {
         m_thermo->setState_HP(y[0] / m_mass, m_pressure);
     } else {
-        m_thermo->setPressure(m_pressure);
+        m_thermo->setState_TP(temperature(), m_pressure);
     }
     m_vol = m_mass / m_thermo->density();
     updateConnected(false);
diff --git a/src/zeroD/ConstPressureReactor.cpp b/src/zeroD/ConstPressureReactor.cpp
index c584688..6e4301a 100644
--- a/src/zeroD/ConstPressureReactor.cpp
+++ b/src/zeroD/ConstPressureReactor.cpp
@@ -52,7 +52,7 @@ void ConstPressureReactor::updateState(double* y)
     if (m_energy) {
         m_thermo->setState_HP(y[1]/m_mass, m_pressure);
     } else {
-        m_thermo->setPressure(m_pressure);
+        m_thermo->setState_TP(temperature(), m_pressure);
     }
     m_vol = m_mass / m_thermo->density();
     updateConnected(false);
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 3b02b7b..6ca7bd3 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -216,7 +216,7 @@ void MoleReactor::updateState(double* y)
         }
         m_thermo->setState_TD(TT.second, m_mass / m_vol);
     } else {
-        m_thermo->setDensity(m_mass / m_vol);
+        m_thermo->setState_TD(temperature(), m_mass / m_vol);
     }
     updateConnected(true);
     updateSurfaceState(y + m_nsp + m_sidx);
diff --git a/src/zeroD/Reactor.cpp b/src/zeroD/Reactor.cpp
index 7fac0ec..868c6e8 100644
--- a/src/zeroD/Reactor.cpp
+++ b/src/zeroD/Reactor.cpp
@@ -166,7 +166,7 @@ void Reactor::updateState(double* y)
         }
         m_thermo->setState_TD(TT.second, m_mass / m_vol);
     } else {
-        m_thermo->setDensity(m_mass/m_vol);
+        m_thermo->setState_TD(temperature(), m_mass / m_vol);
     }
 
     updateConnected(true);
-- 
2.43.0


From 9c3791e4a122e48d51c1876c78bd07510568e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:56 +0000
Subject: [PATCH 27/54] fix: MassFlowController::setMassFlowRate keeps using
 the time function it deleted

---
 src/zeroD/flowControllers.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/zeroD/flowControllers.cpp b/src/zeroD/flowControllers.cpp
index b58337c..27225a1 100644
--- a/src/zeroD/flowControllers.cpp
+++ b/src/zeroD/flowControllers.cpp
@@ -12,9 +12,7 @@ namespace Cantera
 
 void MassFlowController::setMassFlowRate(double mdot)
 {
-    if (m_tfunc) {
-        delete m_tfunc;
-    }
+    m_tfunc = nullptr; // functions are not owned by the flow device
     m_coeff = mdot;
 }
 
-- 
2.43.0


From 0b7f0564c4406d8846b372c85cbcda4d0c2fbf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:07 +0000
Subject: [PATCH 28/54] fix: flow rate of a PressureController lags behind the
 reactors its primary device connects

---
 src/zeroD/ReactorNet.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/zeroD/ReactorNet.cpp b/src/zeroD/ReactorNet.cpp
index e3ea679..c5a43d2 100644
--- a/src/zeroD/ReactorNet.cpp
+++ b/src/zeroD/ReactorNet.cpp
@@ -440,6 +440,19 @@ void ReactorNet::updateState(double* y)
     for (size_t n = 0; n < m_reactors.size(); n++) {
         m_reactors[n]->updateState(y + m_start[n]);
     }
+    if (m_reactors.size() > 1) {
+        // The flow through a device can depend on reactors other than the ones it
+        // connects (see PressureController), which were not necessarily up to date
+        // when its flow rate was last evaluated.
+        for (auto r : m_reactors) {
+            for (size_t i = 0; i < r->nOutlets(); i++) {
+                r->outlet(i).updateMassFlowRate(m_time);
+            }
+            for (size_t i = 0; i < r->nInlets(); i++) {
+                r->inlet(i).updateMassFlowRate(m_time);
+            }
+        }
+    }
 }
 
 void ReactorNet::getDerivative(int k, double* dky)
-- 
2.43.0


From c0b48118ab51eb1ff9c18229f43dd3f818dbe86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:07 +0000
Subject: [PATCH 29/54] fix: multipliers not restored when several sensitivity
 parameters affect one reaction

---
 src/zeroD/Reactor.cpp        | 18 ++++++++++--------
 src/zeroD/ReactorSurface.cpp |  4 ++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/zeroD/Reactor.cpp b/src/zeroD/Reactor.cpp
index 868c6e8..552ecd6 100644
--- a/src/zeroD/Reactor.cpp
+++ b/src/zeroD/Reactor.cpp
@@ -515,16 +515,18 @@ void Reactor::resetSensitivity(double* params)
     if (!params) {
         return;
     }
-    for (auto& p : m_sensParams) {
-        if (p.type == SensParameterType::reaction) {
-            m_kin->setMultiplier(p.local, p.value);
-        } else if (p.type == SensParameterType::enthalpy) {
-            m_thermo->resetHf298(p.local);
+    // Restore in the reverse order of applySensitivity, so that reactions affected by
+    // more than one parameter get back their original multipliers.
+    for (auto S = m_surfaces.rbegin(); S != m_surfaces.rend(); ++S) {
+        (*S)->resetSensitivityParameters();
+    }
+    for (auto p = m_sensParams.rbegin(); p != m_sensParams.rend(); ++p) {
+        if (p->type == SensParameterType::reaction) {
+            m_kin->setMultiplier(p->local, p->value);
+        } else if (p->type == SensParameterType::enthalpy) {
+            m_thermo->resetHf298(p->local);
         }
     }
-    for (auto& S : m_surfaces) {
-        S->resetSensitivityParameters();
-    }
     m_thermo->invalidateCache();
     if (m_kin) {
         m_kin->invalidateCache();
diff --git a/src/zeroD/ReactorSurface.cpp b/src/zeroD/ReactorSurface.cpp
index f811eb4..7fcbc9e 100644
--- a/src/zeroD/ReactorSurface.cpp
+++ b/src/zeroD/ReactorSurface.cpp
@@ -107,8 +107,8 @@ void ReactorSurface::setSensitivityParameters(const double* params)
 
 void ReactorSurface::resetSensitivityParameters()
 {
-    for (auto& p : m_params) {
-        m_kinetics->setMultiplier(p.local, p.value);
+    for (auto p = m_params.rbegin(); p != m_params.rend(); ++p) {
+        m_kinetics->setMultiplier(p->local, p->value);
     }
 }
 
-- 
2.43.0


From cedaed63978d6418f34eafca032d814fef267a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:43 +0000
Subject: [PATCH 30/54] fix: Periodic1 is not periodic for negative arguments

---
 include/cantera/numerics/Func1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cantera/numerics/Func1.h b/include/cantera/numerics/Func1.h
index 44db9f5..abd5e82 100644
--- a/include/cantera/numerics/Func1.h
+++ b/include/cantera/numerics/Func1.h
@@ -831,7 +831,7 @@ public:
     }
 
     double eval(double t) const override {
-        int np = int(t/m_c);
+        int np = static_cast<int>(std::floor(t/m_c));
         double time = t - np*m_c;
         return m_f1->eval(time);
     }
-- 
2.43.0


From c464ca6d022631df6816936093844c651b463ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:43 +0000
Subject: [PATCH 31/54] fix: tabulated function with method previous lags at
 the tabulated points

---
 src/numerics/Func1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index d4b93e1..ae14f64 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -364,13 +364,13 @@ void Tabulated1::setMethod(const string& method)
 double Tabulated1::eval(double t) const {
     size_t siz = m_tvec.size();
     // constructor ensures that siz > 0
-    if (t <= m_tvec[0]) {
+    if (t < m_tvec[0]) {
         return m_fvec[0];
     } else if (t >= m_tvec[siz-1]) {
         return m_fvec[siz-1];
     } else {
         size_t ix = 0;
-        while (t > m_tvec[ix+1]) {
+        while (t >= m_tvec[ix+1]) {
             ix++;
         }
         if (m_isLinear) {
-- 
2.43.0


From 3ff7a56c367c904ffc29eed3c750e33eb84b5a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:43 +0000
Subject: [PATCH 32/54] fix: derivative of a linear tabulated function before
 its first point

---
 src/numerics/Func1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index ae14f64..1af6e65 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -391,6 +391,9 @@ shared_ptr<Func1> Tabulated1::derivative() const {
     if (m_isLinear) {
         // piece-wise continuous derivative
         if (siz>1) {
+            // the function is constant up to and including the first point
+            tvec.push_back(m_tvec[0]);
+            dvec.push_back(0.);
             for (size_t i=1; i<siz; i++) {
                 double d = (m_fvec[i] - m_fvec[i-1]) /
                   (m_tvec[i] - m_tvec[i-1]);
-- 
2.43.0


From b61598a85b2c5c46178ea1fd015863f3c73f6323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:43 +0000
Subject: [PATCH 33/54] fix: composition of powers simplified where the
 functions differ

---
 src/numerics/Func1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index 1af6e65..c1774e1 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -746,7 +746,10 @@ shared_ptr<Func1> newCompositeFunction(shared_ptr<Func1> f1, shared_ptr<Func1> f
     if (isPow(f1) && f1->c() == 0.0) {
         return make_shared<Const1>(1.);
     }
-    if (isPow(f1) && isPow(f2)) {
+    if (isPow(f1) && isPow(f2)
+        && (std::floor(f1->c()) == f1->c() || std::floor(f2->c()) != f2->c())) {
+        // an inner integer exponent may turn a negative argument into a positive one,
+        // in which case the exponents of a non-integer outer power do not multiply
         return make_shared<Pow1>(f1->c() * f2->c());
     }
     return make_shared<Composite1>(f1, f2);
-- 
2.43.0


From 5ad6f24ad1cce3b0bec770f37c4c06d2a91ddb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:43 +0000
Subject: [PATCH 34/54] fix: OutletRes1D fixes the wrong species by the sum of
 mass fractions

---
 src/oneD/Boundary1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oneD/Boundary1D.cpp b/src/oneD/Boundary1D.cpp
index b4a41b3..c9a55da 100644
--- a/src/oneD/Boundary1D.cpp
+++ b/src/oneD/Boundary1D.cpp
@@ -502,7 +502,7 @@ void OutletRes1D::eval(size_t jg, double* xg, double* rg,
     } else {
         rb[c_offset_T] = xb[c_offset_T] - m_flow_left->T_fixed(last);
     }
-    size_t kSkip = m_flow_left->rightExcessSpecies();
+    size_t kSkip = c_offset_Y + m_flow_left->rightExcessSpecies();
     for (size_t k = c_offset_Y; k < nc; k++) {
         if (k != kSkip) {
             rb[k] = xb[k] - m_yres[k-c_offset_Y]; // fixed Y
-- 
2.43.0


From b7099a8cb407464a7aa54a0b1e2f4ac6389eb36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:43 +0000
Subject: [PATCH 35/54] fix: reacting surface left of a flow does not feed its
 species fluxes

---
 src/oneD/Boundary1D.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/oneD/Boundary1D.cpp b/src/oneD/Boundary1D.cpp
index c9a55da..bf94cf7 100644
--- a/src/oneD/Boundary1D.cpp
+++ b/src/oneD/Boundary1D.cpp
@@ -720,6 +720,21 @@ void ReactingSurf1D::eval(size_t jg, double* xg, double* rg,
         double* rb = r + m_nsp;
         double* xb = x + m_nsp;
         rb[c_offset_T] = xb[c_offset_T] - m_temp; // specified T
+        const vector<double>& mwright = m_phase_right->molecularWeights();
+        size_t nSkip = m_flow_right->leftExcessSpecies();
+        size_t r_offset = 0;
+        ThermoPhase* right_thermo = &m_flow_right->phase();
+        for (size_t nth = 0; nth < m_kin->nPhases(); nth++) {
+            if (&m_kin->thermo(nth) == right_thermo) {
+                r_offset = m_kin->kineticsSpeciesIndex(0, nth);
+                break;
+            }
+        }
+        for (size_t nr = 0; nr < m_right_nsp; nr++) {
+            if (nr != nSkip) {
+                rb[c_offset_Y+nr] += m_work[nr + r_offset]*mwright[nr];
+            }
+        }
     }
     if (m_flow_left) {
         size_t nc = m_flow_left->nComponents();
-- 
2.43.0


From 6f4a28ce3587b021f44e382f3b5bbfb1d92f93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:43 +0000
Subject: [PATCH 36/54] fix: correction flux of frozen ions leaves a net flux
 of neutrals

---
 src/oneD/IonFlow.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oneD/IonFlow.cpp b/src/oneD/IonFlow.cpp
index b1f66f4..471e7be 100644
--- a/src/oneD/IonFlow.cpp
+++ b/src/oneD/IonFlow.cpp
@@ -134,9 +134,14 @@ void IonFlow::frozenIonMethod(const double* x, size_t j0, size_t j1)
             sum -= m_flux(k,j);
         }
 
-        // correction flux to insure that \sum_k Y_k V_k = 0.
+        // correction flux to insure that \sum_k Y_k V_k = 0. Only neutral species
+        // contribute, since the fluxes of the ions are zero.
+        double sum_ion = 0.0;
+        for (size_t k : m_kCharge) {
+            sum_ion += Y(x,k,j);
+        }
         for (size_t k : m_kNeutral) {
-            m_flux(k,j) += sum*Y(x,k,j);
+            m_flux(k,j) += sum*Y(x,k,j)/(1-sum_ion);
         }
 
         // flux for ions
-- 
2.43.0


From 7920d8f6dc7a91a638dcb03fca1be2ce7224051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:43 +0000
Subject: [PATCH 37/54] fix: SolutionArray location not restored after the
 phase changed

---
 src/base/SolutionArray.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index dba2af8..b7ecfec 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -778,8 +778,6 @@ void SolutionArray::setLoc(int loc, bool restore)
                 "Both current and buffered indices are invalid.");
         }
         return;
-    } else if (static_cast<size_t>(m_active[loc_]) == m_loc) {
-        return;
     } else if (loc_ >= m_size) {
         throw IndexError("SolutionArray::setLoc", "indices", loc_, m_size);
     }
-- 
2.43.0


From 33750fb67ac51a05251c64d935c96ff2a30d3341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:44 +0000
Subject: [PATCH 38/54] fix: density of variable-pressure phases stale after a
 change of composition

---
 include/cantera/thermo/VPStandardStateTP.h |  3 +++
 src/thermo/GibbsExcessVPSSTP.cpp           |  2 +-
 src/thermo/VPStandardStateTP.cpp           | 10 ++++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/VPStandardStateTP.h b/include/cantera/thermo/VPStandardStateTP.h
index 4070376..d190fbb 100644
--- a/include/cantera/thermo/VPStandardStateTP.h
+++ b/include/cantera/thermo/VPStandardStateTP.h
@@ -162,6 +162,9 @@ protected:
      */
     virtual void calcDensity();
 
+    //! Recalculate the density for the new composition
+    void compositionChanged() override;
+
     //! Updates the standard state thermodynamic functions at the current T and
     //! P of the solution.
     /*!
diff --git a/src/thermo/GibbsExcessVPSSTP.cpp b/src/thermo/GibbsExcessVPSSTP.cpp
index 8c625b1..7ebf08c 100644
--- a/src/thermo/GibbsExcessVPSSTP.cpp
+++ b/src/thermo/GibbsExcessVPSSTP.cpp
@@ -23,8 +23,8 @@ namespace Cantera
 
 void GibbsExcessVPSSTP::compositionChanged()
 {
-    Phase::compositionChanged();
     getMoleFractions(moleFractions_.data());
+    VPStandardStateTP::compositionChanged();
 }
 
 // ------------ Mechanical Properties ------------------------------
diff --git a/src/thermo/VPStandardStateTP.cpp b/src/thermo/VPStandardStateTP.cpp
index 37d7e19..59eff02 100644
--- a/src/thermo/VPStandardStateTP.cpp
+++ b/src/thermo/VPStandardStateTP.cpp
@@ -204,6 +204,16 @@ void VPStandardStateTP::calcDensity()
     Phase::assignDensity(dd);
 }
 
+void VPStandardStateTP::compositionChanged()
+{
+    ThermoPhase::compositionChanged();
+    // The density depends on the composition. It is not calculated before the
+    // standard state properties of all species have been evaluated.
+    if (m_Tlast_ss > 0.0 && m_Vss.size() == m_kk) {
+        calcDensity();
+    }
+}
+
 void VPStandardStateTP::setState_TP(double t, double pres)
 {
     // A pretty tricky algorithm is needed here, due to problems involving
-- 
2.43.0


From 494d82961397922de24d4e06620895caeeb57919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:44 +0000
Subject: [PATCH 39/54] fix: Array2D::appendColumn writes outside of the new
 column

---
 src/base/Array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/Array.cpp b/src/base/Array.cpp
index 9d0c346..93d84a1 100644
--- a/src/base/Array.cpp
+++ b/src/base/Array.cpp
@@ -56,7 +56,7 @@ void Array2D::appendColumn(const vector<double>& c)
     m_ncols++;
     m_data.resize(m_nrows * m_ncols);
     for (size_t m = 0; m < m_nrows; m++) {
-        value(m_ncols, m) = c[m];
+        value(m, m_ncols - 1) = c[m];
     }
 }
 
@@ -65,7 +65,7 @@ void Array2D::appendColumn(const double* const c)
     m_ncols++;
     m_data.resize(m_nrows * m_ncols);
     for (size_t m = 0; m < m_nrows; m++) {
-        value(m_ncols, m) = c[m];
+        value(m, m_ncols - 1) = c[m];
     }
 }
 
-- 
2.43.0


From 0ef37d42c7bf93025488ebc520464fdf036aa76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:44 +0000
Subject: [PATCH 40/54] fix: stale mole fractions in multicomponent species
 fluxes

---
 src/transport/MultiTransport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index 19da51a..b26a4ab 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -177,6 +177,7 @@ void MultiTransport::getSpeciesFluxes(size_t ndim, const double* const grad_T,
 {
     // update the binary diffusion coefficients if necessary
     update_T();
+    update_C();
     updateDiff_T();
 
     // If any component of grad_T is non-zero, then get the
-- 
2.43.0


From 826cbc1ff801b3b0c774c703c000f8eb1876e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:44 +0000
Subject: [PATCH 41/54] fix: multicomponent conductivity stale after returning
 to an earlier temperature

---
 src/transport/MultiTransport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index b26a4ab..9436355 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -401,6 +401,7 @@ void MultiTransport::update_T()
     // redone, and the L matrix reevaluated.
     m_lmatrix_soln_ok = false;
     m_l0000_ok = false;
+    m_thermal_tlast = Undef;
 }
 
 void MultiTransport::update_C()
-- 
2.43.0


From 52fe345180b8badd5d708a4db85a3144b1bf04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:44 +0000
Subject: [PATCH 42/54] fix: gas transport properties stale after adding a
 species

---
 src/transport/GasTransport.cpp    | 1 +
 src/transport/IonGasTransport.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/transport/GasTransport.cpp b/src/transport/GasTransport.cpp
index 02e0f70..dc245cc 100644
--- a/src/transport/GasTransport.cpp
+++ b/src/transport/GasTransport.cpp
@@ -30,6 +30,7 @@ void GasTransport::update_T()
     if (m_thermo->nSpecies() != m_nsp) {
         // Rebuild data structures if number of species has changed
         init(m_thermo, m_mode);
+        invalidateCache();
     }
 
     double T = m_thermo->temperature();
diff --git a/src/transport/IonGasTransport.cpp b/src/transport/IonGasTransport.cpp
index 0f54a42..0c26468 100644
--- a/src/transport/IonGasTransport.cpp
+++ b/src/transport/IonGasTransport.cpp
@@ -24,6 +24,7 @@ void IonGasTransport::init(ThermoPhase* thermo, int mode)
                            "mode = CK_Mode, which is an outdated lower-order fit.");
     }
     // make a local copy of species charge
+    m_speciesCharge.clear();
     for (size_t k = 0; k < m_nsp; k++) {
         m_speciesCharge.push_back(m_thermo->charge(k));
     }
@@ -44,6 +45,8 @@ void IonGasTransport::init(ThermoPhase* thermo, int mode)
     }
 
     // Find indices for charge of species
+    m_kIon.clear();
+    m_kNeutral.clear();
     for (size_t k = 0; k < m_nsp; k++) {
         if (m_speciesCharge[k] != 0){
             if (k != m_kElectron) {
-- 
2.43.0


From e68cb8b69a10830cd1a290540a714067f9d86b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:22 +0000
Subject: [PATCH 43/54] fix: prefixes of temperature units ignored in
 activation energies

---
 src/base/Units.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index fd1566d..85f553d 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -525,7 +525,7 @@ void UnitSystem::setDefaultActivationEnergy(const string& e_units)
     if (u.convertible(Units("J/kmol"))) {
         m_activation_energy_factor = u.factor();
     } else if (u.convertible(knownUnits.at("K"))) {
-        m_activation_energy_factor = GasConstant;
+        m_activation_energy_factor = GasConstant * u.factor();
     } else if (u.convertible(knownUnits.at("eV"))) {
         m_activation_energy_factor = u.factor() * Avogadro;
     } else {
@@ -713,7 +713,7 @@ double UnitSystem::convertActivationEnergyTo(double value,
     if (dest.convertible(Units("J/kmol"))) {
         return value * m_activation_energy_factor / dest.factor();
     } else if (dest.convertible(knownUnits.at("K"))) {
-        return value * m_activation_energy_factor / GasConstant;
+        return value * m_activation_energy_factor / (GasConstant * dest.factor());
     } else if (dest.convertible(knownUnits.at("eV"))) {
         return value * m_activation_energy_factor / (Avogadro * dest.factor());
     } else {
@@ -728,7 +728,7 @@ double UnitSystem::convertActivationEnergyFrom(double value, const string& src)
     if (usrc.convertible(Units("J/kmol"))) {
         return value * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("K"))) {
-        return value * GasConstant / m_activation_energy_factor;
+        return value * GasConstant * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("eV"))) {
         return value * Avogadro * usrc.factor() / m_activation_energy_factor;
     } else {
-- 
2.43.0


From d4c3a216fbece995e5bc58c9e1a0e16d5653230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:22 +0000
Subject: [PATCH 44/54] fix: difference between unit systems lost the
 activation energy unit

---
 src/base/Units.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index 85f553d..61da04c 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -778,11 +778,8 @@ AnyMap UnitSystem::getDelta(const UnitSystem& other) const
     if (m_quantity_factor != other.m_quantity_factor) {
         delta["quantity"] = get(m_defaults, "quantity", "kmol");
     }
-    if (m_explicit_activation_energy
-        || (other.m_explicit_activation_energy
-            && m_activation_energy_factor != m_energy_factor / m_quantity_factor))
-    {
-        delta["activation-energy"] = get(m_defaults, "activation-energy", "J/kmol");
+    if (m_explicit_activation_energy || other.m_explicit_activation_energy) {
+        delta["activation-energy"] = defaults()["activation-energy"];
     }
     return delta;
 }
-- 
2.43.0


From 7000a564a226e19318562cbda024970516d55418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:22 +0000
Subject: [PATCH 45/54] fix: description of Pitzer phases with constant
 parameters could not be read back

---
 src/thermo/HMWSoln.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thermo/HMWSoln.cpp b/src/thermo/HMWSoln.cpp
index b00198b..b816272 100644
--- a/src/thermo/HMWSoln.cpp
+++ b/src/thermo/HMWSoln.cpp
@@ -733,6 +733,8 @@ void HMWSoln::getParameters(AnyMap& phaseNode) const
     } else if (m_formPitzerTemp == PITZER_TEMP_COMPLEX1) {
         activityNode["temperature-model"] = "complex";
         nParams = 5;
+    } else {
+        activityNode["temperature-model"] = "constant";
     }
 
     if (m_form_A_Debye == A_DEBYE_WATER) {
-- 
2.43.0


From 2c7d8ed33ba9618b45597d852531a8bf78baaa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:43 +0000
Subject: [PATCH 46/54] fix: reject a rate coefficient without its reaction in
 non-default time units

CustomConversion: UnitSystem::convertRateCoeff returned the value of a rate
coefficient whose units are not known unconverted when the time unit was not
the second.
---
 src/base/Units.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index 61da04c..28df2ee 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -637,7 +637,9 @@ double UnitSystem::convertRateCoeff(const AnyValue& v, const Units& dest) const
 
     auto [value, units] = split_unit(v);
     if (units.empty()) {
-        if (m_length_factor == 1.0 && m_quantity_factor == 1.0) {
+        if (m_length_factor == 1.0 && m_quantity_factor == 1.0
+            && m_time_factor == 1.0)
+        {
             // Input is a number in the default mks+kmol system, so no conversion is
             // required
             return value;
-- 
2.43.0


From 75dc708a450579822027fbc99d01b9533a9f1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:43 +0000
Subject: [PATCH 47/54] fix: evaluate WaterProps::density_T at the requested
 temperature

The temperature difference was a static constant initialized by the first call.
---
 src/thermo/WaterProps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermo/WaterProps.cpp b/src/thermo/WaterProps.cpp
index a9d23a0..0e1a22b 100644
--- a/src/thermo/WaterProps.cpp
+++ b/src/thermo/WaterProps.cpp
@@ -47,7 +47,7 @@ WaterProps::~WaterProps()
 
 double WaterProps::density_T(double T, double P, int ifunc)
 {
-    static const double Tc = T - 273.15;
+    const double Tc = T - 273.15;
     static const double U1 = 288.9414;
     static const double U2 = 508929.2;
     static const double U3 = 68.12963;
-- 
2.43.0


From c3353d1a053371d2569c0aa32badcf97be8c70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:43 +0000
Subject: [PATCH 48/54] fix: return the Gibbs energy from
 PDSS_Water::gibbs_RT_ref

The reference-state Gibbs function used the enthalpy in place of the Gibbs energy.
---
 src/thermo/PDSS_Water.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermo/PDSS_Water.cpp b/src/thermo/PDSS_Water.cpp
index 92b481b..2751691 100644
--- a/src/thermo/PDSS_Water.cpp
+++ b/src/thermo/PDSS_Water.cpp
@@ -87,9 +87,9 @@ double PDSS_Water::molarVolume() const
 double PDSS_Water::gibbs_RT_ref() const
 {
     m_sub.density(m_temp, m_p0, m_iState);
-    double h = m_sub.enthalpy_mass() * m_mw;
+    double g = m_sub.gibbs_mass() * m_mw;
     m_sub.setState_TD(m_temp, m_dens);
-    return (h + EW_Offset - SW_Offset * m_temp) / (m_temp * GasConstant);
+    return (g + EW_Offset - SW_Offset * m_temp) / (m_temp * GasConstant);
 }
 
 double PDSS_Water::enthalpy_RT_ref() const
-- 
2.43.0


From f59b84f1b20f41b2fb5ffb11b190f4d41a4de844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:43 +0000
Subject: [PATCH 49/54] fix: update equilibrium constants when the electron
 temperature changes

Standard chemical potentials of electrons depend on the electron temperature.
---
 src/kinetics/BulkKinetics.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 3e9aa53..0956ca5 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -467,11 +467,17 @@ void BulkKinetics::updateROP()
     double rho = thermo().density();
     double P = thermo().pressure();
     int statenum = thermo().stateMFNumber();
-
-    if (last.state1 != T || last.state2 != rho || last.value != P) {
-        // Update properties that depend only on the temperature and pressure. The
-        // pressure may change at constant temperature and density.
+    static const int electronCacheId = m_cache.getId();
+    CachedScalar lastElectron = m_cache.getScalar(electronCacheId);
+    double Te = thermo().electronTemperature();
+
+    if (last.state1 != T || last.state2 != rho || last.value != P
+        || lastElectron.value != Te) {
+        // Update properties that depend only on the temperature, the electron
+        // temperature and the pressure. The pressure may change at constant
+        // temperature and density.
         last.value = P;
+        lastElectron.value = Te;
         m_ROP_ok = false;
         thermo().getStandardChemPotentials(m_grt.data());
         fill(m_delta_gibbs0.begin(), m_delta_gibbs0.end(), 0.0);
-- 
2.43.0


From 7909208deb5b3339e0aa2ab7e918a651bd39e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:43 +0000
Subject: [PATCH 50/54] fix: elastic power loss of a plasma follows the
 quadrature method

Setting the quadrature method did not invalidate the cached coefficients.
---
 include/cantera/thermo/PlasmaPhase.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cantera/thermo/PlasmaPhase.h b/include/cantera/thermo/PlasmaPhase.h
index e647bbf..f76b31f 100644
--- a/include/cantera/thermo/PlasmaPhase.h
+++ b/include/cantera/thermo/PlasmaPhase.h
@@ -171,6 +171,8 @@ public:
     //! energy distribution function. Method: #m_quadratureMethod
     void setQuadratureMethod(const string& method) {
         m_quadratureMethod = method;
+        // integrals over the distribution have to be evaluated again
+        electronEnergyDistributionChanged();
     }
 
     //! Mean electron energy [eV]
-- 
2.43.0


From a99c8ee488e658e8dfdbd638ccdc5a00d0283f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:13 +0000
Subject: [PATCH 51/54] fix: BasisOptimize keeps the components found when no
 further independent species is left

---
 src/equil/BasisOptimize.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/equil/BasisOptimize.cpp b/src/equil/BasisOptimize.cpp
index 5101c70..3083056 100644
--- a/src/equil/BasisOptimize.cpp
+++ b/src/equil/BasisOptimize.cpp
@@ -175,6 +175,11 @@ size_t BasisOptimize(int* usedZeroedSpecies, bool doFormRxn, MultiPhase* mphase,
             }
         }
 
+        // No linearly independent species are left
+        if (jr == nComponents) {
+            break;
+        }
+
         // REARRANGE THE DATA
         if (jr != k) {
             if (BasisOptimize_print_lvl >= 1) {
-- 
2.43.0


From f3f653a7e476a593925588e2fa5b8eeb044f93a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:13 +0000
Subject: [PATCH 52/54] fix: MultiPhase::setPhaseMoleFractions stores
 normalized mole fractions

---
 src/equil/MultiPhase.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index bb980b5..e1581b4 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -350,10 +350,8 @@ void MultiPhase::setPhaseMoleFractions(const size_t n, const double* const x)
     }
     ThermoPhase* p = m_phase[n];
     p->setState_TPX(m_temp, m_press, x);
-    size_t istart = m_spstart[n];
-    for (size_t k = 0; k < p->nSpecies(); k++) {
-        m_moleFractions[istart+k] = x[k];
-    }
+    // store the normalized mole fractions
+    p->getMoleFractions(&m_moleFractions[m_spstart[n]]);
 }
 
 void MultiPhase::setMolesByName(const Composition& xMap)
-- 
2.43.0


From df784ab4959ec42e0cd956734f17ee467e6e6481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:13 +0000
Subject: [PATCH 53/54] fix: MultiPhase::setMoles sets the state of empty and
 single-species phases

---
 src/equil/MultiPhase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index e1581b4..5551a5b 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -407,11 +407,15 @@ void MultiPhase::setMoles(const double* n)
                 p->setState_TPX(m_temp, m_press, n + loc);
                 p->getMoleFractions(&m_moleFractions[loc]);
             } else {
+                // composition of a phase without any moles is left unchanged
+                p->setState_TP(m_temp, m_press);
                 p->getMoleFractions(&m_moleFractions[loc]);
             }
         } else {
+            p->setState_TP(m_temp, m_press);
             m_moleFractions[loc] = 1.0;
         }
+        m_temp_OK[ip] = (m_temp >= p->minTemp() && m_temp <= p->maxTemp());
         loc += nsp;
     }
 }
-- 
2.43.0


From dfb6e5dd07ce1c7ff2c21795a73f43b6c81e42f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:13 +0000
Subject: [PATCH 54/54] fix: MultiPhase::volume uses the state of the mixture

---
 src/equil/MultiPhase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index 5551a5b..6fdbca5 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -479,6 +479,9 @@ void MultiPhase::calcElemAbundances() const
 double MultiPhase::volume() const
 {
     double sum = 0;
+    if (m_init) {
+        updatePhases();
+    }
     for (size_t i = 0; i < nPhases(); i++) {
         double vol = 1.0/m_phase[i]->molarDensity();
         sum += m_moles[i] * vol;
-- 
2.43.0

