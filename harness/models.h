// The fleet of phase models and how a symbolic state of each is set
#ifndef VERIF_MODELS_H
#define VERIF_MODELS_H
#include "common.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/thermo/DebyeHuckel.h"
#include "cantera/thermo/HMWSoln.h"
#include "cantera/base/ctexceptions.h"
#include <set>
struct Model {
    string id, file, name;
    double Tlo, Thi, Plo, Phi;
    string comp;            // x: mole fractions; aq: solvent first, dilute solutes; one: single species; bin: x, 1-x
    std::set<string> skip;  // identities documented as not holding for this model
    bool td;                // state given by temperature and density (P explicit), else temperature and pressure
    double Dlo = 0, Dhi = 0;
};
inline const vector<Model>& models() {
    static vector<Model> m = {
        {"ideal_gas", "h2o2.yaml", "", 250, 3000, 1e3, 1e8, "x", {}, false},
        {"ideal_gas_air", "air.yaml", "", 250, 3000, 1e3, 1e8, "x", {}, false},
        {"ideal_gas_nasa9", "gasNASA9.yaml", "", 250, 5500, 1e3, 1e8, "x", {}, false},
        {"redlich_kwong", "small_eos.yaml", "RK2", 700, 1200, 0, 0, "bin", {}, true, 1, 300},
        {"peng_robinson", "small_eos.yaml", "PR2", 700, 1200, 0, 0, "bin", {}, true, 1, 300},
        {"deep_redlich_kwong_3", "small_eos.yaml", "RK3", 700, 1200, 0, 0, "norm", {}, true, 1, 300},
        {"deep_peng_robinson_3", "small_eos.yaml", "PR3", 700, 1200, 0, 0, "norm", {}, true, 1, 300},
        {"deep_redlich_kwong", "co2_RK_example.yaml", "", 250, 900, 0, 0, "x", {}, true, 1, 400},
        {"deep_peng_robinson", "co2_PR_example.yaml", "", 250, 900, 0, 0, "x", {}, true, 1, 400},
        {"ideal_molal", "thermo-models.yaml", "ideal-molal-aqueous", 280, 370, 1e4, 1e7, "aq", {"g_hts", "gk_hkts", "cv", "ds", "actcoef", "dlnN"}, false},
        {"ideal_condensed_1", "thermo-models.yaml", "IdealSolidSolnPhase", 280, 900, 1e4, 1e7, "x", {}, false},
        {"ideal_condensed_2", "thermo-models.yaml", "IdealSolidSolnPhase2", 280, 900, 1e4, 1e7, "x", {}, false},
        {"binary_tabulated", "BinarySolutionTabulatedThermo.yaml", "anode", 280, 400, 1e4, 1e7, "bin", {"mu_n", "h_n", "v_n"}, false},
        {"electron_cloud", "thermo-models.yaml", "Metal", 280, 900, 1e4, 1e7, "one", {"dP"}, false},
        {"dh_dilute", "debye-huckel-all.yaml", "debye-huckel-dilute", 280, 370, 1e4, 1e7, "aq", {"cv", "actcoef", "dlnN", "mu_n", "s_n"}, false},
        {"dh_bdot_ak", "debye-huckel-all.yaml", "debye-huckel-B-dot-ak", 280, 370, 1e4, 1e7, "aq", {"cv", "actcoef", "dlnN", "mu_n", "h_n", "s_n"}, false},
        {"dh_bdot_a", "debye-huckel-all.yaml", "debye-huckel-B-dot-a", 280, 370, 1e4, 1e7, "aq", {"cv", "actcoef", "dlnN", "mu_n", "s_n"}, false},
        {"dh_pitzer", "debye-huckel-all.yaml", "debye-huckel-pitzer-beta_ij", 280, 370, 1e4, 1e7, "aq", {"cv", "actcoef", "dlnN", "mu_n", "s_n"}, false},
        {"dh_beta_ij", "debye-huckel-all.yaml", "debye-huckel-beta_ij", 280, 370, 1e4, 1e7, "aq", {"cv", "actcoef", "dlnN", "mu_n", "s_n"}, false},
        {"dhv_dilute", "debye-huckel-all.yaml", "debye-huckel-dilute", 280, 370, 1e4, 1e7, "aq2", {"cv", "actcoef", "dlnN", "mu_n", "h_n", "s_n", "v_n"}, false},
        {"dhv_bdot_ak", "debye-huckel-all.yaml", "debye-huckel-B-dot-ak", 280, 370, 1e4, 1e7, "aq2", {"cv", "actcoef", "dlnN", "mu_n", "h_n", "s_n", "v_n"}, false},
        {"dhv_bdot_a", "debye-huckel-all.yaml", "debye-huckel-B-dot-a", 280, 370, 1e4, 1e7, "aq2", {"cv", "actcoef", "dlnN", "mu_n", "h_n", "s_n", "v_n"}, false},
        {"dhv_pitzer", "debye-huckel-all.yaml", "debye-huckel-pitzer-beta_ij", 280, 370, 1e4, 1e7, "aq2", {"cv", "actcoef", "dlnN", "mu_n", "h_n", "s_n", "v_n"}, false},
        {"dhv_beta_ij", "debye-huckel-all.yaml", "debye-huckel-beta_ij", 280, 370, 1e4, 1e7, "aq2", {"cv", "actcoef", "dlnN", "mu_n", "h_n", "s_n", "v_n"}, false},
        {"hmwv", "hmw.yaml", "hmw", 290, 350, 1e4, 1e6, "aq2", {"cv", "actcoef", "dlnN", "mu_n", "h_n", "s_n", "v_n"}, false},
        {"margules", "LiKCl_liquid.yaml", "", 700, 1500, 1e4, 1e7, "x", {"cv"}, false},
        {"lattice", "thermo-models.yaml", "Li7Si3-interstitial", 500, 1000, 1e4, 1e7, "x", {"sum", "gk_hkts", "mu0", "mu_a", "mu_n", "h_n", "s_n", "v_n"}, false},
        {"stoich", "thermo-models.yaml", "KCl(s)", 280, 900, 1e4, 1e7, "one", {}, false},
        {"ideal_surface", "surface-phases.yaml", "Pt-surf", 300, 1500, 1e4, 1e7, "x", {}, false},
        {"multi_site_surface", "surface-phases.yaml", "Pt-multi-sites", 300, 1500, 1e4, 1e7, "x", {"mu_n", "s_n"}, false},
        {"edge", "surface-phases.yaml", "TPB", 300, 1500, 1e4, 1e7, "one", {}, false},
        {"covdep_surface", "copt_covdepsurf_example.yaml", "covdep", 300, 1000, 1e4, 1e7, "x", {"mu_n", "h_n", "s_n"}, false},
        {"vpss_solution", "IdealSolidSolnPhaseExample.yaml", "VpssSolidSolutionExample", 280, 900, 1e4, 1e7, "x", {"cv"}, false},
        {"redlich_kister", "thermo-models.yaml", "Redlich-Kister-LiC6", 280, 500, 1e4, 1e7, "bin", {}, false},
        {"redlich_kister_3", "thermo-models.yaml", "Redlich-Kister-complex", 700, 1000, 1e4, 1e7, "x", {}, false},
        {"deep_hmw", "HMW_NaCl.yaml", "", 290, 350, 1e4, 1e6, "aq", {"cv", "dT", "actcoef"}, false},
    };
    return m;
}
// electrolyte models whose Debye-Hueckel slope is an arbitrary function of temperature and pressure
template<class Base> struct VarA : public Base {
    VarA(const string& f, const string& n) : Base(f, n) {}
    double a0 = 1.17, a1 = 0, a2 = 0, a3 = 0;
    double dT(double T) const { return (T == -1.0 ? this->temperature() : T) - 320; }
    double dP(double P) const { return (P == -1.0 ? this->pressure() : P) - 1e5; }
    double A_Debye_TP(double T = -1, double P = -1) const override {
        return a0 + a1 * dT(T) + a2 * dT(T) * dT(T) + a3 * dP(P);
    }
    double dA_DebyedT_TP(double T = -1, double P = -1) const override { return a1 + 2 * a2 * dT(T); }
    double d2A_DebyedT2_TP(double T = -1, double P = -1) const override { return 2 * a2; }
    double dA_DebyedP_TP(double T = -1, double P = -1) const override { return a3; }
    void vary() { a0 = in("A0", 1.0, 1.4); a1 = in("A1", 1e-3, 4e-3); a2 = in("A2", 1e-6, 1e-5); a3 = in("A3", -1e-9, -1e-10); }
};
inline shared_ptr<ThermoPhase> phase(const Model& m) {
    dataDirs();
    if (m.id.substr(0, 4) == "dhv_") { auto p = std::make_shared<VarA<DebyeHuckel>>(m.file, m.name); p->vary(); return p; }
    if (m.id.substr(0, 4) == "hmwv") { auto p = std::make_shared<VarA<HMWSoln>>(m.file, m.name); p->vary(); return p; }
    return phase(m.file, m.name);
}
struct State { double T, P, rho, ntot; vector<double> n; };
// sets a symbolic state; n are the (unnormalised) amounts
inline State setSym(ThermoPhase& p, const Model& m, const string& tag = "", bool set = true) {
    State s;
    size_t K = p.nSpecies();
    s.n.assign(K, 1.0);
    s.ntot = 0;
    for (size_t k = 0; k < K; k++) {
        if (m.comp == "one") s.n[k] = 1.0;
        else if (m.comp == "fix") s.n[k] = (k + 1) * 0.2;
        else if (m.comp == "aq") s.n[k] = k == 0 ? in(tag + "n0", 0.8, 1.2) : in(tag + "n" + S(k), 1e-3, 0.03);
        else if (m.comp == "aq2") s.n[k] = k == 0 ? 1.0 : k < 3 ? in(tag + "n" + S(k), 1e-3, 0.03) : 0.002 + 0.001 * k;
        else if (m.comp == "bin") {
            double x = k == 0 ? in(tag + "x", 0.05, 0.95) : 1 - s.n[0];
            s.n[k] = x;
        }
        else if (m.comp == "norm") {
            if (k + 1 < K) s.n[k] = in(tag + "x" + S(k), 0.02, 0.98 / (K - 1));
            else { s.n[k] = 1; for (size_t j = 0; j + 1 < K; j++) s.n[k] -= s.n[j]; }
        }
        else s.n[k] = in(tag + "n" + S(k), 0.02, 1);
        s.ntot += s.n[k];
    }
    s.T = in(tag + "T", m.Tlo, m.Thi);
    if (m.td) { s.rho = in(tag + "rho", m.Dlo, m.Dhi); s.P = 0; }
    else { s.P = in(tag + "P", m.Plo, m.Phi); s.rho = 0; }
    return s;
}
inline void apply(ThermoPhase& p, const Model& m, State& s) {
    if (m.comp != "one") p.setMoleFractions(s.n.data());
    if (m.td) { p.setState_TD(s.T, s.rho); s.P = p.pressure(); sym_assume(s.P > 1e3); }
    else { p.setState_TP(s.T, s.P); s.rho = p.density(); }
}
#define TRY(...) try __VA_ARGS__ catch (NotImplementedError&) {}
#endif
