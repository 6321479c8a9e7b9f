// Thermodynamic functions of every phase model as derivatives of one another (the real code differentiated)
#include "models.h"
#include "cantera/thermo/GibbsExcessVPSSTP.h"
// state given by temperature, pressure and amounts
static void byTP(const Model& m) {
    auto ph = phase(m);
    ThermoPhase& p = *ph;
    State s = setSym(p, m);
    apply(p, m, s);
    size_t K = p.nSpecies();
    double T = s.T, P = s.P, A = 1e3, B = 1, RT = GasConstant * T;
    auto has = [&](const string& k) { return !m.skip.count(k); };
    double h = p.enthalpy_mole(), g = p.gibbs_mole(), S0 = p.entropy_mole(), v = p.molarVolume();
    bool vol = p.nDim() == 3;
    double cp = 0; bool hasCp = true;
    try { cp = p.cp_mole(); } catch (NotImplementedError&) { hasCp = false; }
    if (hasCp && has("dT")) deriv("cp=dh/dT", h, T, cp, B);
    if (hasCp && has("ds") && has("dT")) deriv("cp=T ds/dT", T * S0, T, cp + S0, B);
    if (has("dT") && has("g_hts")) deriv("s=-dg/dT", g, T, -S0, B);
    if (vol) {
        if (has("dP")) deriv("v=dg/dP", g, P, v, 1e-6);
        double al = 0; bool ok = true;
        try { al = p.thermalExpansionCoeff(); } catch (NotImplementedError&) { ok = false; }
        if (ok && has("alpha")) deriv("alpha", v, T, v * al, 1e-9);
        if (has("dsdP") && has("dT")) { if (ok) deriv("ds/dP=-dv/dT", S0, P, -v * al, 1e-9); }
        double ka = 0; bool okk = true;
        try { ka = p.isothermalCompressibility(); } catch (NotImplementedError&) { okk = false; }
        if (okk && has("kappa")) deriv("kappa", v, P, -v * ka, 1e-15);
        double cv = 0; bool okv = true;
        try { cv = p.cv_mole(); } catch (NotImplementedError&) { okv = false; }
        if (hasCp && okv && ok && okk && has("cv")) eq("cp-cv", (cp - cv) * ka, T * v * al * al, 1e-12);
        double c = 0; bool okc = true;
        try { c = p.soundSpeed(); } catch (NotImplementedError&) { okc = false; }
        if (okc && okk && okv && has("cv") && has("c")) eq("sound speed", c * c * p.density() * ka * cv, cp, B);
    }
    auto V = [&]() { return vector<double>(K); };
    auto hk = V(), gk = V(), sk = V(), vk = V(), ck = V();
    bool H = true, G = true, SS = true, VV = true, C = true;
    try { p.getPartialMolarEnthalpies(hk.data()); } catch (NotImplementedError&) { H = false; }
    try { p.getChemPotentials(gk.data()); } catch (NotImplementedError&) { G = false; }
    try { p.getPartialMolarEntropies(sk.data()); } catch (NotImplementedError&) { SS = false; }
    try { p.getPartialMolarVolumes(vk.data()); } catch (NotImplementedError&) { VV = false; }
    try { p.getPartialMolarCp(ck.data()); } catch (NotImplementedError&) { C = false; }
    for (size_t k = 0; k < K; k++) {
        if (G && SS && has("gk_hkts") && has("dT")) deriv("sk=-dmu/dT", gk[k], T, -sk[k], B);
        if (G && VV && vol && has("dP")) deriv("vk=dmu/dP", gk[k], P, vk[k], 1e-6);
        if (H && C && has("dT") && has("ck")) deriv("cpk=dhk/dT", hk[k], T, ck[k], B);
    }
    if (m.comp == "x" || m.comp == "aq")
        for (size_t k = 0; k < K; k++) {
            if (K > 5 && k > 1 && k + 1 < K && k != K / 2) continue;
            if (G && has("mu_n")) deriv("mu=dG/dn", s.ntot * g, s.n[k], gk[k], A);
            if (H && has("h_n")) deriv("hk=dH/dn", s.ntot * h, s.n[k], hk[k], A);
            if (SS && has("s_n")) deriv("sk=dS/dn", s.ntot * S0, s.n[k], sk[k], B);
            if (VV && vol && has("v_n")) deriv("vk=dV/dn", s.ntot * v, s.n[k], vk[k], 1e-6);
        }
    if (m.comp == "bin" && G && has("mu_n")) deriv("Gibbs-Duhem", g, s.n[0], gk[0] - gk[1], A);
    if (m.comp == "bin" && H && has("h_n")) deriv("dh/dx", h, s.n[0], hk[0] - hk[1], A);
    if (m.comp == "bin" && VV && vol && has("v_n")) deriv("dv/dx", v, s.n[0], vk[0] - vk[1], 1e-6);
    TRY({
        auto h0 = V(), c0 = V(), s0 = V(), g0 = V(), v0 = V();
        p.getEnthalpy_RT(h0.data()); p.getCp_R(c0.data()); p.getEntropy_R(s0.data()); p.getGibbs_RT(g0.data());
        p.getStandardVolumes(v0.data());
        if (has("std")) for (size_t k = 0; k < K; k++) {
            deriv("cp0=dh0/dT", h0[k] * T, T, c0[k], 1e-3);
            deriv("s0=-dg0/dT", g0[k] * T, T, -s0[k], 1e-3);
            if (vol && has("dP")) deriv("v0=dg0/dP", g0[k] * RT, P, v0[k], 1e-6);
        }
    })
    TRY({
        auto h0 = V(), c0 = V(), s0 = V();
        p.getEnthalpy_RT_ref(h0.data()); p.getCp_R_ref(c0.data()); p.getEntropy_R_ref(s0.data());
        if (has("std")) for (size_t k = 0; k < K; k++) {
            deriv("cpref=dhref/dT", h0[k] * T, T, c0[k], 1e-3);
            deriv("cpref=T dsref/dT", s0[k], T, c0[k] / T, 1e-6);
        }
    })
    if (m.comp == "x" || m.comp == "aq") TRY({
        auto lg = V();
        p.getLnActivityCoefficients(lg.data());
        if (has("dlnN")) {
            vector<double> d(K * K);
            bool ok = true;
            try { p.getdlnActCoeffdlnN(K, d.data()); } catch (NotImplementedError&) { ok = false; }
            if (ok) for (size_t k = 0; k < K; k++) for (size_t j = 0; j < K && j < 6; j++)
                deriv("dlnActCoeffdlnN", lg[k], s.n[j], d[K * j + k] / s.n[j], 1e-6);
            auto dg = V();
            try { p.getdlnActCoeffdlnN_diag(dg.data()); for (size_t k = 0; k < K; k++) deriv("dlnActCoeffdlnN_diag", lg[k], s.n[k], dg[k] / s.n[k], 1e-6); }
            catch (NotImplementedError&) {}
        }
        if (auto* q = dynamic_cast<GibbsExcessVPSSTP*>(&p)) {
            auto dt = V();
            try { q->getdlnActCoeffdT(dt.data()); for (size_t k = 0; k < K; k++) deriv("dlnActCoeffdT", lg[k], T, dt[k], 1e-9); }
            catch (NotImplementedError&) {}
        }
    })
    reach("byTP");
}
// state given by temperature, density and amounts
static void byTD(const Model& m) {
    auto ph = phase(m);
    ThermoPhase& p = *ph;
    State s = setSym(p, m);
    apply(p, m, s);
    size_t K = p.nSpecies();
    double T = s.T, rho = s.rho, P = s.P, A = 1e3, B = 1;
    double W = p.meanMolecularWeight(), v = p.molarVolume();
    double u = p.intEnergy_mole(), S0 = p.entropy_mole(), h = p.enthalpy_mole(), g = p.gibbs_mole();
    double cp = p.cp_mole(), cv = p.cv_mole(), al = p.thermalExpansionCoeff(), ka = p.isothermalCompressibility();
    deriv("cv=du/dT", u, T, cv, B);
    deriv("cv=T ds/dT", S0, T, cv / T, 1e-3);
    // d/drho at constant T; v = W / rho
    deriv("P=-df/dv", (u - T * S0) , rho, P * W / (rho * rho), 1e-6);
    deriv("kappa=-1/v dv/dP", P, rho, 1 / (rho * ka), 1e-3);
    deriv("alpha/kappa=dP/dT", P, T, al / ka, 1e-3);
    deriv("ds/dv=dP/dT", S0, rho, -al / ka * W / (rho * rho), 1e-6);
    eq("cp-cv", (cp - cv) * ka, T * v * al * al, 1e-9);
    double c = p.soundSpeed();
    eq("sound speed", c * c * rho * ka * cv, cp, B);
    deriv("dh/dT_P via T,rho", h, T, cv + v * al / ka, B);
    (void) g; (void) A; (void) K;
}
// chemical potentials from the Helmholtz energy: total volume fixed
static void helm(const Model& m, size_t k1) {
    auto ph = phase(m);
    ThermoPhase& p = *ph;
    size_t K = p.nSpecies();
    vector<double> n(K);
    double T = m.comp == "fix" ? 900.0 : in("T", m.Tlo, m.Thi), M = 0, nt = 0;
    for (size_t k = 0; k < K; k++) { n[k] = k == k1 ? in("n" + S(k), 0.2, 3) : 1.0; M += n[k] * p.molecularWeight(k); nt += n[k]; }
    // total volume 1 m^3: density is the total mass
    p.setMoleFractions(n.data());
    p.setState_TD(T, M);
    sym_assume(p.pressure() > 1e3);
    vector<double> mu(K), vk(K);
    p.getChemPotentials(mu.data());
    double F = nt * (p.intEnergy_mole() - T * p.entropy_mole());
    deriv("mu=dF/dn", F, n[k1], mu[k1], 1e3);
    p.getPartialMolarVolumes(vk.data());
    double P = p.pressure(), ka = p.isothermalCompressibility();
    deriv("vk=kappa dP/dn", P, n[k1], vk[k1] / ka, 1e-3);
}
// Gibbs-Duhem consistency of the electrolyte models at a given temperature and pressure
static void duhem(const Model& m, size_t ka, size_t kb) {
    auto ph = phase(m);
    ThermoPhase& p = *ph;
    size_t K = p.nSpecies();
    vector<double> n(K), mu(K);
    double nt = 0;
    for (size_t k = 0; k < K; k++) {
        n[k] = k == 0 ? 1.0 : 0.003 + 0.002 * k;
        if (k == ka || k == kb) n[k] = k == 0 ? in("n0", 0.8, 1.2) : in("n" + S(k), 1e-3, 0.03);
        nt += n[k];
    }
    p.setMoleFractions(n.data());
    p.setState_TP(320, 2e5);
    p.getChemPotentials(mu.data());
    double G = nt * p.gibbs_mole();
    for (size_t k : {ka, kb}) deriv("mu=dG/dn", G, n[k], mu[k], 1e3);
    p.getPartialMolarEntropies(mu.data());
    double Q = nt * p.entropy_mole();
    for (size_t k : {ka, kb}) deriv("sk=dS/dn", Q, n[k], mu[k], 1);
    p.getPartialMolarEnthalpies(mu.data());
    Q = nt * p.enthalpy_mole();
    for (size_t k : {ka, kb}) deriv("hk=dH/dn", Q, n[k], mu[k], 1e3);
    p.getPartialMolarVolumes(mu.data());
    Q = nt * p.molarVolume();
    for (size_t k : {ka, kb}) deriv("vk=dV/dn", Q, n[k], mu[k], 1e-6);
}
CASES {
    for (auto& m : models()) {
        const Model* q = &m;
        if (m.td) {
            bool deep = m.id.substr(0, 5) == "deep_";
            if (m.id == "peng_robinson") {   // symbolic composition, or symbolic temperature, within the quick budget
                static Model f = m;
                f.comp = "fix";
                addcase(m.id, [] { byTD(f); });
                addcase("deep_" + m.id + "_x", [q] { byTD(*q); });
                for (size_t k = 0; k < 2; k++) {
                    addcase("helmholtz_" + m.id + "_" + S(k), [k] { helm(f, k); });
                    addcase("deep_helmholtz_" + m.id + "_" + S(k), [q, k] { helm(*q, k); });
                }
                continue;
            }
            addcase(m.id, [q] { byTD(*q); });
            if (!deep) for (size_t k = 0; k < 2; k++) addcase("helmholtz_" + m.id + "_" + S(k), [q, k] { helm(*q, k); });
        } else {
            addcase(m.id, [q] { byTP(*q); });
            if (m.id.substr(0, 2) == "dh" && m.id.substr(m.id.size() - 2) != "ak") 
                for (size_t k : {1, 2, 4}) addcase("duhem_" + m.id + "_" + S(k), [q, k] { duhem(*q, k == 1 ? 0 : k - 1, k); });
        }
    }
}
