// Identities between the thermodynamic functions of every phase model, at every state
#include "models.h"
#include "cantera/thermo/PlasmaPhase.h"
static void identities(const Model& m) {
    auto ph = phase(m);
    ThermoPhase& p = *ph;
    State s = setSym(p, m);
    apply(p, m, s);
    size_t K = p.nSpecies();
    double T = s.T, P = s.P, RT = GasConstant * T, A = 1e3;   // A: J/kmol, the natural smallness scale
    auto has = [&](const string& k) { return !m.skip.count(k); };
    auto V = [&]() { return vector<double>(K); };
    vector<double> X(K);
    p.getMoleFractions(X.data());
    double W = 0, nt = 0;
    for (size_t k = 0; k < K; k++) { eq("X", X[k], s.n[k] / s.ntot, 1e-8); W += X[k] * p.molecularWeight(k); nt += X[k]; }
    eq("sum X", nt, 1.0); eq("mean W", p.meanMolecularWeight(), W);
    double v = p.molarVolume();
    if (p.nDim() == 3) eq("v", v, W / p.density(), 1e-6);
    eq("molar density", p.molarDensity() * W, p.density());
    eq("T", p.temperature(), T); if (!m.td) eq("P", p.pressure(), P);
    eq("RT", p.RT(), RT);
    double h = p.enthalpy_mole(), g = p.gibbs_mole(), S0 = p.entropy_mole();
    double u = 0;
    bool hasU = true;
    try { u = p.intEnergy_mole(); } catch (NotImplementedError&) { hasU = false; }
    if (has("g_hts")) eq("g=h-Ts", g, h - T * S0, A);
    if (hasU) eq("h=u+Pv", h, u + P * v, A);
    eq("h mass", p.enthalpy_mass() * W, h, A); eq("s mass", p.entropy_mass() * W, S0, 1e-3);
    eq("g mass", p.gibbs_mass() * W, g, A);
    if (hasU) eq("u mass", p.intEnergy_mass() * W, u, A);
    TRY({ double cp = p.cp_mole(); eq("cp mass", p.cp_mass() * W, cp, 1e-3); })
    TRY({ double cv = p.cv_mole(); eq("cv mass", p.cv_mass() * W, cv, 1e-3); })
    auto sum = [&](const vector<double>& f) { double r = 0; for (size_t k = 0; k < K; k++) r += X[k] * f[k]; return r; };
    vector<double> hk = V(), gk = V(), sk = V(), uk = V(), vk = V(), ck = V();
    bool H = true, G = true, SS = true, U = true, VV = true, C = true;
    try { p.getPartialMolarEnthalpies(hk.data()); } catch (NotImplementedError&) { H = false; }
    try { p.getChemPotentials(gk.data()); } catch (NotImplementedError&) { G = false; }
    try { p.getPartialMolarEntropies(sk.data()); } catch (NotImplementedError&) { SS = false; }
    try { p.getPartialMolarIntEnergies(uk.data()); } catch (NotImplementedError&) { U = false; }
    try { p.getPartialMolarVolumes(vk.data()); } catch (NotImplementedError&) { VV = false; }
    try { p.getPartialMolarCp(ck.data()); } catch (NotImplementedError&) { C = false; }
    if (has("sum")) {
        if (H) eq("h=sum", h, sum(hk), A);
        if (G) eq("g=sum", g, sum(gk), A);
        // where g, h and their sums hold species by species, the sums of s and u follow
        bool impS = H && G && has("g_hts") && has("gk_hkts"), impU = H && VV;
        if (SS && !impS) eq("s=sum", S0, sum(sk), 1e-3);
        if (U && hasU && !impU) eq("u=sum", u, sum(uk), A);
        if (VV) eq("v=sum", v, sum(vk), 1e-9);
        if (C) eq("cp=sum", p.cp_mole(), sum(ck), 1e-3);
    }
    if (H && U && VV) for (size_t k = 0; k < K; k++) eq("hk=uk+Pvk", hk[k], uk[k] + P * vk[k], A);
    if (G && H && SS && has("gk_hkts")) for (size_t k = 0; k < K; k++) eq("gk=hk-Tsk", gk[k], hk[k] - T * sk[k], A);
    // standard state
    TRY({
        auto h0 = V(), u0 = V(), v0 = V();
        p.getEnthalpy_RT(h0.data()); p.getIntEnergy_RT(u0.data()); p.getStandardVolumes(v0.data());
        for (size_t k = 0; k < K; k++) eq("h0=u0+Pv0", h0[k] * RT, u0[k] * RT + P * v0[k], A);
    })
    TRY({
        auto h0 = V(), g0 = V(), s0 = V(), mu0 = V();
        p.getEnthalpy_RT(h0.data()); p.getGibbs_RT(g0.data()); p.getEntropy_R(s0.data());
        for (size_t k = 0; k < K; k++) eq("g0=h0-s0", g0[k] * RT, h0[k] * RT - RT * s0[k], A);
        p.getStandardChemPotentials(mu0.data());
        if (has("mu0")) for (size_t k = 0; k < K; k++) eq("mu0=g0RT", mu0[k], g0[k] * RT, A);
        auto pg = V();
        try { p.getPureGibbs(pg.data()); for (size_t k = 0; k < K; k++) eq("pure gibbs", pg[k], g0[k] * RT, A); } catch (NotImplementedError&) {}
    })
    TRY({
        auto mu0 = V(), a = V();
        p.getStandardChemPotentials(mu0.data()); p.getActivities(a.data());
        if (G && has("mu_a")) for (size_t k = 0; k < K; k++) eq("mu=mu0+RTln a", gk[k], mu0[k] + RT * log(a[k]), A);
    })
    TRY({
        auto a = V(), gam = V();
        p.getActivities(a.data()); p.getActivityCoefficients(gam.data());
        if (has("actcoef")) for (size_t k = 0; k < K; k++) eq("a=gamma X", a[k], gam[k] * X[k], 1e-9);
    })
    TRY({
        auto lg = V(), gam = V();
        p.getLnActivityCoefficients(lg.data()); p.getActivityCoefficients(gam.data());
        for (size_t k = 0; k < K; k++) eq("ln gamma", log(gam[k]), lg[k], 1e-6);
    })
    TRY({
        auto a = V(), c = V();
        p.getActivities(a.data()); p.getActivityConcentrations(c.data());
        for (size_t k = 0; k < K; k++) eq("C=a C0", c[k], a[k] * p.standardConcentration(k), 1e-12);
        for (size_t k = 0; k < K; k++) eq("ln C0", p.logStandardConc(k), log(p.standardConcentration(k)), 1e-6);
    })
    TRY({
        auto ec = V(); p.getElectrochemPotentials(ec.data());
        if (G) for (size_t k = 0; k < K; k++) eq("electrochem", ec[k], gk[k] + Faraday * p.electricPotential() * p.charge(k), A);
    })
    // reference state
    TRY({
        auto h0 = V(), u0 = V(), v0 = V();
        p.getEnthalpy_RT_ref(h0.data()); p.getIntEnergy_RT_ref(u0.data()); p.getStandardVolumes_ref(v0.data());
        for (size_t k = 0; k < K; k++) eq("href=uref+P0vref", h0[k] * RT, u0[k] * RT + p.refPressure() * v0[k], 1e3);
    })
    TRY({
        auto h0 = V(), g0 = V(), s0 = V(), gr = V();
        p.getEnthalpy_RT_ref(h0.data()); p.getGibbs_RT_ref(g0.data()); p.getEntropy_R_ref(s0.data()); p.getGibbs_ref(gr.data());
        for (size_t k = 0; k < K; k++) { eq("gref", g0[k] * RT, gr[k], A); eq("gref=href-sref", g0[k], h0[k] - s0[k], 1e-6); }
    })
    // electric potential enters chemical potentials only through the charge
    if (G && m.comp != "one") {
        double phi = in("phi", -2, 2);
        auto g1 = V(), e1 = V();
        p.setElectricPotential(phi);
        p.getChemPotentials(g1.data());
        bool ok = true;
        try { p.getElectrochemPotentials(e1.data()); } catch (NotImplementedError&) { ok = false; }
        if (ok) for (size_t k = 0; k < K; k++) eq("electrochem phi", e1[k] - g1[k], Faraday * phi * p.charge(k), A);
    }
}
// a plasma whose electrons have the temperature of the gas is an ideal gas
typedef std::function<void(ThermoPhase&, vector<double>&)> Ask;
#define PV(n) {#n, [](ThermoPhase& p, vector<double>& o) { o.resize(p.nSpecies()); p.n(o.data()); }}
#define PS(n) {#n, [](ThermoPhase& p, vector<double>& o) { o = {p.n()}; }}
static const vector<std::pair<string, Ask>>& plasmaGetters() {
    static vector<std::pair<string, Ask>> l = {
        PS(enthalpy_mole), PS(pressure), PS(density), PS(RT), PS(meanMolecularWeight), PS(molarDensity), PS(isothermalCompressibility), PS(thermalExpansionCoeff),
        PV(getPartialMolarEnthalpies), PV(getPartialMolarIntEnergies), PV(getPartialMolarVolumes), PV(getChemPotentials), PV(getPartialMolarEntropies),
        PV(getEnthalpy_RT), PV(getEnthalpy_RT_ref), PV(getEntropy_R_ref), PV(getGibbs_RT_ref), PV(getGibbs_ref), PV(getIntEnergy_RT_ref), PV(getStandardVolumes_ref), PV(getActivityConcentrations), PV(getActivityCoefficients), PV(getStandardVolumes),
    };
    return l;
}
static void plasmaGas(size_t i) {
    auto pp = phase("plasma.yaml", "plasma"), gg = phase("plasma.yaml", "gas"); auto& p = dynamic_cast<PlasmaPhase&>(*pp); size_t K = p.nSpecies();
    double T = in("T", 300, 3000), P = in("P", 1e3, 1e6); vector<double> x(K), a, b; for (size_t k = 0; k < K; k++) x[k] = in("x" + S(k), 0.02, 1);
    p.setMoleFractions(x.data()); gg->setMoleFractions(x.data()); p.setState_TP(T, P); gg->setState_TP(T, P); p.setElectronTemperature(T);
    auto& g = plasmaGetters()[i]; g.second(p, a); g.second(*gg, b);
    for (size_t k = 0; k < a.size(); k++) eq(g.first, a[k], b[k], fabs(b[k]) * 1e-6 + 1e-12);
    reach("plasma");
}
// the identities of the two-temperature phase itself
static void plasma(const string& what) {
    auto pp = phase("plasma.yaml", "plasma"); auto& p = dynamic_cast<PlasmaPhase&>(*pp); size_t K = p.nSpecies();
    double T = in("T", 300, 3000), P = in("P", 1e3, 1e6), Te = in("Te", 5000, 40000), R = GasConstant; vector<double> x(K), a(K), b(K), c(K); for (size_t k = 0; k < K; k++) x[k] = in("x" + S(k), 0.02, 1);
    p.setMoleFractions(x.data()); p.setState_TP(T, P); p.setElectronTemperature(Te); p.getMoleFractions(x.data());
    auto sum = [&](const vector<double>& v) { double s = 0; for (size_t k = 0; k < K; k++) s += v[k] * x[k]; return s; };
    auto at = [&](size_t k) { return p.charge(k) < 0 && p.nAtoms(k, p.elementIndex("O")) == 0 ? Te : T; };
    if (what == "enthalpy") { p.getPartialMolarEnthalpies(a.data()); p.getEnthalpy_RT(b.data()); eq("sum", p.enthalpy_mole(), sum(a), 1e3); for (size_t k = 0; k < K; k++) eq("own temperature", a[k], b[k] * R * at(k), 1e3); }
    if (what == "energy") { p.getPartialMolarIntEnergies(a.data()); p.getPartialMolarEnthalpies(b.data()); for (size_t k = 0; k < K; k++) eq("u = h - RT", a[k], b[k] - R * at(k), 1e3); }
    if (what == "reference") { p.getEnthalpy_RT_ref(a.data()); p.getEntropy_R_ref(b.data()); p.getGibbs_RT_ref(c.data()); for (size_t k = 0; k < K; k++) eq("g = h - s", c[k], a[k] - b[k], 1e-3); p.getGibbs_ref(a.data()); for (size_t k = 0; k < K; k++) eq("gibbs", a[k], c[k] * R * at(k), 1e3); p.getStandardVolumes_ref(a.data()); for (size_t k = 0; k < K; k++) eq("volume", a[k], R * at(k) / p.refPressure(), 1e-3); }
    if (what == "standard") { p.getEnthalpy_RT(a.data()); p.getEntropy_R(b.data()); p.getGibbs_RT(c.data()); for (size_t k = 0; k < K; k++) eq("g = h - s", c[k], a[k] - b[k], 1e-3); p.getStandardChemPotentials(a.data()); for (size_t k = 0; k < K; k++) eq("potential", a[k], c[k] * R * at(k), 1e3); }
    if (what == "chemical") { p.getChemPotentials(a.data()); p.getPartialMolarEnthalpies(b.data()); p.getPartialMolarEntropies(c.data()); for (size_t k = 0; k < K; k++) eq("mu = h - Ts", a[k], b[k] - at(k) * c[k], 1e3); p.getStandardChemPotentials(b.data()); for (size_t k = 0; k < K; k++) eq("mu = mu0 + RT ln x", a[k], b[k] + R * at(k) * log(x[k]), 1e3); }
    reach("plasma");
}
CASES {
    for (auto& m : models()) { const Model* q = &m; addcase(m.id, [q] { identities(*q); }); }
    for (size_t i = 0; i < plasmaGetters().size(); i++) addcase("plasma_gas_" + plasmaGetters()[i].first, [i] { plasmaGas(i); });
    for (string w : {"enthalpy", "energy", "reference", "standard", "chemical"}) addcase("plasma_" + w, [w] { plasma(w); });
}
