// Composition and state setters: what is set is what is read back
#include "models.h"
#include "cantera/thermo/PlasmaPhase.h"
#include "cantera/thermo/MolalityVPSSTP.h"
#include "cantera/thermo/Species.h"
#include "cantera/thermo/IdealGasPhase.h"
#include "cantera/base/utilities.h"
typedef vector<double> Vec;
static Vec amounts(size_t K, const string& tag, double lo = 0.02, double hi = 1) {
    Vec v(K); for (size_t k = 0; k < K; k++) v[k] = in(tag + S(k), lo, hi); return v;
}
static double sum(const Vec& v) { double s = 0; for (double x : v) s += x; return s; }
// every representation of the composition when the mole amounts are n (to a common factor)
static void comp(ThermoPhase& p, const string& how, const Vec& n, bool norm = true) {
    size_t K = p.nSpecies(), M = p.nElements(); Vec w = p.molecularWeights(), x(K), y(K), c(K);
    double s = norm ? sum(n) : 1, m = 0, sx = 0; for (size_t k = 0; k < K; k++) { m += n[k] * w[k]; sx += n[k]; }
    double W = m / s;
    p.getMoleFractions(x.data()); p.getMassFractions(y.data()); p.getConcentrations(c.data());
    for (size_t k = 0; k < K; k++) {
        string l = how + " ";
        eq(l + "mole fraction", x[k], n[k] / s, 0.1); eq(l + "mole fraction of one", p.moleFraction(k), n[k] / s, 0.1); eq(l + "mole fraction by name", p.moleFraction(p.speciesName(k)), n[k] / s, 0.1);
        eq(l + "mass fraction", y[k], n[k] * w[k] / m, 0.1); eq(l + "mass fraction of one", p.massFraction(k), n[k] * w[k] / m, 0.1); eq(l + "mass fraction by name", p.massFraction(p.speciesName(k)), n[k] * w[k] / m, 0.1); eq(l + "mass fraction pointer", p.massFractions()[k], n[k] * w[k] / m, 0.1);
        if (p.isCompressible()) { eq(l + "concentration", c[k], p.density() * n[k] / m, 1e-3); eq(l + "concentration of one", p.concentration(k), p.density() * n[k] / m, 1e-3); }
        else { eq(l + "concentration", c[k], p.concentration(k), 1e-3); }
    }
    eq(how + " mean weight", p.meanMolecularWeight(), W, 1);
    eq(how + " molar density", p.molarDensity(), p.density() / W, 1e-3); if (!dynamic_cast<SurfPhase*>(&p)) eq(how + " molar volume", p.molarVolume(), W / p.density(), 1e-3);
    Vec q = amounts(K, "Q", -3, 3); double mean = 0, z = 0, atoms = 0; for (size_t k = 0; k < K; k++) { mean += q[k] * n[k] / s; z += p.charge(k) * n[k] / s; for (size_t e = 0; e < M; e++) atoms += p.nAtoms(k, e) * n[k]; }
    eq(how + " mean of a property", p.mean_X(q), mean, 1); eq(how + " charge density", p.chargeDensity(), z * Faraday, 1e6);
    if (norm) { double sl = 0; for (size_t k = 0; k < K; k++) sl += n[k] / s * log(n[k] / s); eq(how + " sum x log x", p.sum_xlogx(), sl, 1); }
    if (norm && atoms != 0) for (size_t e = 0; e < M; e++) {
        double a = 0, b = 0; for (size_t k = 0; k < K; k++) { a += p.nAtoms(k, e) * n[k]; b += p.nAtoms(k, e) * n[k] * p.atomicWeight(e) / w[k] * w[k]; }
        eq(how + " elemental mole fraction", p.elementalMoleFraction(e), a / atoms, 0.1); eq(how + " elemental mass fraction", p.elementalMassFraction(e), b / m, 0.1);
    }
}
static void composition(const Model& m) {
    auto pp = phase(m); auto& p = *pp; size_t K = p.nSpecies(); Vec w = p.molecularWeights();
    State s = setSym(p, m); apply(p, m, s);
    Vec n = amounts(K, "a", 0.05, 2), y = n; double T = p.temperature(), P = p.pressure(), rho = p.density();
    auto kept = [&](const string& how) {
        eq(how + " keeps temperature", p.temperature(), T, 1);
        if (p.isCompressible()) eq(how + " keeps density", p.density(), rho, 1); else eq(how + " keeps pressure", p.pressure(), P, 1);
    };
    p.setMoleFractions(n.data()); comp(p, "mole fractions", n); kept("mole fractions");
    Vec ym(K), mx(K); for (size_t k = 0; k < K; k++) ym[k] = y[k] / w[k];
    p.setMassFractions(y.data()); comp(p, "mass fractions", ym); kept("mass fractions");
    // names and strings; species not named are absent
    Composition c; Vec part(K, 0.0); size_t nn = 0;
    for (size_t k = K; k-- > 0; ) if (K == 1 || k % 3 != 1) { c[p.speciesName(k)] = part[k] = in("b" + S(k), 0.05, 2); nn++; }
    p.setMoleFractionsByName(c); for (size_t k = 0; k < K; k++) eq("by name", p.moleFraction(k), part[k] / sum(part), 0.1);
    auto got = p.getMoleFractionsByName(); tru("names reported", got.size() == nn); for (auto& [name, v] : got) eq("reported by name", v, p.moleFraction(name), 0.1);
    p.setMassFractionsByName(c); for (size_t k = 0; k < K; k++) eq("by name, mass", p.massFraction(k), part[k] / sum(part), 0.1);
    auto gom = p.getMassFractionsByName(); tru("names reported, mass", gom.size() == nn); for (auto& [name, v] : gom) eq("reported by name, mass", v, p.massFraction(name), 0.1);
    string str = p.speciesName(0) + ":0.5"; if (K > 1) str += ", " + p.speciesName(K - 1) + ": 1.5";
    p.setMoleFractionsByName(str); eq("string", p.moleFraction(0), K > 1 ? 0.25 : 1, 0.1); if (K > 1) eq("string, last", p.moleFraction(K - 1), 0.75, 0.1);
    p.setMassFractionsByName(str); eq("string, mass", p.massFraction(0), K > 1 ? 0.25 : 1, 0.1); if (K > 1) eq("string, mass, last", p.massFraction(K - 1), 0.75, 0.1);
    // negative entries count as zero
    if (K > 1) { Vec neg = n; neg[0] = in("negative", -1, -0.01); p.setMoleFractions(neg.data()); neg[0] = 0; double t = sum(neg); for (size_t k = 0; k < K; k++) eq("negative ignored", p.moleFraction(k), neg[k] / t, 0.1); }
    if (K > 1) { Vec neg = n; neg[K - 1] = in("negative", -1, -0.01); p.setMassFractions(neg.data()); neg[K - 1] = 0; double t = sum(neg); for (size_t k = 0; k < K; k++) eq("negative ignored, mass", p.massFraction(k), neg[k] / t, 0.1); }
    // exactly as given where documented
    p.setMolesNoTruncate(n.data()); comp(p, "moles", n);
    // conversions without changing the state
    p.setMoleFractions(n.data());
    Vec q1(K), q2(K); p.moleFractionsToMassFractions(n.data(), q1.data()); p.massFractionsToMoleFractions(y.data(), q2.data());
    double a = 0, b = 0; for (size_t k = 0; k < K; k++) { a += n[k] * w[k]; b += y[k] / w[k]; }
    for (size_t k = 0; k < K; k++) { eq("to mass fractions", q1[k], n[k] * w[k] / a, 0.1); eq("to mole fractions", q2[k], y[k] / w[k] / b, 0.1); eq("composition untouched", p.moleFraction(k), n[k] / sum(n), 0.1); }
    reach("composition");
}
static void nonorm(const Model& m) {
    auto pp = phase(m); auto& p = *pp; size_t K = p.nSpecies(); Vec w = p.molecularWeights();
    State s = setSym(p, m); apply(p, m, s);
    Vec n = amounts(K, "a", 0.05, 2), y = n;
    p.setMoleFractions_NoNorm(n.data()); comp(p, "mole fractions as given", n, false);
    p.setMassFractions_NoNorm(y.data()); double c = 0; for (size_t k = 0; k < K; k++) c += y[k] / w[k];
    for (size_t k = 0; k < K; k++) { eq("mass fraction as given", p.massFraction(k), y[k], 0.1); eq("its mole fraction", p.moleFraction(k), y[k] / w[k] / c, 0.1); }
    eq("its mean weight", p.meanMolecularWeight(), 1 / c, 1);
    if (p.isCompressible()) {
        double T = p.temperature(), m2 = 0; for (size_t k = 0; k < K; k++) m2 += n[k] * w[k];
        p.setConcentrations(n.data()); comp(p, "concentrations", n); eq("density from concentrations", p.density(), m2, 1); eq("temperature", p.temperature(), T, 1);
        for (size_t k = 0; k < K; k++) eq("concentration as set", p.concentration(k), n[k], 0.1);
        Vec neg = n; neg[0] = in("negative", -1, -0.01); p.setConcentrations(neg.data()); eq("negative concentration ignored", p.concentration(0), 0, 0.1); for (size_t k = 1; k < K; k++) eq("others kept", p.concentration(k), n[k], 0.1);
        double sn = 0, sm = 0; for (size_t k = 1; k < K; k++) { sn += n[k]; sm += n[k] * w[k]; }
        if (K > 1) { eq("density without it", p.density(), sm, 1); eq("mean weight without it", p.meanMolecularWeight(), sm / sn, 1); eq("molar density without it", p.molarDensity(), sn, 0.1); for (size_t k = 1; k < K; k++) eq("mole fractions without it", p.moleFraction(k), n[k] / sn, 0.1); }
        p.setConcentrationsNoNorm(n.data()); comp(p, "concentrations as given", n);
        for (size_t k = 0; k < K; k++) eq("concentration as given", p.concentration(k), n[k], 0.1); eq("density from concentrations as given", p.density(), m2, 1);
    }
    reach("nonorm");
}
// every state variable of two objects
static void same(ThermoPhase& a, ThermoPhase& b, const string& how) {
    eq(how + " temperature", a.temperature(), b.temperature(), 1); eq(how + " pressure", a.pressure(), b.pressure(), 1); eq(how + " density", a.density(), b.density(), 1);
    for (size_t k = 0; k < a.nSpecies(); k++) { eq(how + " mole fraction", a.moleFraction(k), b.moleFraction(k), 0.1); eq(how + " mass fraction", a.massFraction(k), b.massFraction(k), 0.1); }
    eq(how + " mean weight", a.meanMolecularWeight(), b.meanMolecularWeight(), 1); eq(how + " molar density", a.molarDensity(), b.molarDensity(), 1e-3);
}
static void saved(const Model& m) {
    auto pp = phase(m), rr = phase(m); auto &p = *pp, &r = *rr; State s = setSym(p, m); apply(p, m, s);
    State t = setSym(r, m, "other"); apply(r, m, t);
    Vec v; p.saveState(v); tru("size", v.size() == p.stateSize());
    auto ns = p.nativeState(); tru("temperature", v[ns.at("T")] == p.temperature());
    r.restoreState(v); same(r, p, "restored");
    eq("enthalpy", r.enthalpy_mole(), p.enthalpy_mole(), 1e6);
    Vec u(p.stateSize() + 2, -1); r.saveState(u.size(), u.data()); for (size_t i = 0; i < v.size(); i++) eq("saved again", u[i], v[i], 0.1);
    tru("nothing beyond", u[v.size()] == -1);
    // the same object visited another state meanwhile
    apply(p, m, t); p.restoreState(u.size(), u.data()); same(p, r, "back");
    // scaled states are not normalised
    reach("saved");
}
// state given by temperature, pressure or density, composition in every form
static void pairs(const Model& m) {
    auto pp = phase(m), rr = phase(m); auto &p = *pp, &r = *rr; size_t K = p.nSpecies(); Vec w = p.molecularWeights();
    State s = setSym(p, m); State t = setSym(p, m, "other"); apply(p, m, t); apply(r, m, s);
    Vec n = s.n, y(K); if (m.comp == "one") n.assign(K, 1.0); for (size_t k = 0; k < K; k++) y[k] = n[k] * w[k];
    Composition cx, cy; for (size_t k = 0; k < K; k++) { cx[p.speciesName(k)] = n[k]; cy[p.speciesName(k)] = y[k]; }
    if (m.td) {
        p.setMoleFractions(n.data()); p.setState_TD(s.T, s.rho); same(p, r, "TD");
    } else {
        auto other = [&] { p.setMoleFractions(t.n.data()); p.setState_TP(t.T, t.P); };
        p.setState_TPX(s.T, s.P, n.data()); same(p, r, "TPX"); eq("T set", p.temperature(), s.T, 1); eq("P set", p.pressure(), s.P, 1);
        other(); p.setState_TPY(s.T, s.P, y.data()); same(p, r, "TPY");
        other(); p.setState_TPX(s.T, s.P, cx); same(p, r, "TPX by name");
        other(); p.setState_TPY(s.T, s.P, cy); same(p, r, "TPY by name");
        other(); p.setMoleFractions(n.data()); p.setTemperature(s.T); p.setPressure(s.P); same(p, r, "T then P");
        other(); p.setMassFractions(y.data()); p.setState_TP(s.T, s.P); same(p, r, "TP");
        if (!p.isCompressible()) { other(); p.setPressure(s.P); p.setTemperature(s.T); p.setMoleFractions(n.data()); same(p, r, "P, T, composition"); }
        else { other(); double d = r.density(); p.setMoleFractions(n.data()); p.setState_TD(s.T, d); same(p, r, "TD"); other(); p.setMoleFractions(n.data()); p.setDensity(d); p.setTemperature(s.T); same(p, r, "D then T"); }
    }
    reach("pairs");
}
// a state given as a map, with every spelling of the keys
static void asmap(const Model& m, int form) {
    auto pp = phase(m), rr = phase(m); auto &p = *pp, &r = *rr; size_t K = p.nSpecies(); Vec w = p.molecularWeights();
    State s = setSym(p, m); State t = setSym(p, m, "other"); apply(p, m, t); apply(r, m, s);
    AnyMap a; map<string, double> x, y; for (size_t k = 0; k < K; k++) { x[p.speciesName(k)] = s.n[k]; y[p.speciesName(k)] = s.n[k] * w[k]; }
    const char* T[] = {"T", "temperature"}; const char* P[] = {"P", "pressure"};
    if (form == 0) { a["T"] = s.T; a["P"] = s.P; a["X"] = x; }
    if (form == 1) { a["temperature"] = s.T; a["pressure"] = s.P; a["mole-fractions"] = x; }
    if (form == 2) { a["T"] = s.T; a["pressure"] = s.P; a["Y"] = y; }
    if (form == 3) { a["temperature"] = s.T; a["P"] = s.P; a["mass-fractions"] = y; }
    if (form == 4) { a["T"] = s.T; a["X"] = x; }
    if (form == 5) { a["P"] = s.P; a["Y"] = y; }
    if (form == 6) a["X"] = x;
    if (form == 7) { a["T"] = s.T; a["D"] = r.density(); a["Y"] = y; }
    if (form == 8) { a["T"] = s.T; a["density"] = r.density(); a["X"] = x; }
    if (form == 9) { a["density"] = r.density(); a["P"] = s.P; a["X"] = x; }
    p.setState(a);
    if (form == 4) r.setState_TP(s.T, OneAtm); if (form == 5) r.setState_TP(298.15, s.P); if (form == 6) r.setState_TP(298.15, OneAtm);
    same(p, r, "map"); (void)T; (void)P;
    reach("map");
}
// pairs that need the temperature to be solved for
static void solved(const string& file, const string& name, const string& what, bool linear, double Tlo = 290, double Thi = 600, double d = 60) {
    auto pp = phase(file, name), rr = phase(file, name); auto &p = *pp, &r = *rr; size_t K = p.nSpecies();
    Vec n = amounts(K, "n", 0.1, 1); double T0 = in("T0", Tlo, Thi), T1 = T0 + in("dT", -d, d), P0 = in("P0", 1e5, 2e5), P1 = in("P1", 1e5, 2e5);
    p.setState_TPX(T0, P0, n.data()); r.setState_TPX(T1, P1, n.data());
    double h = r.enthalpy_mass(), u = r.intEnergy_mass(), s = r.entropy_mass(), v = 1 / r.density();
    if (what == "HP") { p.setState_HP(h, P1); eq("pressure", p.pressure(), P1, 1); eq("enthalpy", p.enthalpy_mass(), h, 1e6); }
    if (what == "UV") { p.setState_UV(u, v); eq("volume", 1 / p.density(), v, 1e-2); eq("energy", p.intEnergy_mass(), u, 1e6); }
    if (what == "SP") { p.setState_SP(s, P1); eq("pressure", p.pressure(), P1, 1); ge("entropy", 1e-4, fabs(p.entropy_mass() / s - 1)); }
    if (what == "SV") { p.setState_SV(s, v); eq("volume", 1 / p.density(), v, 1e-2); ge("entropy", 1e-4, fabs(p.entropy_mass() / s - 1)); }
    if (what == "DP") { p.setState_DP(1 / v, P1); eq("volume", 1 / p.density(), v, 1e-2); eq("pressure", p.pressure(), P1, 1); }
    if (linear) eq("temperature", p.temperature(), T1, 100); else ge("temperature", 1e-3, fabs(p.temperature() / T1 - 1));
    for (size_t k = 0; k < K; k++) eq("composition kept", p.moleFraction(k), n[k] / sum(n), 0.1);
    reach("solved");
}
// equivalence ratio and mixture fraction
struct Mix { Vec fuel, ox; };
static Mix streams(ThermoPhase& p, int kind) {
    size_t K = p.nSpecies(); Mix m{Vec(K, 0.0), Vec(K, 0.0)}; auto set = [&](Vec& v, const string& sp, const string& n) { v[p.speciesIndex(sp)] = in(n, 0.1, 1); };
    set(m.ox, "O2", "oO2"); if (kind != 1) set(m.ox, "N2", "oN2"); if (kind == 2) { set(m.ox, "CO2", "oCO2"); set(m.ox, "H2O", "oH2O"); }
    if (kind == 0) set(m.fuel, "CH4", "fCH4"); if (kind == 1) { set(m.fuel, "CH4", "fCH4"); set(m.fuel, "H2S", "fH2S"); }
    if (kind == 2) { set(m.fuel, "CH4", "fCH4"); set(m.fuel, "C2H5OH", "fE"); set(m.fuel, "CO2", "fCO2"); }
    if (kind == 3) { set(m.fuel, "C2H5OH", "fE"); set(m.fuel, "H2S", "fH2S"); set(m.fuel, "N2", "fN2"); set(m.ox, "SO2", "oSO2"); }
    return m;
}
static Composition named(ThermoPhase& p, const Vec& v) { Composition c; for (size_t k = 0; k < v.size(); k++) if (v[k] != 0) c[p.speciesName(k)] = v[k]; return c; }
static void phi(int kind, bool mass, bool byName) {
    auto pp = phase("mix.yaml", "mix"); auto& p = *pp; size_t K = p.nSpecies(); Vec w = p.molecularWeights(); Mix m = streams(p, kind);
    auto basis = mass ? ThermoBasis::mass : ThermoBasis::molar; double T = in("T", 300, 1000), P = in("P", 1e4, 1e6), f = in("phi", 0.1, 4);
    p.setState_TP(T, P);
    Composition cf = named(p, m.fuel), co = named(p, m.ox);
    // mass fractions of both streams and the oxygen each needs beyond what it has
    Vec yf(K), yo(K); double sf = 0, so = 0; for (size_t k = 0; k < K; k++) { yf[k] = mass ? m.fuel[k] : m.fuel[k] * w[k]; yo[k] = mass ? m.ox[k] : m.ox[k] * w[k]; sf += yf[k]; so += yo[k]; }
    auto at = [&](size_t k, const char* e) { return p.nAtoms(k, p.elementIndex(e)); };
    auto need = [&](const Vec& y) { double s = 0; for (size_t k = 0; k < K; k++) s += y[k] / w[k] * (at(k, "C") + at(k, "S") + 0.25 * at(k, "H") - 0.5 * at(k, "O")); return s; };
    double afr = (need(yf) / sf) / (-need(yo) / so);
    double a = byName ? p.stoichAirFuelRatio(cf, co, basis) : p.stoichAirFuelRatio(m.fuel.data(), m.ox.data(), basis);
    eq("air-fuel ratio", a, afr, 1);
    if (byName) p.setEquivalenceRatio(f, cf, co, basis); else p.setEquivalenceRatio(f, m.fuel.data(), m.ox.data(), basis);
    eq("temperature", p.temperature(), T, 1); eq("pressure", p.pressure(), P, 1);
    Vec y(K); double s = 0; for (size_t k = 0; k < K; k++) { y[k] = f * yf[k] / sf + afr * yo[k] / so; s += y[k]; }
    for (size_t k = 0; k < K; k++) eq("mass fraction", p.massFraction(k), y[k] / s, 0.1);
    eq("equivalence ratio", byName ? p.equivalenceRatio(cf, co, basis) : p.equivalenceRatio(m.fuel.data(), m.ox.data(), basis), f, 1);
    double Z = f / (f + afr);
    for (string e : {"Bilger", "C", "H", "N", "S"}) {
        // elements found in one stream only: otherwise both may have the same share of it
        bool inf = false, ino = false; if (e != "Bilger") for (size_t k = 0; k < K; k++) if (at(k, e.c_str())) { if (m.fuel[k] != 0) inf = true; if (m.ox[k] != 0) ino = true; }
        if (e != "Bilger" && inf == ino) continue;
        eq("mixture fraction " + e, byName ? p.mixtureFraction(cf, co, basis, e) : p.mixtureFraction(m.fuel.data(), m.ox.data(), basis, e), Z, 0.1);
    }
    if (kind == 0) eq("equivalence ratio of the mixture", p.equivalenceRatio(), f, 1);
    // the other way round
    double z = in("Z", 0.01, 0.9);
    if (byName) p.setMixtureFraction(z, cf, co, basis); else p.setMixtureFraction(z, m.fuel.data(), m.ox.data(), basis);
    for (size_t k = 0; k < K; k++) eq("mass fraction from mixture fraction", p.massFraction(k), z * yf[k] / sf + (1 - z) * yo[k] / so, 0.1);
    eq("mixture fraction kept", byName ? p.mixtureFraction(cf, co, basis, "Bilger") : p.mixtureFraction(m.fuel.data(), m.ox.data(), basis, "Bilger"), z, 0.1);
    eq("its equivalence ratio", byName ? p.equivalenceRatio(cf, co, basis) : p.equivalenceRatio(m.fuel.data(), m.ox.data(), basis), z / (1 - z) * afr, 1);
    eq("pressure kept", p.pressure(), P, 1);
    reach("phi");
}
static void coverages(const string& name) {
    auto pp = phase("surface-phases.yaml", name); auto& p = dynamic_cast<SurfPhase&>(*pp); size_t K = p.nSpecies();
    double n0 = in("site density", 1e-9, 1e-7); p.setSiteDensity(n0); p.setTemperature(in("T", 300, 1500));
    Vec th = amounts(K, "th", 0.05, 1), g(K), x(K), c(K); double s = sum(th), t = 0; for (size_t k = 0; k < K; k++) t += th[k] / p.size(k);
    auto check = [&](const string& how) {
        p.getCoverages(g.data()); p.getMoleFractions(x.data()); p.getConcentrations(c.data()); double sites = 0;
        for (size_t k = 0; k < K; k++) { eq(how + " coverage", g[k], th[k] / s, 0.1); eq(how + " mole fraction", x[k], th[k] / p.size(k) / t, 0.1); eq(how + " concentration", c[k], n0 * th[k] / s / p.size(k), 1e-9); sites += c[k] * p.size(k); }
        eq(how + " sites", sites, n0, 1e-9); eq(how + " site density", p.siteDensity(), n0, 1e-9);
    };
    p.setCoverages(th.data()); check("coverages");
    Composition m; for (size_t k = 0; k < K; k++) m[p.speciesName(k)] = th[k];
    Vec one(K, 1.0); p.setMoleFractions(one.data()); p.setCoveragesByName(m); check("by name");
    p.setMoleFractions(one.data()); AnyMap a; map<string, double> am(m.begin(), m.end()); a["coverages"] = am; a["T"] = in("T", 300, 1500); p.setState(a); check("map");
    for (size_t k = 0; k < K; k++) x[k] = th[k] / p.size(k); p.setMoleFractions(x.data()); check("mole fractions");
    p.setCoveragesNoNorm(th.data()); p.getCoverages(g.data()); for (size_t k = 0; k < K; k++) eq("as given", g[k], th[k], 0.1);
    reach("coverages");
}
static void molalities(const Model& m) {
    auto pp = phase(m); auto& p = dynamic_cast<MolalityVPSSTP&>(*pp); size_t K = p.nSpecies(); double M0 = p.molecularWeight(0) / 1000, T = in("T", 290, 350), P = in("P", 1e5, 1e6);
    p.setState_TP(T, P);
    Vec b(K), g(K), x(K); b[0] = 1 / M0; for (size_t k = 1; k < K; k++) b[k] = in("b" + S(k), 0.001, 0.05);
    auto check = [&](const string& how) { double s = sum(b); p.getMolalities(g.data()); p.getMoleFractions(x.data()); for (size_t k = 0; k < K; k++) { eq(how + " molality", g[k], b[k], 0.1); eq(how + " mole fraction", x[k], b[k] / s, 0.1); } };
    p.setMolalities(b.data()); check("molalities"); eq("pressure", p.pressure(), P, 1); eq("temperature", p.temperature(), T, 1);
    Vec c(K); for (size_t k = 0; k < K; k++) c[k] = k ? 0.01 : 1; p.setMoleFractions(c.data());
    p.setState_TPM(T + 5, P * 2, b.data()); check("TPM"); eq("TPM pressure", p.pressure(), P * 2, 1); eq("TPM temperature", p.temperature(), T + 5, 1);
    p.setMoleFractions(b.data()); check("mole fractions");
    // neutral by name: every ion given so that charges balance
    double pos = 0; int last = -1; for (size_t k = 1; k < K; k++) if (p.charge(k) < 0) last = k;
    if (last > 0) {
        for (size_t k = 1; k < K; k++) if (int(k) != last) pos += b[k] * p.charge(k);
        b[last] = -pos / p.charge(last); if (b[last] > 1e-4) { Composition cm; for (size_t k = 1; k < K; k++) cm[p.speciesName(k)] = b[k]; p.setMolalitiesByName(cm); check("by name"); }
    }
    reach("molalities");
}
static void plasma() {
    auto pp = phase("mix.yaml", "plasma"); auto& p = dynamic_cast<PlasmaPhase&>(*pp); size_t K = p.nSpecies(); Vec n = amounts(K, "n", 0.1, 1);
    double T = in("T", 300, 2000), P = in("P", 1e4, 1e6), Te = in("Te", 5000, 20000);
    p.setMoleFractions(n.data()); p.setState_TP(T, P); p.setElectronTemperature(Te);
    eq("electron temperature", p.electronTemperature(), Te, 100); eq("temperature", p.temperature(), T, 100); 
    for (size_t k = 0; k < K; k++) eq("mole fraction", p.moleFraction(k), n[k] / sum(n), 0.1);
    eq("mean electron energy", p.meanElectronEnergy(), 1.5 * Te * Boltzmann / ElectronCharge, 1);
    p.setMeanElectronEnergy(in("eps", 1, 5)); eq("from the mean energy", p.electronTemperature(), 2.0 / 3 * in("eps", 1, 5) * ElectronCharge / Boltzmann, 1000);
    reach("plasma");
}
// adding a species leaves the others' amounts in proportion and keeps the books consistent
static void grown() {
    dataDirs(); auto root = AnyMap::fromYamlFile("mix.yaml"); auto g = phase("mix.yaml", "mix"); IdealGasPhase p; p.addUndefinedElements();
    vector<string> names = {"CH4", "O2", "CO2"}; for (auto& s : names) p.addSpecies(g->species(s)); p.initThermo();
    Vec n = amounts(3, "n", 0.1, 1); p.setState_TPX(in("T", 300, 2000), in("P", 1e4, 1e6), n.data());
    comp(p, "three", n);
    p.addSpecies(g->species("H2S")); tru("four", p.nSpecies() == 4);
    for (size_t k = 0; k < 3; k++) eq("kept", p.moleFraction(k), n[k] / sum(n), 0.1); eq("none of the new one", p.moleFraction(3), 0, 0.1);
    Vec q = amounts(4, "q", 0.1, 1); p.setMoleFractions(q.data()); comp(p, "four", q);
    p.setState_TPX(in("T", 300, 2000), in("P", 1e4, 1e6), q.data()); eq("pressure", p.pressure(), in("P", 1e4, 1e6), 1);
    reach("grown");
}
CASES {
    static vector<Model> all = models();
    static Model flow = {"mix", "mix.yaml", "mix", 300, 2000, 1e4, 1e7, "x", {}, false}, sol = {"solution", "mix.yaml", "solution", 300, 1000, 1e5, 1e7, "x", {}, false}, inc = {"incompressible", "mix.yaml", "incompressible", 300, 1000, 1e5, 1e7, "x", {}, false};
    all.push_back(flow); all.push_back(sol); all.push_back(inc);
    for (auto& m : all) {
        bool deep = m.id.substr(0, 5) == "deep_"; string id = deep ? m.id.substr(5) : m.id, pre = deep ? "deep_" : ""; const Model* q = &m;
        if (m.comp != "one") { addcase(pre + "composition_" + id, [q] { composition(*q); }); if (id != "lattice") addcase(pre + "nonorm_" + id, [q] { nonorm(*q); }); }
        addcase(pre + "saved_" + id, [q] { saved(*q); }); if (id.substr(0, 4) != "dhv_" && id != "hmwv") addcase(pre + "pairs_" + id, [q] { pairs(*q); });
    }
    for (auto* m : {&flow, &sol, &inc}) for (int f = 0; f < (m == &flow ? 10 : 7); f++) addcase("map_" + m->id + "_" + S(f), [m, f] { asmap(*m, f); });
    for (string w : {"HP", "UV", "SP", "SV", "DP"}) { addcase("solved_gas_" + w, [w] { solved("mix.yaml", "small", w, w != "SP" && w != "SV"); }); addcase("solved_nasa_" + w, [w] { solved("flame.yaml", "gas", w, w == "DP", 400, 900, 30); }); }
    for (string f : {"solution", "incompressible", "solid"}) for (string w : {"HP", "SP"}) addcase("solved_" + f + "_" + w, [f, w] { solved("mix.yaml", f, w, w == "HP"); });
    for (int k = 0; k < 4; k++) for (int b = 0; b < 2; b++) for (int n = 0; n < 2; n++) addcase("phi_" + S(k) + (b ? "_mass" : "_molar") + (n ? "_names" : ""), [=] { phi(k, b, n); });
    for (string n : {"Pt-surf", "Pt-multi-sites", "TPB"}) addcase("coverages_" + n, [n] { coverages(n); });
    for (auto& m : all) if (m.comp.substr(0, 2) == "aq" && m.id.substr(0, 5) != "deep_" && m.id != "ideal_molal_x") { const Model* q = &m; addcase("molalities_" + m.id, [q] { molalities(*q); }); }
    addcase("plasma", plasma); addcase("grown", grown);
}
