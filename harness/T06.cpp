// What an object reports depends on its current state only: objects with a history against fresh ones
#include "models.h"
#include "kin.h"
#include "cantera/transport/Transport.h"
#include "cantera/transport/GasTransport.h"
typedef vector<double> D;
template<class T> struct Getter { const char* name; std::function<void(T&, D&)> f; };
template<class T> using List = vector<Getter<T>>;
typedef ThermoPhase Thm;
#define V(n) {#n, [](Thm& p, D& o) { o.resize(p.nSpecies()); p.n(o.data()); }}
#define SC(n) {#n, [](Thm& p, D& o) { o = {p.n()}; }}
static const List<Thm>& thermoGetters() {
    static List<Thm> l = {
        V(getEnthalpy_RT_ref), V(getGibbs_RT_ref), V(getEntropy_R_ref), V(getCp_R_ref), V(getStandardVolumes_ref), V(getGibbs_ref), V(getIntEnergy_RT_ref),
        V(getEnthalpy_RT), V(getGibbs_RT), V(getEntropy_R), V(getCp_R), V(getStandardVolumes), V(getPureGibbs), V(getStandardChemPotentials),
        V(getPartialMolarEnthalpies), V(getPartialMolarEntropies), V(getPartialMolarCp), V(getPartialMolarVolumes), V(getPartialMolarIntEnergies),
        V(getChemPotentials), V(getActivities), V(getActivityCoefficients), V(getActivityConcentrations), V(getLnActivityCoefficients),
        SC(enthalpy_mole), SC(entropy_mole), SC(gibbs_mole), SC(intEnergy_mole), SC(cp_mole), SC(cv_mole),
        SC(isothermalCompressibility), SC(thermalExpansionCoeff), SC(soundSpeed), SC(pressure), SC(density), SC(molarDensity), SC(meanMolecularWeight), SC(temperature),
        V(getMoleFractions), V(getMassFractions), V(getConcentrations),
        {"standardConcentration", [](Thm& p, D& o) { o.resize(p.nSpecies()); for (size_t k = 0; k < o.size(); k++) o[k] = p.standardConcentration(k); }},
        {"getElectrochemPotentials", [](Thm& p, D& o) { o.resize(p.nSpecies()); p.getElectrochemPotentials(o.data()); }},
        {"getdlnActCoeffdlnN_diag", [](Thm& p, D& o) { o.resize(p.nSpecies()); p.getdlnActCoeffdlnN_diag(o.data()); }},
    };
    return l;
}
// evaluate one getter; empty where the model does not provide it
template<class T> static D ask(const Getter<T>& g, T& p) {
    D o;
    try { g.f(p, o); } catch (NotImplementedError&) { o.clear(); } catch (CanteraError& e) {
        if (string(e.what()).find("not implemented") == string::npos && string(e.what()).find("Not implemented") == string::npos && string(e.what()).find("undefined") == string::npos) throw;
        o.clear();
    }
    return o;
}
template<class T> static vector<D> askAll(const List<T>& l, T& p, size_t first = npos) {
    vector<D> r(l.size());
    if (first != npos) r[first] = ask(l[first], p);
    for (size_t i = 0; i < l.size(); i++) if (i != first) r[i] = ask(l[i], p);
    return r;
}
template<class T> static void same(const List<T>& l, const vector<D>& a, const vector<D>& b, const string& what) {
    for (size_t i = 0; i < l.size(); i++) {
        if (a[i].size() != b[i].size()) tru(what + l[i].name + " size", false);
        for (size_t k = 0; k < a[i].size() && k < b[i].size(); k++) if (!(std::isnan(a[i][k]) && std::isnan(b[i][k]))) once(what + l[i].name, a[i][k], b[i][k], 1e-300);
    }
}
// go to a state of which only one part differs from the present one, by the narrowest setter there is
static void change(Thm& p, const Model& m, State& s, const string& what) {
    if (what == "T" && !m.td) p.setState_TP(s.T, s.P);
    else if (what == "T") p.setTemperature(s.T);
    else if (what == "P" && !m.td) p.setPressure(s.P);
    else if (what == "P") p.setDensity(s.rho);
    else apply(p, m, s);
}
// what changes between the two states: everything, or one of temperature, pressure/density, composition
static void thermo(const Model& m, const string& what, bool deep = false) {
    auto A = phase(m), B = phase(m), C = phase(m);
    State s1 = setSym(*A, m, "a_"), s2 = s1;
    State o = setSym(*A, m, "b_");
    if (what == "T" || what == "all") s2.T = o.T;
    if (what == "P" || what == "all") { s2.P = o.P; s2.rho = o.rho; }
    if (what == "X" || what == "all") s2.n = o.n;
    auto& l = thermoGetters();
    State t1 = s1, t2 = s2;
    apply(*B, m, t2);
    auto R2 = askAll(l, *B);
    apply(*C, m, t1);
    auto R1 = askAll(l, *C);
    apply(*A, m, t1);
    same(l, askAll(l, *A), R1, "");
    // each getter in turn is the first one asked after the change
    bool odd = true;
    for (size_t i = 0; i < l.size(); i++) {
        if (R2[i].empty()) continue;
        odd = !odd;
        change(*A, m, odd ? t1 : t2, what);
        same(l, askAll(l, *A, i), odd ? R1 : R2, string("after ") + l[i].name + ": ");
    }
    // the same, the other state
    if (deep) { change(*A, m, t2, what); odd = false; }
    for (size_t i = 0; deep && i < l.size(); i++) {
        if (R2[i].empty()) continue;
        odd = !odd;
        change(*A, m, odd ? t1 : t2, what);
        same(l, askAll(l, *A, i), odd ? R1 : R2, string("after ") + l[i].name + ": ");
    }
    reach("thermo");
}
// the primitive setters, with and without queries in between
static void setters(const Model& m) {
    auto A = phase(m), B = phase(m);
    State s1 = setSym(*A, m, "a_"), s2 = setSym(*A, m, "b_");
    auto& l = thermoGetters();
    vector<std::function<void(Thm&)>> ops = {
        [&](Thm& p) { apply(p, m, s1); },
        [&](Thm& p) { if (m.comp != "one") p.setMoleFractions(s2.n.data()); },
        [&](Thm& p) { p.setTemperature(s2.T); },
        [&](Thm& p) { if (m.td) p.setDensity(s2.rho); else p.setPressure(s2.P); },
        [&](Thm& p) { if (m.comp != "one") p.setMassFractions(s1.n.data()); },
        [&](Thm& p) { if (m.td) p.setState_TD(s1.T, s2.rho); else p.setState_TP(s1.T, s2.P); },
        [&](Thm& p) { if (m.comp != "one") p.setMoleFractions_NoNorm(s2.n.data()); if (m.comp != "one") p.setMoleFractions(s2.n.data()); },
    };
    for (size_t i = 0; i < ops.size(); i++) {
        ops[i](*A); askAll(l, *A);
        ops[i](*B);
        if (i == 2 || i == 4 || i == 6) {
            auto F = phase(m);
            for (size_t j = 0; j <= i; j++) ops[j](*F);
            same(l, askAll(l, *A), askAll(l, *F), "after step " + S(i) + ": ");
        }
    }
    reach("setters");
}
// formation enthalpies changed after queries
static void params(const Model& m) {
    auto A = phase(m), B = phase(m);
    State s = setSym(*A, m, "a_");
    auto& l = thermoGetters();
    apply(*A, m, s); apply(*B, m, s);
    auto R = askAll(l, *A);
    double dh = in("dh", 1e6, 1e8), phi = in("phi", -1, 1);
    try {
        for (Thm* p : {A.get(), B.get()}) p->modifyOneHf298SS(0, p->Hf298SS(0) + dh);
    } catch (CanteraError&) { reach("cannot modify"); return; }
    same(l, askAll(l, *A), askAll(l, *B), "after modifyOneHf298SS: ");
    A->setElectricPotential(phi); B->setElectricPotential(phi);
    auto F = phase(m);
    F->setElectricPotential(phi); F->modifyOneHf298SS(0, F->Hf298SS(0) + dh);
    apply(*F, m, s);
    same(l, askAll(l, *A), askAll(l, *F), "after setElectricPotential: ");
    A->resetHf298(0); A->setElectricPotential(0);
    same(l, askAll(l, *A), R, "after resetHf298: ");
    reach("params");
}
// ---- kinetics ----
typedef Kinetics KN;
#define KR(n) {#n, [](KN& k, D& o) { o.resize(k.nReactions()); k.n(o.data()); }}
#define KS(n) {#n, [](KN& k, D& o) { o.resize(k.nTotalSpecies()); k.n(o.data()); }}
static const List<KN>& kinGetters() {
    static List<KN> l = {
        KR(getFwdRateConstants), KR(getEquilibriumConstants), KR(getRevRateConstants), KR(getFwdRatesOfProgress), KR(getRevRatesOfProgress), KR(getNetRatesOfProgress),
        KS(getCreationRates), KS(getDestructionRates), KS(getNetProductionRates),
        KR(getDeltaGibbs), KR(getDeltaEnthalpy), KR(getDeltaEntropy), KR(getDeltaSSGibbs), KR(getDeltaSSEnthalpy), KR(getDeltaSSEntropy), KR(getThirdBodyConcentrations),
        KR(getFwdRateConstants_ddT), KR(getFwdRatesOfProgress_ddT), KR(getNetRatesOfProgress_ddC),
        {"getRevRateConstants(irreversible)", [](KN& k, D& o) { o.resize(k.nReactions()); k.getRevRateConstants(o.data(), true); }},
    };
    return l;
}
static void change(KSys& q, const Mech& m, const KState& s, const string& what) {
    Kinetics& k = q.K();
    if (what == "all" || what == "X") { applyState(q, m, s); return; }
    for (size_t n = 0; n < k.nPhases(); n++) {
        if (what == "T") k.thermo(n).setState_TP(s.T, s.P);
        else if (what == "P") k.thermo(n).setPressure(s.P);
        else if (what == "Te") dynamic_cast<PlasmaPhase&>(k.thermo(n)).setElectronTemperature(s.Te);
        else k.thermo(n).setElectricPotential(s.phi[n]);
    }
}
static void kinetics(const Mech& m, const string& what, size_t nsym) {
    KSys A = build(m), B = build(m), C = build(m);
    KState s1 = symState(A, m, "a_", nsym), o = symState(A, m, "b_", nsym), s2 = s1;
    if (what == "T" || what == "all") s2.T = o.T;
    if (what == "P" || what == "all") s2.P = o.P;
    if (what == "X" || what == "all") s2.x = o.x;
    if (what == "phi" || what == "all") s2.phi = o.phi;
    if (what == "Te" || what == "all") s2.Te = o.Te;
    if (what == "phi" && m.elec) for (size_t n = 1; n < s2.phi.size(); n++) s2.phi[n] = s1.phi[n] + (n == 1 ? 0.1 : 0.0);
    auto& l = kinGetters();
    applyState(B, m, s2);
    auto R2 = askAll(l, B.K());
    applyState(C, m, s1);
    auto R1 = askAll(l, C.K());
    applyState(A, m, s1);
    same(l, askAll(l, A.K()), R1, "");
    bool odd = true;
    for (size_t i = 0; i < l.size(); i++) {
        if (R2[i].empty()) continue;
        odd = !odd;
        change(A, m, odd ? s1 : s2, what);
        same(l, askAll(l, A.K(), i), odd ? R1 : R2, string("after ") + l[i].name + ": ");
    }
    reach("kinetics");
}
// multipliers and replaced reactions
static void kinParams(const Mech& m, size_t nsym) {
    KSys A = build(m), B = build(m);
    KState s = symState(A, m, "a_", nsym);
    auto& l = kinGetters();
    applyState(A, m, s); applyState(B, m, s);
    auto R = askAll(l, A.K());
    double f = in("f", 0.1, 10);
    size_t n = A.K().nReactions();
    for (size_t i = 0; i < n; i += 2) { A.K().setMultiplier(i, f); B.K().setMultiplier(i, f); }
    same(l, askAll(l, A.K()), askAll(l, B.K()), "after setMultiplier: ");
    for (size_t i = 0; i < n; i += 2) A.K().setMultiplier(i, 1);
    same(l, askAll(l, A.K()), R, "multiplier undone: ");
    // a species' enthalpy changed behind the kinetics object's back
    double dh = in("dh", 1e6, 1e7);
    KSys G = build(m);
    for (KSys* q : {&A, &G}) {
        ThermoPhase& p = q->K().thermo(0);
        try { p.modifyOneHf298SS(0, p.Hf298SS(0) + dh); } catch (CanteraError&) { reach("cannot modify"); return; }
    }
    A.K().invalidateCache();   // documented way of telling
    applyState(G, m, s);
    same(l, askAll(l, A.K()), askAll(l, G.K()), "after modifyOneHf298SS: ");
    reach("kinParams");
}
// ---- transport ----
typedef Transport TR;
#define TV(n) {#n, [](TR& p, D& o) { o.resize(p.thermo().nSpecies()); p.n(o.data()); }}
#define TM(n) {#n, [](TR& p, D& o) { size_t K = p.thermo().nSpecies(); o.resize(K * K); p.n(K, o.data()); }}
#define TS(n) {#n, [](TR& p, D& o) { o = {p.n()}; }}
static const List<TR>& trGetters() {
    static List<TR> l = {
        TS(viscosity), TV(getSpeciesViscosities), TS(thermalConductivity), TM(getBinaryDiffCoeffs), TV(getMixDiffCoeffs), TV(getMixDiffCoeffsMole), TV(getMixDiffCoeffsMass),
        TM(getMultiDiffCoeffs), TV(getThermalDiffCoeffs), TS(electricalConductivity), TV(getMobilities), TS(bulkViscosity),
    };
    return l;
}
static void transport(const string& file, const string& name, const string& model, const string& what, size_t nsym) {
    auto A = solution(file, name, model), B = solution(file, name, model), C = solution(file, name, model);
    size_t K = A->thermo()->nSpecies();
    struct St { double T, P; D x; } s1, s2;
    auto sym = [&](const string& t) { St s; s.T = in(t + "T", 300, 2500); s.P = in(t + "P", 1e4, 1e6); for (size_t k = 0; k < K; k++) s.x.push_back(k < nsym ? in(t + "x" + S(k), 0.05, 1) : 0.2 + 0.01 * k); return s; };
    s1 = sym("a_"); s2 = s1; St o = sym("b_");
    if (what == "T" || what == "all") s2.T = o.T;
    if (what == "P" || what == "all") s2.P = o.P;
    if (what == "X" || what == "all") s2.x = o.x;
    auto set = [](Solution& q, const St& s) { q.thermo()->setState_TPX(s.T, s.P, s.x.data()); };
    auto chg = [&](Solution& q, const St& s) {
        if (what == "T") q.thermo()->setState_TP(s.T, s.P);
        else if (what == "P") q.thermo()->setPressure(s.P);
        else set(q, s);
    };
    auto& l = trGetters();
    set(*B, s2);
    auto R2 = askAll(l, *B->transport());
    set(*C, s1);
    auto R1 = askAll(l, *C->transport());
    set(*A, s1);
    same(l, askAll(l, *A->transport()), R1, "");
    for (size_t i = 0; i < l.size(); i++) {
        if (R2[i].empty()) continue;
        chg(*A, s2);
        same(l, askAll(l, *A->transport(), i), R2, string("after ") + l[i].name + ": ");
        chg(*A, s1);
        same(l, askAll(l, *A->transport(), i), R1, string("after ") + l[i].name + ": ");
    }
    reach("transport");
}
// ---- plasma: electron energy distribution, collisions and their energy loss ----
struct Plasma { shared_ptr<Solution> sol; PlasmaPhase& p() { return dynamic_cast<PlasmaPhase&>(*sol->thermo()); } };
static const List<Plasma>& plasmaGetters() {
    static List<Plasma> l = {
        {"elasticPowerLoss", [](Plasma& q, D& o) { o = {q.p().elasticPowerLoss()}; }},
        {"rate constants", [](Plasma& q, D& o) { o.resize(q.sol->kinetics()->nReactions()); q.sol->kinetics()->getFwdRateConstants(o.data()); }},
        {"production rates", [](Plasma& q, D& o) { o.resize(q.p().nSpecies()); q.sol->kinetics()->getNetProductionRates(o.data()); }},
        {"distribution", [](Plasma& q, D& o) { o.resize(q.p().nElectronEnergyLevels()); q.p().getElectronEnergyDistribution(o.data()); }},
        {"levels", [](Plasma& q, D& o) { o.resize(q.p().nElectronEnergyLevels()); q.p().getElectronEnergyLevels(o.data()); }},
        {"electron state", [](Plasma& q, D& o) { o = {q.p().electronTemperature(), q.p().meanElectronEnergy(), q.p().electronPressure(), q.p().RTe()}; }},
        {"enthalpy", [](Plasma& q, D& o) { o.resize(q.p().nSpecies()); q.p().getPartialMolarEnthalpies(o.data()); o.push_back(q.p().enthalpy_mole()); }},
        {"standard potentials", [](Plasma& q, D& o) { o.resize(q.p().nSpecies()); q.p().getStandardChemPotentials(o.data()); }},
    };
    return l;
}
struct PlSt { double T, P, Te, shape; D x, lev, dist; };
static void plasma(const string& what, bool disc) {
    auto mk = [] { return Plasma{solution("oxygen-plasma.yaml", "isotropic-electron-energy-plasma")}; };
    Plasma A = mk(), B = mk(), C = mk(); size_t K = A.p().nSpecies();
    auto sym = [&](const string& t, double shape, const D& lev) { PlSt s; s.T = in(t + "T", 300, 2500); s.P = in(t + "P", 1e4, 1e6); s.Te = in(t + "Te", 5000, 40000); s.shape = shape; s.lev = lev; for (size_t k = 0; k < K; k++) s.x.push_back(in(t + "x" + S(k), 0.05, 1)); for (size_t k = 0; k < lev.size(); k++) s.dist.push_back(k + 1 == lev.size() ? 0.001 : in(t + "f" + S(k), 0.05, 1)); return s; };
    PlSt s1 = sym("a_", 1, {0, 0.5, 1, 5, 10}), o = sym("b_", 2, {0, 0.2, 2, 6, 11}), s2 = s1;
    if (what == "T") s2.T = o.T; if (what == "P") s2.P = o.P; if (what == "X") s2.x = o.x; if (what == "Te") s2.Te = o.Te; if (what == "shape") s2.shape = o.shape; if (what == "dist") s2.dist = o.dist;
    if (what == "levels") s2.lev = o.lev;
    if (what == "all") s2 = o;
    auto dist = [&](Plasma& q, const PlSt& s) { q.p().setDiscretizedElectronEnergyDist(s.lev.data(), s.dist.data(), s.lev.size()); };
    auto set = [&](Plasma& q, const PlSt& s) {
        auto& p = q.p(); p.enableNormalizeElectronEnergyDist(false); p.setState_TPX(s.T, s.P, s.x.data());
        if (disc) dist(q, s);
        else { p.setElectronEnergyDistributionType("isotropic"); p.setElectronEnergyLevels(s.lev.data(), s.lev.size(), false); p.setIsotropicShapeFactor(s.shape); p.setElectronTemperature(s.Te); }
    };
    auto chg = [&](Plasma& q, const PlSt& s) {
        auto& p = q.p();
        if (what == "T") p.setState_TP(s.T, s.P); else if (what == "P") p.setPressure(s.P); else if (what == "X") p.setState_TPX(s.T, s.P, s.x.data());
        else if (what == "Te") p.setElectronTemperature(s.Te); else if (what == "energy") p.setMeanElectronEnergy(1.5 * s.Te * Boltzmann / ElectronCharge); else if (what == "shape") p.setIsotropicShapeFactor(s.shape);
        else if (what == "levels") { if (disc) dist(q, s); else p.setElectronEnergyLevels(s.lev.data(), s.lev.size(), true); } else if (what == "dist") dist(q, s);
        else if (what == "other_type") { dist(q, o); set(q, s); }
        else set(q, s);
    };
    auto& l = plasmaGetters();
    set(B, s2); auto R2 = askAll(l, B);
    set(C, s1); auto R1 = askAll(l, C);
    set(A, s1); same(l, askAll(l, A), R1, "");
    for (size_t i = 0; i < l.size(); i++) {
        chg(A, s2); same(l, askAll(l, A, i), R2, string("after ") + l[i].name + ": ");
        chg(A, s1); same(l, askAll(l, A, i), R1, string("back after ") + l[i].name + ": ");
    }
    if (what == "all") {   // the method of integration and a cross section are changed
        Plasma F = mk(); set(F, s1); F.p().setQuadratureMethod("trapezoidal"); auto R = askAll(l, F);
        A.p().setQuadratureMethod("trapezoidal"); same(l, askAll(l, A), R, "after setQuadratureMethod: ");
    }
    reach("plasma");
}
CASES {
    for (auto& m : models()) {
        const Model* q = &m;
        bool deep = m.td || m.id == "deep_hmw" || m.id.substr(0, 3) == "dh_";   // (their dhv_ twins run in the quick tier)
        if (m.id.substr(0, 5) == "deep_" && m.id != "deep_hmw") continue;
        for (string w : {"all", "T", "P", "X"}) {
            if (w == "X" && m.comp == "one") continue;
            bool slow = m.id == "redlich_kister_3" && w != "all";
            addcase((deep || slow ? "deep_" : "") + string("thermo_") + w + "_" + m.id, [q, w] { thermo(*q, w); });
        }
        deep = deep || m.id == "redlich_kister_3";
        addcase((deep ? "deep_" : "") + string("setters_") + m.id, [q] { setters(*q); });
        addcase((deep ? "deep_" : "") + string("params_") + m.id, [q] { params(*q); });
    }
    for (auto& m : mechs()) {
        const Mech* q = &m;
        bool deep = m.id == "deep_gri30" || m.id == "motz_wise";
        for (string w : {"all", "T", "P", "X", "phi", "Te"}) {
            if ((w == "phi" && !m.elec) || (w == "Te" && m.id.substr(0, 6) != "plasma")) continue;
            bool slow = m.id == "linear_burke_complex" && w != "all";
            addcase((deep || slow ? "deep_" : "") + string("kin_") + w + "_" + m.id, [q, w] { kinetics(*q, w, 3); });
        }
        addcase((deep ? "deep_" : "") + string("kinparams_") + m.id, [q] { kinParams(*q, 3); });
    }
    for (string w : {"all", "T", "P", "X"}) {
        addcase("mix_" + w, [w] { transport("h2o2.yaml", "", "mixture-averaged", w, 3); });
        addcase("mixCK_" + w, [w] { transport("h2o2.yaml", "", "mixture-averaged-CK", w, 3); });
        addcase("unity_" + w, [w] { transport("h2o2.yaml", "", "unity-Lewis-number", w, 3); });
        addcase((w == "all" ? "" : "deep_") + string("ion_") + w, [w] { transport("ch4_ion.yaml", "", "ionized-gas", w, 2); });
        addcase("multi_" + w, [w] { transport("air.yaml", "", "multicomponent", w, 1); });
    }
    for (string w : {"all", "T", "P", "X", "Te", "energy", "shape", "levels", "other_type"}) addcase("plasma_iso_" + w, [w] { plasma(w, false); });
    for (string w : {"all", "T", "P", "X", "dist", "levels"}) addcase("plasma_disc_" + w, [w] { plasma(w, true); });
}
