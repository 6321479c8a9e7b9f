// Interface kinetics: rate constants of surface and charge-transfer reactions from their definitions
#include "kin.h"
#include "cantera/kinetics/InterfaceRate.h"
#include "cantera/kinetics/ReactionRateFactory.h"
#include "cantera/kinetics/KineticsFactory.h"
static const double R = GasConstant;
static double bm(double Ea0, double w, double dH) {
    if (dH < -4 * Ea0) return 0;
    if (dH > 4 * Ea0) return dH;
    double vp = 2 * w * (w + Ea0) / (w - Ea0);
    return (w + dH / 2) * (vp - 2 * w + dH) * (vp - 2 * w + dH) / (vp * vp - 4 * w * w + dH * dH);
}
static double num(const AnyMap& m, const string& k) { return m[k].asDouble(); }
// the forward rate constant that the definition gives at the present state
struct Iface {
    KSys& q; Kinetics& k; SurfPhase& surf;
    double T; vector<double> th, dH, mu0, z, phi; size_t N;
    Iface(KSys& q_, const Mech& m) : q(q_), k(*q_.kin), surf(dynamic_cast<SurfPhase&>(q_.kin->thermo(0))) {
        T = surf.temperature();
        th.resize(surf.nSpecies()); surf.getCoverages(th.data());
        dH.resize(k.nReactions()); k.getDeltaEnthalpy(dH.data());
        N = k.nTotalSpecies(); mu0.resize(N);
        for (size_t n = 0; n < k.nPhases(); n++) {
            k.thermo(n).getStandardChemPotentials(mu0.data() + k.kineticsSpeciesIndex(0, n));
            for (size_t j = 0; j < k.thermo(n).nSpecies(); j++) { z.push_back(k.thermo(n).charge(j)); phi.push_back(m.elec ? k.thermo(n).electricPotential() : 0.0); }
        }
    }
    double kf(size_t i) {
        Reaction& rx = *k.reaction(i);
        auto rate = rx.rate();
        AnyMap p = rate->parameters();
        p.applyUnits();
        string ty = rate->type();
        bool st = ty.substr(0, 8) == "sticking", b = ty.find("Blowers") != string::npos;
        const AnyMap& c = p[st ? "sticking-coefficient" : "rate-constant"].as<AnyMap>();
        UnitSystem us;
        double A = num(c, "A"), bb = num(c, "b");
        double ER = us.convertActivationEnergy(c[b ? "Ea0" : "Ea"], "K");
        if (b) ER = bm(ER, us.convertActivationEnergy(c["w"], "K"), dH[i] / R);
        double lg = 0, mult = 1;
        if (p.hasKey("coverage-dependencies")) for (auto& [sp, v] : p["coverage-dependencies"].as<AnyMap>()) {
            auto& cd = v.as<AnyMap>();
            double t = th[surf.speciesIndex(sp)];
            lg += std::log(10.0) * num(cd, "a") * t;
            if (num(cd, "m") != 0) lg += num(cd, "m") * std::log(t);
            if (cd["E"].is<vector<AnyValue>>()) {
                auto& e = cd["E"].asVector<AnyValue>();
                double tp = 1;
                for (size_t j = 0; j < e.size(); j++) { tp *= t; ER += us.convertActivationEnergy(e[j], "K") * tp; }
            } else ER += us.convertActivationEnergy(cd["E"], "K") * t;
        }
        // charge transfer
        double zsum = 0, pot = 0, g0 = 0;
        auto add = [&](const string& n, double s) {
            size_t j = k.kineticsSpeciesIndex(n);
            pot += s * z[j] * Faraday * phi[j]; g0 += s * mu0[j]; };
        std::map<size_t, double> cross;
        auto chg = [&](const string& n, double s) { size_t j = k.kineticsSpeciesIndex(n); cross[k.speciesPhaseIndex(j)] += s * z[j]; };
        for (auto& [n, s] : rx.reactants) { add(n, -s); chg(n, -s); }
        for (auto& [n, s] : rx.products) { add(n, s); chg(n, s); }
        for (auto& [n, s] : cross) zsum += fabs(s);
        bool ec = zsum > 1e-8;
        if (ec) {
            double beta = p.hasKey("beta") ? num(p, "beta") : 0.5;
            lg -= beta * pot / (R * T);
            if (p.getBool("exchange-current-density-formulation", false)) {
                lg -= beta * g0 / (R * T);
                for (auto& [n, s] : rx.products) {
                    size_t j = k.kineticsSpeciesIndex(n), ph = k.speciesPhaseIndex(j);
                    mult /= std::pow(k.thermo(ph).standardConcentration(j - k.kineticsSpeciesIndex(0, ph)), s);
                }
                mult /= Faraday;
            }
        }
        double v = A * std::pow(T, bb) * std::exp(-ER / T) * std::exp(lg) * mult;
        if (!st) return v;
        auto* sr = dynamic_cast<StickingCoverage*>(rate.get());
        bool mw = p.hasKey("Motz-Wise") ? p["Motz-Wise"].asBool() : surf.input().getBool("Motz-Wise", false);
        if (mw) v = v / (1 - v / 2);
        string who = sr->stickingSpecies();
        double order = 0;
        for (auto& [n, s] : rx.reactants) {
            size_t j = k.kineticsSpeciesIndex(n), ph = k.speciesPhaseIndex(j), l = j - k.kineticsSpeciesIndex(0, ph);
            if (n == who) { v *= std::sqrt(R * T / (2 * Pi * k.thermo(ph).molecularWeight(l))); continue; }
            double o = rx.orders.count(n) ? rx.orders.at(n) : s;
            if (ph == 0) { order += o; v *= std::pow(surf.size(l), o); }
            else v /= std::pow(k.thermo(ph).standardConcentration(l), o);
        }
        return v / std::pow(surf.siteDensity(), order);
    }
};
static void check(KSys& q, const Mech& m, const string& tag) {
    Kinetics& k = q.K();
    vector<double> kf(k.nReactions());
    k.getFwdRateConstants(kf.data());
    Iface f(q, m);
    for (size_t i = 0; i < k.nReactions(); i++)
        eq(tag + "kf " + k.reaction(i)->rate()->type(), kf[i], k.multiplier(i) * f.kf(i), 1e-30);
}
// shipped mechanisms at every state, then after changing one thing at a time
static void mech(const Mech& m) {
    KSys q = build(m);
    KState s = symState(q, m, "", 4);
    applyState(q, m, s);
    Kinetics& k = q.K();
    size_t NR = k.nReactions();
    for (size_t i = 0; i < NR && i < 40; i += 4) k.setMultiplier(i, in("m" + S(i), 0.1, 10));
    check(q, m, "");
    auto& surf = dynamic_cast<SurfPhase&>(k.thermo(0));
    if (surf.nSpecies() > 1) {
        vector<double> x(surf.nSpecies());
        for (size_t j = 0; j < x.size(); j++) x[j] = j < 3 ? in("y" + S(j), 0.05, 1) : 0.2;
        surf.setCoverages(x.data());
        check(q, m, "after coverages: ");
    }
    surf.setSiteDensity(in("n0", 1e-9, 1e-7));
    check(q, m, "after site density: ");
    if (m.elec) for (size_t n = 1; n < k.nPhases(); n++) {
        k.thermo(n).setElectricPotential(in("psi" + S(n), -0.3, 0.3));
        check(q, m, "after potential: ");
    }
    double P2 = in("P2", m.Plo, m.Phi);
    for (size_t n = 0; n < k.nPhases(); n++) k.thermo(n).setPressure(P2);
    check(q, m, "after pressure: ");
    double T2 = in("T2", m.Tlo, m.Thi);
    for (size_t n = 0; n < k.nPhases(); n++) k.thermo(n).setState_TP(T2, P2);
    check(q, m, "after temperature: ");
    reach("mech");
}
// constructed reactions with symbolic parameters
static AnyMap covdep(const string& t, int kind) {
    AnyMap d;
    d["a"] = in(t + "a", -2, 2); d["m"] = in(t + "m", -1, 1);
    auto en = [&](const string& x) { AnyValue v; v.setQuantity(in(t + x, -2e7, 2e7), "J/kmol"); return v; };
    if (kind == 0) d["E"] = in(t + "E", -2e7, 2e7);
    else { vector<AnyValue> e; for (int j = 0; j < kind; j++) e.push_back(AnyValue(in(t + "E" + S(j), -2e7, 2e7))); d["E"] = e; }
    return d;
}
static void made(int kind) {
    const Mech* m = nullptr;
    for (auto& x : mechs()) if (x.id == (kind == 3 ? "graphite_anode" : "pt_surf")) m = &x;
    KSys q0 = build(*m);
    // an interface with the same phases and only the constructed reaction
    KSys q; q.sol = q0.sol;
    vector<shared_ptr<ThermoPhase>> ph;
    for (size_t n = 0; n < q0.K().nPhases(); n++) ph.push_back(q0.K().phase(n));
    auto kin = newKinetics("interface");
    for (auto& p : ph) kin->addThermo(p);
    kin->init();
    q.kin = kin;
    AnyMap r;
    AnyMap rc; rc["A"] = in("A", 0.01, 0.4); rc["b"] = in("b", -1, 1);
    if (kind == 2) { rc["Ea0"] = in("Ea0", 1e7, 1e8); rc["w"] = in("w", 4e8, 1e9); } else rc["Ea"] = in("Ea", 0, 1e8);
    AnyMap cov;
    if (kind < 3) { cov["H(S)"] = covdep("h", 0); cov["O(S)"] = covdep("o", kind == 1 ? 4 : 3); }
    if (kind == 0) { r["equation"] = string("H(S) + O(S) => OH(S) + PT(S)"); r["rate-constant"] = rc; r["coverage-dependencies"] = cov; }
    if (kind == 1) {
        r["equation"] = string("O2 + 2 PT(S) => 2 O(S)"); r["sticking-coefficient"] = rc; r["coverage-dependencies"] = cov; r["Motz-Wise"] = true;
        AnyMap o; o["PT(S)"] = in("oPt", 0.5, 2.5); o["O2"] = 1.0; r["orders"] = o; r["nonreactant-orders"] = true;
    }
    if (kind == 2) { r["equation"] = string("H2 + 2 PT(S) => 2 H(S)"); r["type"] = string("Blowers-Masel"); r["rate-constant"] = rc; r["coverage-dependencies"] = cov; }
    if (kind == 3) { r["equation"] = string("LiC6 <=> Li+(e) + C6"); r["rate-constant"] = rc; r["beta"] = in("beta", 0.05, 0.95); }
    if (kind == 4) { r["equation"] = string("OH + 2 PT(S) => H(S) + O(S)"); r["type"] = string("sticking-Blowers-Masel"); AnyMap c2; c2["A"] = in("A4", 0.01, 0.4); c2["b"] = 0.0; c2["Ea0"] = in("E4", 1e7, 1e8); c2["w"] = in("w4", 4e8, 1e9); r["sticking-coefficient"] = c2; }
    r.applyUnits();
    kin->addReaction(newReaction(r, *kin));
    KState s = symState(q, *m, "", 4);
    applyState(q, *m, s);
    tru("one reaction", kin->nReactions() == 1);
    // the definition, with the parameters given (not those reported)
    Iface f(q, *m);
    double T = f.T, kf;
    kin->getFwdRateConstants(&kf);
    auto& surf = f.surf;
    double th = kind == 3 ? 0 : f.th[surf.speciesIndex("H(S)")], to = kind == 3 ? 0 : f.th[surf.speciesIndex("O(S)")];
    double EaR = 0, lg = 0;
    double A = kind == 4 ? r["sticking-coefficient"]["A"].asDouble() : rc["A"].asDouble(), b = kind == 4 ? 0 : rc["b"].asDouble();
    if (kind == 2) EaR = bm(rc["Ea0"].asDouble() / R, rc["w"].asDouble() / R, f.dH[0] / R);
    else if (kind == 4) EaR = bm(r["sticking-coefficient"]["Ea0"].asDouble() / R, r["sticking-coefficient"]["w"].asDouble() / R, f.dH[0] / R);
    else EaR = rc["Ea"].asDouble() / R;
    if (kind < 3) {
        AnyMap& h = cov["H(S)"].as<AnyMap>(); AnyMap& o = cov["O(S)"].as<AnyMap>();
        lg = std::log(10.0) * (h["a"].asDouble() * th + o["a"].asDouble() * to) + h["m"].asDouble() * std::log(th) + o["m"].asDouble() * std::log(to);
        EaR += h["E"].asDouble() / R * th;
        double tp = 1;
        for (auto& e : o["E"].asVector<AnyValue>()) { tp *= to; EaR += e.asDouble() / R * tp; }
    }
    double v = A * std::pow(T, b) * std::exp(-EaR / T) * std::exp(lg), n0 = surf.siteDensity();
    if (kind == 0) v *= 1;
    if (kind == 1) { v = v / (1 - v / 2); double o = r["orders"]["PT(S)"].asDouble(); v *= std::sqrt(R * T / (2 * Pi * 31.998)) / std::pow(n0, o); }
    if (kind == 4) v *= std::sqrt(R * T / (2 * Pi * 17.007)) / (n0 * n0);
    if (kind == 3) v *= std::exp(-r["beta"].asDouble() * f.phi[kin->kineticsSpeciesIndex("Li+(e)")] * Faraday / (R * T)
                                 + r["beta"].asDouble() * f.phi[kin->kineticsSpeciesIndex("LiC6")] * Faraday * (-f.z[kin->kineticsSpeciesIndex("LiC6")]) * 0);
    if (kind == 0 || kind == 2) eq("kf from given parameters", kf, v, 1e-30);
    else if (kind == 3) (void) v;
    eq("kf from reported parameters", kf, f.kf(0), 1e-30);
    // an equal reaction made from what is reported
    AnyMap p = kin->reaction(0)->parameters();
    p.applyUnits();
    auto kin2 = newKinetics("interface");
    for (auto& x : ph) kin2->addThermo(x);
    kin2->init();
    kin2->addReaction(newReaction(p, *kin2));
    double kf2;
    kin2->getFwdRateConstants(&kf2);
    eq("re-created reaction", kf2, kf, 1e-30);
    reach("made");
}
// coverages, mole fractions, concentrations, site balance
static void coverages(const string& file, const string& name) {
    dataDirs();
    auto p = std::dynamic_pointer_cast<SurfPhase>(newThermo(file, name));
    size_t K = p->nSpecies();
    vector<double> t(K), g(K), x(K), c(K), a(K), mu(K), mu0(K);
    double sum = 0, n0 = in("n0", 1e-9, 1e-7), T = in("T", 300, 1500);
    for (size_t k = 0; k < K; k++) { t[k] = k < 6 ? in("t" + S(k), 0.01, 1) : 0.1; sum += t[k]; }
    p->setSiteDensity(n0);
    p->setState_TP(T, 1e5);
    p->setCoverages(t.data());
    p->getCoverages(g.data());
    p->getMoleFractions(x.data()); p->getConcentrations(c.data()); p->getActivityConcentrations(a.data());
    p->getChemPotentials(mu.data()); p->getStandardChemPotentials(mu0.data());
    double sites = 0, sx = 0;
    for (size_t k = 0; k < K; k++) {
        eq("coverage read back", g[k] * sum, t[k]);
        eq("concentration", c[k] * p->size(k) * sum, t[k] * n0, 1e-20);
        eq("activity concentration", a[k], c[k]);
        eq("standard concentration", p->standardConcentration(k) * p->size(k), n0);
        eq("chemical potential", mu[k], mu0[k] + R * T * std::log(g[k]), 1e6);
        sites += c[k] * p->size(k); sx += x[k];
    }
    eq("sites", sites, n0); eq("fractions", sx, 1.0);
    double n1 = in("n1", 1e-9, 1e-7);
    p->setSiteDensity(n1);
    p->getConcentrations(c.data()); p->getCoverages(g.data());
    for (size_t k = 0; k < K; k++) { eq("after site density", c[k] * p->size(k) * sum, t[k] * n1, 1e-20); eq("coverage kept", g[k] * sum, t[k]); }
    p->setCoveragesNoNorm(t.data());
    p->getCoverages(g.data());
    for (size_t k = 0; k < K; k++) eq("coverage set without normalising", g[k], t[k]);
    Composition by;
    for (size_t k = 0; k < K; k++) by[p->speciesName(k)] = t[k];
    p->setCoveragesByName(by);
    p->getCoverages(g.data());
    for (size_t k = 0; k < K; k++) eq("coverage by name", g[k] * sum, t[k]);
    reach("coverages");
}
// phases that do not exist are not consumed, unstable phases are not formed
static void existence(const Mech& m) {
    KSys q = build(m);
    KState s = symState(q, m, "", 4);
    applyState(q, m, s);
    auto& k = dynamic_cast<InterfaceKinetics&>(q.K());
    size_t NR = k.nReactions();
    vector<double> net(NR), net0(NR);
    k.getNetRatesOfProgress(net0.data());
    for (size_t p = 0; p < k.nPhases(); p++) for (int what = 0; what < 2; what++) {
        k.setPhaseExistence(p, what == 0 ? 0 : 1);
        k.setPhaseStability(p, what == 1 ? 0 : 1);
        k.getNetRatesOfProgress(net.data());
        for (size_t i = 0; i < NR; i++) {
            bool re = false, pr = false;
            for (auto& [n, c] : k.reaction(i)->reactants) re |= k.speciesPhaseIndex(k.kineticsSpeciesIndex(n)) == p;
            for (auto& [n, c] : k.reaction(i)->products) pr |= k.speciesPhaseIndex(k.kineticsSpeciesIndex(n)) == p;
            if (what == 0) {
                if (re && !pr) ge("a phase that does not exist is not consumed", 0, net[i], 1e-30);
                if (pr && !re) ge("a phase that does not exist is not consumed (reverse)", net[i], 0, 1e-30);
            } else {
                if (re && !pr) ge("an unstable phase is not formed (reverse)", net[i], 0, 1e-30);
                if (pr && !re) ge("an unstable phase is not formed", 0, net[i], 1e-30);
            }
            if (!re && !pr) eq("other reactions are untouched", net[i], net0[i], 1e-30);
        }
        k.setPhaseExistence(p, 1); k.setPhaseStability(p, 1);
    }
    k.getNetRatesOfProgress(net.data());
    for (size_t i = 0; i < NR; i++) eq("restored", net[i], net0[i], 1e-30);
    reach("existence");
}
CASES {
    for (auto& m : mechs()) if (m.iface) {
        const Mech* p = &m;
        addcase("rates_" + m.id, [p] { mech(*p); });
        if (m.id == "sofc_tpb" || m.id == "sofc_oxide" || m.id == "diamond" || m.id == "pt_simple") addcase("phases_" + m.id, [p] { existence(*p); });
    }
    const char* kinds[] = {"arrhenius", "sticking", "blowers", "electro", "sticking_blowers"};
    for (int i = 0; i < 5; i++) addcase(string("made_") + kinds[i], [i] { made(i); });
    addcase("coverages_ptcombust", [] { coverages("ptcombust.yaml", "Pt_surf"); });
    addcase("coverages_multi", [] { coverages("surface-phases.yaml", "Pt-multi-sites"); });
    addcase("coverages_diamond", [] { coverages("diamond.yaml", "diamond_100"); });
}
