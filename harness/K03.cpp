// Detailed balance and reaction property changes
#include "kin.h"
static void balance(const Mech& m) {
    KSys q = build(m);
    KState s = symState(q, m);
    applyState(q, m, s);
    Kinetics& k = q.K();
    size_t N = k.nTotalSpecies(), R = k.nReactions();
    auto V = [](size_t n) { return vector<double>(n); };
    auto kf = V(R), kr = V(R), kc = V(R), f = V(R), r = V(R);
    k.getEquilibriumConstants(kc.data());
    k.getFwdRateConstants(kf.data()); k.getRevRateConstants(kr.data());
    k.getFwdRatesOfProgress(f.data()); k.getRevRatesOfProgress(r.data());
    auto kall = V(R);
    k.getRevRateConstants(kall.data(), true);
    auto mu = V(N), mu0 = V(N), h = V(N), sk = V(N), h0 = V(N), s0 = V(N), lc = V(N), z = V(N), el = V(N);
    bool haveS = true;
    double T = s.T, RT = GasConstant * T;
    for (size_t n = 0; n < k.nPhases(); n++) {
        ThermoPhase& p = k.thermo(n);
        size_t o = k.kineticsSpeciesIndex(0, n);
        p.getChemPotentials(&mu[o]); p.getStandardChemPotentials(&mu0[o]);
        p.getPartialMolarEnthalpies(&h[o]);
        try { p.getPartialMolarEntropies(&sk[o]); } catch (NotImplementedError&) { haveS = false; }
        p.getEnthalpy_RT(&h0[o]); p.getEntropy_R(&s0[o]);
        for (size_t j = 0; j < p.nSpecies(); j++) {
            lc[o + j] = log(p.standardConcentration(j)); z[o + j] = p.charge(j) * s.phi[n] * Faraday;
            h0[o + j] *= RT; s0[o + j] *= GasConstant;
        }
    }
    // property changes of reactions
    auto delta = [&](const vector<double>& v, Reaction& x) {
        double t = 0;
        for (auto& [n, o] : x.products) t += o * v[k.kineticsSpeciesIndex(n)];
        for (auto& [n, o] : x.reactants) t -= o * v[k.kineticsSpeciesIndex(n)];
        return t;
    };
    auto dg = V(R), dh = V(R), ds = V(R), dg0 = V(R), dh0 = V(R), ds0 = V(R), de = V(R);
    k.getDeltaGibbs(dg.data()); k.getDeltaEnthalpy(dh.data()); if (haveS) k.getDeltaEntropy(ds.data());
    k.getDeltaSSGibbs(dg0.data()); k.getDeltaSSEnthalpy(dh0.data()); k.getDeltaSSEntropy(ds0.data());
    bool haveE = true;
    try { k.getDeltaElectrochemPotentials(de.data()); } catch (CanteraError&) { haveE = false; }
    for (size_t i = 0; i < R; i++) {
        Reaction& x = *k.reaction(i);
        eq("delta G", dg[i], delta(mu, x), 1e3);
        eq("delta H", dh[i], delta(h, x), 1e3);
        if (haveS) eq("delta S", ds[i], delta(sk, x), 1);
        eq("delta G0", dg0[i], delta(mu0, x), 1e3);
        eq("delta H0", dh0[i], delta(h0, x), 1e3);
        eq("delta S0", ds0[i], delta(s0, x), 1);
        if (haveE) eq("delta electrochemical", de[i], delta(mu, x) + delta(z, x), 1e3);
    }
    for (size_t i = 0; i < R; i++) {
        Reaction& x = *k.reaction(i);
        double e = -(dg0[i] + delta(z, x)) / RT + delta(lc, x);
        eq("equilibrium constant", log(kc[i]), e, 1e-6);
        eq("reverse constant (all)", kall[i] * kc[i], kf[i], 0);
        if (!x.reversible) continue;
        eq("detailed balance", kr[i] * kc[i], kf[i], 0);
        // thermodynamic driving force: with mass-action orders the net rate vanishes with the affinity
        bool elementary = x.orders.empty();
        if (elementary && !m.skip.count("affinity")) eq("affinity", log(r[i]) - log(f[i]), (dg[i] + delta(z, x)) / RT, 1e-6);
    }
    reach("balance");
}
CASES {
    for (auto& m : mechs()) { const Mech* p = &m; if (m.id != "graphite_anode" && m.id != "plasma_rev") addcase(m.id, [p] { balance(*p); }); }
}
