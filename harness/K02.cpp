// Rates of progress, production rates, multipliers and the law of mass action
#include "kin.h"
#include "cantera/kinetics/KineticsFactory.h"
// exponent of each species in the forward law of mass action, from the reaction's own definition
static std::map<string, double> orders(Reaction& r) {
    std::map<string, double> o;
    for (auto& [n, s] : r.reactants) o[n] += s;
    for (auto& [n, s] : r.orders) o[n] = s;
    return o;
}
static double powr(double c, double e) {
    double n = std::round(e);
    if (n == e && e >= 0 && e <= 6) { double x = 1; for (int i = 0; i < int(e); i++) x *= c; return x; }
    return std::pow(c, e);
}
static void rates(const Mech& m) {
    KSys q = build(m);
    KState s = symState(q, m);
    applyState(q, m, s);
    Kinetics& k = q.K();
    size_t N = k.nTotalSpecies(), R = k.nReactions();
    vector<double> mult(R, 1.0);
    for (size_t i = 0; i < R && i < 60; i += 2) mult[i] = in("m" + S(i), 0.1, 10);
    auto V = [](size_t n) { return vector<double>(n); };
    auto k1 = V(R), f1 = V(R), r1 = V(R);
    // multipliers one
    k.getFwdRateConstants(k1.data()); k.getFwdRatesOfProgress(f1.data()); k.getRevRatesOfProgress(r1.data());
    for (size_t i = 0; i < R; i++) k.setMultiplier(i, mult[i]);
    auto kf = V(R), kr = V(R), f = V(R), r = V(R), net = V(R), w = V(N), c = V(N), d = V(N), act = V(N), kc = V(R);
    k.getFwdRatesOfProgress(f.data()); k.getRevRatesOfProgress(r.data()); k.getNetRatesOfProgress(net.data());
    k.getFwdRateConstants(kf.data()); k.getRevRateConstants(kr.data());
    k.getNetProductionRates(w.data()); k.getCreationRates(c.data()); k.getDestructionRates(d.data());
    for (size_t n = 0; n < k.nPhases(); n++) k.thermo(n).getActivityConcentrations(act.data() + k.kineticsSpeciesIndex(0, n));
    auto conc = V(N);
    for (size_t n = 0; n < k.nPhases(); n++) k.thermo(n).getConcentrations(conc.data() + k.kineticsSpeciesIndex(0, n));
    auto cc = V(N), dd = V(N);
    for (size_t i = 0; i < R; i++) {
        Reaction& x = *k.reaction(i);
        eq("multiplier scales kf", kf[i], k1[i] * mult[i]);
        eq("multiplier scales forward", f[i], f1[i] * mult[i]);
        eq("multiplier scales reverse", r[i], r1[i] * mult[i]);
        eq("net=forward-reverse", net[i], f[i] - r[i], 0);
        // law of mass action
        double third = 1;
        if (x.usesThirdBody() && x.thirdBody()->mass_action) {
            third = 0;
            for (size_t j = 0; j < N; j++) third += x.thirdBody()->efficiency(k.kineticsSpeciesName(j)) * conc[j];
        }
        double rate = kf[i] * third;
        for (auto& [n, o] : orders(x)) rate *= powr(act[k.kineticsSpeciesIndex(n)], o);
        eq("forward rate law", f[i], rate);
        double rev = kr[i] * third;
        if (x.reversible) {
            for (auto& [n, o] : x.products) rev *= powr(act[k.kineticsSpeciesIndex(n)], o);
            eq("reverse rate law", r[i], rev);
        } else { eq("irreversible", r[i], 0, 1e-30); eq("irreversible constant", kr[i], 0, 1e-30); }
        for (auto& [n, o] : x.reactants) { size_t j = k.kineticsSpeciesIndex(n); dd[j] += o * f[i]; cc[j] += o * r[i]; }
        for (auto& [n, o] : x.products) { size_t j = k.kineticsSpeciesIndex(n); cc[j] += o * f[i]; dd[j] += o * r[i]; }
        double st = 0;
        auto a = V(N), b = V(N);
        for (auto& [n, o] : x.reactants) a[k.kineticsSpeciesIndex(n)] += o;
        for (auto& [n, o] : x.products) b[k.kineticsSpeciesIndex(n)] += o;
        for (size_t j = 0; j < N; j++)
            if (fabs(k.reactantStoichCoeff(j, i) - a[j]) > 1e-12 || fabs(k.productStoichCoeff(j, i) - b[j]) > 1e-12) st += 1;
        tru("stoichiometric coefficients", st == 0);
    }
    for (size_t j = 0; j < N; j++) {
        eq("creation", c[j], cc[j], 1e-30);
        eq("destruction", d[j], dd[j], 1e-30);
        eq("net production", w[j], c[j] - d[j], 1e-30);
    }
    reach("rates");
}
// the same reactions re-created from their reported parameters and added in the opposite order
static void rebuild(const Mech& m) {
    KSys q = build(m);
    KState s = symState(q, m, "", 3);
    applyState(q, m, s);
    Kinetics& k = q.K();
    auto k2 = newKinetics(m.iface ? "surface" : "bulk");
    for (size_t n = 0; n < k.nPhases(); n++) k2->addThermo(k.phase(n));
    k2->init();
    size_t R = k.nReactions(), N = k.nTotalSpecies();
    for (size_t i = R; i-- > 0; ) {
        AnyMap par = k.reaction(i)->parameters();
        par.applyUnits();
        auto r = newReaction(par, *k2);
        k2->addReaction(std::move(r), i == 0);
    }
    k2->resizeReactions();
    vector<double> a(R), b(R), w(N), w2(N);
    k.getFwdRateConstants(a.data()); k2->getFwdRateConstants(b.data());
    for (size_t i = 0; i < R; i++) eq("rate constant of re-created reaction", b[R - 1 - i], a[i], 0);
    k.getRevRatesOfProgress(a.data()); k2->getRevRatesOfProgress(b.data());
    for (size_t i = 0; i < R; i++) eq("reverse rate of re-created reaction", b[R - 1 - i], a[i], 1e-30);
    k.getNetProductionRates(w.data()); k2->getNetProductionRates(w2.data());
    for (size_t j = 0; j < N; j++) eq("production rates, other order", w2[j], w[j], 1e-30);
    // a duplicate of a reaction adds exactly that reaction's contribution
    for (size_t i : {size_t(0), R / 2}) {
        AnyMap par = k.reaction(i)->parameters();
        par.applyUnits();
        auto r = newReaction(par, k);
        r->duplicate = true;
        k2->addReaction(std::move(r));
        vector<double> n(k2->nReactions());
        k.getNetRatesOfProgress(a.data());
        for (auto& [sp, o] : k.reaction(i)->reactants) w[k.kineticsSpeciesIndex(sp)] -= o * a[i];
        for (auto& [sp, o] : k.reaction(i)->products) w[k.kineticsSpeciesIndex(sp)] += o * a[i];
        k2->getNetProductionRates(w2.data());
        for (size_t j = 0; j < N; j++) eq("duplicate reaction adds its rate", w2[j], w[j], 1e-30);
    }
    reach("rebuild");
}
CASES {
    for (auto& m : mechs()) {
        const Mech* p = &m;
        addcase(m.id, [p] { rates(*p); });
        if (m.id.substr(0, 5) != "deep_") addcase("rebuild_" + m.id, [p] { rebuild(*p); });
    }
}
