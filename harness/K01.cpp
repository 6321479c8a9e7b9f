// Conservation of elements, charge, mass and surface sites by the net production rates
#include "kin.h"
#include "cantera/kinetics/ReactionRateFactory.h"
static void conserve(const Mech& m) {
    KSys q = build(m);
    KState s = symState(q, m);
    applyState(q, m, s);
    Kinetics& k = q.K();
    size_t N = k.nTotalSpecies(), R = k.nReactions();
    for (size_t i = 0; i < R && i < 40; i += 3) k.setMultiplier(i, in("m" + S(i), 0, 10));
    vector<double> w(N), c(N), d(N);
    k.getNetProductionRates(w.data());
    k.getCreationRates(c.data());
    k.getDestructionRates(d.data());
    std::set<string> el;
    for (size_t n = 0; n < k.nPhases(); n++) for (size_t e = 0; e < k.thermo(n).nElements(); e++) el.insert(k.thermo(n).elementName(e));
    auto atoms = [&](size_t j, const string& e) {
        size_t n = k.speciesPhaseIndex(j), l = j - k.kineticsSpeciesIndex(0, n);
        size_t x = k.thermo(n).elementIndex(e);
        return x == npos ? 0.0 : k.thermo(n).nAtoms(l, x);
    };
    auto total = [&](const string& l, std::function<double(size_t)> f) {
        double a = 0, b = 0, cc = 0, dd = 0, mag = 0;
        for (size_t j = 0; j < N; j++) {
            double x = f(j);
            if (x > 0) a += x * w[j]; else if (x < 0) b -= x * w[j];
            cc += x * c[j]; dd += x * d[j];
        }
        eq(l, a, b, 1e-12); eq(l + " created=destroyed", cc, dd, 1e-12);
        (void) mag;
    };
    for (auto& e : el) total("element " + e, [&](size_t j) { return atoms(j, e); });
    // charge, through the species' charges (independent of the element table)
    total("charge", [&](size_t j) {
        size_t n = k.speciesPhaseIndex(j); return k.thermo(n).charge(j - k.kineticsSpeciesIndex(0, n)); });
    total("mass", [&](size_t j) {
        size_t n = k.speciesPhaseIndex(j); return k.thermo(n).molecularWeight(j - k.kineticsSpeciesIndex(0, n)); });
    // surface sites of each surface phase
    if (!m.skip.count("sites")) for (size_t n = 0; n < k.nPhases(); n++)
        if (auto* sp = dynamic_cast<SurfPhase*>(&k.thermo(n))) {
            total("sites " + sp->name(), [&](size_t j) {
                return k.speciesPhaseIndex(j) == n ? sp->size(j - k.kineticsSpeciesIndex(0, n)) : 0.0; });
        }
    reach("conserve");
}
// a reaction with symbolic stoichiometric coefficients is accepted only if it is balanced
static void balance(int surf) {
    Mech own{"own", "sites.yaml", surf >= 2 ? "surf" : "gas", surf >= 2, 300, 1000, 1e4, 1e6};
    KSys q = build(surf == 1 ? mech("pt_surf") : surf ? own : mech("h2o2"));
    Composition r, p;
    vector<std::pair<double, double>> bal;
    double a = in("a", 0.25, 4), b = in("b", 0.25, 4), c = in("c", 0.25, 4), d = in("d", 0.25, 4);
    if (!surf) {
        r = {{"H2", a}, {"O2", b}}; p = {{"H2O", c}, {"OH", d}};
        bal = {{2 * a, 2 * c + d}, {2 * b, c + d}};
    } else if (surf == 2) { // sites without an element of their own
        r = {{"H2", a}, {"s", b}}; p = {{"H_s", 2 * a}, {"s", d}};
        bal = {{b, d + 2 * a}};
    } else if (surf == 3) { // species occupying two sites
        r = {{"O2", a}, {"s", b}}; p = {{"O2_s", a}, {"s", c}};
        bal = {{b, 2 * a + c}};
    } else if (surf == 4) { // charge
        r = {{"H", a}, {"s", b}}; p = {{"H+", c}, {"s", d}};
        bal = {{b, d}, {a, c}, {0 * a, c}};
    } else {
        r = {{"H2", a}, {"PT(S)", b}}; p = {{"H(S)", c}, {"H", d}};
        bal = {{2 * a, c + d}, {b, c}};
    }
    auto R = std::make_shared<Reaction>(r, p, newReactionRate(AnyMap::fromYamlString(
        surf >= 1 ? "{type: interface-Arrhenius, rate-constant: [1.0, 0.0, 0.0]}" : "{type: Arrhenius, rate-constant: [1.0, 0.0, 0.0]}")));
    R->reversible = false; R->duplicate = true; R->allow_nonreactant_orders = true;
    bool ok = true;
    try { R->checkBalance(q.K()); } catch (CanteraError&) { ok = false; }
    if (ok) {
        for (auto& x : bal) {
            ge("accepted only if balanced", 1e-3 * (x.first + x.second), x.first - x.second, 1);
            ge("accepted only if balanced", 1e-3 * (x.first + x.second), x.second - x.first, 1);
        }
        reach("accepted");
    } else {
        double worst = 0;
        for (auto& x : bal) worst += fabs(x.first - x.second);
        ge("rejected only if unbalanced", worst, 1e-6, 1e-6);
        reach("rejected");
    }
}
CASES {
    addcase("balance_gas", [] { balance(0); });
    addcase("balance_surface", [] { balance(1); });
    addcase("balance_sites", [] { balance(2); });
    addcase("balance_double_site", [] { balance(3); });
    addcase("balance_charge", [] { balance(4); });
    for (auto& m : mechs()) { const Mech* p = &m; addcase(m.id, [p] { conserve(*p); }); }
}
