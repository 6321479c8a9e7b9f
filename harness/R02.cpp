// Reactors: equivalent formulations, state vectors, networks, Jacobians
#include "react.h"
#include "cantera/zeroD/ReactorNet.h"
static void copyGas(ThermoPhase& p, const string& tag) { setGas(p, tag); }
struct Env { shared_ptr<Solution> s1, s2; shared_ptr<ReactorBase> src, out; shared_ptr<MassFlowController> mfc; shared_ptr<Valve> valve; shared_ptr<Wall> wall; shared_ptr<Func1> fv, fq; };
static Env connect(Rx& q) {
    Env e; e.s1 = gasFor("gas3"); setGas(*e.s1->thermo(), "i_"); e.src = newReactor("Reservoir", e.s1);
    e.s2 = gasFor("gas2"); setGas(*e.s2->thermo(), "o_"); e.out = newReactor("Reservoir", e.s2);
    e.mfc = std::make_shared<MassFlowController>(e.src, q.base); e.mfc->setMassFlowCoeff(in("mdot", 0.1, 2));
    e.valve = std::make_shared<Valve>(q.base, e.out); e.valve->setValveCoeff(in("kv", 1e-6, 1e-5));
    e.wall = std::make_shared<Wall>(e.out, q.base);
    e.wall->setArea(in("wA", 0.5, 3)); e.wall->setHeatTransferCoeff(in("wU", 1, 50)); e.wall->setExpansionRateCoeff(in("wK", 1e-7, 1e-5)); e.wall->setEmissivity(in("em", 0.01, 0.99));
    return e;
}
static Rx fresh(const string& type, bool surf, bool energy) {
    auto sol = gasFor(); copyGas(*sol->thermo(), "a_");
    Rx q = makeReactor(type, "a_", sol);
    if (surf) { addSurface(q, "s_"); addSurface(q, "t_"); }
    if (!energy) q.r->setEnergy(0);
    return q;
}
// one physical situation, two formulations
static void agree(const string& type, bool surf, bool energy) {
    Rx a = fresh(isCP(type) ? "ConstPressureReactor" : "Reactor", surf, energy), b = fresh(type, surf, energy);
    Env ea = connect(a), eb = connect(b);
    a.r->initialize(); b.r->initialize();
    Phys p = physical(a), r = physical(b);
    eq("mass", r.m, p.m, 1e-3); eq("volume", r.V, p.V, 1e-3);
    if (!surf) eq("rate of mass", r.dm, p.dm, 1e-3);     // (with surfaces: R01)
    for (size_t k = 0; k < p.dn.size(); k++) eq("rate of species " + S(k), r.dn[k], p.dn[k], 1e-6);
    if (p.hasV) eq("rate of volume", r.dV, p.dV, 1e-3);
    if (energy && surf) ;
    else if (energy) eq("rate of energy", r.dE, p.dE, 1);
    else if (r.hasT) eq("temperature fixed", r.dT, 0, 1);
    for (size_t n = 0; n < p.ds.size(); n++) for (size_t j = 0; j < p.ds[n].size(); j++) eq("rate of adsorbed " + S(j), r.ds[n][j], p.ds[n][j], 1e-9);
    reach("agree");
}
// state vector: names, and back and forth
static void state(const string& type, bool energy) {
    Rx q = fresh(type, true, energy);
    q.r->initialize();
    ThermoPhase& th = q.th(); size_t K = q.K();
    double T = th.temperature(), P = th.pressure(), rho = th.density(), V = q.r->volume(), h = th.enthalpy_mass(), u = th.intEnergy_mass();
    Vec Y(K); th.getMassFractions(Y.data());
    size_t N = q.r->neq(); Vec y(N), z(N);
    for (size_t i = 0; i < N - q.surfs[1]->thermo()->nSpecies(); i++) tru("component name and index " + S(i), q.r->componentIndex(q.r->componentName(i)) == i);
    q.r->getState(y.data());
    q.th();
    size_t k0 = need(*q.r, th.speciesName(0));
    auto& W = th.molecularWeights();
    for (size_t k = 0; k < K; k++) { tru("species place " + S(k), need(*q.r, th.speciesName(k)) == k0 + k); eq("species state " + S(k), y[k0 + k], isMole(type) ? rho * V * Y[k] / W[k] : Y[k], 1e-6); }
    if (!isMole(type)) eq("mass state", y[need(*q.r, "mass")], rho * V, 1e-3);
    if (!isCP(type)) eq("volume state", y[need(*q.r, "volume")], V, 1e-3);
    if (isIG(type)) eq("temperature state", y[need(*q.r, "temperature")], T, 1);
    else eq("energy state", y[need(*q.r, isCP(type) ? "enthalpy" : "int_energy")], rho * V * (isCP(type) ? h : u), 1);
    size_t loc = k0 + K;
    for (auto& s : q.surfs) {
        size_t n = s->thermo()->nSpecies(); Vec c(n); s->getCoverages(c.data());
        for (size_t j = 0; j < n; j++) {
            tru("surface species place " + S(j), q.r->componentName(loc + j) == s->thermo()->speciesName(j));
            eq("surface state", y[loc + j], isMole(type) ? c[j] * s->thermo()->siteDensity() * s->area() / s->thermo()->size(j) : c[j], 1e-9);
        }
        loc += n;
    }
    if (!isIG(type) && !isCP(type) && energy) { reach("state"); return; }     // (needs the root of the energy: at the exact temperature only)
    // another state in between
    vector<Vec> cov; for (auto& s : q.surfs) { Vec c(s->thermo()->nSpecies()), d(c.size(), 0.2); s->getCoverages(c.data()); cov.push_back(c); s->setCoverages(d.data()); }
    Vec x(K, 1.0); x[0] = 2; th.setMoleFractions(x.data()); th.setState_TP(isIG(type) || !energy ? 777 : T, 4e4);
    q.r->updateState(y.data());
    tru("reactor keeps its contents", &q.r->contents() == &th);
    eq("temperature again", q.r->temperature(), T, 1); eq("pressure again", q.r->pressure(), P, 1); eq("density again", q.r->density(), rho, 1e-3);
    eq("volume again", q.r->volume(), V, 1e-3); eq("mass again", q.r->mass(), rho * V, 1e-3);
    eq("enthalpy again", q.r->enthalpy_mass(), h, 1); eq("internal energy again", q.r->intEnergy_mass(), u, 1);
    for (size_t k = 0; k < K; k++) eq("mass fraction again", q.r->massFraction(k), Y[k], 1);
    for (size_t n = 0; n < cov.size(); n++) { Vec c(cov[n].size()); q.surfs[n]->getCoverages(c.data()); for (size_t j = 0; j < c.size(); j++) eq("coverage again", c[j], cov[n][j], 1e-3); }
    q.r->getState(z.data());
    for (size_t i = 0; i < N; i++) eq("state again " + q.r->componentName(i), z[i], y[i], 1e-6);
    reach("state");
}
// a state vector chosen freely (not one the reactor came from)
static void anyState(const string& type) {
    Rx q = fresh(type, true, true);
    q.r->initialize();
    size_t N = q.r->neq(), K = q.K(), k0 = need(*q.r, q.sol->thermo()->speciesName(0)); Vec y(N), z(N);
    double P = q.r->pressure(), last = 1;
    for (size_t i = 0; i < k0; i++) y[i] = in("y" + S(i), 0.2, 5);
    y[need(*q.r, "temperature")] = in("T", 300, 1500);
    for (size_t k = 0; k < K; k++) { y[k0 + k] = k + 1 < K || isMole(type) ? in("n" + S(k), 0.02, 0.3) : last; last -= y[k0 + k]; }
    for (size_t i = k0 + K; i < N; i++) y[i] = isMole(type) ? in("c" + S(i), 1e-9, 1e-8) : in("c" + S(i), 0.1, 1);
    q.r->updateState(y.data());
    double m = 0; ThermoPhase& th = q.th(); auto& W = th.molecularWeights();
    if (isMole(type)) for (size_t k = 0; k < K; k++) m += y[k0 + k] * W[k]; else m = y[need(*q.r, "mass")];
    eq("mass", q.r->mass(), m, 1e-3);
    if (isCP(type)) eq("pressure kept", q.r->pressure(), P, 1);
    eq("volume", q.r->volume(), isCP(type) ? m / th.density() : y[need(*q.r, "volume")], 1e-3);
    eq("temperature", q.r->temperature(), y[need(*q.r, "temperature")], 1);
    eq("density", q.r->density() * q.r->volume(), m, 1e-3);
    for (size_t k = 0; k < K; k++) eq("mass fraction", q.r->massFraction(k), isMole(type) ? y[k0 + k] * W[k] / m : y[k0 + k], 1);
    q.r->getState(z.data());
    for (size_t i = 0; i < N; i++) eq("state again " + q.r->componentName(i), z[i], y[i], 1e-6);
    reach("any state");
}
// networks ------------------------------------------------------------------
struct Net { vector<Rx> r; vector<shared_ptr<FlowDevice>> f; vector<shared_ptr<Wall>> w; std::unique_ptr<ReactorNet> net; std::map<string, size_t> start; };
static Vec run(Net& n, const vector<size_t>& order, const std::map<string, Vec>& y, vector<Vec>& out) {
    // state by reactor name, rates by reactor name
    Vec g(n.net->neq()), d(n.net->neq());
    size_t o = 0;
    for (size_t i : order) { const Vec& v = y.at(n.r[i].r->name()); for (size_t j = 0; j < v.size(); j++) g[o + j] = v[j]; o += v.size(); }
    n.net->eval(0.0, g.data(), d.data(), nullptr);
    out.assign(n.r.size(), Vec()); o = 0;
    for (size_t i : order) { size_t N = n.r[i].r->neq(); out[i].assign(d.begin() + o, d.begin() + o + N); o += N; }
    return d;
}
static Net network(const vector<string>& types, const vector<size_t>& order, bool shared, bool energy, bool chem) {
    Net n; shared_ptr<Solution> one = gasFor();
    for (size_t i = 0; i < types.size(); i++) {
        auto s = shared ? one : gasFor();
        setGas(*s->thermo(), "g" + S(i) + "_");
        Rx q = makeReactor(types[i], "g" + S(i) + "_", s);
        q.r->setName("r" + S(i));
        if (!energy) q.r->setEnergy(0);
        if (!chem) q.r->setChemistry(false);
        n.r.push_back(q);
    }
    size_t m = types.size();
    for (size_t i = 0; i < m; i++) {
        auto v = std::make_shared<Valve>(n.r[i].base, n.r[(i + 1) % m].base); v->setValveCoeff(in("kv" + S(i), 1e-6, 1e-5)); n.f.push_back(v);
    }
    auto p = std::make_shared<PressureController>(n.r[0].base, n.r[1].base); p->setPrimary(n.f[m - 1].get()); p->setPressureCoeff(in("kp", 1e-6, 1e-5)); n.f.push_back(p);
    auto w = std::make_shared<Wall>(n.r[0].base, n.r[m - 1].base); w->setArea(in("wA", 0.5, 3)); w->setHeatTransferCoeff(in("wU", 1, 50)); w->setExpansionRateCoeff(in("wK", 1e-7, 1e-5)); n.w.push_back(w);
    n.net.reset(new ReactorNet());
    for (size_t i : order) n.net->addReactor(*n.r[i].r);
    n.net->initialize();
    return n;
}
static std::map<string, Vec> freeState(Net& n, const string& tag, bool same = false) {
    std::map<string, Vec> y;
    for (size_t i = 0; i < n.r.size(); i++) {
        Rx& q = n.r[i]; size_t N = q.r->neq(), K = q.K(), k0 = need(*q.r, q.sol->thermo()->speciesName(0));
        Vec v(N); string t = tag + S(i); double last = 1;
        if (isIG(q.type)) v[need(*q.r, "temperature")] = in(t + "T", 500, 1500); else v[need(*q.r, isCP(q.type) ? "enthalpy" : "int_energy")] = 1;
        if (!isCP(q.type)) v[need(*q.r, "volume")] = in(t + "V", 0.5, 5);
        if (!isMole(q.type)) v[need(*q.r, "mass")] = in(t + "m", 0.5, 5);
        for (size_t k = 0; k < K; k++) { v[k0 + k] = k + 1 < K || isMole(q.type) ? in(t + "n" + S(k), 0.02, 0.3) : last; last -= v[k0 + k]; }
        y[q.r->name()] = v;
    }
    return y;
}
static void compare(const string& l, const vector<Vec>& a, const vector<Vec>& b) {
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) eq(l + " " + S(i) + "." + S(j), a[i][j], b[i][j], 1e-3);
}
static void netOrder(const vector<string>& t, const vector<size_t>& o2, bool energy) {
    vector<size_t> o1; for (size_t i = 0; i < t.size(); i++) o1.push_back(i);
    Net a = network(t, o1, false, energy, false), b = network(t, o2, false, energy, false);
    auto y = freeState(a, "y"); vector<Vec> ra, rb;
    run(a, o1, y, ra); run(b, o2, y, rb);
    compare("rates do not depend on the order of the reactors", rb, ra);
    reach("order");
}
static void netHistory(const vector<string>& t, bool shared, bool energy) {
    vector<size_t> o; for (size_t i = 0; i < t.size(); i++) o.push_back(i);
    Net a = network(t, o, false, energy, true), b = network(t, o, shared, energy, true);
    auto y = freeState(a, "y"); vector<Vec> ra, rb;
    run(a, o, y, ra);
    if (!shared) { auto z = freeState(b, "z"); run(b, o, z, rb); }
    run(b, o, y, rb);
    compare(shared ? "sharing a Solution" : "an earlier evaluation", rb, ra);
    run(b, o, y, rb);
    compare("evaluating again", rb, ra);
    // names
    size_t g = 0;
    for (size_t i : o) for (size_t j = 0; j < a.r[i].r->neq(); j++, g++) {
        tru("global name", a.net->componentName(g) == a.r[i].r->name() + ": " + a.r[i].r->componentName(j));
        tru("global index", a.net->globalComponentIndex(a.r[i].r->componentName(j), i) == g);
    }
    reach("history");
}
// sensitivity parameters: act as multipliers or enthalpy offsets while evaluating, and leave nothing behind
static void sens(const string& type) {
    auto mk = [&](Net& n) {
        auto s = gasFor(); setGas(*s->thermo(), "a_");
        Rx q = makeReactor(type, "a_", s); addSurface(q, "s_");
        n.r.push_back(q); n.net.reset(new ReactorNet()); n.net->addReactor(*n.r[0].r);
    };
    Net a, b, c; mk(a); mk(b); mk(c);
    for (Net* n : {&a, &c}) { n->r[0].r->addSensitivityReaction(1); n->r[0].r->addSensitivityReaction(0); n->r[0].r->addSensitivitySpeciesEnthalpy(2); n->r[0].surfs[0]->addSensitivityReaction(1); }
    Vec p = {in("p0", 0.5, 2), in("p1", 0.5, 2), in("p2", -1e5, 1e5), in("p3", 0.5, 2)}, one = {1, 1, 0, 1};
    b.r[0].sol->kinetics()->setMultiplier(1, in("p0", 0.5, 2)); b.r[0].sol->kinetics()->setMultiplier(0, in("p1", 0.5, 2));
    b.r[0].surfs[0]->kinetics()->setMultiplier(1, in("p3", 0.5, 2));
    for (Net* n : {&a, &b, &c}) n->net->initialize();
    size_t N = a.net->neq(); Vec y(N), d0(N), d1(N), d2(N);
    a.net->getState(y.data());
    c.net->eval(0, y.data(), d0.data(), nullptr);
    Vec pr = p; pr[2] = 0;
    a.net->eval(0, y.data(), d1.data(), pr.data());
    b.net->eval(0, y.data(), d2.data(), nullptr);
    for (size_t i = 0; i < N; i++) eq("parameters are multipliers " + S(i), d1[i], d2[i], 1e-6);
    a.net->eval(0, y.data(), d1.data(), p.data());
    for (size_t i = 0; i < 2; i++) eq("multiplier restored", a.r[0].sol->kinetics()->multiplier(i), 1, 1);
    eq("surface multiplier restored", a.r[0].surfs[0]->kinetics()->multiplier(1), 1, 1);
    a.net->eval(0, y.data(), d1.data(), nullptr);
    for (size_t i = 0; i < N; i++) eq("nothing left behind " + S(i), d1[i], d0[i], 1e-6);
    a.net->eval(0, y.data(), d1.data(), one.data());
    for (size_t i = 0; i < N; i++) eq("nominal parameters " + S(i), d1[i], d0[i], 1e-6);
    reach("sens");
}
// two surfaces with one kinetics object in one reactor
static void sensSurfaces() {
    Rx q = fresh("IdealGasReactor", false, true);
    addSurface(q, "s_");
    auto k = q.surfs[0]->kinetics();
    auto rs = std::make_shared<ReactorSurface>(); rs->setKinetics(k); Vec cov = {0.3, 0.4, 0.3}; rs->setCoverages(cov.data()); rs->setArea(in("A2", 0.5, 5));
    q.r->addSurface(rs.get());
    ReactorNet net; net.addReactor(*q.r);
    q.surfs[0]->addSensitivityReaction(1); rs->addSensitivityReaction(1);
    q.r->addSensitivityReaction(0); q.r->addSensitivityReaction(0);
    k->setMultiplier(1, in("m", 0.5, 2)); q.sol->kinetics()->setMultiplier(0, in("m0", 0.5, 2));
    net.initialize();
    size_t N = net.neq(); Vec y(N), d(N), p = {in("p0", 0.5, 2), in("p1", 0.5, 2), in("p2", 0.5, 2), in("p3", 0.5, 2)};
    net.getState(y.data());
    net.eval(0, y.data(), d.data(), p.data());
    eq("surface multiplier restored", k->multiplier(1), in("m", 0.5, 2), 1);
    eq("multiplier restored", q.sol->kinetics()->multiplier(0), in("m0", 0.5, 2), 1);
    reach("sens surfaces");
}
// analytical Jacobians -------------------------------------------------------
static void jacobian(const string& type) {
    auto s = gasFor(); setGas(*s->thermo(), "a_");
    Rx q = makeReactor(type, "a_", s);
    q.r->initialize();
    size_t N = q.r->neq(), K = q.K(), k0 = need(*q.r, s->thermo()->speciesName(0));
    Vec y(N);
    y[0] = in("T", 600, 1500);
    if (!isCP(type)) y[1] = in("V", 0.5, 5);
    for (size_t k = 0; k < K; k++) y[k0 + k] = in("n" + S(k), 0.02, 0.3);
    q.r->updateState(y.data());
    q.th();
    Eigen::SparseMatrix<double> J = q.r->jacobian();
    q.r->updateState(y.data());
    Rates r = rates(*q.r);
    ThermoPhase& th = q.th();
    double tot = 0; for (size_t k = 0; k < K; k++) tot += y[k0 + k];
    Eigen::SparseMatrix<double> dC = q.sol->kinetics()->netProductionRates_ddCi();
    Vec w(K), e(K), cp(K); q.sol->kinetics()->getNetProductionRates(w.data());
    if (isCP(type)) th.getPartialMolarEnthalpies(e.data()); else th.getPartialMolarIntEnergies(e.data());
    th.getPartialMolarCp(cp.data());
    double V = q.r->volume(), C = 0, Q = 0;
    for (size_t k = 0; k < K; k++) { if (!isCP(type)) cp[k] -= GasConstant; C += cp[k] * y[k0 + k]; Q += e[k] * w[k] * V; }
    Vec sum(K, 0.0);
    for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) {
        double Jij = J.coeff(k0 + i, k0 + j), x = dC.coeff(i, j);
        bool present = false;
        for (Eigen::SparseMatrix<double>::InnerIterator it(dC, j); it; ++it) if (size_t(it.row()) == i) present = true;
        if (isCP(type) && present) x += w[i] * V / tot;
        eq("species entry " + S(i) + "," + S(j), Jij, x, 1e-6);
        sum[j] += e[i] * Jij;
        // and it is the derivative of the rate (at constant pressure: up to the documented dense part)
        if (!isCP(type)) deriv("derivative " + S(i) + "," + S(j), r[k0 + i], y[k0 + j], Jij, 1e-3);
        else if (present) {
            double dense = 0; for (size_t l = 0; l < K; l++) dense += dC.coeff(i, l) * y[k0 + l] / tot;
            deriv("derivative " + S(i) + "," + S(j), r[k0 + i], y[k0 + j], Jij - dense, 1e-3);
        }
    }
    for (size_t j = 0; j < K; j++) eq("temperature entry " + S(j), J.coeff(0, k0 + j), (cp[j] * Q - C * sum[j]) / (C * C), 1e-3);
    reach("jacobian");
}
CASES {
    auto& ty = reactorTypes();
    for (auto& t : ty) {
        if (t != "Reactor" && t != "ConstPressureReactor") for (int s = 0; s < 2; s++) {
            addcase(string(s ? "agree_surface_" : "agree_") + t, [t, s] { agree(t, s, true); });
            addcase(string(s ? "agree_surface_isothermal_" : "agree_isothermal_") + t, [t, s] { agree(t, s, false); });
        }
        addcase("state_" + t, [t] { state(t, true); });
        addcase("state_isothermal_" + t, [t] { state(t, false); });
        if (isIG(t)) { addcase("anystate_" + t, [t] { anyState(t); }); addcase("sens_" + t, [t] { sens(t); }); }
    }
    vector<string> ig = {"IdealGasReactor", "IdealGasMoleReactor", "IdealGasConstPressureReactor"}, ig2 = {"IdealGasConstPressureMoleReactor", "IdealGasReactor", "IdealGasMoleReactor"},
                   cold = {"Reactor", "MoleReactor", "ConstPressureReactor"}, cold2 = {"ConstPressureMoleReactor", "Reactor"}, two = {"IdealGasReactor", "IdealGasReactor"}, two2 = {"IdealGasMoleReactor", "IdealGasConstPressureReactor"};
    addcase("order_a", [=] { netOrder(ig, {2, 0, 1}, true); });
    addcase("order_b", [=] { netOrder(ig2, {1, 2, 0}, true); });
    addcase("order_c", [=] { netOrder(cold, {2, 1, 0}, false); });
    addcase("history_a", [=] { netHistory(two, false, true); });
    addcase("history_b", [=] { netHistory(two2, false, true); });
    addcase("history_c", [=] { netHistory(cold2, false, false); });
    addcase("shared_a", [=] { netHistory(two, true, true); });
    addcase("shared_b", [=] { netHistory(two2, true, true); });
    addcase("shared_c", [=] { netHistory(cold2, true, false); });
    addcase("shared_d", [=] { netHistory({"MoleReactor", "ConstPressureReactor"}, true, false); });
    addcase("sens_surfaces", sensSurfaces);
    addcase("jacobian_IdealGasMoleReactor", [] { jacobian("IdealGasMoleReactor"); });
    addcase("jacobian_IdealGasConstPressureMoleReactor", [] { jacobian("IdealGasConstPressureMoleReactor"); });
}
