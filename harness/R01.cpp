// Reactors: mass, element and energy balances of the governing equations, for every reactor type
#include "react.h"
static const double SB = StefanBoltz;
// amounts of an element carried by each species
static Vec atoms(ThermoPhase& th, const string& e) {
    Vec a(th.nSpecies(), 0.0);
    size_t m = th.elementIndex(e);
    if (m != npos) for (size_t k = 0; k < a.size(); k++) a[k] = th.nAtoms(k, m);
    return a;
}
static double perMass(ThermoPhase& th, const string& e) {   // kmol of the element per kg
    Vec a = atoms(th, e); double s = 0;
    for (size_t k = 0; k < a.size(); k++) s += a[k] * th.massFraction(k) / th.molecularWeight(k);
    return s;
}
struct Res { shared_ptr<Solution> sol; shared_ptr<ReactorBase> b; ThermoPhase& th() { b->restoreState(); return *sol->thermo(); } };
static Res reservoir(const string& ph, const string& tag, bool symbolic = true) {
    Res r; r.sol = gasFor(ph); setGas(*r.sol->thermo(), tag, 1e4, 1e6, symbolic);
    r.b = newReactor("Reservoir", r.sol);
    return r;
}
// surface production: rates of gas species (kmol/s), and what leaves into other bulk phases, per element
struct Surf { Vec gas; std::map<string, double> bulk; vector<Vec> ads; };
static Surf surfaceRates(Rx& q) {
    Surf s; s.gas.assign(q.K(), 0.0);
    for (auto& rs : q.surfs) {
        q.th();
        rs->syncState();
        auto& k = *rs->kinetics();
        Vec w(k.nTotalSpecies());
        k.getNetProductionRates(w.data());
        Vec ad(k.thermo(0).nSpecies());
        for (size_t j = 0; j < ad.size(); j++) ad[j] = w[j] * rs->area();
        s.ads.push_back(ad);
        for (size_t n = 1; n < k.nPhases(); n++) {
            size_t o = k.kineticsSpeciesIndex(0, n);
            if (k.thermo(n).name() == q.sol->thermo()->name()) for (size_t j = 0; j < q.K(); j++) s.gas[j] += w[o + j] * rs->area();
            else for (string e : {"H", "O", "N"}) {
                Vec a = atoms(k.thermo(n), e);
                for (size_t j = 0; j < a.size(); j++) s.bulk[e] += a[j] * w[o + j] * rs->area();
            }
        }
    }
    return s;
}
// one reactor with an inlet, an outlet to a phase with other species, a wall and a surface
static void open(const string& type, bool surf, bool left, bool energy, bool rk = false) {
    auto sol = rk ? solution("reactor.yaml", "rk") : gasFor();
    setGas(*sol->thermo(), "a_", rk ? 1e5 : 1e4);
    Rx q = makeReactor(type, "a_", sol);
    if (surf) { addSurface(q, "s_"); addSurface(q, "t_", false); }
    Res src = rk ? Res{} : reservoir(left ? "gas4" : "gas3", "i_");
    if (rk) { src.sol = solution("reactor.yaml", "rk"); setGas(*src.sol->thermo(), "i_", 1e5, 1e6, false); src.b = newReactor("Reservoir", src.sol); }
    Res out = reservoir("gas3", "o_", !rk), env = reservoir("gas", "e_", !rk);
    auto mfc = std::make_shared<MassFlowController>(src.b, q.base);
    double mi = in("mdot", 0.1, 2), tf = in("tf", 0.2, 2);
    mfc->setMassFlowCoeff(mi);
    auto g = newFunc1("constant", tf); mfc->setTimeFunction(g.get());
    auto valve = std::make_shared<Valve>(q.base, out.b);
    double kv = in("kv", 1e-6, 1e-5); valve->setValveCoeff(kv);
    auto wall = left ? std::make_shared<Wall>(q.base, env.b) : std::make_shared<Wall>(env.b, q.base);
    double A = in("wA", 0.5, 3), U = in("wU", 1, 50), Kw = in("wK", 1e-7, 1e-5), em = in("em", 0.01, 0.99), vf = in("vf", -1, 1), qf = in("qf", -1e4, 1e4);
    wall->setArea(A); wall->setHeatTransferCoeff(U); wall->setExpansionRateCoeff(Kw); wall->setEmissivity(em);
    auto fv = newFunc1("constant", vf), fq = newFunc1("constant", qf);
    wall->setVelocity(fv.get()); wall->setHeatFlux(fq.get());
    if (!energy) q.r->setEnergy(0);
    if (rk || (surf && isIG(type))) q.r->setChemistry(false);     // (gas chemistry is in the other cases)
    q.r->initialize();
    // what crosses the boundary, by definition of the devices
    ThermoPhase& te = env.th(); double Te = te.temperature(), Pe = te.pressure();
    ThermoPhase& to = out.th(); double Po = to.pressure();
    ThermoPhase& ti = src.th(); double hi = ti.enthalpy_mass();
    std::map<string, double> ein; for (string e : {"H", "O", "N"}) ein[e] = perMass(ti, e);
    Vec yin(q.K(), 0.0); for (size_t k = 0; k < q.K(); k++) { size_t j = ti.speciesIndex(sol->thermo()->speciesName(k)); if (j != npos) yin[k] = ti.massFraction(j); }
    ThermoPhase& th = q.th(); double T = th.temperature(), P = th.pressure(), h = th.enthalpy_mass();
    double m1 = mi * tf, m2 = std::max(kv * (P - Po), 0.0);
    double sgn = left ? 1 : -1;
    double dP = left ? P - Pe : Pe - P, T1 = left ? T : Te, T2 = left ? Te : T;
    double Vd = sgn * A * (Kw * dP + vf);
    double Q = -sgn * A * (U * (T1 - T2) + em * SB * (T1 * T1 * T1 * T1 - T2 * T2 * T2 * T2) + qf);
    Phys p = physical(q);
    Surf s = surfaceRates(q); q.th();
    eq("mass flow of the controller", mfc->massFlowRate(), m1, 1e-3);
    eq("mass flow of the valve", valve->massFlowRate(), m2, 1e-3);
    eq("expansion", wall->expansionRate() * sgn, Vd, 1e-3);
    eq("heat", -wall->heatRate() * sgn, Q, 1);
    double dms = 0; for (size_t k = 0; k < q.K(); k++) dms += s.gas[k] * th.molecularWeight(k);
    eq("total mass", p.dm, m1 - m2 + dms, 1e-3);
    for (string e : {"H", "O", "N"}) {
        Vec a = atoms(th, e); double tot = 0;
        for (size_t k = 0; k < q.K(); k++) tot += a[k] * p.dn[k];
        for (size_t n = 0; n < p.ds.size(); n++) { Vec as = atoms(*q.surfs[n]->thermo(), e); for (size_t j = 0; j < as.size(); j++) tot += as[j] * p.ds[n][j]; }
        tot += s.bulk[e];
        eq("element " + e, tot, m1 * ein[e] - m2 * perMass(th, e), 1e-4);
    }
    for (size_t n = 0; n < p.ds.size(); n++) {
        double sites = 0;
        for (size_t j = 0; j < p.ds[n].size(); j++) {
            sites += p.ds[n][j] * q.surfs[n]->thermo()->size(j);
            eq("adsorbed " + S(j), p.ds[n][j], s.ads[n][j], 1e-9);
        }
        eq("surface sites", sites, 0, 1e-9);
    }
    // species: chemistry plus what flows
    Vec w(q.K());
    q.th(); if (q.r->chemistryEnabled()) q.sol->kinetics()->getNetProductionRates(w.data());
    for (size_t k = 0; k < q.K(); k++)
        eq("species " + S(k), p.dn[k], w[k] * p.V + s.gas[k] + (m1 * yin[k] - m2 * th.massFraction(k)) / th.molecularWeight(k), 1e-6);
    if (p.hasV) eq("volume", p.dV, Vd, 1e-3);
    if (energy) eq("energy", p.dE, Q - (p.hasV ? P * Vd : 0) + m1 * hi - m2 * h, 1);
    else if (p.hasT) eq("temperature fixed", p.dT, 0, 1);
    else eq("energy equation off", p.dE, 0, 1);
    reach("open");
}
// two reactors joined by a wall and two flow devices, nothing else: totals do not change
static void closed(const string& t1, const string& t2, int dev) {
    auto s1 = gasFor(), s2 = gasFor("gas");
    setGas(*s1->thermo(), "a_"); setGas(*s2->thermo(), "b_");
    Rx q1 = makeReactor(t1, "a_", s1), q2 = makeReactor(t2, "b_", s2);
    auto v = std::make_shared<Valve>(q1.base, q2.base); v->setValveCoeff(in("kv", 1e-6, 1e-5));
    shared_ptr<FlowDevice> w;
    if (dev == 0) { auto m = std::make_shared<MassFlowController>(q2.base, q1.base); m->setMassFlowRate(in("mdot", 0.1, 2)); w = m; }
    else { auto m = std::make_shared<PressureController>(q2.base, q1.base); m->setPrimary(v.get()); m->setPressureCoeff(in("kp", 1e-6, 1e-5)); w = m; }
    auto wall = std::make_shared<Wall>(q1.base, q2.base);
    wall->setArea(in("wA", 0.5, 3)); wall->setHeatTransferCoeff(in("wU", 1, 50)); wall->setExpansionRateCoeff(in("wK", 1e-7, 1e-5)); wall->setEmissivity(in("em", 0.01, 0.99));
    q1.r->setChemistry(false); q2.r->setChemistry(false);     // (the other cases react)
    q1.r->initialize(); q2.r->initialize();
    q1.th(); double P1 = q1.sol->thermo()->pressure(); q2.th(); double P2 = q2.sol->thermo()->pressure();
    if (dev == 1) { double pc = std::max(0.0, v->massFlowRate() + in("kp", 1e-6, 1e-5) * (P2 - P1)); eq("pressure controller", w->massFlowRate(), pc, 1e-3); }
    Phys p1 = physical(q1), p2 = physical(q2);
    eq("total mass", p1.dm + p2.dm, 0, 1e-3);
    for (string e : {"H", "O"}) {
        Vec a = atoms(*s1->thermo(), e); double t = 0;
        for (size_t k = 0; k < q1.K(); k++) t += a[k] * (p1.dn[k] + p2.dn[k]);
        eq("element " + e, t, 0, 1e-4);
    }
    if (p1.hasV && p2.hasV) {
        eq("total volume", p1.dV + p2.dV, 0, 1e-3);
        if (dev == 0) eq("total energy and wall work", p1.dE + p2.dE, (P2 - P1) * p1.dV, 1);
    } else if (!p1.hasV && !p2.hasV && dev == 0) eq("total enthalpy", p1.dE + p2.dE, 0, 1);
    reach("closed");
}
// the plug-flow reactor's differential-algebraic system
static void flow(bool surf, bool energy, bool initial) {
    auto sol = gasFor();
    setGas(*sol->thermo(), "a_");
    Rx q = makeReactor("FlowReactor", "a_", sol, false);
    auto* f = dynamic_cast<FlowReactor*>(q.r);
    double area = in("area", 0.1, 2), md = in("mdot", 0.1, 2);
    f->setArea(area); f->setMassFlowRate(md);
    eq("mass flow", f->speed() * area * sol->thermo()->density(), md, 1e-2);
    double hyd = in("sav", 1, 50); f->setSurfaceAreaToVolumeRatio(hyd);
    if (surf) { addSurface(q, "s_"); addSurface(q, "t_", false); }
    if (!energy) f->setEnergy(0);
    f->initialize();
    size_t K = q.K(), N = f->neq(), o = need(*f, sol->thermo()->speciesName(0));
    Vec y(N), yd(N), res(N, 0.0);
    ThermoPhase& th = *sol->thermo();
    auto& W = th.molecularWeights();
    if (initial) {
        f->getStateDae(y.data(), yd.data());
        eq("speed", y[1], f->speed(), 1);
        double T = y[3], mw = th.meanMolecularWeight(), e = yd[2] - yd[0] * GasConstant * T / mw - y[0] * GasConstant / mw * yd[3];
        for (size_t k = 0; k < K; k++) e -= y[0] * GasConstant * T * yd[o + k] / W[k];
        eq("differentiated equation of state", e, 0, 1e3);
    } else {
        y[0] = in("rho", 0.05, 5); y[1] = in("u", 0.1, 10); y[2] = in("P", 1e4, 1e6); y[3] = in("T", 500, 1500);
        double last = 1;
        for (size_t k = 0; k + 1 < K; k++) { y[o + k] = in("Y" + S(k), 0.02, 0.3); last -= y[o + k]; }
        y[o + K - 1] = last;
        for (size_t j = o + K; j < N; j++) y[j] = in("cov" + S(j - o - K), 0.1, 1);
        for (size_t i = 0; i < o + K; i++) yd[i] = in("d" + S(i), -1, 1);
    }
    f->updateState(y.data());
    q.th();
    double rho = y[0], u = y[1], Pz = yd[2], Tz = yd[3], dF = u * yd[0] + rho * yd[1], F = rho * u;
    Vec sdot(K, 0.0), w(K), h(K), Yz(yd.begin() + o, yd.begin() + o + K);
    Surf s;
    if (surf) { s = surfaceRates(q); for (size_t k = 0; k < K; k++) sdot[k] = s.gas[k];     // (the area weights the surface)
    }
    q.th(); q.sol->kinetics()->getNetProductionRates(w.data()); th.getPartialMolarEnthalpies(h.data());
    double cp = th.cp_mass(), D = th.density(), ms = 0;
    for (size_t k = 0; k < K; k++) ms += W[k] * sdot[k];
    f->evalDae(0.0, y.data(), yd.data(), res.data());
    eq("equation of state", res[0], rho - D, 1e-2);
    eq("mass", res[1], dF - hyd * ms, 1e-2);
    eq("momentum", res[2] + u * res[1], u * dF + F * yd[1] + Pz, 1);
    double en = F * cp * Tz, er = res[3];
    for (size_t k = 0; k < K; k++) {
        double r = res[o + k] + y[o + k] * res[1];
        eq("species", r, F * Yz[k] + y[o + k] * dF - W[k] * (w[k] + hyd * sdot[k]), 1e-2);
        en += h[k] / W[k] * (F * Yz[k] + y[o + k] * dF); er += h[k] / W[k] * r;
    }
    if (energy) eq("energy", er, en, 1); else eq("temperature fixed", res[3], Tz, 1);
    for (string e : {"H", "O"}) {
        Vec a = atoms(th, e); double l = 0, r = 0;
        for (size_t k = 0; k < K; k++) { l += a[k] / W[k] * (res[o + k] + y[o + k] * res[1]); r += a[k] / W[k] * (F * Yz[k] + y[o + k] * dF) - a[k] * hyd * sdot[k]; }
        eq("element " + e, l, r, 1e-3);
    }
    if (surf) {
        size_t l = o + K;
        for (size_t n = 0; n < s.ads.size(); n++) {
            double sum = 0; for (size_t j = 0; j < s.ads[n].size(); j++) sum += y[l + j];
            eq("coverages sum to one", res[l], sum - 1, 1);
            for (size_t j = 1; j < s.ads[n].size(); j++) eq("coverage balance", res[l + j], s.ads[n][j] / q.surfs[n]->area(), 1e-6);
            l += s.ads[n].size();
        }
    }
    if (initial) for (size_t i = 1; i < o + K; i++) eq("initial derivatives satisfy equation " + S(i), res[i], 0, 1e-2);
    reach("flow");
}
// chemistry switched off after it was on: nothing reacts
static void inert(const string& type) {
    auto sol = gasFor(); setGas(*sol->thermo(), "a_");
    Rx q = makeReactor(type, "a_", sol);
    q.r->initialize();
    rates(*q.r);
    q.r->setChemistry(false);
    Phys p = physical(q);
    for (size_t k = 0; k < q.K(); k++) eq("no reaction", p.dn[k], 0, 1e-9);
    q.r->setChemistry(true);
    Phys p2 = physical(q);
    Vec w(q.K()); q.th(); sol->kinetics()->getNetProductionRates(w.data());
    for (size_t k = 0; k < q.K(); k++) eq("reaction", p2.dn[k], w[k] * p2.V, 1e-9);
    reach("inert");
}
// contents whose state is not temperature, density and mass fractions
static void contents(const string& file, const string& ph) {
    auto s1 = solution(file, ph), s2 = solution(file, ph);
    size_t K = s1->thermo()->nSpecies();
    for (auto& s : {s1, s2}) {
        string tag = s == s1 ? "a_" : "b_";
        Vec x(K); for (size_t k = 0; k < K; k++) x[k] = in(tag + "x" + S(k), 0.05, 1);
        if (K > 1) s->thermo()->setMoleFractions(x.data());
        s->thermo()->setState_TP(in(tag + "T", 300, 900), in(tag + "P", 1e5, 1e6));
    }
    Vec y(K); s1->thermo()->getMassFractions(y.data());
    double rho = s1->thermo()->density(), T = s1->thermo()->temperature(), P = s1->thermo()->pressure(), h = s1->thermo()->enthalpy_mass(), u = s1->thermo()->intEnergy_mass();
    auto b1 = newReactor("Reservoir", s1);
    Rx q = makeReactor("ConstPressureReactor", "b_", s2);
    auto m = std::make_shared<MassFlowController>(b1, q.base); m->setMassFlowRate(in("mdot", 0.1, 2));
    q.r->initialize();
    eq("density", b1->density(), rho, 1); eq("temperature", b1->temperature(), T, 1); eq("pressure", b1->pressure(), P, 1);
    eq("enthalpy", b1->enthalpy_mass(), h, 1); eq("internal energy", b1->intEnergy_mass(), u, 1);
    eq("mass", q.base->mass(), q.th().density() * q.base->volume(), 1e-3);
    for (size_t k = 0; k < K; k++) {
        eq("mass fraction", b1->massFraction(k), y[k], 1); eq("mass fractions", b1->massFractions()[k], y[k], 1);
        eq("species flow", m->outletSpeciesMassFlowRate(k), y[k] * in("mdot", 0.1, 2), 1);
    }
    reach("contents");
}
// settings of the flow devices
static void devices() {
    auto s1 = gasFor(), s2 = gasFor(); setGas(*s1->thermo(), "a_"); setGas(*s2->thermo(), "b_");
    auto a = newReactor("Reservoir", s1), b = newReactor("Reservoir", s2);
    double dP = a->pressure() - b->pressure();
    MassFlowController m(a, b); Valve v(a, b); PressureController p(a, b);
    double c = in("c", 0.1, 2), d = in("d", 0.1, 2), e = in("e", -2, 2);
    auto g = newFunc1("constant", e), g2 = newFunc1("constant", d);
    auto pos = [](double x) { return std::max(x, 0.0); };
    m.setMassFlowCoeff(c); m.updateMassFlowRate(0); eq("controller", m.massFlowRate(), c, 1e-3);
    eq("coefficient", m.getMassFlowCoeff(), c, 1e-3);
    m.setTimeFunction(g.get()); m.updateMassFlowRate(0); eq("controller with function", m.massFlowRate(), pos(c * e), 1e-3);
    eq("time function", m.evalTimeFunction(), e, 1e-3);
    m.setMassFlowRate(d); m.updateMassFlowRate(0); eq("constant again", m.massFlowRate(), d, 1e-3);
    eq("no time function", m.evalTimeFunction(), 1, 1e-3);
    m.setTimeFunction(g2.get()); m.setMassFlowCoeff(1); m.updateMassFlowRate(0); eq("function again", m.massFlowRate(), d, 1e-3);
    m.setTimeFunction(nullptr); m.setMassFlowRate(d);
    v.setValveCoeff(c * 1e-5); v.updateMassFlowRate(0); eq("valve", v.massFlowRate(), pos(c * 1e-5 * dP), 1e-3);
    eq("pressure difference", v.evalPressureFunction(), dP, 1);
    v.setPressureFunction(g2.get()); v.updateMassFlowRate(0); eq("valve with function", v.massFlowRate(), pos(c * 1e-5 * d), 1e-3);
    v.setTimeFunction(g.get()); v.updateMassFlowRate(0); eq("valve with functions", v.massFlowRate(), pos(c * 1e-5 * d * e), 1e-3);
    p.setPrimary(&m); p.setPressureCoeff(c * 1e-5); p.updateMassFlowRate(0); eq("pressure controller", p.massFlowRate(), pos(d + c * 1e-5 * dP), 1e-3);
    p.setPressureFunction(g.get()); p.updateMassFlowRate(0); eq("pressure controller with function", p.massFlowRate(), pos(d + c * 1e-5 * e), 1e-3);
    Wall w(a, b);
    w.setThermalResistance(c); eq("thermal resistance", w.heatRate(), (s1->thermo()->temperature() - s2->thermo()->temperature()) / c, 1);
    w.setVelocity(g.get()); w.setArea(d); eq("velocity", w.velocity(), e, 1e-3); eq("area", w.area(), d, 1e-3); eq("expansion", w.expansionRate(), d * e, 1e-3);
    w.setHeatFlux(g2.get()); eq("heat flux", w.heatFlux(), d, 1e-3);
    reach("devices");
}
// species carried by a device are identified by name
static void mapping(const string& pa, const string& pb) {
    Res a = reservoir(pa, "a_"), b = reservoir(pb, "b_");
    MassFlowController m(a.b, b.b); double md = in("mdot", 0.1, 2); m.setMassFlowRate(md); m.updateMassFlowRate(0);
    ThermoPhase& t1 = a.th(); ThermoPhase& t2 = b.th();
    double h = t1.enthalpy_mass();
    for (size_t k = 0; k < t2.nSpecies(); k++) {
        size_t j = t1.speciesIndex(t2.speciesName(k));
        double y = 0; if (j != npos) { a.th(); y = t1.massFraction(j); }
        eq("species " + t2.speciesName(k), m.outletSpeciesMassFlowRate(k), md * y, 1e-3);
    }
    eq("enthalpy", m.enthalpy_mass(), h, 1);
    reach("mapping");
}
CASES {
    addcase("devices", devices);
    for (string a : {"gas", "gas2", "gas3", "gas4"}) for (string b : {"gas", "gas2", "gas3", "gas4"}) addcase("mapping_" + a + "_" + b, [a, b] { mapping(a, b); });
    addcase("contents_gas", [] { contents("reactor.yaml", "gas"); });
    addcase("contents_pure", [] { contents("reactor.yaml", "bulk"); });
    addcase("contents_condensed", [] { contents("condensed.yaml", "solid"); });
    for (auto& t : reactorTypes()) addcase("inert_" + t, [t] { inert(t); });
    for (auto& t : reactorTypes()) {
        for (int w = 0; w < 2; w++) addcase("open_" + t + (w ? "_left" : "_right"), [t, w] { open(t, false, w, true); });
        addcase("surface_" + t, [t] { open(t, true, true, true); });
        addcase("isothermal_" + t, [t] { open(t, false, true, false); });
        for (auto& u : reactorTypes()) if (t <= u && isCP(t) == isCP(u)) addcase("closed_" + t + "_" + u, [t, u] { closed(t, u, 0); });
        addcase("pressure_" + t, [t] { closed(t, t, 1); });
    }
    addcase("flow_gas", [] { flow(false, true, false); });
    addcase("flow_surface", [] { flow(true, true, false); });
    addcase("flow_isothermal", [] { flow(true, false, false); });
    addcase("flow_initial", [] { flow(false, true, true); });
    addcase("flow_initial_isothermal", [] { flow(false, false, true); });
    for (string t : {"Reactor", "ConstPressureReactor", "MoleReactor", "ConstPressureMoleReactor"}) addcase("rk_" + t, [t] { open(t, false, true, true, true); });
}
