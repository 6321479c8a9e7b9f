#include "flame.h"
// residual of every equation at every point against the documented discretisation, boundaries included
static void residual(const Opt& o) {
    Flame f(o); size_t N = f.N, K = f.K; auto& z = f.z;
    double rdt = o.transient ? in("rdt", 1, 1e4) : 0;
    if (o.transient) f.transient(1 / rdt);
    Vec r; f.eval(r, rdt);
    auto R = [&](size_t c, size_t j) { return r[f.flow->loc() + j * f.nv + c]; };
    vector<Flame::Pt> p; vector<Flame::Mid> m; vector<Vec> J;
    for (size_t j = 0; j < N; j++) p.push_back(f.point(f.x, j));
    for (size_t j = 0; j + 1 < N; j++) m.push_back(f.middle(f.x, j));
    for (size_t j = 0; j + 1 < N; j++) J.push_back(f.flux(f.x, j, p[j], p[j + 1], m[j]));
    if (o.trans.find("multi") == 0) { }
    else for (size_t j = 0; j + 1 < N; j++) { double s = 0; for (size_t k = 0; k < K; k++) s += J[j][k]; eq("fluxes sum to zero", s, 0, 1e-3); }
    auto& t = *f.ref->thermo(); Vec w = t.molecularWeights();
    auto a = [&](size_t c, size_t j) { return f.a(c, j); };
    auto prev = [&](size_t c, size_t j) { return f.at(f.old, c, j); };
    auto ru = [&](size_t j) { return p[j].rho * a(U, j); };
    bool visc = o.right != "outlet", axi = o.kind == "axisymmetric";
    // interior points
    for (size_t j = 1; j + 1 < N; j++) {
        string at = " " + S(j); size_t l = a(U, j) > 0 ? j : j + 1; double h = z[l] - z[l - 1], H = z[j + 1] - z[j - 1];
        double rate = 0;
        for (size_t k = 0; k < K; k++) {
            double y = (w[k] * p[j].w[k] - ru(j) * (a(Y0 + k, l) - a(Y0 + k, l - 1)) / h - (J[j][k] - J[j - 1][k]) / (H / 2)) / p[j].rho - rdt * (a(Y0 + k, j) - prev(Y0 + k, j));
            eq("species" + at, R(Y0 + k, j), y, 1);
            rate += R(Y0 + k, j);
        }
        // mass is conserved: the species residuals add up to the residual of their sum
        if (o.trans.find("multi") != 0) eq("total mass" + at, rate, 0, 1);
        if (o.energy) {
            double q = 0; for (size_t k = 0; k < K; k++) q += p[j].w[k] * p[j].h[k] + 0.5 * (J[j][k] + J[j - 1][k]) * (p[l].h[k] - p[l - 1].h[k]) / h / w[k];
            double cond = (m[j].la * (a(T, j + 1) - a(T, j)) / (z[j + 1] - z[j]) - m[j - 1].la * (a(T, j) - a(T, j - 1)) / (z[j] - z[j - 1])) / (H / 2);
            double rad = 0;
            if (o.radiation) { auto q4 = [](double v) { return v * v * v * v; };
                rad = 2 * f.planck(a(T, j), p[j]) * StefanBoltz * (2 * q4(a(T, j)) - f.flow->leftEmissivity() * q4(a(T, 0)) - f.flow->rightEmissivity() * q4(a(T, N - 1)));
                eq("radiative heat loss" + at, f.flow->radiativeHeatLoss(j), rad, 1); }
            eq("energy" + at, R(T, j), (-p[j].cp * ru(j) * (a(T, l) - a(T, l - 1)) / h + cond - q - rad) / (p[j].rho * p[j].cp) - rdt * (a(T, j) - prev(T, j)), 100);
        } else eq("fixed temperature" + at, R(T, j), a(T, j) - in("Tfix" + S(j), 300, 2000), 100);
        // continuity
        if (axi) eq("continuity" + at, R(U, j), -(ru(j + 1) - ru(j)) / (z[j + 1] - z[j]) - (p[j + 1].rho * a(V, j + 1) + p[j].rho * a(V, j)), 1);
        else if (o.kind == "free") {
            double ref = j > f.zc ? -(ru(j) - ru(j - 1)) / (z[j] - z[j - 1]) : j == f.zc ? (o.energy ? a(T, j) - f.flow->m_tfixed : ru(j) - 0.3 * p[0].rho) : -(ru(j + 1) - ru(j)) / (z[j + 1] - z[j]);
            eq("continuity" + at, R(U, j), ref, 1);
        } else eq("continuity" + at, R(U, j), ru(j) - ru(j - 1), 1);
        // momentum and pressure gradient
        if (axi) {
            double sh = visc ? (m[j].mu * (a(V, j + 1) - a(V, j)) / (z[j + 1] - z[j]) - m[j - 1].mu * (a(V, j) - a(V, j - 1)) / (z[j] - z[j - 1])) / (H / 2) : 0;
            eq("momentum" + at, R(V, j), (sh - a(L, j) - ru(j) * (a(V, l) - a(V, l - 1)) / h - p[j].rho * a(V, j) * a(V, j)) / p[j].rho - (o.twoPoint ? 0 : rdt * (a(V, j) - prev(V, j))), 1);
            if (o.twoPoint) {
                eq("left control" + at, R(L, j), j == f.zc ? a(T, j) - f.tl : j > f.zc ? a(L, j) - a(L, j - 1) : a(L, j) - a(L, j + 1), 1);
                eq("right control" + at, R(UO, j), j == f.zd ? a(T, j) - f.tright : j > f.zd ? a(UO, j) - a(UO, j - 1) : a(UO, j) - a(UO, j + 1), 1);
            } else eq("uniform pressure gradient" + at, R(L, j), a(L, j) - a(L, j - 1), 1);
        } else { eq("no radial velocity" + at, R(V, j), a(V, j), 1); eq("no pressure gradient" + at, R(L, j), a(L, j), 1); }
        if (!o.twoPoint) eq("no oxidizer velocity" + at, R(UO, j), a(UO, j), 1);
        if (o.ions && o.stage == 2) {
            double q = 0; for (size_t k = 0; k < K; k++) q += t.charge(k) * ElectronCharge * p[j].rho * a(Y0 + k, j) / w[k] * Avogadro;
            eq("electric field" + at, R(EF, j), (a(EF, j) - a(EF, j - 1)) / (z[j] - z[j - 1]) - q / epsilon_0, 1);
        } else eq("no electric field" + at, R(EF, j), a(EF, j), 1);
        // which equations are transient
        int* mask = f.sim->transientMask().data() + f.flow->loc() + j * f.nv;
        tru("species equations are transient", mask[Y0] == 1 && mask[Y0 + K - 1] == 1);
        tru("algebraic equations", mask[U] == 0 && mask[L] == 0 && mask[UO] == 0 && mask[EF] == 0 && mask[V] == (axi && !o.twoPoint) && mask[T] == o.energy);
    }
    // left boundary
    double bT = in("blT", 300, 1500), bm = in("blmdot", 0.1, 2);
    {
        size_t n = N - 1; Vec Xin(K), Yin(K); double s = 0;
        for (size_t k = 0; k < K; k++) s += f.a(Y0 + k, 0);
        size_t kx = f.flow->leftExcessSpecies(); tru("excess species", int(kx) == o.big0);
        double cont = -(ru(1) - ru(0)) / (z[1] - z[0]) - (p[1].rho * a(V, 1) + p[0].rho * a(V, 0));
        double mdot = 0, V0 = 0;
        if (o.left == "inlet") {
            for (size_t k = 0; k < K; k++) Xin[k] = in("blX" + S(k), 0.1, 1);
            t.setMoleFractions(Xin.data()); t.getMassFractions(Yin.data()); V0 = in("blV0", -3, 3);
            mdot = o.kind == "free" || o.twoPoint ? ru(0) : bm;
            eq("inlet temperature", R(T, 0), a(T, 0) - (o.energy ? bT : in("Tfix0", 300, 2000)), 100);
            if (axi) { eq("inlet mass flux", R(L, 0), o.twoPoint ? a(L, 1) - a(L, 0) : bm - ru(0), 1); eq("inlet spread", R(V, 0), a(V, 0) - V0, 1); }
            eq("inlet velocity", R(U, 0), o.kind == "unstrained" ? ru(0) - bm : cont, 1);
            eq("stored mass flux", f.bl->mdot(), mdot, 1);
        } else {
            if (o.left == "symmetry") { eq("symmetry T", R(T, 0), o.energy ? a(T, 0) - a(T, 1) : a(T, 0), 100); eq("symmetry V", R(V, 0), a(V, 0) - a(V, 1), 1); }
            if (o.left == "surface" || o.left == "reacting") eq("surface T", R(T, 0), a(T, 0) - bT, 100);
            if (o.left == "empty") eq("open T", R(T, 0), a(T, 0), 100);
            eq("boundary continuity", R(U, 0), cont, 1);
            if (axi) eq("no flow through the boundary", R(L, 0), -ru(0), 1);
        }
        Vec prod(K, 0.0);
        if (o.left == "reacting") {
            auto& sp = dynamic_cast<SurfPhase&>(*f.surfRef->thermo()); size_t ns = sp.nSpecies(); Vec cov(ns), w3(f.surfRef->kinetics()->nTotalSpecies());
            size_t lo = f.bl->loc(); double cs = 0;
            for (size_t k = 0; k < ns; k++) { cov[k] = f.x[lo + k]; cs += cov[k]; }
            f.point(f.x, 0); sp.setTemperature(bT); sp.setCoveragesNoNorm(cov.data());
            f.surfRef->kinetics()->getNetProductionRates(w3.data());
            size_t g = f.surfRef->kinetics()->kineticsSpeciesIndex(0, 1);
            for (size_t k = 0; k < K; k++) prod[k] = w3[g + k] * w[k];
            eq("coverages sum to one", r[lo], 1 - cs, 1);
            for (size_t k = 1; k < ns; k++) eq("coverage", r[lo + k], w3[k] * sp.size(k) / sp.siteDensity() - rdt * (f.x[lo + k] - f.old[lo + k]), 1);
        }
        for (size_t k = 0; k < K; k++) {
            double ref = k == kx ? 1 - s : mdot * Yin[k] + prod[k] - (J[0][k] + ru(0) * a(Y0 + k, 0));
            if (o.ions && o.stage == 2 && t.charge(k) != 0 && k != kx) { ref = a(Y0 + k, 0) - a(Y0 + k, 1) + mdot * Yin[k]; }
            eq("left species " + S(k), R(Y0 + k, 0), ref, 1);
        }
        (void)n;
    }
    // right boundary
    {
        size_t n = N - 1; double bT = in("brT", 300, 1500), bm = in("brmdot", 0.1, 2), s = 0; Vec Xin(K), Yin(K), prod(K, 0.0);
        for (size_t k = 0; k < K; k++) s += a(Y0 + k, n);
        size_t kx = f.flow->rightExcessSpecies(); tru("right excess species", int(kx) == o.bigN);
        if (o.right == "inlet" || o.right == "reservoir") { for (size_t k = 0; k < K; k++) Xin[k] = in("brX" + S(k), 0.1, 1); t.setMoleFractions(Xin.data()); t.getMassFractions(Yin.data()); }
        double tf = in("Tfix" + S(n), 300, 2000), cont = axi ? ru(n) : ru(n) - ru(n - 1), mdot = 0;
        if (o.right == "inlet") {
            mdot = o.twoPoint ? -p[n].rho * a(UO, n) : bm; cont += mdot;
            eq("right inlet temperature", R(T, n), a(T, n) - (o.energy ? bT : tf), 100); eq("right inlet spread", R(V, n), a(V, n) - in("brV0", -3, 3), 1);
            eq("right stored mass flux", f.br->mdot(), mdot, 1);
        } else {
            if (o.right == "outlet" || o.right == "reservoir") eq("outlet T", R(T, n), o.energy ? a(T, n) - a(T, n - 1) : a(T, n) - tf, 100);
            if (o.right == "symmetry") { eq("right symmetry T", R(T, n), o.energy ? a(T, n) - a(T, n - 1) : a(T, n), 100); eq("right symmetry V", R(V, n), a(V, n) - a(V, n - 1), 1); }
            if (o.right == "surface" || o.right == "reacting") eq("right surface T", R(T, n), a(T, n) - bT, 100);
            if (o.right == "empty") eq("right open T", R(T, n), a(T, n), 100);
        }
        if (o.right != "symmetry" && o.right != "inlet") eq("right V", R(V, n), a(V, n), 1);
        eq("right continuity", R(U, n), cont, 1);
        eq("right pressure gradient", R(L, n), axi ? a(L, n) - a(L, n - 1) : a(L, n), 1);
        eq("right oxidizer velocity", R(UO, n), o.twoPoint ? a(UO, n) - a(UO, n - 1) : a(UO, n), 1);
        if (o.right == "reacting") {
            auto& sp = dynamic_cast<SurfPhase&>(*f.surfRef->thermo()); size_t ns = sp.nSpecies(); Vec cov(ns), w3(f.surfRef->kinetics()->nTotalSpecies());
            size_t lo = f.br->loc(); double cs = 0;
            for (size_t k = 0; k < ns; k++) { cov[k] = f.x[lo + k]; cs += cov[k]; }
            f.point(f.x, n); sp.setTemperature(bT); sp.setCoveragesNoNorm(cov.data());
            f.surfRef->kinetics()->getNetProductionRates(w3.data());
            size_t g = f.surfRef->kinetics()->kineticsSpeciesIndex(0, 1);
            for (size_t k = 0; k < K; k++) prod[k] = w3[g + k] * w[k];
            eq("right coverages sum to one", r[lo], 1 - cs, 1);
            for (size_t k = 1; k < ns; k++) eq("right coverage", r[lo + k], w3[k] * sp.size(k) / sp.siteDensity() - rdt * (f.x[lo + k] - f.old[lo + k]), 1);
        }
        for (size_t k = 0; k < K; k++) {
            double ref = k == kx ? 1 - s : o.right == "outlet" ? a(Y0 + k, n) - a(Y0 + k, n - 1) : o.right == "reservoir" ? a(Y0 + k, n) - Yin[k] :
                         mdot * Yin[k] + prod[k] + J[n - 1][k] + ru(n) * a(Y0 + k, n);
            eq("right species " + S(k), R(Y0 + k, n), ref, 1);
        }
    }
    // a second evaluation at the same state gives the same residuals
    Vec r2; f.eval(r2, rdt); for (size_t i = 0; i < r.size(); i++) if (i % 3 == 0) eq("evaluated again", r2[i], r[i], 1);
    reach("residual");
}
// perturbing one point and evaluating locally, as for the Jacobian, agrees with a full evaluation around that point
static void local(const Opt& o, size_t j) {
    Flame f(o); Vec r0, r1, r2; double rdt = o.transient ? in("rdt", 1, 1e4) : 0;
    if (o.transient) f.transient(1 / rdt);
    f.eval(r0, rdt);
    for (size_t c = 0; c < f.nv; c++) f.a(c, j) += c == T ? in("pT", -20, 20) : c < Y0 ? in("p" + S(c), -0.05, 0.05) : in("pY" + S(c), 0, 0.005);
    f.flow->forceFullUpdate(true); f.eval(r1, rdt, f.flow->firstPoint() + j); f.flow->forceFullUpdate(false);
    f.eval(r2, rdt);
    for (size_t i = j == 0 ? 0 : j - 1; i <= j + 1 && i < f.N; i++) for (size_t c = 0; c < f.nv; c++) {
        if (o.radiation && c == T && i != j && (j == 0 || j == f.N - 1)) continue;   // the emission of the boundaries is kept frozen
        size_t n = f.flow->loc() + i * f.nv + c;
        eq("component " + S(c) + " point " + S(i), r1[n], r2[n], c == T ? 100 : 1);
    }
    // residuals further away do not depend on this point
    for (size_t i = 0; i < f.N; i++) if (i + 1 < j || i > j + 1) for (size_t c = 0; c < f.nv; c++) {
        if (o.radiation && c == T && j != i && (j == 0 || j == f.N - 1)) continue;   // radiation from the boundaries acts everywhere
        size_t n = f.flow->loc() + i * f.nv + c; eq("far component " + S(c) + " point " + S(i), r2[n], r0[n], c == T ? 100 : 1);
    }
    reach("local");
}
// the Newton step that keeps the state within bounds
static void bounds() {
    Opt o; o.kind = "axisymmetric"; o.right = "inlet"; o.N = 3; Flame f(o);
    Vec step(f.x.size()); for (size_t i = 0; i < step.size(); i++) step[i] = 0;
    for (size_t j : {size_t(0), size_t(2)}) { size_t n = f.flow->loc() + j * f.nv; step[n + T] = in("sT" + S(j), -4000, 8000); step[n + Y0] = in("sY" + S(j), -2, 2); }
    for (size_t c = 0; c < f.nv; c++) f.flow->setBounds(c, c == T ? 250 : -1e3, c == T ? 2500 : c >= Y0 ? 1 : 1e3);
    f.flow->setBounds(Y0, 0, 1);
    MultiNewton nw(f.sim->size());
    double b = nw.boundStep(f.x.data(), step.data(), *f.sim, 0);
    ge("not beyond a full step", 1, b); ge("not backwards", b, 0);
    bool tight = false;
    for (size_t j : {size_t(0), size_t(2)}) for (size_t c : {size_t(T), size_t(Y0)}) {
        size_t n = f.flow->loc() + j * f.nv + c; double v = f.x[n] + b * step[n], lo = f.flow->lowerBound(c), hi = f.flow->upperBound(c);
        ge("upper bound", hi, v, hi); ge("lower bound", v, lo, hi);
        if (f.x[n] + step[n] > hi || f.x[n] + step[n] < lo) tight = true;
    }
    if (!tight) eq("full step when allowed", b, 1, 1);
    reach("bounds");
}
static void norm() {
    Opt o; o.N = 2; Flame f(o); f.flow->setSteadyTolerances(in("rtol", 1e-5, 1e-3), in("atol", 1e-9, 1e-6)); f.flow->setTransientTolerances(in("rtolt", 1e-5, 1e-3), in("atolt", 1e-9, 1e-6));
    f.flow->setSteadyTolerances(in("rtolT", 1e-5, 1e-3), in("atolT", 1e-9, 1e-6), T);
    Vec step(f.x.size()); for (size_t i = 0; i < step.size(); i++) step[i] = in("s" + S(i), -1, 1);
    MultiNewton nw(f.sim->size());
    for (int tr = 0; tr < 2; tr++) {
        if (tr) f.transient(1e-3); 
        double s = 0;
        for (size_t c = 0; c < f.nv; c++) {
            double rt = tr ? in("rtolt", 1e-5, 1e-3) : c == T ? in("rtolT", 1e-5, 1e-3) : in("rtol", 1e-5, 1e-3), at = tr ? in("atolt", 1e-9, 1e-6) : c == T ? in("atolT", 1e-9, 1e-6) : in("atol", 1e-9, 1e-6), m = 0;
            for (size_t j = 0; j < f.N; j++) m += fabs(f.a(c, j));
            double w = rt * m / f.N + at; for (size_t j = 0; j < f.N; j++) { double q = step[f.flow->loc() + j * f.nv + c] / w; s += q * q; }
        }
        double n = nw.norm2(f.x.data(), step.data(), *f.sim);
        eq(tr ? "transient norm" : "steady norm", n * n * f.sim->size(), s, 1);
    }
    reach("norm");
}
// saving the state of each domain and setting it back
static void roundtrip(const Opt& o) {
    Flame f(o); Vec& st = f.sim->st();
    for (size_t i = 0; i < st.size(); i++) st[i] = f.x[i];
    Vec r; f.eval(r, 0);
    auto fa = f.flow->toArray(), la = f.bl->toArray(), ra = f.br->toArray();
    double m0 = f.bl->mdot(), T0 = f.bl->temperature(), m1 = f.br->mdot(), T1 = f.br->temperature(); Vec y0, y1;
    bool compR = o.right == "inlet" || o.right == "reservoir";
    for (size_t k = 0; k < f.K; k++) { y0.push_back(f.bl->massFraction(k)); y1.push_back(compR ? f.br->massFraction(k) : 0); }
    // disturb everything, then read back
    for (size_t i = 0; i < st.size(); i++) st[i] = 0.25;
    Vec X(f.K, 1.0); for (auto b : {f.bl, f.br}) { b->setTemperature(432); b->setMdot(0.77); if (b->type() == "inlet" || b->type() == "outlet-reservoir") b->setMoleFractions(X.data()); }
    Vec zz; for (size_t j = 0; j < f.N; j++) zz.push_back(0.1 * j); f.flow->setupGrid(f.N, zz.data()); f.flow->setPressure(12345);
    if (o.energy) f.flow->fixTemperature(); else f.flow->solveEnergyEqn();
    for (auto& q : vector<std::pair<Domain1D*, shared_ptr<SolutionArray>>>{{f.flow.get(), fa}, {f.bl.get(), la}, {f.br.get(), ra}}) q.first->fromArray(q.second);
    for (size_t j = 0; j < f.N; j++) {
        eq("grid", f.flow->grid()[j], f.z[j], 1e-3);
        for (size_t c = 0; c < f.nv; c++) if (f.flow->componentActive(c)) eq("component " + S(c) + " at " + S(j), st[f.flow->loc() + j * f.nv + c], f.x[f.flow->loc() + j * f.nv + c], c == T ? 100 : 1);
        tru("energy flag", f.flow->doEnergy(j) == o.energy);
    }
    eq("pressure", f.flow->pressure(), f.P, 1);
    eq("left temperature", f.bl->temperature(), T0, 1); if (o.right != "outlet") eq("right temperature", f.br->temperature(), T1, 1);
    if (o.left == "inlet") { eq("left mass flux", f.bl->mdot(), m0, 1); for (size_t k = 0; k < f.K; k++) eq("left composition", f.bl->massFraction(k), y0[k], 1); }
    if (o.right == "inlet") eq("right mass flux", f.br->mdot(), m1, 1);
    if (o.right == "inlet" || o.right == "reservoir") for (size_t k = 0; k < f.K; k++) eq("right composition", f.br->massFraction(k), y1[k], 1);
    if (o.right == "reacting") for (size_t k = 0; k < 3; k++) { double s = f.x[f.br->loc()] + f.x[f.br->loc() + 1] + f.x[f.br->loc() + 2]; eq("coverage " + S(k), st[f.br->loc() + k], f.x[f.br->loc() + k] / s, 1); }
    reach("roundtrip");
}
CASES {
    vector<std::pair<string, Opt>> v;
    auto add = [&](const string& n, std::function<void(Opt&)> g) { Opt o; g(o); v.push_back({n, o}); };
    for (string kind : {"free", "axisymmetric", "unstrained"}) for (int sign : {1, -1}) {
        string sg = sign > 0 ? "" : "_back";
        add(kind + "_molar" + sg, [=](Opt& o) { o.kind = kind; o.sign = sign; o.right = kind == "axisymmetric" ? "inlet" : "outlet"; });
        add(kind + "_mass" + sg, [=](Opt& o) { o.kind = kind; o.sign = sign; o.massBasis = true; o.big0 = 1; o.bigN = 2; o.right = kind == "axisymmetric" ? "inlet" : "outlet"; });
        add(kind + "_multi" + sg, [=](Opt& o) { o.kind = kind; o.sign = sign; o.trans = "multicomponent"; o.bigN = 1; o.right = kind == "axisymmetric" ? "surface" : "reservoir"; });
        add(kind + "_soret" + sg, [=](Opt& o) { o.kind = kind; o.sign = sign; o.trans = "multicomponent"; o.soret = true; o.big0 = 3; });
        add(kind + "_noenergy" + sg, [=](Opt& o) { o.kind = kind; o.sign = sign; o.energy = false; o.right = kind == "axisymmetric" ? "inlet" : "reservoir"; });
    }
    add("steady", [](Opt& o) { o.transient = false; o.radiation = true; });
    add("radiation", [](Opt& o) { o.kind = "axisymmetric"; o.radiation = true; o.right = "inlet"; });
    add("two_point", [](Opt& o) { o.kind = "axisymmetric"; o.twoPoint = true; o.right = "inlet"; });
    add("two_point_back", [](Opt& o) { o.kind = "axisymmetric"; o.twoPoint = true; o.right = "inlet"; o.sign = -1; o.bigN = 2; });
    add("any_direction", [](Opt& o) { o.kind = "axisymmetric"; o.right = "inlet"; o.sign = 0; });
    for (string b : {"symmetry", "surface", "reacting", "empty"}) for (int e = 0; e < 2; e++) {
        add("right_" + b + (e ? "" : "_noenergy"), [=](Opt& o) { o.kind = "axisymmetric"; o.right = b; o.energy = e; o.bigN = 1; });
        add("left_" + b + (e ? "" : "_noenergy"), [=](Opt& o) { o.kind = "axisymmetric"; o.left = b; o.right = "inlet"; o.energy = e; o.big0 = 2; });
    }
    for (int big : {6, 7}) add("reservoir_many_" + S(big), [=](Opt& o) { o.ph = "gas5"; o.right = "reservoir"; o.bigN = big; o.N = 3; });
    add("many", [](Opt& o) { o.ph = "gas5"; o.big0 = 6; o.bigN = 7; o.N = 3; });
    for (int st : {1, 2}) for (string kind : {"free", "axisymmetric"}) add("ions_" + kind + "_" + S(st), [=](Opt& o) { o.kind = kind; o.ions = true; o.stage = st; o.N = 3; o.right = kind == "free" ? "outlet" : "inlet"; o.bigN = 1; });
    for (auto& c : v) addcase("residual_" + c.first, [o = c.second] { residual(o); });
    auto lc = [&](const string& n, Opt o) { o.varies = false; for (size_t j = 0; j < o.N; j++) addcase("local_" + n + "_" + S(j), [o, j] { local(o, j); }); };
    { Opt o; lc("free", o); o.radiation = true; lc("radiation", o); }
    { Opt o; o.kind = "axisymmetric"; o.right = "inlet"; lc("axisymmetric", o); o.trans = "multicomponent"; o.soret = true; lc("soret", o); }
    { Opt o; o.kind = "axisymmetric"; o.right = "reacting"; lc("reacting", o); }
    { Opt o; o.ions = true; o.stage = 2; lc("ions", o); }
    addcase("bounds", [] { bounds(); }); addcase("norm", [] { norm(); });
    auto rt = [&](const string& n, std::function<void(Opt&)> g) { Opt o; g(o); o.transient = false; addcase("roundtrip_" + n, [o] { roundtrip(o); }); };
    rt("free", [](Opt& o) {}); rt("axisymmetric", [](Opt& o) { o.kind = "axisymmetric"; o.right = "inlet"; }); rt("reservoir", [](Opt& o) { o.right = "reservoir"; o.energy = false; });
    rt("reacting", [](Opt& o) { o.kind = "axisymmetric"; o.right = "reacting"; }); rt("surface", [](Opt& o) { o.kind = "axisymmetric"; o.right = "surface"; }); rt("two_point", [](Opt& o) { o.kind = "axisymmetric"; o.right = "inlet"; o.twoPoint = true; });
}
