// Transport properties: mixture rules, fluxes, mobilities, fits and their setters, and the absence of any
// dependence on the history of the transport object
#include "common.h"
#include "cantera/transport/TransportFactory.h"
#include "cantera/transport/DustyGasTransport.h"
#include "cantera/transport/MultiTransport.h"
#include "cantera/transport/MixTransport.h"
#include "cantera/thermo/Species.h"
typedef vector<double> Vec;
typedef shared_ptr<Transport> TR;
struct Gas { shared_ptr<ThermoPhase> th; TR tr; size_t K; string model; bool ck; };
static Gas gas(const string& ph, const string& model) {
    Gas g; g.th = phase("tr.yaml", ph); g.model = model; g.ck = model.find("CK") != string::npos;
    g.tr = newTransport(g.th, model); g.K = g.th->nSpecies();
    return g;
}
static Vec comp(const string& t, size_t K) {
    Vec x(K); double s = 0;
    for (size_t k = 0; k + 1 < K; k++) { x[k] = in(t + S(k), 0.05, 0.9 / K); s += x[k]; }
    x[K - 1] = 1 - s;
    return x;
}
static void state(ThermoPhase& p, double T, double P, const Vec& x) { p.setMoleFractions_NoNorm(x.data()); p.setState_TP(T, P); }
// arbitrary positive species properties: constant terms of the fits, at a fixed temperature for the others
static size_t nc(const Gas& g) { return g.ck ? 4 : 5; }
static void setVisc(Gas& g, const string& t) { for (size_t k = 0; k < g.K; k++) { Vec c(nc(g), 0.0); c[0] = g.ck ? in(t + "v" + S(k), -12, -9) : in(t + "v" + S(k), 5e-4, 2e-3); g.tr->setViscosityPolynomial(k, c.data()); } }
static void setCond(Gas& g, const string& t) { for (size_t k = 0; k < g.K; k++) { Vec c(nc(g), 0.0); c[0] = g.ck ? in(t + "c" + S(k), -5, -2) : in(t + "c" + S(k), 5e-4, 1e-2); g.tr->setConductivityPolynomial(k, c.data()); } }
static string pr(size_t i, size_t j) { return S(std::min(i, j)) + S(std::max(i, j)); }
static void setDiff(Gas& g, const string& t) { for (size_t i = 0; i < g.K; i++) for (size_t j = i; j < g.K; j++) { Vec c(nc(g), 0.0); c[0] = g.ck ? in(t + "d" + pr(i, j), -2, 1) : in(t + "d" + pr(i, j), 1e-4, 1e-3); g.tr->setBinDiffusivityPolynomial(i, j, c.data()); } }
static double bin(const Gas& g, const string& t, size_t i, size_t j, double T) { double c = in(t + "d" + pr(i, j), 1e-4, 1e-3); return g.ck ? exp(c) : T * sqrt(T) * c; }
static double visc(const Gas& g, const string& t, size_t k, double T) { double c = in(t + "v" + S(k), 5e-4, 2e-3); return g.ck ? exp(c) : sqrt(T) * c * c; }
static double cond(const Gas& g, const string& t, size_t k, double T) { double c = in(t + "c" + S(k), 5e-4, 1e-2); return g.ck ? exp(c) : sqrt(T) * c; }
static double sqrtVisc(const Gas& g, const string& t, size_t k, double T) { return g.ck ? sqrt(visc(g, t, k, T)) : sqrt(sqrt(T)) * in(t + "v" + S(k), 5e-4, 2e-3); }

// species properties are the stored polynomials of log T, whatever the temperature
static void fits(const string& ph, const string& model) {
    Gas g = gas(ph, model);
    double T = in("T", 300, 2500), P = in("P", 1e4, 1e7), L = log(T);
    state(*g.th, T, P, comp("x", g.K));
    auto poly = [&](const Vec& c) { double s = 0; for (size_t k = c.size(); k-- > 0;) s = s * L + c[k]; return s; };
    Vec v(g.K), c(nc(g)), D(g.K * (g.K + 1));
    g.tr->getSpeciesViscosities(v.data());
    for (size_t k = 0; k < g.K; k++) {
        g.tr->getViscosityPolynomial(k, c.data());
        double p = poly(c); eq("viscosity " + S(k), v[k], g.ck ? exp(p) : sqrt(T) * p * p, 1e-5);
    }
    g.tr->getBinaryDiffCoeffs(g.K + 1, D.data());
    for (size_t i = 0; i < g.K; i++) for (size_t j = 0; j < g.K; j++) {
        g.tr->getBinDiffusivityPolynomial(i, j, c.data());
        double p = poly(c); eq("diffusivity " + S(i) + S(j), D[(g.K + 1) * j + i] * P, g.ck ? exp(p) : T * sqrt(T) * p, 1);
    }
    bool threw = false;
    try { g.tr->getBinaryDiffCoeffs(g.K - 1, D.data()); } catch (CanteraError&) { threw = true; }
    tru("dimension checked", threw);
    int bad = 0;
    try { g.tr->getViscosityPolynomial(g.K, c.data()); } catch (CanteraError&) { bad++; }
    try { g.tr->setConductivityPolynomial(g.K, c.data()); } catch (CanteraError&) { bad++; }
    try { g.tr->setBinDiffusivityPolynomial(0, g.K, c.data()); } catch (CanteraError&) { bad++; }
    tru("index checked", bad == 3);
    reach("fits");
}
// setters store what is given, per pair, and take effect at once
static void setters(const string& ph, const string& model) {
    Gas g = gas(ph, model);
    state(*g.th, 700, 2e5, comp("x", g.K));
    Vec v(g.K), D(g.K * g.K), c(nc(g)), q(nc(g));
    g.tr->getSpeciesViscosities(v.data()); g.tr->getBinaryDiffCoeffs(g.K, D.data()); g.tr->thermalConductivity(); g.tr->viscosity();
    setVisc(g, "n"); setCond(g, "n"); setDiff(g, "n");
    g.tr->getSpeciesViscosities(v.data());
    for (size_t k = 0; k < g.K; k++) {
        eq("viscosity " + S(k), v[k], visc(g, "n", k, 700), 1e-6);
        g.tr->getViscosityPolynomial(k, c.data()); eq("viscosity coefficient", c[0], in("nv" + S(k), 0, 0), 1); for (size_t i = 1; i < c.size(); i++) tru("others", c[i] == 0);
        g.tr->getConductivityPolynomial(k, c.data()); eq("conductivity coefficient", c[0], in("nc" + S(k), 0, 0), 1);
    }
    g.tr->getBinaryDiffCoeffs(g.K, D.data());
    for (size_t i = 0; i < g.K; i++) for (size_t j = 0; j < g.K; j++) {
        g.tr->getBinDiffusivityPolynomial(j, i, c.data()); eq("diffusivity coefficient", c[0], in("nd" + pr(i, j), 0, 0), 1);
        eq("diffusivity " + S(i) + S(j), D[i + g.K * j] * 2e5, bin(g, "n", i, j, 700), 1);
    }
    size_t n = g.ck ? 7 : 9;
    Vec a(n), b(n), e(n), a2(n), b2(n), e2(n), o(n), o2(n), o3(n);
    g.tr->getCollisionIntegralPolynomial(0, 1, o.data(), o2.data(), o3.data());
    for (size_t i = 0; i < n; i++) { a[i] = in("a" + S(i), -1, 1); b[i] = in("b" + S(i), -1, 1); e[i] = in("e" + S(i), -1, 1); }
    Vec p(n), p2(n), p3(n);
    g.tr->getCollisionIntegralPolynomial(g.K - 1, g.K - 1, p.data(), p2.data(), p3.data());
    g.tr->setCollisionIntegralPolynomial(0, 1, a.data(), b.data(), e.data(), false);
    for (int s = 0; s < 2; s++) {
        g.tr->getCollisionIntegralPolynomial(s, 1 - s, a2.data(), b2.data(), e2.data());
        for (size_t i = 0; i < n; i++) { eq("astar", a2[i], a[i], 1); eq("bstar", b2[i], b[i], 1); eq("cstar", e2[i], e[i], 1); }
    }
    g.tr->getCollisionIntegralPolynomial(g.K - 1, g.K - 1, a2.data(), b2.data(), e2.data());
    for (size_t i = 0; i < n; i++) tru("other pair", a2[i] == p[i] && b2[i] == p2[i] && e2[i] == p3[i]);
    reach("setters");
}
static vector<size_t> neutrals(const Gas& g) { vector<size_t> n; for (size_t k = 0; k < g.K; k++) if (g.th->charge(k) == 0 || g.model != "ionized-gas") n.push_back(k); return n; }
static bool isE(const Gas& g, size_t k) { return g.model == "ionized-gas" && g.th->speciesName(k) == "E"; }
// the documented mixture rules in terms of species properties
static void mixture(const string& ph, const string& model, double T) {
    Gas g = gas(ph, model);
    double P = in("P", 1e4, 1e7); Vec x = comp("x", g.K);
    state(*g.th, T, P, x);
    setVisc(g, "s"); setCond(g, "s"); setDiff(g, "s");
    auto N = neutrals(g);
    const Vec& W = g.th->molecularWeights();
    double mu = 0, s1 = 0, s2 = 0, Wm = 0;
    for (size_t k = 0; k < g.K; k++) Wm += x[k] * W[k];
    for (size_t k : N) {
        double d = 0;
        for (size_t j = 0; j < g.K; j++) {
            double f = 1 + sqrtVisc(g, "s", k, T) / sqrtVisc(g, "s", j, T) * sqrt(sqrt(W[j] / W[k]));
            d += x[j] * f * f / sqrt(8 * (1 + W[k] / W[j]));
        }
        mu += x[k] * visc(g, "s", k, T) / d;
        s1 += x[k] * cond(g, "s", k, T); s2 += x[k] / cond(g, "s", k, T);
    }
    bool mixc = model.find("multi") == string::npos;
    if (g.K <= 3 || !g.ck) eq("viscosity", g.tr->viscosity(), mu, 1e-5);
    if (mixc) eq("conductivity", g.tr->thermalConductivity(), 0.5 * (s1 + 1 / s2), 1e-2);
    Vec d(g.K), m(g.K), y(g.K), mob(g.K);
    double kB = Boltzmann, e = ElectronCharge;
    bool unity = model == "unity-Lewis-number";
    g.tr->getMixDiffCoeffs(d.data()); if (!unity) g.tr->getMixDiffCoeffsMole(m.data()); g.tr->getMixDiffCoeffsMass(y.data());
    if (mixc) g.tr->getMobilities(mob.data());
    double sig = 0;
    if (unity) {
        double D = 0.5 * (s1 + 1 / s2) / (g.th->density() * g.th->cp_mass());
        for (size_t k = 0; k < g.K; k++) { eq("diffusion " + S(k), d[k], D, 1e-5); eq("mass diffusion " + S(k), y[k], D, 1e-5); eq("mobility", mob[k], d[k] * e / (kB * T), 1e-2); }
        reach("mixture"); return;
    }
    for (size_t k = 0; k < g.K; k++) {
        double a = 0, b = 0, c = 0, f = 0;
        for (size_t j : N) if (j != k) a += x[j] / bin(g, "s", j, k, T);
        for (size_t j = 0; j < g.K; j++) if (j != k) { b += x[j] / bin(g, "s", j, k, T); c += x[j] * W[j] / bin(g, "s", j, k, T); }
        if (g.K == 1) { for (double v : {d[k], m[k], y[k]}) eq("single", v * P, bin(g, "s", 0, 0, T), 1); continue; }
        if (isE(g, k)) { eq("electron diffusion", d[k], 0.4 * kB * T / e, 1e-2); eq("electron mobility", mob[k], 0.4, 1); sig += x[k] * P / (kB * T) * e * mob[k]; continue; }
        eq("diffusion " + S(k), d[k] * P, (1 - x[k] * W[k] / Wm) / a, 1);
        eq("molar diffusion " + S(k), m[k] * P, (1 - x[k]) / b, 1);
        eq("mass diffusion " + S(k), 1 / (y[k] * P), b + x[k] / (Wm - x[k] * W[k]) * c, 1);
        if (model == "ionized-gas") {
            for (size_t j : N) f += x[j] / (bin(g, "s", j, k, T) * e / (kB * T));
            bool ion = g.th->charge(k) != 0;
            eq("mobility " + S(k), mob[k] * P, ion ? 1 / f : 0, 1e2);
            sig += x[k] * P / (kB * T) * fabs(g.th->charge(k)) * e * mob[k];
        } else if (mixc) eq("mobility " + S(k), mob[k], d[k] * e / (kB * T), 1e-2);
    }
    if (model == "ionized-gas") eq("electrical conductivity", g.tr->electricalConductivity(), sig, 1e4);
    reach("mixture");
}
// mixture-averaged fluxes: diffusion along the gradients plus the correction that makes them sum to zero
static void mixFluxes(const string& ph, const string& model, size_t nd) {
    Gas g = gas(ph, model);
    double T = 800, P = in("P", 1e4, 1e7); Vec x = comp("x", g.K);
    state(*g.th, T, P, x);
    setDiff(g, "s"); if (model == "unity-Lewis-number") setCond(g, "s");
    const Vec& W = g.th->molecularWeights(); Vec Y(g.K); g.th->getMassFractions(Y.data());
    Vec d(g.K); g.tr->getMixDiffCoeffs(d.data());
    size_t ldx = g.K + 1, ldf = g.K + 2;
    Vec gT(nd, 10.0), gX(ldx * nd), f(ldf * nd, 3.5);
    for (size_t n = 0; n < nd; n++) { double s = 0; for (size_t k = 0; k + 1 < g.K; k++) { gX[n * ldx + k] = in("g" + S(n) + S(k), -10, 10); s += gX[n * ldx + k]; } gX[n * ldx + g.K - 1] = -s; }
    g.tr->getSpeciesFluxes(nd, gT.data(), ldx, gX.data(), ldf, f.data());
    double c = P / (GasConstant * T);
    for (size_t n = 0; n < nd; n++) {
        double s = 0, t = 0;
        for (size_t k = 0; k < g.K; k++) { s -= c * W[k] * d[k] * gX[n * ldx + k]; t += f[n * ldf + k]; }
        for (size_t k = 0; k < g.K; k++) eq("flux " + S(n) + S(k), f[n * ldf + k], -c * W[k] * d[k] * gX[n * ldx + k] - Y[k] * s, 1e-3);
        eq("sum " + S(n), t, 0, 1e-3);
        tru("padding", f[n * ldf + g.K] == 3.5);
    }
    Vec th(g.K, 1.0); g.tr->getThermalDiffCoeffs(th.data());
    for (double v : th) tru("no thermal diffusion", v == 0);
    reach("fluxes");
}
// multicomponent fluxes satisfy the Stefan-Maxwell equations, whatever was evaluated before
static void stefanMaxwell(const string& ph, const string& model, bool before, size_t nd) {
    Gas g = gas(ph, model);
    double T = 800, P = in("P", 1e4, 1e7); Vec x = comp("x", g.K);
    setDiff(g, "s");
    if (before) { Vec z(g.K, 0.2); z[g.K - 1] = 1 - 0.2 * (g.K - 1); state(*g.th, 600, 2e5, z); g.tr->thermalConductivity(); g.tr->viscosity(); }
    state(*g.th, T, P, x);
    const Vec& W = g.th->molecularWeights(); double rho = g.th->density();
    size_t ldx = g.K, ldf = g.K + 1;
    Vec gT(nd, 0.0), gX(ldx * nd), f(ldf * nd, 3.5);
    for (size_t n = 0; n < nd; n++) { double s = 0; for (size_t k = 0; k + 1 < g.K; k++) { gX[n * ldx + k] = in("g" + S(n) + S(k), k ? -1 : 5, k ? 1 : 10); s += gX[n * ldx + k]; } gX[n * ldx + g.K - 1] = -s; }
    g.tr->getSpeciesFluxes(nd, gT.data(), ldx, gX.data(), ldf, f.data());
    Vec Y(g.K); g.th->getMassFractions(Y.data());
    for (size_t n = 0; n < nd; n++) {
        double t = 0;
        for (size_t k = 0; k < g.K; k++) t += f[n * ldf + k];
        eq("sum " + S(n), t, 0, 1e-3);
        for (size_t i = 0; i < g.K; i++) {
            double r = 0;
            for (size_t j = 0; j < g.K; j++) if (j != i) r += x[i] * x[j] * P / bin(g, "s", i, j, T) * (f[n * ldf + j] / (rho * Y[j]) - f[n * ldf + i] / (rho * Y[i]));
            eq("Stefan-Maxwell " + S(n) + S(i), r, gX[n * ldx + i], 1);
        }
        tru("padding", f[n * ldf + g.K] == 3.5);
    }
    (void) W;
    reach("fluxes");
}
static Vec all(Gas& g, bool heavy) {
    Vec r; Vec v(g.K), D(g.K * g.K);
    auto add = [&](const Vec& w) { for (double q : w) r.push_back(q); };
    r.push_back(g.tr->viscosity());
    r.push_back(g.tr->thermalConductivity());
    if (g.model == "ionized-gas") r.push_back(g.tr->electricalConductivity());
    if (g.model.find("high") == string::npos) { g.tr->getSpeciesViscosities(v.data()); add(v); }
    g.tr->getBinaryDiffCoeffs(g.K, D.data()); add(D);
    g.tr->getMixDiffCoeffs(v.data()); add(v);
    if (g.model != "unity-Lewis-number") { g.tr->getMixDiffCoeffsMole(v.data()); add(v); }
    g.tr->getMixDiffCoeffsMass(v.data()); add(v);
    if (g.model.find("multi") == 0) {
        g.tr->getThermalDiffCoeffs(v.data()); add(v);
        g.tr->getMultiDiffCoeffs(g.K, D.data()); add(D);
    } else { g.tr->getMobilities(v.data()); add(v); }
    return r;
}
// what is returned depends on the current state only: a fresh object and one with a history agree
static void history(const string& ph, const string& model, const string& how) {
    Gas g = gas(ph, model);
    double T = in("T", 400, 1500), P = in("P", 1e5, 1e7), T2 = in("T2", 500, 1600), P2 = in("P2", 1e5, 1e7); Vec x = comp("x", g.K), z = comp("z", g.K), Y(g.K);
    bool high = model.find("high") == 0;
    if (high) { T = 400; P = 8e6; T2 = 450; P2 = 9e6; }
    auto other = [&](double t, double p, const Vec& c) { state(*g.th, t, p, c); };
    Vec v(g.K), D(g.K * g.K);
    if (how == "T") { other(T2, P, x); all(g, true); }
    else if (how == "X") { other(T, P, z); all(g, true); }
    else if (how == "P") { other(T, P2, x); all(g, true); }
    else if (how == "back") { other(T, P, x); all(g, true); other(T2, P2, z); g.tr->viscosity(); g.tr->getMixDiffCoeffs(v.data()); }
    else if (how == "back_conductivity") { other(T, P, x); g.tr->thermalConductivity(); other(T2, P, x); g.tr->viscosity(); }
    else if (how == "back_diffusion") { other(T, P, x); all(g, true); other(T2, P, x); g.tr->getBinaryDiffCoeffs(g.K, D.data()); }
    else if (how == "twice") { other(T, P, x); all(g, true); }
    state(*g.th, T, P, x);
    if (how == "flux") {     // fluxes and coefficients in an unusual order
        Vec gT(1, 0.0), gX(g.K, 0.0), f(g.K); gX[0] = 1; gX[1] = -1;
        other(T2, P2, z); g.tr->getSpeciesFluxes(1, gT.data(), g.K, gX.data(), g.K, f.data()); other(T, P, x);
    }
    Vec a;
    if (how == "back_conductivity") a = {g.tr->thermalConductivity()};
    else a = all(g, true);
    g.th->getMassFractions(Y.data());
    eq("temperature kept", g.th->temperature(), T, 1); if (!high) eq("pressure kept", g.th->pressure(), P, 1e5); { Vec xx(g.K); g.th->getMoleFractions(xx.data()); for (size_t k = 0; k < g.K; k++) eq("composition kept", xx[k], x[k], 1); }
    Gas h = g; h.tr = newTransport(g.th, model);
    eq("temperature kept by set-up", g.th->temperature(), T, 1); if (!high) eq("pressure kept by set-up", g.th->pressure(), P, 1e5);
    state(*g.th, T, P, x);
    Vec b;
    if (how == "back_conductivity") b = {h.tr->thermalConductivity()};
    else b = all(h, true);
    tru("size", a.size() == b.size());
    for (size_t i = 0; i < a.size(); i++) eq("result " + S(i), a[i], b[i], 1e-5);
    reach("history");
}
// setting a fit after an evaluation has the effect of setting it before
static void refit(const string& ph, const string& model) {
    Gas g = gas(ph, model);
    state(*g.th, 700, 2e5, comp("x", g.K));
    all(g, true);
    setVisc(g, "s"); setCond(g, "s"); setDiff(g, "s");
    Vec a = all(g, true);
    Gas h = g; h.tr = newTransport(g.th, model); setVisc(h, "s"); setCond(h, "s"); setDiff(h, "s"); state(*g.th, 700, 2e5, comp("x", g.K));
    Vec b = all(h, true);
    for (size_t i = 0; i < a.size() && i < b.size(); i++) eq("result " + S(i), a[i], b[i], 1e-5);
    reach("refit");
}
// the order of the species is immaterial
static void permuted(const string& model) {
    Gas g = gas("gas", model), h = gas("perm", model); size_t to[3] = {1, 2, 0}, K = 3;
    double T = 700, P = in("P", 1e4, 1e7); Vec x = comp("x", K), xp(K);
    setVisc(g, "s"); setCond(g, "s"); setDiff(g, "s");
    for (size_t k = 0; k < K; k++) {
        xp[to[k]] = x[k]; Vec c(nc(g));
        g.tr->getViscosityPolynomial(k, c.data()); h.tr->setViscosityPolynomial(to[k], c.data());
        g.tr->getConductivityPolynomial(k, c.data()); h.tr->setConductivityPolynomial(to[k], c.data());
        for (size_t j = 0; j < K; j++) { g.tr->getBinDiffusivityPolynomial(k, j, c.data()); h.tr->setBinDiffusivityPolynomial(to[k], to[j], c.data()); }
    }
    state(*g.th, T, P, x); state(*h.th, T, P, xp);
    eq("viscosity", h.tr->viscosity(), g.tr->viscosity(), 1e-5);
    if (model.find("multi")) eq("conductivity", h.tr->thermalConductivity(), g.tr->thermalConductivity(), 1e-2);
    Vec a(K), b(K), A(K * K), B(K * K);
    auto cmp = [&](const string& l) { for (size_t k = 0; k < K; k++) eq(l + S(k), b[to[k]], a[k], 1e-5); };
    g.tr->getMixDiffCoeffs(a.data()); h.tr->getMixDiffCoeffs(b.data()); cmp("diffusion ");
    g.tr->getMixDiffCoeffsMass(a.data()); h.tr->getMixDiffCoeffsMass(b.data()); cmp("mass diffusion ");
    g.tr->getBinaryDiffCoeffs(K, A.data()); h.tr->getBinaryDiffCoeffs(K, B.data());
    for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) { eq("binary", B[to[i] + K * to[j]], A[i + K * j], 1e-5); eq("symmetric", A[i + K * j], A[j + K * i], 1e-5); }
    reach("permuted");
}
// a species split into two identical ones is the same mixture
static void split(const string& model) {
    Gas g = gas("two", model), h = gas("split", model);
    double T = 700, P = in("P", 1e4, 1e7), r = in("r", 0.1, 0.9); Vec x = comp("x", 2), z{x[0] * r, x[1], x[0] * (1 - r)};
    setVisc(g, "s"); setCond(g, "s");
    size_t from[3] = {0, 1, 0};
    for (size_t k = 0; k < 3; k++) { Vec c(nc(g)); g.tr->getViscosityPolynomial(from[k], c.data()); h.tr->setViscosityPolynomial(k, c.data()); g.tr->getConductivityPolynomial(from[k], c.data()); h.tr->setConductivityPolynomial(k, c.data()); }
    state(*g.th, T, P, x); state(*h.th, T, P, z);
    eq("viscosity", h.tr->viscosity(), g.tr->viscosity(), 1e-5);
    if (model.find("multi")) eq("conductivity", h.tr->thermalConductivity(), g.tr->thermalConductivity(), 1e-2);
    Vec a(2), b(3); Vec A(4), B(9);
    g.tr->getBinaryDiffCoeffs(2, A.data()); h.tr->getBinaryDiffCoeffs(3, B.data());
    eq("binary", B[1], A[1], 1e-5); eq("binary other", B[1 + 3 * 2], A[1], 1e-5); eq("self", B[2], A[0], 1e-5);
    g.tr->getMixDiffCoeffs(a.data()); h.tr->getMixDiffCoeffs(b.data()); eq("diffusion of the other", b[1], a[1], 1e-5);
    reach("split");
}
// multicomponent coefficients reproduce the fluxes: j_i = rho W_i / Wbar^2 sum_j W_j D_ij grad X_j
static void multiCoefficients(bool two) {
    Gas g = gas(two ? "two" : "gas", "multicomponent");
    double T = 800, P = two ? in("P", 1e4, 1e7) : 2e5; Vec x = two ? comp("x", g.K) : Vec{0.25, 0.125, 0.625};
    setDiff(g, "s"); state(*g.th, T, P, x);
    size_t K = g.K, ld = K + 1; Vec D(ld * K, 9.5), gT(1, 0.0), gX(K), f(K);
    g.tr->getMultiDiffCoeffs(ld, D.data());
    double s = 0; for (size_t k = 0; k + 1 < K; k++) { gX[k] = in("g" + S(k), k ? -1 : 5, k ? 1 : 10); s += gX[k]; } gX[K - 1] = -s;
    g.tr->getSpeciesFluxes(1, gT.data(), K, gX.data(), K, f.data());
    const Vec& W = g.th->molecularWeights(); double Wm = g.th->meanMolecularWeight(), rho = g.th->density();
    for (size_t i = 0; i < K; i++) {
        double r = 0; for (size_t j = 0; j < K; j++) r += W[j] * D[ld * j + i] * gX[j];
        eq("flux " + S(i), f[i], rho * W[i] / (Wm * Wm) * r, 1e-3);
        eq("diagonal " + S(i), D[ld * i + i], 0, 1e-3);
        tru("padding", D[ld * i + K] == 9.5);
    }
    reach("multi");
}
// fluxes between two states use the mean state and the difference of mole fractions
static void twoStates(const string& ph) {
    Gas g = gas(ph, "multicomponent"); setDiff(g, "s");
    double T = 800, P = 2e5, del = in("delta", 1e-3, 1e-1); Vec x = comp("x", g.K), z = comp("z", g.K), m(g.K), s1, s2, f(g.K), h(g.K), q(g.K), gT(1, 0.0), gX(g.K);
    state(*g.th, T, P, x); g.th->saveState(s1); state(*g.th, T, P, z); g.th->saveState(s2);
    static_cast<MultiTransport&>(*g.tr).getMassFluxes(s1.data(), s2.data(), del, f.data());
    g.tr->getMolarFluxes(s1.data(), s2.data(), del, q.data());
    for (size_t k = 0; k < g.K; k++) { m[k] = 0.5 * (x[k] + z[k]); gX[k] = (z[k] - x[k]) / del; }
    state(*g.th, T, P, m);
    g.tr->getSpeciesFluxes(1, gT.data(), g.K, gX.data(), g.K, h.data());
    double t = 0;
    for (size_t k = 0; k < g.K; k++) { eq("mass flux " + S(k), f[k], h[k], 1e-3); eq("molar flux " + S(k), q[k] * g.th->molecularWeight(k), f[k], 1e-3); t += f[k]; }
    eq("sum", t, 0, 1e-3);
    reach("two states");
}
// dusty gas: sum_j (x_j N_k - x_k N_j)/D_kj + N_k/D_k = -(grad c_k + c_k B grad p/(mu D_k))
static void dusty(const string& ph, const string& how, const string& free) {
    auto sel = [&](const string& group, const string& name, double lo, double hi, double v) { return free == group ? in(name, lo, hi) : v; };
    Gas g; g.th = phase("tr.yaml", ph); g.K = g.th->nSpecies(); g.model = "DustyGas"; g.ck = false; g.tr = newTransport(g.th, "DustyGas");
    auto& d = static_cast<DustyGasTransport&>(*g.tr);
    Gas in0 = g; in0.tr = TR(&d.gasTransport(), [](Transport*) {}); if (free == "species") { setDiff(in0, "s"); setVisc(in0, "s"); }
    double por = sel("geometry", "por", 0.1, 0.6, 0.4), tau = sel("geometry", "tau", 1, 5, 2.5), rad = sel("pores", "rad", 1e-7, 1e-5, 1e-6), dia = sel("pores", "dia", 1e-6, 1e-4, 1e-5), perm = sel("pores", "perm", 1e-16, 1e-14, 3e-15);
    d.setMeanPoreRadius(2e-7); d.setPorosity(0.3); d.setTortuosity(3); d.setMeanParticleDiameter(1e-6); d.setPermeability(1e-15);
    double T = 800, del = sel("state", "delta", 1e-3, 1e-1, 0.02); Vec x(g.K, 0.25), z(g.K, 0.125), s1, s2, N(g.K), cb(g.K), gc(g.K);
    if (free == "composition") { x = comp("x", g.K); z = comp("z", g.K); }
    if (free != "composition") { x[0] = 1; z[0] = 1; for (size_t k = 1; k < g.K; k++) { x[0] -= x[k]; z[0] -= z[k]; } }
    double p1 = 1e5, p2 = sel("state", "p2", 1.1e5, 3e5, 2e5);
    state(*g.th, T, p1, x); g.th->saveState(s1); state(*g.th, T, p2, z); g.th->saveState(s2);
    if (how != "new") d.getMolarFluxes(s1.data(), s2.data(), del, N.data());      // the settings below come after an evaluation
    d.setPorosity(por); d.setTortuosity(tau); d.setMeanParticleDiameter(dia); d.setMeanPoreRadius(rad);
    if (how.substr(0, 4) == "only") {      // one setting is changed at a time
        char o = how[4]; d.getMolarFluxes(s1.data(), s2.data(), del, N.data());
        if (o == 'p') { por += 0.2; d.setPorosity(por); } else if (o == 't') { tau *= 1.5; d.setTortuosity(tau); } else if (o == 'r') { rad *= 2; d.setMeanPoreRadius(rad); } else if (o == 'd') { dia *= 2; d.setMeanParticleDiameter(dia); }
    }
    Vec B0(g.K * g.K); double P0 = 0;
    bool kc = how == "kozeny" || how == "onlyd"; d.setPermeability(kc ? -1.0 : perm);
    d.getMolarFluxes(s1.data(), s2.data(), del, N.data());
    P0 = g.th->pressure(); d.gasTransport().getBinaryDiffCoeffs(g.K, B0.data());
    double ct = 0, R = GasConstant; Vec xm(g.K), y(g.K);
    for (size_t k = 0; k < g.K; k++) { double a = p1 / (R * T) * x[k], b = p2 / (R * T) * z[k]; cb[k] = (a + b) / 2; gc[k] = (b - a) / del; ct += cb[k]; }
    for (size_t k = 0; k < g.K; k++) xm[k] = cb[k] / ct;
    double pm = (p1 + p2) / 2, B = kc ? por * por * por * dia * dia / (72 * tau * (1 - por) * (1 - por)) : perm, mu = d.gasTransport().viscosity();
    eq("mean pressure", g.th->pressure(), pm, 1e5);
    const Vec& W = g.th->molecularWeights();
    for (size_t k = 0; k < g.K; k++) {
        double Dk = 2.0 / 3.0 * rad * por / tau * sqrt(8 * R * T / (Pi * W[k])), r = N[k] / Dk;
        for (size_t j = 0; j < g.K; j++) if (j != k) r += (xm[j] * N[k] - xm[k] * N[j]) * pm / (B0[k + g.K * j] * P0 * por / tau);
        eq("equation " + S(k), r, -(gc[k] + cb[k] * B * (p2 - p1) / del / (mu * Dk)), 1);
    }
    reach("dusty");
}
// species added to the phase later are the same as species present from the start
static void added(const string& ph, const string& model) {
    Gas g = gas(ph, model);
    double T = in("T", 400, 1500), P = 2e5; Vec x0 = comp("z", g.K); state(*g.th, T, P, x0); all(g, true);
    bool ions = ph == "ions";
    g.th->addSpecies(phase("tr.yaml", ions ? "ionsplit" : "split")->species(ions ? "O2b" : "N2b")); g.K++;
    state(*g.th, T, P, comp("x", g.K));
    Vec a = all(g, true);
    Gas h = g; h.tr = newTransport(g.th, model); state(*g.th, T, P, comp("x", g.K));
    Vec b = all(h, true);
    for (size_t i = 0; i < a.size() && i < b.size(); i++) eq("result " + S(i), a[i], b[i], 1e-5);
    reach("added");
}
// high-pressure models: symmetric, dilute limit, mixture rules on top of the corrected binary coefficients
static void high(const string& model, const string& how) {
    Gas g = gas("high", model); size_t K = g.K; double T = 420, P = how.find("dilute") == 0 ? 1e4 : 8e6; Vec x(K), D(K * K), d(K), m(K), y(K);
    bool X = how.find("_x") != string::npos;
    x[0] = X ? in("x", 0.1, 0.6) : 0.25; x[1] = 0.25; x[2] = 0.75 - x[0];
    if (!X) setDiff(g, "s"); state(*g.th, T, P, x);
    if (how.find("permuted") == 0) {
        Gas h = gas("highperm", model); size_t to[3] = {1, 2, 0}; Vec xp(K); for (size_t k = 0; k < K; k++) xp[to[k]] = x[k];
        for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) { Vec c(5); g.tr->getBinDiffusivityPolynomial(i, j, c.data()); h.tr->setBinDiffusivityPolynomial(to[i], to[j], c.data()); }
        state(*h.th, T, P, xp);
        Vec E(K * K); g.tr->getBinaryDiffCoeffs(K, D.data()); h.tr->getBinaryDiffCoeffs(K, E.data());
        for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) eq("binary", E[to[i] + K * to[j]], D[i + K * j], 1e-7);
        eq("viscosity", h.tr->viscosity(), g.tr->viscosity(), 1e-5);
        reach("high"); return;
    }
    g.tr->getBinaryDiffCoeffs(K, D.data()); g.tr->getMixDiffCoeffs(d.data()); g.tr->getMixDiffCoeffsMole(m.data()); g.tr->getMixDiffCoeffsMass(y.data());
    const Vec& W = g.th->molecularWeights(); double Wm = g.th->meanMolecularWeight();
    for (size_t i = 0; i < K; i++) {
        double b = 0, c = 0;
        for (size_t j = 0; j < K; j++) {
            eq("symmetric", D[i + K * j], D[j + K * i], 1e-7);
            if (how == "dilute") eq("binary " + S(i) + S(j), D[i + K * j] * P, bin(g, "s", i, j, T), 1);
            if (i != j) { b += x[j] / D[i + K * j]; c += x[j] * W[j] / D[i + K * j]; }
        }
        eq("diffusion " + S(i), d[i] * b, 1 - x[i] * W[i] / Wm, 1);
        eq("molar diffusion " + S(i), m[i] * b, 1 - x[i], 1);
        eq("mass diffusion " + S(i), 1, y[i] * (b + x[i] / (Wm - x[i] * W[i]) * c), 1);
    }
    reach("high");
}
CASES {
    vector<string> gasModels{"mixture-averaged", "mixture-averaged-CK", "multicomponent", "multicomponent-CK", "unity-Lewis-number"};
    for (auto& m : gasModels) {
        addcase("fits_" + m, [=] { fits("gas", m); });
        addcase("setters_" + m, [=] { setters("gas", m); });
        addcase("mixture_" + m, [=] { mixture("gas", m, 700); });
        addcase("mixture_two_" + m, [=] { mixture("two", m, 1200); });
        addcase("mixture_one_" + m, [=] { mixture("one", m, 1200); });
        for (string h : {"T", "X", "P", "back", "back_conductivity", "back_diffusion", "twice", "flux"}) addcase("history_" + m + "_" + h, [=] { history("two", m, h); });
        addcase("refit_" + m, [=] { refit("two", m); });
        if (m != "unity-Lewis-number") { addcase("permuted_" + m, [=] { permuted(m); }); addcase("split_" + m, [=] { split(m); }); }
        addcase("added_" + m, [=] { added("two", m); });
    }
    for (string m : {"mixture-averaged", "mixture-averaged-CK", "unity-Lewis-number"}) for (size_t nd : {1, 2}) addcase("fluxes_" + m + "_" + S(nd), [=] { mixFluxes(nd == 1 ? "gas" : "two", m, nd); });
    for (string m : {"multicomponent", "multicomponent-CK"}) for (bool b : {false, true}) for (size_t nd : {1, 2}) addcase("stefan_maxwell_" + m + (b ? "_after_" : "_fresh_") + S(nd), [=] { stefanMaxwell(nd == 1 ? "gas" : "two", m, b, nd); });
    addcase("multi_two", [] { multiCoefficients(true); });
    addcase("multi_three", [] { multiCoefficients(false); });
    addcase("two_states_two", [] { twoStates("two"); });
    addcase("two_states_three", [] { twoStates("gas"); });
    for (string h : {"onlyp", "onlyt", "onlyr", "onlyd"}) { addcase("dusty_two_" + h, [=] { dusty("two", h, h == "onlyr" || h == "onlyd" ? "pores" : "geometry"); }); addcase("dusty_three_" + h, [=] { dusty("gas", h, h == "onlyr" || h == "onlyd" ? "pores" : "geometry"); }); }
    for (string h : {"new", "reset", "kozeny"}) for (string f : {"geometry", "pores", "species", "composition", "state"}) { addcase("dusty_two_" + h + "_" + f, [=] { dusty("two", h, f); }); if (f != "composition") addcase("dusty_three_" + h + "_" + f, [=] { dusty("gas", h, f); }); }
    addcase("ions_fits", [] { fits("ions", "ionized-gas"); });
    addcase("ions_setters", [] { setters("ions", "ionized-gas"); });
    addcase("ions_mixture", [] { mixture("ions", "ionized-gas", 900); });
    for (string h : {"T", "X", "P", "back", "twice"}) addcase("ions_history_" + h, [=] { history("ions", "ionized-gas", h); });
    addcase("ions_refit", [] { refit("ions", "ionized-gas"); });
    addcase("ions_added", [] { added("ions", "ionized-gas"); });
    for (string m : {"high-pressure", "high-pressure-Chung"}) {
        for (string h : {"mixture", "dilute", "permuted", "dilute_x", "permuted_x"}) addcase("high_" + m + "_" + h, [=] { high(m, h); });
        for (string h : {"X", "back", "twice"}) addcase("high_history_" + m + "_" + h, [=] { history("high", m, h); });
    }
}
