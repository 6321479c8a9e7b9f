// Species reference-state thermodynamics
#include "common.h"
#include "cantera/thermo/NasaPoly1.h"
#include "cantera/thermo/NasaPoly2.h"
#include "cantera/thermo/Nasa9Poly1.h"
#include "cantera/thermo/Nasa9PolyMultiTempRegion.h"
#include "cantera/thermo/ShomatePoly.h"
#include "cantera/thermo/ConstCpPoly.h"
#include "cantera/thermo/Mu0Poly.h"
#include "cantera/thermo/MultiSpeciesThermo.h"
#include "cantera/thermo/SpeciesThermoFactory.h"
#include "cantera/thermo/speciesThermoTypes.h"

typedef SpeciesThermoInterpType STI;
struct Props { double cp, h, s; };
static Props at(const STI& p, double T) { Props r; p.updatePropertiesTemp(T, &r.cp, &r.h, &r.s); return r; }
static Props atPoly(const STI& p, double T) {
    vector<double> tp(std::max<size_t>(p.temperaturePolySize(), 1));
    p.updateTemperaturePoly(T, tp.data());
    Props r; p.updateProperties(tp.data(), &r.cp, &r.h, &r.s); return r;
}
static void same(const string& l, const Props& a, const Props& b) {
    eq(l + ".cp", a.cp, b.cp, 1e-6); eq(l + ".h", a.h, b.h, 1e-6); eq(l + ".s", a.s, b.s, 1e-6);
}
// cp = dh/dT, cp/T = ds/dT, both evaluation routes agree
static void consistent(const STI& p, double T, const string& l = "") {
    Props a = at(p, T), b = atPoly(p, T);
    deriv(l + "dh/dT", a.h * T, T, a.cp, 1e-3);
    deriv(l + "ds/dT", a.s, T, a.cp / T, 1e-6);
    same(l + "poly-vs-temp", a, b);
}
// heat of formation: reporting, shifting, resetting
static void hf298(STI& p, double T) {
    Props a = at(p, T);
    double h0 = p.reportHf298();
    Props r = at(p, 298.15);
    eq("Hf298 is h(298.15)", h0, r.h * 298.15 * GasConstant, 1.0);
    double hn = in("Hf_new", -4e8, 4e8);
    p.modifyOneHf298(0, hn);
    eq("Hf298 after modify", p.reportHf298(), hn, 1.0);
    Props b = at(p, T);
    eq("modify keeps cp", b.cp, a.cp, 1e-6);
    eq("modify keeps s", b.s, a.s, 1e-6);
    eq("modify shifts h", (b.h - a.h) * T * GasConstant, hn - h0, 1.0);
    consistent(p, T, "modified ");
    p.resetHf298();
    same("reset restores", at(p, T), a);
    eq("reset Hf298", p.reportHf298(), h0, 1.0);
}
static vector<double> coeffs(const string& n, size_t k, double m = 10) {
    vector<double> c;
    // NASA-like scaling so that every term matters over the temperature range
    for (size_t i = 0; i < k; i++) c.push_back(in(n + S(i), -m, m));
    return c;
}
// parameters written out and read back describe the same function
static void yamlRoundTrip(const STI& p, double T, bool limits = true) {
    AnyMap m = p.parameters(false);
    UnitSystem u; m.setUnits(u);
    AnyMap n = m;
    n.applyUnits();
    auto q = newSpeciesThermo(n);
    same("parameters round trip", at(*q, T), at(p, T));
    // (constant-cp and piecewise-Gibbs keep their limits in the input map only)
    if (limits) tru("temperature limits kept", q->minTemp() == p.minTemp() && q->maxTemp() == p.maxTemp());
    eq("reference pressure kept", q->refPressure(), p.refPressure());
}
static void reported(const STI& p, const vector<double>& c, size_t off = 0) {
    size_t n; int type; double lo, hi, pref; vector<double> out(64);
    p.reportParameters(n, type, lo, hi, pref, out.data());
    for (size_t i = 0; i < c.size(); i++) eq("reported coefficient " + S(i), out[i + off], c[i], 1e-8);
    tru("reported range", lo == p.minTemp() && hi == p.maxTemp() && pref == p.refPressure() && type == p.reportType());
}

SYM_CASE(nasa7_one) {
    auto c = coeffs("a", 7);
    NasaPoly1 p(200, 3500, OneAtm, c.data());
    double T = in("T", 200, 3500);
    consistent(p, T); reported(p, c); hf298(p, T);
}
SYM_CASE(nasa7_two) {
    vector<double> c{in("Tmid", 500, 2000)};
    for (double x : coeffs("a", 14)) c.push_back(x);
    NasaPoly2 p(200, 3500, OneAtm, c.data());
    double T = in("T", 200, 3500);
    consistent(p, T); reported(p, c);
    // region selection: low polynomial at and below Tmid, high above
    NasaPoly1 hi(200, 3500, OneAtm, &c[1]), lo(200, 3500, OneAtm, &c[8]);
    same("region", at(p, T), T <= c[0] ? at(lo, T) : at(hi, T));
    hf298(p, T);
}
SYM_CASE(nasa7_yaml) {
    auto lo = coeffs("lo", 7), hi = coeffs("hi", 7);
    NasaPoly2 p;
    p.setMinTemp(200); p.setMaxTemp(3500); p.setRefPressure(1e5);
    p.setParameters(1000, lo, hi);
    double T = in("T", 200, 3500);
    NasaPoly1 a(200, 3500, OneAtm, lo.data()), b(200, 3500, OneAtm, hi.data());
    same("low/high order", at(p, T), T <= 1000 ? at(a, T) : at(b, T));
    yamlRoundTrip(p, T);
}
SYM_CASE(nasa9_one) {
    auto c = coeffs("a", 9);
    Nasa9Poly1 p(200, 6000, OneAtm, c.data());
    double T = in("T", 200, 6000);
    consistent(p, T); reported(p, c, 3);
}
SYM_CASE(nasa9_multi) {
    std::map<double, vector<double>> reg;
    vector<vector<double>> cs;
    double lim[4] = {200, 1000, 3000, 6000};
    for (int k = 0; k < 3; k++) { cs.push_back(coeffs(S(k) + "a", 9)); reg[lim[k]] = cs[k]; }
    Nasa9PolyMultiTempRegion p;
    p.setMinTemp(200); p.setMaxTemp(6000); p.setRefPressure(OneAtm);
    p.setParameters(reg);
    double T = in("T", 200, 6000);
    consistent(p, T);
    int k = T < 1000 ? 0 : T < 3000 ? 1 : 2;
    Nasa9Poly1 q(lim[k], lim[k + 1], OneAtm, cs[k].data());
    Props a = at(p, T);
    if (T != 1000.0 && T != 3000.0) same("region", a, at(q, T));
    yamlRoundTrip(p, T);
}
SYM_CASE(shomate_one) {
    auto c = coeffs("a", 7, 100);
    ShomatePoly p(200, 3500, OneAtm, c.data());
    double T = in("T", 200, 3500);
    consistent(p, T); reported(p, c); hf298(p, T);
}
SYM_CASE(shomate_two) {
    vector<double> c{in("Tmid", 500, 2000)};
    for (double x : coeffs("a", 14, 100)) c.push_back(x);
    ShomatePoly2 p(200, 3500, OneAtm, c.data());
    double T = in("T", 200, 3500);
    consistent(p, T); reported(p, c);
    ShomatePoly lo(200, 3500, OneAtm, &c[1]), hi(200, 3500, OneAtm, &c[8]);
    same("region", at(p, T), T <= c[0] ? at(lo, T) : at(hi, T));
    hf298(p, T);
}
SYM_CASE(shomate_yaml) {
    auto lo = coeffs("lo", 7, 100), hi = coeffs("hi", 7, 100);
    ShomatePoly2 p;
    p.setMinTemp(200); p.setMaxTemp(3500); p.setRefPressure(1e5);
    p.setParameters(1000, lo, hi);
    double T = in("T", 200, 3500);
    yamlRoundTrip(p, T);
    // NIST form: cp in J/mol/K with t = T/1000
    double t = T / 1000;
    auto& c = T <= 1000 ? lo : hi;
    Props a = at(p, T);
    eq("cp formula", a.cp * GasConstant / 1000, c[0] + c[1] * t + c[2] * t * t + c[3] * t * t * t + c[4] / (t * t), 1e-3);
    eq("h formula", a.h * GasConstant * T / 1e6, c[0] * t + c[1] * t * t / 2 + c[2] * t * t * t / 3 + c[3] * t * t * t * t / 4 - c[4] / t + c[5], 1e-3);
}
SYM_CASE(constant_cp) {
    vector<double> c{in("T0", 250, 1500), in("h0", -4e8, 4e8), in("s0", 0, 3e5), in("cp0", 1e3, 2e5)};
    ConstCpPoly p(200, 3500, OneAtm, c.data());
    double T = in("T", 200, 3500);
    consistent(p, T); reported(p, c);
    Props a = at(p, c[0]);
    eq("h(T0)", a.h * GasConstant * c[0], c[1], 1.0);
    eq("s(T0)", a.s * GasConstant, c[2], 1.0);
    eq("cp", a.cp * GasConstant, c[3], 1.0);
    hf298(p, T);
}
SYM_CASE(constant_cp_yaml) {
    ConstCpPoly p;
    p.setMinTemp(200); p.setMaxTemp(3500); p.setRefPressure(1e5);
    p.setParameters(in("T0", 250, 1500), in("h0", -4e8, 4e8), in("s0", 1, 3e5), in("cp0", 1e3, 2e5));
    yamlRoundTrip(p, in("T", 200, 3500), false);
}
static void mu0(const vector<double>& Ts) {
    std::map<double, double> t;
    vector<double> mu;
    for (size_t i = 0; i < Ts.size(); i++) { mu.push_back(in("mu" + S(i), -4e8, 4e8)); t[Ts[i]] = mu[i]; }
    double h0 = in("h0", -4e8, 4e8);
    Mu0Poly p;
    p.setMinTemp(200); p.setMaxTemp(3000); p.setRefPressure(OneAtm);
    p.setParameters(h0, t);
    for (size_t i = 0; i < Ts.size(); i++) {
        Props a = at(p, Ts[i]);
        eq("gibbs at node " + S(i), (a.h - a.s) * Ts[i] * GasConstant, mu[i], 1.0);
    }
    Props r = at(p, 298.15);
    eq("h(298.15)", r.h * 298.15 * GasConstant, h0, 1.0);
    double T = in("T", Ts.front(), Ts.back());
    consistent(p, T);
    // continuity of h and s across an interior node
    for (size_t i = 1; i + 1 < Ts.size(); i++) {
        Props m = at(p, Ts[i]), n = at(p, Ts[i] * (1 + 1e-13));
        eq("h continuous at node", m.h, n.h, 1e3);
        eq("s continuous at node", m.s, n.s, 1e3);
    }
    yamlRoundTrip(p, T, false);
}
SYM_CASE(mu0_up) { mu0({298.15, 500, 900, 1400}); }
SYM_CASE(mu0_mid) { mu0({200, 298.15, 500, 800}); }
SYM_CASE(mu0_down) { mu0({150, 200, 298.15}); }

// the batch manager gives each species exactly what it gives alone, for any mixture of models
SYM_CASE(manager) {
    MultiSpeciesThermo M;
    vector<shared_ptr<STI>> sp;
    vector<double> c2{1000}; for (double x : coeffs("n7", 14)) c2.push_back(x);
    vector<double> c3{700}; for (double x : coeffs("m7", 14)) c3.push_back(x);
    auto s2 = vector<double>{900}; for (double x : coeffs("sh", 14, 100)) s2.push_back(x);
    sp.push_back(std::make_shared<NasaPoly2>(200, 3500, OneAtm, c2.data()));
    sp.push_back(std::make_shared<ShomatePoly2>(200, 3000, OneAtm, s2.data()));
    sp.push_back(std::make_shared<NasaPoly2>(300, 3600, OneAtm, c3.data()));
    sp.push_back(std::make_shared<NasaPoly1>(200, 3500, OneAtm, coeffs("p", 7).data()));
    sp.push_back(std::make_shared<Nasa9Poly1>(200, 3400, OneAtm, coeffs("q", 9).data()));
    vector<double> cc{in("T0", 250, 1500), in("h0", -4e8, 4e8), in("s0", 0, 3e5), in("cp0", 1e3, 2e5)};
    sp.push_back(std::make_shared<ConstCpPoly>(200, 3500, OneAtm, cc.data()));
    size_t order[6] = {3, 0, 5, 1, 4, 2};
    for (size_t k : order) M.install_STIT(k, sp[k]);
    double T = in("T", 300, 3000);
    vector<double> cp(6), h(6), s(6);
    M.update(T, cp.data(), h.data(), s.data());
    for (size_t k = 0; k < 6; k++) {
        Props a = at(*sp[k], T), b;
        M.update_single(k, T, &b.cp, &b.h, &b.s);
        same("update " + S(k), Props{cp[k], h[k], s[k]}, a);
        same("update_single " + S(k), b, a);
    }
    tru("minTemp", M.minTemp() == 300 && M.minTemp(0) == 200);
    tru("maxTemp", M.maxTemp() == 3000 && M.maxTemp(4) == 3400);
    double h0 = M.reportOneHf298(2), h00 = M.reportOneHf298(0), hn = in("Hf_new", -4e8, 4e8);
    M.modifyOneHf298(2, hn);
    eq("modified Hf298", M.reportOneHf298(2), hn, 1.0);
    eq("other species untouched", M.reportOneHf298(0), h00, 1.0);
    vector<double> h2(6);
    M.update(T, cp.data(), h2.data(), s.data());
    for (size_t k = 0; k < 6; k++) eq("only species 2 shifts", (h2[k] - h[k]) * GasConstant * T, k == 2 ? hn - h0 : 0.0, 1.0);
    M.resetHf298(2);
    eq("reset Hf298", M.reportOneHf298(2), h0, 1.0);
}
SYM_CASE(manager_replace) {
    MultiSpeciesThermo M;
    vector<double> a{1000}, b{700};
    for (double x : coeffs("a", 14)) a.push_back(x);
    for (double x : coeffs("b", 14)) b.push_back(x);
    auto pa = std::make_shared<NasaPoly2>(200, 3500, OneAtm, a.data());
    auto pc = std::make_shared<NasaPoly2>(200, 3500, OneAtm, b.data());
    auto pb = std::make_shared<NasaPoly2>(200, 3500, OneAtm, b.data());
    M.install_STIT(0, pa); M.install_STIT(1, pc);
    double T = in("T", 200, 3500);
    vector<double> cp(2), h(2), s(2);
    M.update(T, cp.data(), h.data(), s.data());
    M.modifySpecies(0, pb);
    M.update(T, cp.data(), h.data(), s.data());
    same("replaced species", Props{cp[0], h[0], s[0]}, at(*pb, T));
    same("kept species", Props{cp[1], h[1], s[1]}, at(*pc, T));
}
