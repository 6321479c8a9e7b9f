// Rate expressions: every parameterization against its documented formula, for all parameters
#include "kin.h"
#include "cantera/kinetics/Arrhenius.h"
#include "cantera/kinetics/BlowersMaselRate.h"
#include "cantera/kinetics/TwoTempPlasmaRate.h"
#include "cantera/kinetics/Falloff.h"
#include "cantera/kinetics/PlogRate.h"
#include "cantera/kinetics/ChebyshevRate.h"
#include "cantera/kinetics/LinearBurkeRate.h"
#include "cantera/kinetics/ReactionRateFactory.h"
#include "cantera/kinetics/KineticsFactory.h"
#include "cantera/numerics/eigen_dense.h"
static const double R = GasConstant;
static double arr(double A, double b, double Ea, double T) { return A * std::pow(T, b) * std::exp(-Ea / (R * T)); }
static UnitStack rateUnits(double order) { // (m^3/kmol)^(order-1)/s
    UnitStack u({{Units("kmol/m^3"), 1.0 - order}, {Units("s"), -1.0}});
    return u;
}
struct Arr {
    double A, b, Ea;
    double operator()(double T) const { return arr(A, b, Ea, T); }
    ArrheniusRate rate() const { return ArrheniusRate(A, b, Ea); }
    AnyMap node() const { AnyMap m; m["A"] = A; m["b"] = b; m["Ea"] = Ea; return m; }
};
static shared_ptr<ReactionRate> recreate(ReactionRate& r, const UnitStack& u) {
    AnyMap p = r.parameters();
    p.applyUnits();
    return newReactionRate(p, u);
}
static Arr symArr(const string& t, double lo = 1, double hi = 1e10) {
    return {in("A" + t, lo, hi), in("b" + t, -3, 3), in("Ea" + t, -2e7, 4e8)};
}
static void arrhenius() {
    double T = in("T", 200, 4000);
    Arr a = symArr("");
    ArrheniusRate r(a.A, a.b, a.Ea);
    eq("k(T)", r.eval(T), a(T));
    eq("evalRate", r.evalRate(std::log(T), 1 / T), a(T));
    eq("log k", r.evalLog(std::log(T), 1 / T), std::log(a(T)), 1);
    eq("A", r.preExponentialFactor(), a.A);
    eq("b", r.temperatureExponent(), a.b);
    eq("Ea", r.activationEnergy(), a.Ea);
    ArrheniusData d; d.update(T);
    deriv("d ln k/dT", std::log(r.eval(T)), T, r.ddTScaledFromStruct(d));
    tru("k(T) > 0", r.eval(T) > 0);
    // the same from an input node, and from the parameters reported by it
    AnyMap n; n["rate-constant"] = a.node();
    ArrheniusRate r2(n, rateUnits(2));
    eq("from node", r2.eval(T), a(T));
    auto r3 = recreate(r2, rateUnits(2));
    eq("from reported parameters", r3->eval(T), a(T));
    AnyMap p = r2.parameters();
    p.applyUnits();
    AnyMap& rc = p["rate-constant"].as<AnyMap>();
    eq("reported A", rc["A"].asDouble(), a.A);
    eq("reported b", rc["b"].asDouble(), a.b);
    eq("reported Ea", rc["Ea"].asDouble(), a.Ea);
    // list form
    AnyMap n4; n4["rate-constant"] = vector<double>{a.A, a.b, a.Ea};
    vector<AnyValue> lst(3); lst[0] = a.A; lst[1] = a.b; lst[2] = a.Ea;
    n4["rate-constant"] = lst;
    ArrheniusRate r4(n4, rateUnits(1));
    eq("from list", r4.eval(T), a(T));
    reach("arrhenius");
}
// the same numbers given in other unit systems
static void arrhenius_units() {
    double T = in("T", 200, 4000);
    Arr a = symArr("");
    struct U { const char* len; const char* qty; const char* en; double fl, fq, fe; } us[] = {
        {"cm", "mol", "cal/mol", 1e-2, 1e-3, 4184.0}, {"m", "kmol", "K", 1, 1, GasConstant},
        {"cm", "molec", "eV", 1e-2, 1.0 / Avogadro, ElectronCharge * Avogadro}, {"mm", "mol", "kJ/mol", 1e-3, 1e-3, 1e6}};
    for (auto& u : us) for (double order : {1.0, 2.0, 3.0}) {
        AnyMap n;
        AnyMap an = a.node(); an["Ea"] = a.Ea / u.fe;
        n["rate-constant"] = an;
        AnyMap un; un["length"] = string(u.len); un["quantity"] = string(u.qty); un["activation-energy"] = string(u.en);
        n["units"] = un;
        n.applyUnits();
        ArrheniusRate r(n, rateUnits(order));
        double f = std::pow(u.fl * u.fl * u.fl / u.fq, order - 1);
        eq(string("k ") + u.len + u.qty + S(order), r.eval(T), arr(a.A * f, a.b, a.Ea, T));
    }
    reach("units");
}
static void blowers() {
    double T = in("T", 200, 4000), A = in("A", 1, 1e10), b = in("b", -3, 3), Ea0 = in("Ea0", 1e6, 2e8), w = in("w", 2.5e8, 2e9);
    double dH = in("dH", -1.2e9, 1.2e9);
    BlowersMaselRate r(A, b, Ea0, w);
    r.setDeltaH(dH);
    eq("deltaH", r.deltaH(), dH);
    double Ea;
    if (dH < -4 * Ea0) Ea = 0;
    else if (dH > 4 * Ea0) Ea = dH;
    else {
        double vp = 2 * w * (w + Ea0) / (w - Ea0);
        Ea = (w + dH / 2) * (vp - 2 * w + dH) * (vp - 2 * w + dH) / (vp * vp - 4 * w * w + dH * dH);
    }
    eq("Ea", r.activationEnergy(), Ea, 1e6);
    eq("k", r.eval(T), arr(A, b, Ea, T));
    eq("w", r.bondEnergy(), w);
    AnyMap n; AnyMap c; c["A"] = A; c["b"] = b; c["Ea0"] = Ea0; c["w"] = w; n["rate-constant"] = c; n["type"] = "Blowers-Masel";
    auto r2 = newReactionRate(n, rateUnits(2));
    std::dynamic_pointer_cast<BlowersMaselRate>(r2)->setDeltaH(dH);
    eq("k from node", r2->eval(T), arr(A, b, Ea, T));
    auto r3 = std::dynamic_pointer_cast<BlowersMaselRate>(recreate(r, rateUnits(2)));
    // intrinsic energy must be reported, whatever the current reaction enthalpy
    r3->setDeltaH(dH);
    eq("k from reported parameters", r3->eval(T), arr(A, b, Ea, T));
    r.setDeltaH(0);
    eq("Ea at zero enthalpy", r.activationEnergy(), Ea0);
    reach("blowers");
}
static void two_temp() {
    double T = in("T", 200, 4000), Te = in("Te", 300, 60000), A = in("A", 1, 1e10), b = in("b", -3, 3), Ea = in("Ea", -1e8, 1e8), EE = in("EE", -1e8, 1e8);
    TwoTempPlasmaRate r(A, b, Ea, EE);
    double k = A * std::pow(Te, b) * std::exp(-Ea / (R * T)) * std::exp(EE * (Te - T) / (R * T * Te));
    eq("k(T,Te)", r.eval(T, Te), k);
    eq("EE", r.activationElectronEnergy(), EE, 1);
    AnyMap n; AnyMap c; c["A"] = A; c["b"] = b; c["Ea-gas"] = Ea; c["Ea-electron"] = EE; n["rate-constant"] = c; n["type"] = "two-temperature-plasma";
    auto r2 = newReactionRate(n, rateUnits(2));
    eq("from node", r2->eval(T, Te), k);
    auto r3 = recreate(r, rateUnits(2));
    eq("from reported parameters", r3->eval(T, Te), k);
    reach("two_temp");
}
// --- falloff ---
static double lg(double x) { return std::log(x) / std::log(10.0); }
static double troeF(double Fc, double pr) {
    double c = -0.4 - 0.67 * lg(Fc), n = 0.75 - 1.27 * lg(Fc), l = lg(pr);
    double f1 = (l + c) / (n - 0.14 * (l + c));
    return std::exp(std::log(Fc) / (1 + f1 * f1));
}
template<class Rate, class FF>
static void falloffCase(const char* type, const char* key, const vector<pair<string, double>>& coeffs, const vector<string>& names, const FF& F, bool ca) {
    double T = in("T", 300, 3000), M = in("M", 1e-6, 1e3);
    Arr lo = symArr("0", 1e2, 1e10), hi = symArr("inf", 1e2, 1e12);
    vector<double> cf;
    for (auto& c : coeffs) cf.push_back(c.second);
    Rate r(lo.rate(), hi.rate(), cf);
    r.setChemicallyActivated(ca);
    double pr = lo(T) * M / hi(T);
    double k = ca ? lo(T) / (1 + pr) * F(T, pr) : hi(T) * pr / (1 + pr) * F(T, pr);
    eq("k(T,M)", r.eval(T, M), k, 0);
    // coefficients are returned as given
    vector<double> c2;
    r.getFalloffCoeffs(c2);
    for (size_t i = 0; i < cf.size() && i < c2.size(); i++) eq("coefficient " + S(i), c2[i], cf[i], 1e-6);
    for (size_t i = cf.size(); i < c2.size(); i++) reach("more coefficients");
    eq("F(T,Pr)", r.evalF(T, M), F(T, pr));
    // from an input node and from the reported parameters
    AnyMap n, fc;
    n["type"] = string(ca ? "chemically-activated" : "falloff");
    n["low-P-rate-constant"] = lo.node();
    n["high-P-rate-constant"] = hi.node();
    for (size_t i = 0; i < names.size() && i < cf.size(); i++) fc[names[i]] = cf[i];
    if (key[0]) n[key] = fc;
    auto r2 = newReactionRate(n, rateUnits(2));
    tru("type", r2->subType() == type);
    eq("from node", r2->eval(T, M), k, 0);
    auto r3 = recreate(*r2, rateUnits(2));
    eq("from reported parameters", r3->eval(T, M), k, 0);
    // changed components
    Arr lo2{in("A2", 1e2, 1e10), lo.b, lo.Ea};
    r.setLowRate(lo2.rate());
    double pr2 = lo2(T) * M / hi(T);
    eq("after setLowRate", r.eval(T, M), ca ? lo2(T) / (1 + pr2) * F(T, pr2) : hi(T) * pr2 / (1 + pr2) * F(T, pr2), 0);
    reach("falloff");
}
template<class F> static void both(const string& n, F f) {
    addcase(n, [f] { f(false); });
    addcase(n + "_activated", [f] { f(true); });
}
static void lindemann(bool ca) { falloffCase<LindemannRate>("Lindemann", "", {}, {}, [](double, double) { return 1.0; }, ca); }
static void troe(bool ca, int form) {
    double a = form == 2 ? in("a", -0.2, 1.5) : in("a", 0.1, 0.9), T3 = in("T3", 50, 5000), T1 = in("T1", 50, 5000), T2 = form == 2 ? in("T2", -2000, -1) : in("T2", 1, 20000);
    vector<pair<string, double>> c = {{"a", a}, {"T3", T3}, {"T1", T1}};
    if (form >= 1) c.push_back({"T2", T2});
    falloffCase<TroeRate>("Troe", "Troe", c, {"A", "T3", "T1", "T2"}, [=](double T, double pr) {
        double Fc = (1 - a) * std::exp(-T / T3) + a * std::exp(-T / T1);
        if (form >= 1) Fc += std::exp(-T2 / T);
        if (form == 2) sym_assume(Fc > 1e-3);
        return troeF(Fc, pr);
    }, ca);
}
static void sri(bool ca, int form) {
    double a = in("a", 0.1, 2), b = in("b", 50, 5000), c = in("c", 50, 5000), d = in("d", 0.2, 2), e = in("e", -1, 1);
    vector<pair<string, double>> cf = {{"a", a}, {"b", b}, {"c", c}};
    if (form) { cf.push_back({"d", d}); cf.push_back({"e", e}); }
    falloffCase<SriRate>("SRI", "SRI", cf, {"A", "B", "C", "D", "E"}, [=](double T, double pr) {
        double l = lg(pr), x = 1 / (1 + l * l);
        double F = std::pow(a * std::exp(-b / T) + std::exp(-T / c), x);
        return form ? d * F * std::pow(T, e) : F;
    }, ca);
}
static void tsang(bool ca, int) {
    double a = in("a", 0.2, 1), b = in("b", 1e-6, 1e-4);
    falloffCase<TsangRate>("Tsang", "Tsang", {{"a", a}, {"b", b}}, {"A", "B"}, [=](double T, double pr) { return troeF(a + b * T, pr); }, ca);
}
// --- pressure dependent ---
static void plog() {
    double T = in("T", 300, 3000), P = in("P", 1e3, 1e8);
    vector<double> Ps = {in("P0", 1e4, 2e4), in("P1", 1e5, 2e5), in("P2", 1e6, 2e6)};
    vector<Arr> a; for (int i = 0; i < 4; i++) a.push_back(symArr(S(i), 1e2, 1e8));
    // two expressions at the middle pressure
    std::multimap<double, ArrheniusRate> mm = {{Ps[2], a[3].rate()}, {Ps[0], a[0].rate()}, {Ps[1], a[1].rate()}, {Ps[1], a[2].rate()}};
    PlogRate r(mm);
    double k[3] = {a[0](T), a[1](T) + a[2](T), a[3](T)};
    double l[3]; for (int i = 0; i < 3; i++) l[i] = std::log(k[i]);
    double ref;
    auto interp = [&](int i) { return std::exp(l[i] + (l[i + 1] - l[i]) * (std::log(P) - std::log(Ps[i])) / (std::log(Ps[i + 1]) - std::log(Ps[i]))); };
    if (P < Ps[0]) ref = k[0]; else if (P < Ps[1]) ref = interp(0); else if (P < Ps[2]) ref = interp(1); else ref = k[2];
    eq("k(T,P)", r.eval(T, P), ref);
    // at the tabulated pressures the listed expressions hold
    PlogRate r1(mm);
    eq("k(T,P0)", r1.eval(T, Ps[0]), k[0]);
    eq("k(T,P1)", r1.eval(T, Ps[1]), k[1]);
    eq("k(T,P2)", r1.eval(T, Ps[2]), k[2]);
    eq("again at P", r1.eval(T, P), ref);
    // reported parameters
    auto rates = r.getRates();
    tru("number of rates", rates.size() == 4);
    AnyMap n; vector<AnyMap> v;
    for (int i : {0, 3, 1, 2}) { AnyMap m = a[i].node(); m["P"] = Ps[i == 0 ? 0 : i == 3 ? 2 : 1]; v.push_back(m); }
    n["type"] = "pressure-dependent-Arrhenius"; n["rate-constants"] = v;
    auto r2 = newReactionRate(n, rateUnits(2));
    eq("from node", r2->eval(T, P), ref);
    auto r3 = recreate(*r2, rateUnits(2));
    eq("from reported parameters", r3->eval(T, P), ref);
    reach("plog");
}
static void plog_single() {
    double T = in("T", 300, 3000), P = in("P", 1e3, 1e8), P0 = in("P0", 1e4, 1e7);
    Arr a = symArr("");
    PlogRate r(std::multimap<double, ArrheniusRate>{{P0, a.rate()}});
    eq("one pressure only", r.eval(T, P), a(T));
    reach("plog_single");
}
static void chebyshev(size_t nT, size_t nP) {
    double T = in("T", 320, 2900), P = in("P", 1.1e3, 0.9e8);
    double Tmin = in("Tmin", 290, 310), Tmax = in("Tmax", 2950, 3050), Pmin = in("Pmin", 900, 1000), Pmax = in("Pmax", 1e8, 1.1e8);
    Array2D c(nT, nP);
    vector<vector<double>> cv(nT, vector<double>(nP));
    for (size_t i = 0; i < nT; i++) for (size_t j = 0; j < nP; j++) cv[i][j] = c(i, j) = in("c" + S(i) + S(j), -2, 2);
    ChebyshevRate r(Tmin, Tmax, Pmin, Pmax, c);
    double Tr = (2 / T - 1 / Tmin - 1 / Tmax) / (1 / Tmax - 1 / Tmin);
    double Pr = (2 * lg(P) - lg(Pmin) - lg(Pmax)) / (lg(Pmax) - lg(Pmin));
    auto cheb = [](double x, size_t n) { double a = 1, b = x; if (n == 0) return a; for (size_t i = 1; i < n; i++) { double t = 2 * x * b - a; a = b; b = t; } return b; };
    double lk = 0;
    for (size_t i = 0; i < nT; i++) for (size_t j = 0; j < nP; j++) lk += cv[i][j] * cheb(Tr, i) * cheb(Pr, j);
    eq("log10 k(T,P)", std::log(r.eval(T, P)), lk * std::log(10.0), 1);
    eq("k(T,P)", r.eval(T, P), std::exp(lk * std::log(10.0)));
    double T2 = in("T2", 320, 2900);
    double Tr2 = (2 / T2 - 1 / Tmin - 1 / Tmax) / (1 / Tmax - 1 / Tmin), lk2 = 0;
    for (size_t i = 0; i < nT; i++) for (size_t j = 0; j < nP; j++) lk2 += cv[i][j] * cheb(Tr2, i) * cheb(Pr, j);
    eq("other temperature, same pressure", std::log(r.eval(T2, P)), lk2 * std::log(10.0), 1);
    tru("sizes", r.nTemperature() == nT && r.nPressure() == nP);
    eq("Tmin", r.Tmin(), Tmin); eq("Pmax", r.Pmax(), Pmax);
    AnyMap n;
    n["type"] = "Chebyshev";
    n["temperature-range"] = vector<AnyValue>(2);
    auto two = [](double a, double b) { vector<AnyValue> v(2); v[0] = a; v[1] = b; return v; };
    n["temperature-range"] = two(Tmin, Tmax); n["pressure-range"] = two(Pmin, Pmax);
    n["data"] = cv;
    auto r2 = newReactionRate(n, rateUnits(2));
    eq("from node", std::log(r2->eval(T, P)), lk * std::log(10.0), 1);
    AnyMap p = r2->parameters();
    p.applyUnits();
    auto r3 = newReactionRate(p, rateUnits(2));
    eq("from reported parameters", std::log(r3->eval(T, P)), lk * std::log(10.0), 1);
    reach("chebyshev");
}
// --- linear Burke: mixture rule over colliders, through a real gas ---
static void linear_burke(int form) {
    double T = in("T", 400, 2500), P = in("P", 2e3, 9e6);
    auto sol = solution("kineticsfromscratch.yaml", "ohmech");
    auto gas = sol->thermo();
    auto kin = newKinetics("bulk");
    kin->addThermo(gas);
    kin->init();
    size_t K = gas->nSpecies();
    vector<double> x(K);
    double sum = 0;
    for (size_t k = 0; k < K; k++) { x[k] = k < 5 ? in("x" + S(k), 0.02, 1) : 0.1; }
    for (size_t k = 0; k < K; k++) sum += x[k];
    for (size_t k = 0; k < K; k++) x[k] /= sum;
    gas->setMoleFractions(x.data());
    gas->setState_TP(T, P);
    gas->getMoleFractions(x.data());
    double Pg = gas->pressure();
    eq("pressure", Pg, P);
    AnyMap rx;
    rx["equation"] = "H + O2 <=> HO2";
    rx["type"] = "linear-Burke";
    Arr m0 = symArr("m0", 1e2, 1e8), m1 = symArr("m1", 1e2, 1e8), c0 = symArr("c0", 1e2, 1e8), c1 = symArr("c1", 1e2, 1e8);
    Arr e1{in("eA1", 0.2, 20), in("eb1", -1, 1), in("eE1", -1e7, 1e7)}, e2{in("eA2", 0.2, 20), in("eb2", -1, 1), in("eE2", -1e7, 1e7)};
    Arr e0{1, 0, 0};
    double Pa = in("Pa", 0.5e5, 2e5), Pb = in("Pb", 0.5e6, 2e6);
    bool eig = form & 1;
    if (eig) e0 = Arr{in("eA0", 0.2, 20), in("eb0", -1, 1), in("eE0", -1e7, 1e7)};
    string key = eig ? "eig0" : "efficiency";
    int kind = form / 2; // kind of k_M: 0 plog, 1 troe, 2 chebyshev
    double a = in("a", 0.1, 0.9), T3 = in("T3", 50, 5000), T1 = in("T1", 50, 5000);
    vector<vector<double>> cv(2, vector<double>(2));
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) cv[i][j] = in("ch" + S(i) + S(j), -2, 2);
    auto two = [](double a, double b) { vector<AnyValue> v(2); v[0] = a; v[1] = b; return v; };
    auto fill = [&](AnyMap& m, const Arr& p, const Arr& q, int kd) {
        if (kd == 0) {
            m["type"] = "pressure-dependent-Arrhenius";
            AnyMap u = p.node(), v = q.node(); u["P"] = Pa; v["P"] = Pb;
            m["rate-constants"] = vector<AnyMap>{u, v};
        } else if (kd == 1) {
            m["type"] = "falloff"; m["low-P-rate-constant"] = p.node(); m["high-P-rate-constant"] = q.node();
            AnyMap t; t["A"] = a; t["T3"] = T3; t["T1"] = T1; m["Troe"] = t;
        } else {
            m["type"] = "Chebyshev"; m["temperature-range"] = two(300, 3000); m["pressure-range"] = two(1e3, 1e8); m["data"] = cv;
        }
    };
    auto k = [&](const Arr& p, const Arr& q, int kd, double Pe) {
        if (kd == 0) {
            double l1 = std::log(p(T)), l2 = std::log(q(T));
            if (std::log(Pe) < std::log(Pa)) return p(T);
            if (std::log(Pe) < std::log(Pb)) return std::exp(l1 + (l2 - l1) * (std::log(Pe) - std::log(Pa)) / (std::log(Pb) - std::log(Pa)));
            return q(T);
        } else if (kd == 1) {
            double pr = p(T) * (Pe / (R * T)) / q(T);
            double Fc = (1 - a) * std::exp(-T / T3) + a * std::exp(-T / T1);
            return q(T) * pr / (1 + pr) * troeF(Fc, pr);
        }
        double Tr = (2 / T - 1 / 300. - 1 / 3000.) / (1 / 3000. - 1 / 300.), Pr = (2 * lg(Pe) - lg(1e3) - lg(1e8)) / (lg(1e8) - lg(1e3));
        return std::exp(std::log(10.0) * (cv[0][0] + cv[0][1] * Pr + cv[1][0] * Tr + cv[1][1] * Tr * Pr));
    };
    vector<AnyMap> cols(3);
    cols[0]["name"] = "M"; fill(cols[0], m0, m1, kind); if (eig) cols[0][key] = e0.node();
    cols[1]["name"] = "H2O"; cols[1][key] = e1.node(); int kind1 = 0; fill(cols[1], c0, c1, kind1);
    cols[2]["name"] = "O2"; cols[2][key] = e2.node();
    rx["colliders"] = cols;
    rx.applyUnits();
    kin->addReaction(newReaction(rx, *kin));
    double f[1];
    kin->getFwdRateConstants(f);
    size_t i1 = gas->speciesIndex("H2O"), i2 = gas->speciesIndex("O2");
    double E0 = e0(T), E1 = e1(T) / E0, E2 = e2(T) / E0;
    double mix = 0;
    for (size_t j = 0; j < K; j++) mix += x[j] * (j == i1 ? E1 : j == i2 ? E2 : 1.0);
    double xM = -x[i1] - x[i2];
    for (size_t j = 0; j < K; j++) xM += x[j];
    // collider 1 has its own rate constant (effective pressure relative to it), collider 2 shares that of M
    double ref = k(c0, c1, kind1, Pg * mix / E1) * E1 * x[i1] / mix + k(m0, m1, kind, Pg * mix) * (E2 * x[i2] + xM) / mix;
    eq("k(T,P,X)", f[0], ref, 0);
    AnyMap par = kin->reaction(0)->parameters();
    par.applyUnits();
    kin->addReaction(newReaction(par, *kin));
    double g[2];
    kin->getFwdRateConstants(g);
    eq("from reported parameters", g[1], f[0], 0);
    reach("linear_burke");
}
CASES {
    addcase("arrhenius", arrhenius);
    addcase("arrhenius_units", arrhenius_units);
    addcase("blowers_masel", blowers);
    addcase("two_temperature", two_temp);
    both("lindemann", lindemann);
    both("troe3", [](bool c) { troe(c, 0); });
    both("troe4", [](bool c) { troe(c, 1); });
    both("troe4_neg", [](bool c) { troe(c, 2); });
    both("sri3", [](bool c) { sri(c, 0); });
    both("sri5", [](bool c) { sri(c, 1); });
    both("tsang", [](bool c) { tsang(c, 0); });
    addcase("plog", plog);
    addcase("plog_single", plog_single);
    addcase("chebyshev_2x2", [] { chebyshev(2, 2); });
    addcase("chebyshev_1x3", [] { chebyshev(1, 3); });
    addcase("chebyshev_3x1", [] { chebyshev(3, 1); });
    addcase("chebyshev_4x3", [] { chebyshev(4, 3); });
    addcase("linear_burke_plog_eps", [] { linear_burke(0); });
    addcase("linear_burke_plog_eig", [] { linear_burke(1); });
    addcase("linear_burke_troe_eps", [] { linear_burke(2); });
    addcase("linear_burke_troe_eig", [] { linear_burke(3); });
    addcase("linear_burke_cheb_eps", [] { linear_burke(4); });
    addcase("linear_burke_cheb_eig", [] { linear_burke(5); });
}
