// Units: a quantity means the same whatever units it is given in
#include "kin.h"
#include "cantera/base/Units.h"
#include "cantera/thermo/Species.h"
#include "cantera/kinetics/KineticsFactory.h"
#include "cantera/kinetics/ReactionRateFactory.h"
#include <sstream>
#include <cmath>
typedef vector<double> Vec;
#define TRY(...) try __VA_ARGS__ catch (NotImplementedError&) {}
// unit systems and the value of each unit in SI (kg, m, s, kmol, Pa, J); the activation energy in J/kmol
struct Sys { string id; std::map<string, string> units; std::map<string, double> f; double act; };
static const double NA = 6.02214076e26, QE = 1.602176634e-19, RR = 6.02214076e26 * 1.380649e-23;
static const vector<Sys>& systems() {
    static vector<Sys> s = {
        {"si", {}, {{"kg", 1}, {"m", 1}, {"s", 1}, {"kmol", 1}, {"Pa", 1}, {"J", 1}}, 1},
        {"cgs", {{"length", "cm"}, {"mass", "g"}, {"quantity", "mol"}, {"energy", "erg"}, {"pressure", "dyn/cm^2"}}, {{"kg", 1e-3}, {"m", 1e-2}, {"s", 1}, {"kmol", 1e-3}, {"Pa", 0.1}, {"J", 1e-7}}, 1e-4},
        {"ck", {{"length", "cm"}, {"quantity", "mol"}, {"activation-energy", "cal/mol"}}, {{"kg", 1}, {"m", 1e-2}, {"s", 1}, {"kmol", 1e-3}, {"Pa", 1}, {"J", 1}}, 4184},
        {"odd", {{"length", "mm"}, {"mass", "ug"}, {"time", "min"}, {"quantity", "molec"}, {"energy", "kcal"}, {"pressure", "atm"}, {"activation-energy", "K"}}, {{"kg", 1e-9}, {"m", 1e-3}, {"s", 60}, {"kmol", 1 / NA}, {"Pa", 101325}, {"J", 4184}}, RR},
        {"atomic", {{"length", "angstrom"}, {"mass", "g"}, {"time", "ns"}, {"energy", "eV"}, {"pressure", "MPa"}, {"activation-energy", "eV"}}, {{"kg", 1e-3}, {"m", 1e-10}, {"s", 1e-9}, {"kmol", 1}, {"Pa", 1e6}, {"J", QE}}, QE * NA},
        {"bar", {{"time", "hr"}, {"pressure", "bar"}, {"energy", "kJ"}, {"quantity", "mol"}}, {{"kg", 1}, {"m", 1}, {"s", 3600}, {"kmol", 1e-3}, {"Pa", 1e5}, {"J", 1e3}}, 1e6},
    };
    return s;
}
static const Sys& sys(const string& id) { static Sys hours{"hours", {{"time", "hr"}}, {{"kg", 1}, {"m", 1}, {"s", 3600}, {"kmol", 1}, {"Pa", 1}, {"J", 1}}, 1}; if (id == "hours") return hours; for (auto& s : systems()) if (s.id == id) return s; throw CanteraError("sys", id); }
// explicit units in which a value is written
static const std::map<string, std::pair<string, double>> named = {{"kg", {"g", 1e-3}}, {"m", {"cm", 1e-2}}, {"s", {"min", 60}}, {"kmol", {"mol", 1e-3}}, {"Pa", {"atm", 101325}}, {"J", {"cal", 4.184}}, {"K", {"K", 1}}};
struct How { Sys s; bool expl = false; bool sym = true; };
static AnyValue quantity(const string& str, const string& path, const How& h) {
    std::istringstream is(str); string tok; is >> tok;
    double v = std::stod(tok); bool log10 = false, act = false; double f = 1; string u;
    if (h.sym) v *= in(path, 0.95, 1.05);
    auto add = [&](const string& t) { u += (u.empty() ? "" : "*") + t; };
    while (is >> tok) {
        if (tok == "LOG") log10 = true;
        else if (tok == "ACT") { act = true; f *= h.expl ? 4184 : h.s.act; add("cal/mol"); }
        else {
            string b = tok.substr(0, tok.find(':')); double e = std::stod(tok.substr(tok.find(':') + 1));
            if (h.expl && !log10) { auto& [n, g] = named.at(b); f *= std::pow(g, e); string x = tok.substr(tok.find(':') + 1); if (e < 0) { if (u.empty()) u = "1"; u += "/" + n + "^" + x.substr(1); } else add(n + "^" + x); }
            else if (b != "K") f *= std::pow(h.s.f.at(b), e);
        }
    }
    AnyValue a;
    if (log10) { a = v - std::log10(f); return a; }
    if (h.expl) { a = fmt::format("{:.17g} {}", v / f, u); return a; }
    a = v / f; return a;
}
static bool pseudo(const string& s) {
    if (s.empty() || !(isdigit(s[0]) || s[0] == '-')) return false;
    std::istringstream is(s); string t; is >> t; if (!(is >> t)) return false;
    return t == "ACT" || t == "LOG" || t.find(':') != npos;
}
static void walk(AnyValue& v, const string& path, const How& h);
static void walk(AnyMap& m, const string& path, const How& h) { for (auto& k : m.keys()) walk(m[k], path + "/" + k, h); }
static void walk(AnyValue& v, const string& path, const How& h) {
    if (v.is<string>()) { if (pseudo(v.asString())) v = quantity(v.asString(), path, h); }
    else if (v.is<AnyMap>()) walk(v.as<AnyMap>(), path, h);
    else if (v.is<vector<AnyMap>>()) { size_t i = 0; for (auto& m : v.as<vector<AnyMap>>()) walk(m, path + "/" + S(i++), h); }
    else if (v.is<vector<string>>() || v.is<vector<AnyValue>>()) {
        vector<AnyValue> l;
        if (v.is<vector<string>>()) { bool any = false; for (auto& s : v.as<vector<string>>()) any |= pseudo(s); if (!any) return; for (auto& s : v.as<vector<string>>()) { AnyValue x; x = s; l.push_back(x); } }
        else l = v.as<vector<AnyValue>>();
        size_t i = 0; bool dbl = true, vecs = true;
        for (auto& x : l) { walk(x, path + "/" + S(i++), h); if (x.is<long int>()) x = (double)x.asInt(); dbl &= x.is<double>(); vecs &= x.is<Vec>(); }
        if (dbl) { Vec d; for (auto& x : l) d.push_back(x.asDouble()); v = d; }
        else if (vecs) { vector<Vec> d; for (auto& x : l) d.push_back(x.as<Vec>()); v = d; }
        else v = l;
    }
}
// the file's nodes with every number in the given unit system
static AnyMap load(const How& h, const vector<string>& phases, bool species = true) {
    AnyMap file = AnyMap::fromYamlFile(sym_data("units.yaml")), root;
    std::set<string> want; vector<AnyMap> ph, sp;
    for (auto& p : file["phases"].asVector<AnyMap>()) for (auto& n : phases) if (p["name"].asString() == n) {
        AnyMap c = p; walk(c, n, h); ph.push_back(c);
        for (auto& s : p["species"].asVector<AnyMap>()) for (auto& k : s["species"].asVector<string>()) want.insert(k);
    }
    for (auto& s : file["species"].asVector<AnyMap>()) if (want.count(s["name"].asString())) { AnyMap c = s; walk(c, s["name"].asString(), h); sp.push_back(c); }
    root["phases"] = ph; root["species"] = sp;
    AnyMap u; for (auto& [k, v] : h.s.units) u[k] = v;
    root["units"] = u; root.applyUnits();
    return root;
}
static shared_ptr<ThermoPhase> make(AnyMap& root, const string& name) { return newThermo(root["phases"].getMapWhere("name", name), root); }
// every number reachable in two nodes of the same structure
static void deep(const string& l, const AnyValue& a, const AnyValue& b);
static void deep(const string& l, const AnyMap& a, const AnyMap& b) {
    auto skip = [](const string& k) { return k == "__units__" || k == "units"; };
    for (auto& k : a.keys()) if (!skip(k)) { bool h = b.hasKey(k); tru(l + "/" + k + " present", h); if (h) deep(l + "/" + k, a.at(k), b.at(k)); }
    for (auto& k : b.keys()) if (!skip(k)) tru(l + "/" + k + " expected", a.hasKey(k));
}
static double num(const AnyValue& v) { return v.is<long int>() ? (double)v.asInt() : v.asDouble(); }
static bool isnum(const AnyValue& v) { return v.is<double>() || v.is<long int>(); }
static void same(const string& l, double a, double b) { if (std::isnan(a) || std::isnan(b)) tru(l, std::isnan(a) && std::isnan(b)); else if (a == 0 && b == 0) eq(l, a, b, 1); else eq(l, a, b, 0.01 * std::max(std::fabs(a), std::fabs(b)) > 0 ? 0 : 1); }
static void deep(const string& l, const AnyValue& a, const AnyValue& b) {
    if (isnum(a) && isnum(b)) same(l, num(a), num(b));
    else if (a.is<string>() && b.is<string>()) tru(l, a.asString() == b.asString());
    else if (a.is<bool>() && b.is<bool>()) tru(l, a.asBool() == b.asBool());
    else if (a.is<AnyMap>() && b.is<AnyMap>()) deep(l, a.as<AnyMap>(), b.as<AnyMap>());
    else if (a.is<vector<AnyMap>>() && b.is<vector<AnyMap>>()) { auto& x = a.as<vector<AnyMap>>(); auto& y = b.as<vector<AnyMap>>(); tru(l + " size", x.size() == y.size()); for (size_t i = 0; i < std::min(x.size(), y.size()); i++) deep(l + "/" + S(i), x[i], y[i]); }
    else if (a.is<vector<Vec>>() && b.is<vector<Vec>>()) { auto& x = a.as<vector<Vec>>(); auto& y = b.as<vector<Vec>>(); tru(l + " size", x.size() == y.size()); for (size_t i = 0; i < std::min(x.size(), y.size()); i++) for (size_t j = 0; j < x[i].size(); j++) same(l + "/" + S(i) + "/" + S(j), x[i][j], y[i][j]); }
    else if (a.is<vector<string>>() && b.is<vector<string>>()) tru(l, a.as<vector<string>>() == b.as<vector<string>>());
    else if ((a.is<Vec>() || a.is<vector<AnyValue>>()) && (b.is<Vec>() || b.is<vector<AnyValue>>())) { auto x = a.asVector<AnyValue>(), y = b.asVector<AnyValue>(); tru(l + " size", x.size() == y.size()); for (size_t i = 0; i < std::min(x.size(), y.size()); i++) deep(l + "/" + S(i), x[i], y[i]); }
    else tru(l + " type", a.type_str() == b.type_str());
}
static AnyMap described(ThermoPhase& p) { AnyMap m = p.parameters(false); m.applyUnits(); return m; }
static AnyMap described(ThermoPhase& p, size_t k) { AnyMap m = p.species(k)->parameters(&p, false); m.applyUnits(); return m; }
static void behaves(const string& l, ThermoPhase& a, ThermoPhase& b, bool dense, bool range = true) {
    size_t K = a.nSpecies(); Vec x(K), y(K), u(K), v(K); double T = 450;
    eq(l + " T", a.temperature(), b.temperature(), 1); eq(l + " density", a.density(), b.density()); eq(l + " pressure", a.pressure(), b.pressure(), 1);
    for (size_t k = 0; k < K; k++) x[k] = K > 1 && a.charge(0) == 0 && a.type() != "binary-solution-tabulated" && (a.type() == "Debye-Huckel" || a.type() == "HMW-electrolyte" || a.type() == "ideal-solution-VPSS") ? (k == 0 ? 1 : 0.01) : 1 + 0.3 * k;
    if (a.type() == "binary-solution-tabulated") { x[0] = 0.35; x[1] = 0.65; }
    for (auto* p : {&a, &b}) { p->setMoleFractions(x.data()); if (dense) p->setState_TD(T, 30); else p->setState_TP(T, 1.5e5); }
    eq(l + " P", a.pressure(), b.pressure(), 1); eq(l + " rho", a.density(), b.density()); eq(l + " Pref", a.refPressure(), b.refPressure(), 1);
    if (range) { eq(l + " Tmin", a.minTemp(), b.minTemp(), 1); eq(l + " Tmax", a.maxTemp(), b.maxTemp(), 1); }
    TRY({ eq(l + " h", a.enthalpy_mole(), b.enthalpy_mole(), 1e5); eq(l + " s", a.entropy_mole(), b.entropy_mole(), 1e2); eq(l + " cp", a.cp_mole(), b.cp_mole(), 1e2); })
    TRY({ a.getChemPotentials(u.data()); b.getChemPotentials(v.data()); for (size_t k = 0; k < K; k++) eq(l + " mu", u[k], v[k], 1e5); })
    TRY({ a.getPartialMolarVolumes(u.data()); b.getPartialMolarVolumes(v.data()); for (size_t k = 0; k < K; k++) eq(l + " v", u[k], v[k], 1e-4); })
    TRY({ a.getActivityCoefficients(u.data()); b.getActivityCoefficients(v.data()); for (size_t k = 0; k < K; k++) eq(l + " gamma", u[k], v[k], 0.1); })
    TRY({ a.getActivityConcentrations(u.data()); b.getActivityConcentrations(v.data()); for (size_t k = 0; k < K; k++) eq(l + " conc", u[k], v[k]); })
}
static void phaseCase(const string& name, const string& id, bool expl) {
    How si{sys("si")}, other{sys(id), expl, !expl}; if (expl) si.sym = false;
    if (expl) in("T", 1, 2);
    AnyMap r1 = load(si, {name}), r2 = load(other, {name});
    auto a = make(r1, name), b = make(r2, name); size_t K = a->nSpecies();
    tru("same number of species", K == b->nSpecies());
    bool dense = name == "pr" || name == "rk";
    deep(name, described(*a), described(*b));
    for (size_t k = 0; k < K; k++) deep(a->speciesName(k), described(*a, k), described(*b, k));
    // described in other units, and read from there
    AnyMap root; UnitSystem us; us.setDefaults(other.s.units); vector<AnyMap> sp;
    AnyMap p = a->parameters(false); p.setUnits(us); p.applyUnits();
    for (size_t k = 0; k < K; k++) { AnyMap m = a->species(k)->parameters(a.get(), false); m.setUnits(us); m.applyUnits(); sp.push_back(m); }
    root["species"] = sp; AnyMap u; for (auto& [k, v] : other.s.units) u[k] = v; root["units"] = u; root.applyUnits();
    auto c = newThermo(p, root);
    deep(name + " again", described(*a), described(*c));
    for (size_t k = 0; k < K; k++) deep(a->speciesName(k) + " again", described(*a, k), described(*c, k));
    auto a2 = make(r1, name), b2 = make(r2, name);
    behaves("read", *a2, *b2, dense); auto a3 = make(r1, name); behaves("read again", *a3, *c, dense, false);   // (the range of two standard-state models is part of their input only)
    reach("phase");
}
static void reactionCase(const string& list, const string& rid, const string& id, bool expl) {
    How si{sys("si")}, other{sys(id), expl, !expl}; if (expl) si.sym = false;
    if (expl) in("T", 1, 2);
    vector<string> names = list == "gas" ? vector<string>{"gas"} : vector<string>{"surf", "gas", "metal"};
    How plain{sys("si"), false, false};
    AnyMap file = AnyMap::fromYamlFile(sym_data("units.yaml")); AnyMap node = file[list].getMapWhere("id", rid);
    UnitSystem us; us.setDefaults(other.s.units);
    auto system = [&]() {
        AnyMap root = load(plain, names); vector<shared_ptr<ThermoPhase>> ph; for (auto& n : names) ph.push_back(make(root, n));
        auto kin = newKinetics(list); for (auto& p : ph) kin->addThermo(p); kin->init();
        for (auto& p : ph) p->setState_TP(900, 2e5);
        return std::make_pair(kin, ph);
    };
    auto read = [&](const How& h, Kinetics& kin) {
        AnyMap n = node; walk(n, rid, h); AnyMap root; root["reactions"] = vector<AnyMap>{n}; AnyMap u; for (auto& [k, v] : h.s.units) u[k] = v; root["units"] = u; root.applyUnits();
        return shared_ptr<Reaction>(newReaction(root["reactions"].asVector<AnyMap>()[0], kin));
    };
    auto [ka, pa] = system(); auto [kb, pb] = system(); auto [kc, pc] = system(); auto [kd, pd] = system();
    auto a = read(si, *ka), b = read(other, *kb); ka->addReaction(a); kb->addReaction(b);
    AnyMap ma = a->parameters(false), mb = b->parameters(false); ma.applyUnits(); mb.applyUnits(); deep(rid, ma, mb);
    AnyMap mc = a->parameters(false); mc.setUnits(us); mc.applyUnits(); shared_ptr<Reaction> c = newReaction(mc, *kc); kc->addReaction(c);
    AnyMap md = c->parameters(false); md.applyUnits(); deep(rid + " again", ma, md);
    // the numbers written in other units are the ones that would have been given
    if (!expl && rid != "list" && rid != "chebyshev" && rid != "burke" && rid != "s_cov") { AnyMap n = node; walk(n, rid, other); for (string key : {"rate-constant", "low-P-rate-constant", "high-P-rate-constant"}) if (n.hasKey(key) && n[key].is<AnyMap>()) deep(rid + " written " + key, n[key].as<AnyMap>(), mc[key].as<AnyMap>()); }
    double f1, f2, f3; ka->getFwdRateConstants(&f1); kb->getFwdRateConstants(&f2); kc->getFwdRateConstants(&f3);
    eq("rate constant", f1, f2); eq("rate constant, read again", f1, f3);
    ka->getRevRateConstants(&f1); kb->getRevRateConstants(&f2); kc->getRevRateConstants(&f3);
    same("reverse rate constant", f1, f2); same("reverse rate constant, read again", f1, f3);
    ka->getNetRatesOfProgress(&f1); kb->getNetRatesOfProgress(&f2); kc->getNetRatesOfProgress(&f3);
    same("rate of progress", f1, f2); same("rate of progress, read again", f1, f3);
    reach("reaction");
}
// a rate read without its reaction: refused, or the same numbers
static void standaloneCase(const string& list, const string& rid, const string& id, bool expl) {
    How si{sys("si")}, other{sys(id), expl, !expl}; if (expl) si.sym = false;
    double T = in("T", 500, 2000);
    AnyMap file = AnyMap::fromYamlFile(sym_data("units.yaml")); AnyMap node = file[list].getMapWhere("id", rid); if (!node.hasKey("type")) node["type"] = string("elementary");
    auto read = [&](const How& h) { AnyMap n = node; walk(n, rid, h); AnyMap root; root["reactions"] = vector<AnyMap>{n}; AnyMap u; for (auto& [k, v] : h.s.units) u[k] = v; root["units"] = u; root.applyUnits(); return newReactionRate(root["reactions"].asVector<AnyMap>()[0]); };
    auto a = read(si); shared_ptr<ReactionRate> b;
    try { b = read(other); } catch (CanteraError&) { reach("refused"); return; }
    AnyMap ma = a->parameters(), mb = b->parameters(); for (auto* m : {&ma, &mb}) m->erase("__unconvertible__");
    std::function<void(const string&, const AnyMap&, const AnyMap&)> cmp = [&](const string& l, const AnyMap& x, const AnyMap& y) { deep(l, x, y); };
    cmp(rid, ma, mb);
    if (rid == "first" || rid == "second" || rid == "third") eq("rate", a->eval(T), b->eval(T));
    reach("standalone");
}
// converters against factors known independently
struct Dim { string u; double f; double kg, m, s, kmol; };
static const vector<Dim>& dims() {
    static vector<Dim> d = {
        {"g", 1e-3, 1, 0, 0, 0}, {"kg", 1, 1, 0, 0, 0}, {"ug", 1e-9, 1, 0, 0, 0}, {"cm", 1e-2, 0, 1, 0, 0}, {"angstrom", 1e-10, 0, 1, 0, 0}, {"micron", 1e-6, 0, 1, 0, 0}, {"km", 1e3, 0, 1, 0, 0},
        {"min", 60, 0, 0, 1, 0}, {"hr", 3600, 0, 0, 1, 0}, {"ms", 1e-3, 0, 0, 1, 0}, {"mol", 1e-3, 0, 0, 0, 1}, {"gmol", 1e-3, 0, 0, 0, 1}, {"molec", 1 / NA, 0, 0, 0, 1}, {"kmol", 1, 0, 0, 0, 1},
        {"atm", 101325, 1, -1, -2, 0}, {"bar", 1e5, 1, -1, -2, 0}, {"MPa", 1e6, 1, -1, -2, 0}, {"dyn/cm^2", 0.1, 1, -1, -2, 0}, {"N/m^2", 1, 1, -1, -2, 0}, {"kg/m/s^2", 1, 1, -1, -2, 0},
        {"cal", 4.184, 1, 2, -2, 0}, {"kcal", 4184, 1, 2, -2, 0}, {"eV", QE, 1, 2, -2, 0}, {"erg", 1e-7, 1, 2, -2, 0}, {"kJ", 1e3, 1, 2, -2, 0}, {"N*m", 1, 1, 2, -2, 0}, {"Pa*m^3", 1, 1, 2, -2, 0},
        {"cm^3", 1e-6, 0, 3, 0, 0}, {"L", 1e-3, 0, 3, 0, 0}, {"cc", 1e-6, 0, 3, 0, 0}, {"mL", 1e-6, 0, 3, 0, 0}, {"g/cm^3", 1e3, 1, -3, 0, 0}, {"kg/m^3", 1, 1, -3, 0, 0},
        {"cm^3/mol/s", 1e-3, 0, 3, -1, -1}, {"m^3/kmol/s", 1, 0, 3, -1, -1}, {"cm^6/mol^2/min", 1e-6 / 60, 0, 6, -1, -2}, {"m^6 / kmol^2 / s", 1, 0, 6, -1, -2},
        {"kJ/mol", 1e6, 1, 2, -2, -1}, {"J/kmol", 1, 1, 2, -2, -1}, {"cal/gmol", 4184, 1, 2, -2, -1}, {"atm*cm^6/mol^2", 101325e-6, 1, 5, -2, -2}, {"Pa*m^6/kmol^2", 1, 1, 5, -2, -2},
        {"kg^0.5/gmol^0.5", 31.622776601683793, 0.5, 0, 0, -0.5}, {"cm^1.5", 1e-3, 0, 1.5, 0, 0}, {"mol/cm^2", 10, 0, -2, 0, 1}, {"1/s", 1, 0, 0, -1, 0}, {"1/min", 1.0 / 60, 0, 0, -1, 0}, {"60 s", 60, 0, 0, 1, 0}, {"2.5 m^2", 2.5, 0, 2, 0, 0},
        {"m^2", 1, 0, 2, 0, 0}, {"m", 1, 0, 1, 0, 0}, {"s", 1, 0, 0, 1, 0}, {"Pa", 1, 1, -1, -2, 0}, {"J", 1, 1, 2, -2, 0}, {"m^3", 1, 0, 3, 0, 0}, {"kmol/m^2", 1, 0, -2, 0, 1}, {"atm^2", 101325. * 101325., 2, -2, -4, 0}, {"Pa^2", 1, 2, -2, -4, 0}, {"atm^-1", 1 / 101325., -1, 1, 2, 0}, {"bar^-1", 1e-5, -1, 1, 2, 0},
    };
    return d;
}
static bool alike(const Dim& a, const Dim& b) { return a.kg == b.kg && a.m == b.m && a.s == b.s && a.kmol == b.kmol; }
static void converters() {
    double v = in("v", 0.1, 10); UnitSystem si; auto& D = dims();
    for (auto& a : D) {
        Units ua(a.u); eq("factor " + a.u, ua.factor(), a.f);
        eq("mass " + a.u, ua.dimension("mass"), a.kg, 1); eq("length " + a.u, ua.dimension("length"), a.m, 1); eq("time " + a.u, ua.dimension("time"), a.s, 1); eq("quantity " + a.u, ua.dimension("quantity"), a.kmol, 1);
        eq("to SI " + a.u, si.convertFrom(v, a.u), v * a.f); eq("from SI " + a.u, si.convertTo(v, a.u), v / a.f);
        for (auto& b : D) {
            tru(a.u + " convertible to " + b.u, ua.convertible(Units(b.u)) == alike(a, b));
            if (alike(a, b)) { eq(a.u + " to " + b.u, si.convert(v, a.u, b.u), v * a.f / b.f); eq(a.u + " to " + b.u + " and back", si.convert(si.convert(v, a.u, b.u), b.u, a.u), v); }
            else { bool threw = false; try { si.convert(v, a.u, b.u); } catch (CanteraError&) { threw = true; } tru(a.u + " to " + b.u + " refused", threw); }
            Units p = Units(a.u); p *= Units(b.u); eq("product " + a.u + " " + b.u, si.convertFrom(v, p), v * a.f * b.f); eq("product dimension " + a.u + " " + b.u, p.dimension("length"), a.m + b.m, 1);
        }
        for (double e : {0.5, 2.0, -1.0, 0.0}) { Units p = Units(a.u).pow(e); eq("power " + a.u + " " + fmt::format("{}", e), si.convertFrom(v, p), v * std::pow(a.f, e)); eq("power dimension " + a.u, p.dimension("time"), a.s * e, 1); }
    }
}
static void converters(const string& id) {
    const Sys& s = sys(id); UnitSystem us; us.setDefaults(s.units); double v = in("v", 0.1, 10); AnyValue av; av = v; UnitSystem other{"cm", "g", "hr"};
    for (auto& a : dims()) {
        // how the unit is written decides whether it is in terms of pressure and energy
        double pa = 0, j = 0; string u = a.u;
        if (u == "atm" || u == "bar" || u == "MPa" || u == "Pa") pa = 1; else if (u == "atm^2" || u == "Pa^2") pa = 2; else if (u == "atm^-1" || u == "bar^-1") pa = -1; else if (u.find("Pa*") == 0 || u.find("atm*") == 0) pa = 1;
        else if (u == "cal" || u == "kcal" || u == "eV" || u == "erg" || u == "kJ" || u == "J" || u.find("/mol") != npos && u.find("J") != npos || u == "J/kmol" || u == "cal/gmol") j = 1;
        if (u == "J/kmol") j = 1;
        if (u == "dyn/cm^2" || u == "N/m^2" || u == "kg/m/s^2" || u == "N*m" || u == "Pa*m^3") { if (u != "Pa*m^3") continue; }
        double f = std::pow(s.f.at("kg"), a.kg - pa - j) * std::pow(s.f.at("m"), a.m + pa - 2 * j) * std::pow(s.f.at("s"), a.s + 2 * pa + 2 * j) * std::pow(s.f.at("kmol"), a.kmol) * std::pow(s.f.at("Pa"), pa) * std::pow(s.f.at("J"), j);
        eq("default units to " + u, us.convertTo(v, u), v * f / a.f); eq("default units from " + u, us.convertFrom(v, u), v * a.f / f);
        eq("node to " + u, us.convert(av, u), v * f / a.f); eq("to and from " + u, us.convertFrom(us.convertTo(v, u), u), v);
        AnyValue str; str = fmt::format("1.25 {}", u); for (auto& b : dims()) if (alike(a, b) && u.find(' ') == npos) eq("explicit " + u + " to " + b.u, us.convert(str, b.u), 1.25 * a.f / b.f);
        vector<AnyValue> lst{av, str}; if (u.find(' ') == npos) { auto r = us.convert(lst, u); eq("list " + u, r[0], v * f / a.f); eq("list explicit " + u, r[1], 1.25); }
    }
    std::map<string, double> acts = {{"J/kmol", 1}, {"kJ/mol", 1e6}, {"cal/gmol", 4184}, {"kcal/mol", 4184e3}, {"K", RR}, {"eV", QE * NA}, {"meV", 1e-3 * QE * NA}, {"kK", 1e3 * RR}, {"J/molec", NA}};
    for (auto& [a, fa] : acts) {
        eq("activation energy default to " + a, us.convertActivationEnergyTo(v, a), v * s.act / fa); eq("activation energy default from " + a, us.convertActivationEnergyFrom(v, a), v * fa / s.act);
        eq("activation energy node to " + a, us.convertActivationEnergy(av, a), v * s.act / fa);
        for (auto& [b, fb] : acts) eq("activation energy " + a + " to " + b, us.convertActivationEnergy(v, a, b), v * fa / fb);
        AnyValue str; str = "1.25 " + a; eq("activation energy explicit " + a, us.convertActivationEnergy(str, "K"), 1.25 * fa / RR);
        UnitSystem t = us; t.setDefaultActivationEnergy(a); eq("activation energy set to " + a, t.convertActivationEnergyTo(v, "J/kmol"), v * fa);
        UnitSystem w; w.setDefaults(std::map<string, string>{{"activation-energy", a}, {"energy", "cal"}, {"quantity", "mol"}}); eq("activation energy default " + a, w.convertActivationEnergyTo(v, "J/kmol"), v * fa); w.setDefaults({"kJ"}); eq("activation energy stays " + a, w.convertActivationEnergyTo(v, "J/kmol"), v * fa);
    }
    // defaults reported describe the system
    UnitSystem again; again.setDefaults(us.defaults()); for (auto& a : dims()) eq("reported defaults " + a.u, again.convertTo(v, a.u), us.convertTo(v, a.u)); eq("reported activation energy", again.convertActivationEnergyTo(v, "K"), us.convertActivationEnergyTo(v, "K"));
    // differences between systems restore one from the other
    for (auto& o : systems()) {
        UnitSystem from, to; from.setDefaults(o.units); AnyMap d = us.getDelta(from); UnitSystem n = from; if (d.size()) { std::map<string, string> dm; for (auto& [k, v] : d) dm[k] = v.asString(); n.setDefaults(dm); }
        for (auto& a : dims()) eq("difference to " + o.id + " " + a.u, n.convertTo(v, a.u), us.convertTo(v, a.u));
        eq("difference to " + o.id + " activation energy", n.convertActivationEnergyTo(v, "K"), us.convertActivationEnergyTo(v, "K"));
    }
}
// units declared at several levels of a file
static void nested() {
    double v = in("v", 0.1, 10);
    auto get = [&](const AnyMap& m, const string& u) { return m.convert("x", u); };
    auto leaf = [&]() { AnyMap m; m["x"] = v; return m; };
    AnyMap cm; cm["length"] = string("cm"); AnyMap hr; hr["time"] = string("hr"); AnyMap act; act["activation-energy"] = string("K");
    {   AnyMap root; root["units"] = cm; AnyMap c = leaf(); c["units"] = hr; root["c"] = c; root["d"] = leaf(); root["x"] = v; root.applyUnits();
        eq("outer", get(root, "m/s"), v * 1e-2); eq("inner, both", get(root["c"].as<AnyMap>(), "m/s"), v * 1e-2 / 3600); eq("inner, inherited", get(root["d"].as<AnyMap>(), "m/s"), v * 1e-2);
        root.applyUnits(); eq("inner, applied twice", get(root["c"].as<AnyMap>(), "m/s"), v * 1e-2 / 3600); }
    {   AnyMap root; AnyMap h; h["units"] = cm; AnyMap o = leaf(); o["units"] = hr; AnyMap q = leaf(); AnyMap mm; mm["length"] = string("mm"); q["units"] = mm;
        root["l"] = vector<AnyMap>{h, leaf(), o, q, leaf()}; root["k"] = vector<AnyMap>{leaf(), leaf()}; root.applyUnits(); auto& l = root["l"].asVector<AnyMap>(); tru("declaration removed", l.size() == 4);
        eq("item of a list", get(l[0], "m/s"), v * 1e-2); eq("item with its own units", get(l[1], "m/s"), v * 1e-2 / 3600); eq("item overriding", get(l[2], "m/s"), v * 1e-3); eq("last item", get(l[3], "m/s"), v * 1e-2); eq("other list", get(root["k"].asVector<AnyMap>()[1], "m/s"), v);
        root.applyUnits(); auto& l2 = root["l"].asVector<AnyMap>(); eq("item of a list, applied twice", get(l2[0], "m/s"), v * 1e-2); eq("item with its own units, applied twice", get(l2[1], "m/s"), v * 1e-2 / 3600); }
    {   AnyMap root; AnyMap c = leaf(); c["units"] = act; root["units"] = cm; root["c"] = c; root.applyUnits(); auto& m = root["c"].as<AnyMap>(); eq("activation energy inside", m.units().convertActivationEnergy(m["x"], "K"), v); eq("length kept", get(m, "m"), v * 1e-2); }
    {   AnyMap m; m["x"].setQuantity(v, "J/kmol"); m["y"].setQuantity(Vec{v, 2 * v}, "m^3/kmol"); m["z"].setQuantity(v, "K", true); m["w"].setQuantity(v, "Pa"); AnyMap c; c["u"].setQuantity(v, "m"); m["c"] = c; m["v"] = vector<AnyMap>{c};
        for (auto& s : systems()) { AnyMap n = m; UnitSystem us; us.setDefaults(s.units); n.setUnits(us); n.applyUnits(); auto& f = s.f;
            eq("written energy " + s.id, n["x"].asDouble(), v / f.at("J") * f.at("kmol")); eq("written list " + s.id, n["y"].asVector<double>()[1], 2 * v / std::pow(f.at("m"), 3) * f.at("kmol")); eq("written activation energy " + s.id, n["z"].asDouble(), v * RR / s.act); eq("written pressure " + s.id, n["w"].asDouble(), v / f.at("Pa"));
            eq("written inside " + s.id, n["c"]["u"].asDouble(), v / f.at("m")); eq("written in a list " + s.id, n["v"].asVector<AnyMap>()[0]["u"].asDouble(), v / f.at("m"));
            eq("read back energy " + s.id, n.convert("x", "J/kmol"), v); eq("read back inside " + s.id, n["c"].as<AnyMap>().convert("u", "m"), v); } }
}
CASES {
    addcase("converters", [] { converters(); }); addcase("nested", nested);
    std::map<string, vector<string>> file = {{"gas", {"first", "second", "list", "reversible", "third", "orders", "threebody", "threebody_order", "falloff", "chemact", "plog", "chebyshev", "blowers", "plasma", "burke"}}, {"surface", {"s_arr", "s_ads", "s_orders", "s_cov", "s_covpoly", "s_stick", "s_bm", "s_stickbm"}}};
    for (string id : {"hours", "cgs", "atomic", "ck"}) for (string list : {"gas", "surface"}) for (string rid : file[list]) { addcase("standalone_" + rid + "_" + id, [list, rid, id] { standaloneCase(list, rid, id, false); }); if (id == "hours" && rid != "burke") addcase("standalone_explicit_" + rid, [list, rid, id] { standaloneCase(list, rid, "hours", true); }); }
    for (auto& s : systems()) {
        string id = s.id; addcase("convert_" + id, [id] { converters(id); });
        for (string n : {"gas", "density", "pressure", "pref", "condensed", "vpss", "stoich1", "stoich2", "stoich3", "pr", "rk", "margules", "redlich", "tabulated", "debye", "hmw", "hkft", "lattice", "surf", "metal", "edge", "covdep", "plasma"})
            { addcase("phase_" + n + "_" + id, [n, id] { phaseCase(n, id, false); }); if (id == "si" || id == "odd") addcase("phase_explicit_" + n + "_" + id, [n, id] { phaseCase(n, id, true); }); }
        for (string list : {"gas", "surface"}) for (string rid : file[list]) { addcase("reaction_" + rid + "_" + id, [list, rid, id] { reactionCase(list, rid, id, false); }); if ((id == "si" || id == "odd") && rid != "burke") addcase("reaction_explicit_" + rid + "_" + id, [list, rid, id] { reactionCase(list, rid, id, true); }); }
    }
}
