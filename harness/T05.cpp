// Pure fluids and water: every equation of state derives from one Helmholtz function
#include "common.h"
#include "tpx/Water.h"
#include "tpx/Nitrogen.h"
#include "tpx/Methane.h"
#include "tpx/Hydrogen.h"
#include "tpx/Oxygen.h"
#include "tpx/Heptane.h"
#include "tpx/HFC134a.h"
#include "tpx/CarbonDioxide.h"
#include "cantera/tpx/utils.h"
#include "cantera/thermo/PureFluidPhase.h"
#include "cantera/thermo/WaterPropsIAPWS.h"
#include "cantera/thermo/WaterSSTP.h"
#include "cantera/thermo/WaterProps.h"
#include "cantera/thermo/PDSS_Water.h"
#include <cmath>
// a substance whose single-phase functions can be asked for at any temperature and density
struct Fluid { virtual ~Fluid() {} virtual void at(double t, double r) = 0; virtual double p() = 0; virtual double u() = 0; virtual double s() = 0; virtual double h() = 0; virtual double g() = 0; virtual void offsets(double e, double s) = 0; virtual tpx::Substance& sub() = 0; };
template <class B> struct Probe : Fluid, B {
    void at(double t, double r) override { B::T = t; B::Rho = r; }
    double p() override { return B::Pp(); } double u() override { return B::up(); } double s() override { return B::sp(); } double h() override { return B::hp(); } double g() override { return B::gp(); }
    void offsets(double e, double s) override { B::m_energy_offset = e; B::m_entropy_offset = s; }
    tpx::Substance& sub() override { return *this; }
};
static std::unique_ptr<Fluid> fluid(const string& n) {
    if (n == "water") return std::make_unique<Probe<tpx::water>>();
    if (n == "nitrogen") return std::make_unique<Probe<tpx::nitrogen>>();
    if (n == "methane") return std::make_unique<Probe<tpx::methane>>();
    if (n == "hydrogen") return std::make_unique<Probe<tpx::hydrogen>>();
    if (n == "oxygen") return std::make_unique<Probe<tpx::oxygen>>();
    if (n == "heptane") return std::make_unique<Probe<tpx::Heptane>>();
    if (n == "hfc134a") return std::make_unique<Probe<tpx::HFC134a>>();
    return std::make_unique<Probe<tpx::CarbonDioxide>>();
}
static const vector<string> fluids = {"water", "nitrogen", "methane", "hydrogen", "oxygen", "heptane", "hfc134a", "carbondioxide"};
static void potential(const string& n, double lo, double hi, double rlo, double rhi) {
    auto f = fluid(n); auto& s = f->sub(); double Tc = s.Tcrit(), rc = 1 / s.Vcrit();
    double T = in("T", std::max(lo * Tc, s.Tmin()), std::min(hi * Tc, s.Tmax())), rho = in("rho", rlo * rc, rhi * rc);
    f->offsets(in("energy offset", -1e6, 2e6), in("entropy offset", -1e3, 2e3));
    f->at(T, rho);
    double u = f->u(), sp = f->s(), p = f->p(), h = f->h(), g = f->g(), R = GasConstant / s.MolWt();
    eq("enthalpy", h, u + p / rho, R * Tc); eq("gibbs", g, h - T * sp, R * Tc);
    double A = u - T * sp;
    deriv("entropy", A, T, -sp, R); deriv("pressure", A, rho, p / (rho * rho), R * Tc / rc);
    reach("potential");
}
// the substance seen from outside, above its critical temperature
static void outside(const string& n) {
    auto f = fluid(n); auto& s = f->sub(); double Tc = s.Tcrit(), rc = 1 / s.Vcrit(), R = GasConstant / s.MolWt();
    double T = in("T", 1.01 * Tc, std::min(1.2 * Tc, s.Tmax() * 0.99)), rho = in("rho", 0.1 * rc, 1.8 * rc);
    s.Set(tpx::PropertyPair::TV, T, 1 / rho);
    f->at(T, rho); double u = f->u(), sp = f->s(), p = f->p();
    s.Set(tpx::PropertyPair::TV, T, 1 / rho);
    eq("P", s.P(), p, 1e5); eq("u", s.u(), u, R * Tc); eq("s", s.s(), sp, R); eq("h", s.h(), u + p / rho, R * Tc); eq("v", s.v(), 1 / rho); eq("T", s.Temp(), T, 1);
    eq("f", s.f(), u - T * sp, R * Tc); eq("g", s.g(), u + p / rho - T * sp, R * Tc);
    s.Set(tpx::PropertyPair::VT, 1 / rho, T); eq("other order: v", s.v(), 1 / rho); eq("other order: T", s.Temp(), T, 1); eq("other order: P", s.P(), p, 1e5);
    double cv = s.cv(); (void) cv;
    eq("T after cv", s.Temp(), T, 1); eq("v after cv", s.v(), 1 / rho); tru("one phase", !s.TwoPhase());
    reach("outside");
}
static const std::map<string, string> files = {{"water", "water"}, {"nitrogen", "nitrogen"}, {"methane", "methane"}, {"hydrogen", "hydrogen"}, {"oxygen", "oxygen"}, {"heptane", "heptane"}, {"hfc134a", "HFC-134a"}, {"carbondioxide", "carbon-dioxide"}};
static void phaseOf(const string& n, int how) {
    auto th = phase("liquidvapor.yaml", files.at(n)); auto& p = dynamic_cast<PureFluidPhase&>(*th); auto& s = p.TPX_Substance();
    double Tc = p.critTemperature(), rc = p.critDensity(), M = p.meanMolecularWeight(), R = GasConstant;
    double T = in("T", 1.01 * Tc, std::min(1.3 * Tc, p.maxTemp() * 0.99)), rho = in("rho", 0.1 * rc, 1.8 * rc);
    if (how == 0) p.setState_TD(T, rho);
    else if (how == 1) { p.setTemperature(T); p.setDensity(rho); }
    else if (how == 2) { p.setState_TD(1.2 * Tc, 0.3 * rc); p.setDensity(rho); p.setTemperature(T); }
    else if (how == 3) p.setState_TV(T, 1 / rho);
    else if (how == 4) { vector<double> st{T, rho}; if (p.stateSize() == 2) p.restoreState(st); }
    else if (how == 5) { AnyMap m; m["T"] = T; m["density"] = rho; p.setState(m); }
    else { p.setState_TD(T, rho); vector<double> st(p.stateSize()); p.saveState(st); p.setState_TD(1.1 * Tc, rc); p.restoreState(st); }
    eq("T", p.temperature(), T, 1); eq("rho", p.density(), rho); eq("T of the substance", s.Temp(), T, 1); eq("v of the substance", s.v(), 1 / rho); eq("molar density", p.molarDensity(), rho / M);
    double h = p.enthalpy_mole(), sm = p.entropy_mole(), u = p.intEnergy_mole(), P = p.pressure(), g = p.gibbs_mole();
    eq("P", P, s.P(), 1e5); eq("h", h, s.h() * M, R * Tc); eq("s", sm, s.s() * M, R); eq("u", u, s.u() * M, R * Tc);
    eq("h = u + Pv", h, u + P / rho * M, R * Tc); eq("g = h - Ts", g, h - T * sm, R * Tc);
    eq("h mass", p.enthalpy_mass() * M, h, R * Tc); eq("s mass", p.entropy_mass() * M, sm, R); eq("u mass", p.intEnergy_mass() * M, u, R * Tc); eq("g mass", p.gibbs_mass() * M, g, R * Tc);
    double a; p.getChemPotentials(&a); eq("chemical potential", a, g, R * Tc); p.getPartialMolarEnthalpies(&a); eq("partial h", a, h, R * Tc); p.getPartialMolarEntropies(&a); eq("partial s", a, sm, R); p.getPartialMolarIntEnergies(&a); eq("partial u", a, u, R * Tc); p.getPartialMolarVolumes(&a); eq("partial v", a, M / rho);
    p.getEnthalpy_RT(&a); eq("h/RT", a, h / (R * T), 1); p.getEntropy_R(&a); eq("s/R", a, sm / R, 1); p.getGibbs_RT(&a); eq("g/RT", a, g / (R * T), 1); p.getStandardChemPotentials(&a); eq("standard mu", a, g, R * Tc); p.getActivities(&a); eq("activity", a, 1, 1);
    deriv("entropy", u - T * sm, T, -sm, R); deriv("pressure", u - T * sm, rho, P * M / (rho * rho), R * Tc / rc);
    tru("supercritical", p.phaseOfMatter() == "supercritical"); eq("vapor fraction", p.vaporFraction(), 1 / rho < 1 / rc ? 0 : 1, 1);
    reach("phase");
}
// IAPWS water
struct W { double T, rho, P, u, s, h, g, cp, cv, kappa, alpha, dpdrho, beta; };
static const double RW = 461.51805, TC = 647.096, RC = 322;
static void identities(const W& w) {
    double A = w.u - w.T * w.s, s = RW;
    eq("enthalpy", w.h, w.u + w.P / w.rho, s * TC); eq("gibbs", w.g, w.h - w.T * w.s, s * TC);
    deriv("pressure", A, w.rho, w.P / (w.rho * w.rho), s * TC / RC);
    deriv("cv", w.u, w.T, w.cv, s);
    deriv("dP/drho", w.P, w.rho, w.dpdrho, s * TC);
    eq("compressibility", w.kappa * w.rho * w.dpdrho, 1, 1);
    deriv("dP/dT", w.P, w.T, w.rho * RW * w.beta, s * RC);
    deriv("expansion", w.P, w.T, w.alpha / w.kappa, s * RC);
double pt = w.rho * RW * w.beta; eq("cp - cv", w.cp - w.cv, w.T * pt * pt / (w.rho * w.rho * w.dpdrho), s);
}
static const struct { const char* n; double t0, t1, r0, r1; } regions[] = {{"liquid", 280, 600, 700, 1100}, {"gas", 300, 640, 1e-3, 100}, {"super", 650, 1200, 50, 900}, {"near", 640, 660, 250, 400}, {"metastable", 400, 600, 100, 700}, {"dilute", 274, 2000, 1e-8, 1e-2}};
static W ask(WaterPropsIAPWS& w, double T, double rho) { return {T, rho, w.pressure(), w.intEnergy_mass(), w.entropy_mass(), w.enthalpy_mass(), w.gibbs_mass(), w.cp_mass(), w.cv_mass(), w.isothermalCompressibility(), w.coeffThermExp(), w.dpdrho(), w.coeffPresExp()}; }
static void iapws(int i) {
    auto& r = regions[i]; double T = in("T", r.t0, r.t1), rho = in("rho", r.r0, r.r1);
    WaterPropsIAPWS w; w.setState_TD(T, rho);
    eq("T", w.temperature(), T, 1); eq("rho", w.density(), rho); identities(ask(w, T, rho)); reach("iapws");
}
// entropy against energy along one isochore
static void isochore(int i, double f) {
    auto& r = regions[i]; double T = in("T", r.t0, r.t1), rho = r.r0 + f * (r.r1 - r.r0);
    WaterPropsIAPWS w; w.setState_TD(T, rho); W a = ask(w, T, rho);
    deriv("entropy", a.u - T * a.s, T, -a.s, RW); reach("iapws");
}
// Maxwell relations: the density derivatives of energy and entropy follow from the pressure
static void maxwell(int i) {
    auto& r = regions[i]; double T = in("T", r.t0, r.t1), rho = in("rho", r.r0, r.r1);
    WaterPropsIAPWS w; w.setState_TD(T, rho); W a = ask(w, T, rho); double pt = rho * RW * a.beta;
    deriv("energy with density", a.u, rho, (a.P - T * pt) / (rho * rho), RW * TC / RC); deriv("entropy with density", a.s, rho, -pt / (rho * rho), RW / RC);
    reach("iapws");
}
// the state of one object after others have been set
static void iapwsHistory(int i) {
    auto& r = regions[i]; double T = in("T", r.t0, r.t1), rho = in("rho", r.r0, r.r1), T2 = in("T2", 300, 700), rho2 = in("rho2", 400, 1000);
    WaterPropsIAPWS w, v; w.setState_TD(T, rho);
    for (int how = 0; how < 3; how++) {
        v.setState_TD(how == 1 ? T : T2, how == 2 ? rho : rho2); ask(v, T2, rho2); v.setState_TD(T, rho); W a = ask(w, T, rho), b = ask(v, T, rho); string l = S(how) + " ";
        eq(l + "P", a.P, b.P, 1e5); eq(l + "u", a.u, b.u, RW * TC); eq(l + "s", a.s, b.s, RW); eq(l + "h", a.h, b.h, RW * TC); eq(l + "g", a.g, b.g, RW * TC); eq(l + "cp", a.cp * a.dpdrho, b.cp * b.dpdrho, RW * RW * TC); eq(l + "cv", a.cv, b.cv, RW); eq(l + "dpdrho", a.dpdrho, b.dpdrho, RW * TC); eq(l + "beta", a.beta, b.beta, 1);
    }
    reach("history");
}
// standard-state models of water
static void pdss(int i) {
    auto& r = regions[i]; double T = in("T", r.t0, r.t1), rho = in("rho", r.r0, r.r1), M = 18.015, R = GasConstant, t0 = 298.15;
    PDSS_Water w; double h0 = w.enthalpy_mole(), s0 = w.entropy_mole(), g0 = w.gibbs_mole(), u0 = w.intEnergy_mole(); WaterPropsIAPWS q, z; z.setState_TD(t0, w.density());
    w.setTemperature(T); w.setDensity(rho); q.setState_TD(T, rho); M = w.molecularWeight();
    eq("T", w.temperature(), T, 1); eq("rho", w.density(), rho); eq("P", w.pressure(), q.pressure(), 1e5); eq("V", w.molarVolume(), M / rho);
    double h = w.enthalpy_mole(), s = w.entropy_mole(), u = w.intEnergy_mole(), g = w.gibbs_mole();
    eq("h", h - h0, M * (q.enthalpy_mass() - z.enthalpy_mass()), R * TC); eq("s", s - s0, M * (q.entropy_mass() - z.entropy_mass()), R); eq("u", u - u0, M * (q.intEnergy_mass() - z.intEnergy_mass()), R * TC); (void) g0;
    eq("g = h - Ts", g, h - T * s, R * TC); eq("h = u + PV", h, u + w.pressure() * M / rho, R * TC); eq("cp", w.cp_mole(), M * q.cp_mass(), R); eq("cv", w.cv_mole(), M * q.cv_mass(), R);
    eq("alpha", w.thermalExpansionCoeff(), q.coeffThermExp()); eq("kappa", w.isothermalCompressibility(), q.isothermalCompressibility());
    eq("h/RT", w.enthalpy_RT(), h / (R * T), 1); eq("s/R", w.entropy_R(), s / R, 1); eq("g/RT", w.gibbs_RT(), g / (R * T), 1); eq("cp/R", w.cp_R(), w.cp_mole() / R, 1);
    reach("pdss");
}
static void sstp(int i) {
    auto& r = regions[i]; double T = in("T", r.t0, r.t1), rho = in("rho", r.r0, r.r1), R = GasConstant;
    auto th = phase("liquidvapor.yaml", "liquid-water-IAPWS95"); auto& w = dynamic_cast<WaterSSTP&>(*th); double M = w.meanMolecularWeight();
    double h0 = w.enthalpy_mole(), s0 = w.entropy_mole(), u0 = w.intEnergy_mole(); WaterPropsIAPWS q, z; z.setState_TD(w.temperature(), w.density());
    w.setState_TD(T, rho); q.setState_TD(T, rho);
    eq("T", w.temperature(), T, 1); eq("rho", w.density(), rho); eq("P", w.pressure(), q.pressure(), 1e5);
    double h = w.enthalpy_mole(), s = w.entropy_mole(), u = w.intEnergy_mole(), g = w.gibbs_mole(), a;
    eq("h", h - h0, M * (q.enthalpy_mass() - z.enthalpy_mass()), R * TC); eq("s", s - s0, M * (q.entropy_mass() - z.entropy_mass()), R); eq("u", u - u0, M * (q.intEnergy_mass() - z.intEnergy_mass()), R * TC);
    eq("g = h - Ts", g, h - T * s, R * TC); eq("h = u + PV", h, u + w.pressure() * M / rho, R * TC); eq("cp", w.cp_mole(), M * q.cp_mass(), R); eq("cv", w.cv_mole(), M * q.cv_mass(), R);
    eq("alpha", w.thermalExpansionCoeff(), q.coeffThermExp()); eq("kappa", w.isothermalCompressibility(), q.isothermalCompressibility());
    w.getChemPotentials(&a); eq("mu", a, g, R * TC); w.getEnthalpy_RT(&a); eq("h/RT", a, h / (R * T), 1); w.getEntropy_R(&a); eq("s/R", a, s / R, 1); w.getGibbs_RT(&a); eq("g/RT", a, g / (R * T), 1); w.getCp_R(&a); eq("cp/R", a, w.cp_mole() / R, 1); w.getIntEnergy_RT(&a); eq("u/RT", a, u / (R * T), 1);
    w.getPartialMolarEnthalpies(&a); eq("partial h", a, h, R * TC); w.getPartialMolarEntropies(&a); eq("partial s", a, s, R); w.getPartialMolarVolumes(&a); eq("partial v", a, M / rho); w.getPartialMolarCp(&a); eq("partial cp", a, w.cp_mole(), R); w.getPartialMolarIntEnergies(&a); eq("partial u", a, u, R * TC);
    reach("sstp");
}
// reference states are found by solving for the density; the state is left alone
static void pdssRef() {
    double T = in("T", 300, 360), R = GasConstant; PDSS_Water w; w.setState_TP(298.15, 5e6); w.setTemperature(T); double rho = w.density();
    double h = w.enthalpy_RT_ref(), s = w.entropy_R_ref(), g = w.gibbs_RT_ref(), cp = w.cp_R_ref(), v = w.molarVolume_ref(); (void) cp;
    eq("g = h - s", g, h - s, 1); eq("T kept", w.temperature(), T, 1); eq("rho kept", w.density(), rho); eq("volume kept", w.molarVolume(), w.molecularWeight() / rho); tru("volume", v > 0);
    eq("enthalpy kept", w.enthalpy_mole() - T * w.entropy_mole(), w.gibbs_mole(), R * TC); reach("reference");
}
static void sstpRef() {
    double T = in("T", 300, 360), R = GasConstant; auto th = phase("liquidvapor.yaml", "liquid-water-IAPWS95"); auto& w = *th; w.setState_TP(320, 5e6); w.setTemperature(T); double rho = w.density(), h, s, g, cp, v, gg, h0 = w.enthalpy_mole();
    w.getEnthalpy_RT_ref(&h); w.getEntropy_R_ref(&s); w.getGibbs_RT_ref(&g); w.getCp_R_ref(&cp); w.getStandardVolumes_ref(&v); w.getGibbs_ref(&gg);
    eq("g = h - s", g, h - s, 1); eq("gibbs", gg, g * R * T, R * TC); eq("T kept", w.temperature(), T, 1); eq("rho kept", w.density(), rho); eq("enthalpy kept", w.enthalpy_mole(), h0, R * TC); reach("reference");
}
// dielectric constant and the density correlation
static void dielectric() {
    double T = in("T", 280, 600), P = in("P", 1e5, 1e8); WaterProps w;
    double e = w.relEpsilon(T, P, 0), e1 = w.relEpsilon(T, P, 1); deriv("dT", e, T, e1, 0.1); deriv("dT2", e1, T, w.relEpsilon(T, P, 2), 1e-3); deriv("dP", e, P, w.relEpsilon(T, P, 3), 1e-9); reach("dielectric");
}
static void correlation() {
    WaterProps::density_T(300, 1e5, 0);
    double T = in("T", 280, 380), P = in("P", 1e5, 1e6), r = WaterProps::density_T(T, P, 0), d = WaterProps::density_T(T, P, 1);
    deriv("dT", r, T, d, 1); deriv("dT2", d, T, WaterProps::density_T(T, P, 2), 1e-2); deriv("dP", r, P, WaterProps::density_T(T, P, 3), 1e-6);
    double c = T - 273.15; eq("value", r, 1000 * (1 - (c + 288.9414) * (c - 3.9863) * (c - 3.9863) / (508929.2 * (c + 68.12963))), 1); reach("correlation");
}
CASES {
    for (auto& n : fluids) {
        addcase("gas_" + n, [n] { potential(n, 0.4, 1.0, 0.01, 0.5); }); addcase("liquid_" + n, [n] { potential(n, 0.4, 1.0, 1.2, 2.5); }); addcase("super_" + n, [n] { potential(n, 1.0, 3.0, 0.1, 2.0); }); addcase("dilute_" + n, [n] { potential(n, 0.4, 3.0, 1e-6, 1e-3); });
        addcase("outside_" + n, [n] { outside(n); }); for (int h = 0; h < 7; h++) addcase("phase_" + n + "_" + S(h), [n, h] { phaseOf(n, h); });
    }
    for (int i = 0; i < 6; i++) { string r = regions[i].n; addcase("iapws_" + r, [i] { iapws(i); }); for (double f : {0.0, 0.4, 1.0}) addcase("isochore_" + r + "_" + S(int(10 * f)), [i, f] { isochore(i, f); }); addcase("maxwell_" + r, [i] { maxwell(i); }); addcase("history_" + r, [i] { iapwsHistory(i); }); addcase("pdss_" + r, [i] { pdss(i); }); addcase("sstp_" + r, [i] { sstp(i); }); }
    addcase("pdss_reference", pdssRef); addcase("sstp_reference", sstpRef); addcase("dielectric", dielectric); addcase("correlation", correlation);
}
