// Reactors: construction and the physical meaning of their state vectors
#ifndef VERIF_REACT_H
#define VERIF_REACT_H
#include "common.h"
#include "cantera/zerodim.h"
#include "cantera/zeroD/ReactorFactory.h"
#include "cantera/zeroD/ReactorSurface.h"
#include "cantera/zeroD/FlowReactor.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/base/Interface.h"
#include "cantera/numerics/Func1Factory.h"
typedef vector<double> Vec;
inline bool isMole(const string& t) { return t.find("Mole") != string::npos; }
inline bool isCP(const string& t) { return t.find("ConstPressure") != string::npos; }
inline bool isIG(const string& t) { return t.find("IdealGas") != string::npos; }
inline const vector<string>& reactorTypes() {
    static vector<string> t = {"Reactor", "IdealGasReactor", "ConstPressureReactor", "IdealGasConstPressureReactor", "MoleReactor",
                               "IdealGasMoleReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"};
    return t;
}
// what the governing equations say about the physical state
struct Phys {
    double m = 0, V = 0;        // as held by the reactor
    double dm = 0, dV = 0, dE = 0, dT = 0; double C = 0; bool hasV = false, hasT = false;   // dE: rate of the internal energy (constant volume) or enthalpy (constant pressure) of the gas
    Vec dn;                     // kmol/s of each gas species
    vector<Vec> ds;             // kmol/s of each surface species, per surface
};
struct Rx {
    shared_ptr<Solution> sol; shared_ptr<ReactorBase> base; Reactor* r; string type;
    vector<shared_ptr<ReactorSurface>> surfs; vector<shared_ptr<Solution>> surfSol;
    size_t K() const { return sol->thermo()->nSpecies(); }
    ThermoPhase& th() { r->restoreState(); return *sol->thermo(); }
};
inline void setGas(ThermoPhase& p, const string& tag, double Plo = 1e4, double Phi = 1e6, bool symbolic = true) {
    Vec x(p.nSpecies(), 1.0);
    if (symbolic) for (size_t k = 0; k < x.size(); k++) x[k] = in(tag + "x" + S(k), 0.05, 1);
    p.setMoleFractions(x.data());
    if (!symbolic) { p.setState_TP(910, 1.3e5); return; }
    if (p.type() == "Redlich-Kwong") { p.setState_TD(in(tag + "T", 700, 1500), in(tag + "rho", 0.1, 20)); sym_assume(p.pressure() > 2e4); }
    else p.setState_TP(in(tag + "T", 400, 1500), in(tag + "P", Plo, Phi));
}
inline shared_ptr<Solution> gasFor(const string& ph = "gas") { return solution("reactor.yaml", ph); }
inline Rx makeReactor(const string& type, const string& tag, shared_ptr<Solution> sol, bool symV = true) {
    Rx q; q.type = type; q.sol = sol;
    q.base = newReactor(type, sol);
    q.r = dynamic_cast<Reactor*>(q.base.get());
    q.r->setInitialVolume(symV ? in(tag + "V", 0.1, 10) : 1.0);
    q.r->syncState();
    return q;
}
inline void addSurface(Rx& q, const string& tag, bool symbolic = true) {
    auto s = newInterface("reactor.yaml", "surf", vector<shared_ptr<Solution>>{q.sol, newSolution("reactor.yaml", "bulk", "none")});
    Vec cov = {0.2, 0.5, 0.3};
    if (symbolic) for (int i = 0; i < 3; i++) cov[i] = in(tag + "c" + S(i), 0.1, 1);
    auto rs = std::make_shared<ReactorSurface>();
    rs->setKinetics(s->kinetics().get());
    rs->setCoverages(cov.data());
    rs->setArea(symbolic ? in(tag + "A", 0.5, 5) : 2.0);
    q.r->addSurface(rs.get());
    q.surfs.push_back(rs); q.surfSol.push_back(s);
}
inline size_t need(Reactor& r, const string& n) { size_t i = r.componentIndex(n); if (i == npos) throw CanteraError("need", n); return i; }
inline size_t nSurfSp(Rx& q) { size_t n = 0; for (auto& s : q.surfs) n += s->thermo()->nSpecies(); return n; }
// time derivatives of the physical quantities from derivatives ydot of the state vector
struct Rates { Vec L, R; double operator[](size_t i) const { return R[i] / L[i]; } };
inline Phys physical(Rx& q, const Rates& yd) {
    Phys p; Reactor& r = *q.r;
    ThermoPhase& th = q.th();
    size_t K = q.K(), k0 = need(r, th.speciesName(0));
    p.V = r.volume();
    p.m = th.density() * p.V;
    auto& W = th.molecularWeights();
    p.dn.resize(K);
    if (isMole(q.type)) {
        for (size_t k = 0; k < K; k++) { p.dn[k] = yd[k0 + k]; p.dm += W[k] * p.dn[k]; }
    } else {
        p.dm = yd[need(r, "mass")];
        for (size_t k = 0; k < K; k++) p.dn[k] = (p.m * yd[k0 + k] + th.massFraction(k) * p.dm) / W[k];
    }
    if (!isCP(q.type)) { p.dV = yd[need(r, "volume")]; p.hasV = true; }
    if (isIG(q.type)) {
        p.dT = yd[need(r, "temperature")]; p.hasT = true;
        Vec e(K);
        if (isCP(q.type)) th.getPartialMolarEnthalpies(e.data()); else th.getPartialMolarIntEnergies(e.data());
        size_t i = need(r, "temperature");
        p.C = p.m * (isCP(q.type) ? th.cp_mass() : th.cv_mass());
        if (r.energyEnabled()) { once("heat capacity of the contents", yd.L[i], p.C, 1e-3); p.dE = yd.R[i]; }
        else p.dE = p.C * p.dT;
        for (size_t k = 0; k < K; k++) p.dE += e[k] * p.dn[k];
    } else p.dE = yd[need(r, isCP(q.type) ? "enthalpy" : "int_energy")];
    size_t loc = k0 + K;
    for (auto& s : q.surfs) {
        Vec d(s->thermo()->nSpecies());
        for (size_t j = 0; j < d.size(); j++)
            d[j] = isMole(q.type) ? yd[loc + j] : yd[loc + j] * s->thermo()->siteDensity() * s->area() / s->thermo()->size(j);
        p.ds.push_back(d); loc += d.size();
    }
    return p;
}
inline Rates rates(Reactor& r) {
    Rates x; size_t n = r.neq();
    x.L.assign(n, 1.0); x.R.assign(n, 0.0);
    r.eval(0.0, x.L.data(), x.R.data());
    return x;
}
inline Phys physical(Rx& q) { return physical(q, rates(*q.r)); }
#endif
