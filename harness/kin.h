// The fleet of reaction mechanisms and how a symbolic state of each is set
#ifndef VERIF_KIN_H
#define VERIF_KIN_H
#include "common.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/kinetics/InterfaceKinetics.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/kinetics/ReactionRate.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/thermo/PlasmaPhase.h"
#include "cantera/base/Interface.h"
#include "cantera/base/ctexceptions.h"
#include <set>
struct Mech {
    string id, file, name;
    bool iface;
    double Tlo, Thi, Plo, Phi;
    bool elec = false;              // electric potentials matter
    std::set<string> skip = {};
};
inline const vector<Mech>& mechs() {
    static vector<Mech> m = {
        {"h2o2", "h2o2.yaml", "", false, 300, 3000, 1e3, 1e7},
        {"scratch", "kineticsfromscratch.yaml", "ohmech", false, 400, 2500, 2e3, 9e6},
        {"pdep", "pdep-test.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"linear_burke", "linearBurke-test.yaml", "linear-Burke_mechanism", false, 400, 2500, 2e3, 9e6},
        {"linear_burke_complex", "linearBurke-test.yaml", "linear-Burke-complex", false, 400, 2500, 2e3, 9e6},
        {"third_bodies", "explicit-third-bodies.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"orders", "reaction-orders.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"frac", "frac.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"negative_order", "negative-order.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"nonreactant_order", "nonreactant-order.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"sri", "sri-falloff.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"tsang", "tsang-falloff.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"chem_act", "chemically-activated-reaction.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"blowers_gas", "blowers-masel.yaml", "gas", false, 400, 2500, 2e3, 9e6},
        {"jacobian_mech", "jacobian-tests.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"two_temp", "ET_test.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"plasma", "oxygen-plasma.yaml", "isotropic-electron-energy-plasma", false, 300, 2500, 2e3, 9e6},
        {"plasma_rev", "plasma.yaml", "plasma", false, 1000, 2500, 2e3, 9e6},
        {"deep_gri30", "gri30.yaml", "", false, 400, 2500, 2e3, 9e6},
        {"condensed", "condensed.yaml", "solid", false, 300, 1200, 1e5, 1e9},
        {"pt_surf", "ptcombust.yaml", "Pt_surf", true, 500, 1800, 1e4, 1e6},
        {"scratch_surf", "kineticsfromscratch.yaml", "Pt_surf", true, 500, 1800, 1e4, 1e6},
        {"pt_simple", "surface-phases.yaml", "Pt-multi-sites", true, 500, 1800, 1e4, 1e6},
        {"motz_wise", "ptcombust-motzwise.yaml", "Pt_surf", true, 500, 1800, 1e4, 1e6},
        {"blowers_surf", "blowers-masel.yaml", "Pt_surf", true, 500, 1800, 1e4, 1e6},
        {"blowers_mw", "blowers-masel.yaml", "Pt_motz_wise", true, 500, 1800, 1e4, 1e6},
        {"diamond", "diamond.yaml", "diamond_100", true, 900, 1500, 1e3, 1e5},
        {"sofc_metal", "sofc.yaml", "metal_surface", true, 900, 1300, 1e4, 1e6},
        {"sofc_oxide", "sofc.yaml", "oxide_surface", true, 900, 1300, 1e4, 1e6, true},
        {"sofc_tpb", "sofc.yaml", "tpb", true, 900, 1300, 1e4, 1e6, true},
        {"li_anode", "lithium_ion_battery.yaml", "edge_anode_electrolyte", true, 280, 350, 9e4, 2e5, true},
        {"li_cathode", "lithium_ion_battery.yaml", "edge_cathode_electrolyte", true, 280, 350, 9e4, 2e5, true},
        {"graphite_anode", "surface-phases.yaml", "anode-surface", true, 280, 350, 9e4, 2e5, true},
    };
    return m;
}
inline const Mech& mech(const string& id) { for (auto& m : mechs()) if (m.id == id) return m; throw CanteraError("mech", id); }
struct KState { double T, P; vector<vector<double>> x; vector<double> phi; double Te = 0; };
struct KSys {
    shared_ptr<Solution> sol;
    shared_ptr<Kinetics> kin;
    KState s;
    Kinetics& K() { return *kin; }
};
inline KSys build(const Mech& m) {
    KSys q;
    dataDirs();
    if (m.iface && m.name != "tpb") q.sol = newInterface(m.file, m.name);
    else q.sol = newSolution(m.file, m.name, "none");
    q.kin = q.sol->kinetics();
    return q;
}
// symbolic state for every phase of the mechanism
inline KState symState(KSys& q, const Mech& m, const string& tag = "", size_t maxSym = 7) {
    KState s;
    Kinetics& k = q.K();
    s.T = in(tag + "T", m.Tlo, m.Thi);
    s.P = in(tag + "P", m.Plo, m.Phi);
    for (size_t n = 0; n < k.nPhases(); n++) {
        ThermoPhase& p = k.thermo(n);
        vector<double> x(p.nSpecies(), 0.3);
        if (p.nSpecies() > 1 && p.type() != "binary-solution-tabulated")
            for (size_t j = 0; j < p.nSpecies(); j++) x[j] = j < maxSym ? in(tag + p.name() + "_" + S(j), 0.02, 1) : 0.1 + 0.01 * j;
        s.x.push_back(x);
        if (dynamic_cast<PlasmaPhase*>(&p)) s.Te = in(tag + "Te", m.Tlo > 500 ? 2000 : 5000, m.Tlo > 500 ? 8000 : 40000);
        double phi = 0;
        if (m.elec && n > 0) phi = in(tag + "phi" + S(n), -0.5, 0.5);
        s.phi.push_back(phi);
    }
    return s;
}
inline void applyState(KSys& q, const Mech& m, const KState& s) {
    Kinetics& k = q.K();
    for (size_t n = 0; n < k.nPhases(); n++) {
        ThermoPhase& p = k.thermo(n);
        if (p.nSpecies() > 1) p.setMoleFractions(s.x[n].data());
        p.setState_TP(s.T, s.P);
        if (m.elec) p.setElectricPotential(s.phi[n]);
        if (auto* e = dynamic_cast<PlasmaPhase*>(&p)) e->setElectronTemperature(s.Te);
    }
}
#endif
