#include "sym.h"
#include "cantera/core.h"
#include "cantera/thermo/NasaPoly2.h"
#include "cantera/thermo/IdealGasPhase.h"
#include <vector>
using namespace Cantera;
SYM_CASE(nasa) {
    double c[15];
    c[0] = sym_input("Tmid", 500, 2000);
    for (int i = 1; i < 15; i++) c[i] = sym_input(("c" + std::to_string(i)).c_str(), -10, 10);
    NasaPoly2 p(200, 3500, 101325, c);
    double T = sym_input("T", 200, 3500);
    double cp, h, s, tp[6];
    p.updateTemperaturePoly(T, tp);
    p.updateProperties(tp, &cp, &h, &s);
    sym_output("cp", cp);
    sym_deriv("dh", h * T, T, cp, 1);
    sym_deriv("ds", s, T, cp / T, 1);
}
SYM_CASE(gas) {
    auto sol = newSolution("h2o2.yaml", "", "none");
    auto& g = *sol->thermo();
    std::vector<double> x(g.nSpecies());
    double sum = 0;
    for (size_t k = 0; k < x.size(); k++) { x[k] = sym_input(("x" + std::to_string(k)).c_str(), 0.01, 1); sum += x[k]; }
    double T = sym_input("T", 300, 3000), P = sym_input("P", 1e4, 1e7);
    g.setState_TPX(T, P, x.data());
    sym_output("rho", g.density());
    sym_eq("g", g.gibbs_mole(), g.enthalpy_mole() - T * g.entropy_mole(), 1e6);
    sym_eq("P", g.pressure(), P, 1e5);
    std::vector<double> w(x.size());
    sol->kinetics()->getNetProductionRates(w.data());
    double m = 0;
    for (size_t k = 0; k < x.size(); k++) m += w[k] * g.molecularWeight(k);
    sym_eq("mass", m, 0, 1);
}
