"""Writes properties.jsonl and MANIFEST.json from the list below (run by hand after editing; no check runs it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                                 "observe_at": observe or [], "hook_needed": None}})


prop("T01", "Species reference-state functions are mutually consistent",
     "For every species thermodynamic parameterization (NASA 7- and 9-coefficient, Shomate, constant heat capacity, tabulated chemical potential, and the per-phase species manager that batches them), at every temperature in its range the heat capacity is the temperature derivative of the enthalpy, and the entropy's derivative is the heat capacity over temperature. Evaluating one species, evaluating all, evaluating through shared temperature powers and evaluating an equivalent object re-created from reported parameters give the same numbers; changing the 298 K enthalpy of formation shifts enthalpy by exactly that amount, leaves heat capacity and entropy unchanged, and restoring it restores the original.",
     ["inputs", "histories"], "every temperature in the valid range and every coefficient value in the stated boxes",
     "the suite samples a handful of temperatures of fixed species; a coefficient error in one term, one temperature zone or one modification path passes unnoticed",
     ["src/thermo/NasaPoly2.cpp", "include/cantera/thermo/NasaPoly1.h", "src/thermo/Nasa9Poly1.cpp", "src/thermo/Nasa9PolyMultiTempRegion.cpp", "include/cantera/thermo/ShomatePoly.h", "src/thermo/ConstCpPoly.cpp", "src/thermo/Mu0Poly.cpp", "src/thermo/MultiSpeciesThermo.cpp"],
     [("SpeciesThermoInterpType::updateProperties", "src/thermo"), ("MultiSpeciesThermo::update", "src/thermo/MultiSpeciesThermo.cpp")])
prop("T02", "Thermodynamic identities hold in every phase model",
     "For every phase model and every admissible temperature, pressure (or density) and composition: g = h - Ts, h = u + Pv, mass-based functions are the molar ones over the mean molecular weight, molar functions are the mole-fraction-weighted sums of partial molar ones, partial molar h, u, v, s and chemical potentials obey the same relations species by species, and so do the standard-state and reference-state functions. Chemical potentials, activities, activity coefficients, activity concentrations and standard concentrations describe one and the same state, and the electric potential enters only through the species' charge.",
     ["inputs", "configurations"], "every state in the stated boxes for each of about 25 phase models",
     "consistency tests evaluate these identities at a few fixed states per model, so a wrong branch or a term that vanishes at those states is not seen",
     ["src/thermo", "include/cantera/thermo/ThermoPhase.h"],
     [("getPartialMolar*, getChemPotentials, getActivities, *_mole", "src/thermo/*.cpp"), ("VPStandardStateTP and PDSS", "src/thermo/VPStandardStateTP.cpp")])
prop("T03", "Thermodynamic functions are derivatives of one potential",
     "For every phase model, heat capacities, entropy, volume, thermal expansion, compressibility, sound speed and internal pressure are the corresponding partial derivatives of the model's enthalpy, Gibbs or internal energy with respect to temperature, pressure or density, and chemical potentials are the derivatives of the total Gibbs (or Helmholtz) energy with respect to species amounts. Maxwell relations hold between them.",
     ["inputs", "configurations"], "every state in the stated boxes, with the real code differentiated symbolically",
     "finite-difference tests at a few states have tolerances wide enough to hide small missing terms and never visit most branches",
     ["src/thermo/RedlichKwongMFTP.cpp", "src/thermo/PengRobinson.cpp", "src/thermo/MixtureFugacityTP.cpp", "src/thermo/IdealGasPhase.cpp", "src/thermo/MargulesVPSSTP.cpp", "src/thermo/RedlichKisterVPSSTP.cpp", "src/thermo/DebyeHuckel.cpp", "src/thermo/CoverageDependentSurfPhase.cpp"],
     [("cp_mole, cv_mole, thermalExpansionCoeff, isothermalCompressibility, getdlnActCoeff*", "src/thermo/*.cpp")])
prop("T04", "Composition and state setters round-trip",
     "Setting a phase's composition by mass fractions, mole fractions, concentrations, names, strings or mixture-fraction and equivalence-ratio specifications and reading it back in any of the representations gives the values required by the molecular weights, normalised where documented and exactly as given where not. Setting the state through any supported combination of temperature, pressure, density and composition reproduces that combination, density always belongs to the current temperature, pressure and composition, and saving and restoring a state reproduces every state variable.",
     ["inputs", "histories"], "every non-negative composition, temperature, pressure and density in the stated boxes",
     "tests use particular compositions; conversions must hold for all, including unnormalised ones",
     ["src/thermo/Phase.cpp", "src/thermo/ThermoPhase.cpp", "include/cantera/thermo/Phase.h"],
     [("set/getMassFractions, set/getMoleFractions, concentrations, saveState/restoreState, setState_*", "src/thermo/Phase.cpp"), ("setEquivalenceRatio, mixtureFraction", "src/thermo/ThermoPhase.cpp")])
prop("T05", "Pure-fluid and water equations of state are consistent",
     "For every pure-fluid model (water, nitrogen, methane, hydrogen, oxygen, heptane, HFC-134a, carbon dioxide) and the IAPWS water formulation, pressure, internal energy, enthalpy and entropy at any temperature and density derive from one Helmholtz function, and the state functions returned by the phase object are the substance's. Water standard-state models return volumes, enthalpies and entropies that obey the same relations.",
     ["inputs"], "every temperature and density in the stated boxes",
     "tests compare a few tabulated points with loose tolerances",
     ["src/tpx", "src/thermo/PureFluidPhase.cpp", "src/thermo/WaterPropsIAPWS.cpp", "src/thermo/WaterPropsIAPWSphi.cpp", "src/thermo/PDSS_Water.cpp", "src/thermo/WaterSSTP.cpp"],
     [("up, sp, Pp of each substance", "src/tpx/*.cpp"), ("phi derivatives", "src/thermo/WaterPropsIAPWSphi.cpp")])
prop("T06", "Results depend on the current state only, never on history",
     "What a thermodynamic, kinetic or transport object reports after any sequence of state changes, parameter changes and queries is what a freshly built object set to the same state reports: internally cached values are never stale.",
     ["histories", "inputs"], "two arbitrary symbolic states visited in sequence, with every getter queried in between, and single-variable changes between them",
     "a stale cache shows only for a particular order of changes and queries; tests mostly set a state once",
     ["src/thermo", "src/kinetics", "src/transport", "include/cantera/base/ValueCache.h"],
     [("state numbers, ValueCache, temperature and composition change detection", "src/thermo/Phase.cpp, src/kinetics/BulkKinetics.cpp, src/transport/GasTransport.cpp")])
prop("K01", "Elements, mass and charge are conserved by kinetics",
     "For every mechanism and every state, the net production rates of the species conserve each element, mass and (where applicable) charge and surface sites, within each phase boundary the mechanism spans, whatever the rate types, reaction orders and third bodies. Unbalanced reactions are rejected when the mechanism is read.",
     ["inputs", "configurations"], "every temperature, pressure, composition and rate multiplier in the boxes, for the shipped mechanisms used",
     "tests sample a few states; conservation must hold for all",
     ["src/kinetics/Kinetics.cpp", "src/kinetics/BulkKinetics.cpp", "src/kinetics/InterfaceKinetics.cpp", "src/kinetics/Reaction.cpp"],
     [("StoichManagerN", "include/cantera/kinetics/StoichManager.h"), ("Reaction::checkBalance", "src/kinetics/Reaction.cpp")])
prop("K02", "Rates of progress and production rates agree with each other",
     "For every mechanism and state, net rates of progress are forward minus reverse, creation, destruction and net production rates are the stoichiometric sums of the rates of progress, each forward rate is its rate constant times the concentrations raised to the reaction orders (and the third-body concentration), and a reaction's multiplier scales exactly that reaction's rates. Reordering, adding or duplicating reactions changes rates only as the sum of the parts.",
     ["inputs", "configurations"], "every state, multiplier and reaction of the mechanisms used",
     "the products and sums involve every species and reaction; tests check a few entries",
     ["src/kinetics/BulkKinetics.cpp", "src/kinetics/Kinetics.cpp", "include/cantera/kinetics/StoichManager.h", "src/kinetics/ThirdBodyCalc.h"],
     [("updateROP, getCreationRates, getDestructionRates, getNetProductionRates", "src/kinetics"), ("ThirdBodyCalc", "include/cantera/kinetics/ThirdBodyCalc.h")])
prop("K03", "Reversible reactions obey detailed balance",
     "For every reversible reaction and every state, the ratio of forward and reverse rate constants is the equilibrium constant formed from the standard chemical potentials and standard concentrations, reaction enthalpies, entropies and Gibbs energies are the stoichiometric sums of species values, and the net rate vanishes exactly when the reaction's chemical affinity does. This includes surface and charge-transfer reactions under an electric potential difference.",
     ["inputs", "configurations"], "every state of the mechanisms used", "tests compare a few stored values",
     ["src/kinetics/BulkKinetics.cpp", "src/kinetics/InterfaceKinetics.cpp", "src/kinetics/Kinetics.cpp"],
     [("getEquilibriumConstants, updateKc, getRevRateConstants, getDelta*", "src/kinetics")])
prop("K04", "Rate-constant expressions evaluate to their defining formulas",
     "Every rate parameterization (Arrhenius, Blowers-Masel, two-temperature plasma, falloff forms, chemically activated, pressure-dependent Arrhenius, Chebyshev, linear-Burke, sticking, coverage-dependent and electrochemical) evaluates to its documented formula for all admissible parameters, temperatures and pressures, is continuous across its table boundaries, stays non-negative where the parameters say so, and has its documented low- and high-pressure limits.",
     ["inputs"], "every parameter value, temperature and pressure in the boxes", "tests use fixed parameter sets and points",
     ["src/kinetics/Arrhenius.cpp", "src/kinetics/Falloff.cpp", "src/kinetics/PlogRate.cpp", "src/kinetics/ChebyshevRate.cpp", "src/kinetics/BlowersMaselRate.cpp", "src/kinetics/TwoTempPlasmaRate.cpp", "src/kinetics/LinearBurkeRate.cpp", "src/kinetics/InterfaceRate.cpp"],
     [("evalFromStruct, evalF, ddTScaledFromStruct", "src/kinetics, include/cantera/kinetics")])
prop("K05", "Rate derivatives are the derivatives of the rates",
     "For every mechanism and state, the derivatives of rate constants, rates of progress and production rates with respect to temperature, pressure, molar density, mole fractions and concentrations that the kinetics object reports are the partial derivatives of the rates it reports, under the documented conventions.",
     ["inputs", "configurations"], "every state in the boxes, by symbolic differentiation of the rate code",
     "finite-difference tests tolerate percent-level errors and use fixed states",
     ["src/kinetics/BulkKinetics.cpp", "src/kinetics/InterfaceKinetics.cpp", "include/cantera/kinetics/StoichManager.h"],
     [("*_ddT, *_ddP, *_ddC, *_ddX, *_ddCi", "src/kinetics/BulkKinetics.cpp")])
prop("K06", "Surface and electrochemical kinetics follow their definitions",
     "For interface mechanisms, sticking coefficients convert to rate constants by kinetic theory, coverage dependencies multiply rates as documented, surface concentrations follow coverages and site density, electrochemical rates respond to electrode potentials through charge transferred, and site balance is kept by every production rate at every state.",
     ["inputs", "configurations"], "every state, coverage and potential in the boxes", "tests use fixed states",
     ["src/kinetics/InterfaceKinetics.cpp", "src/kinetics/InterfaceRate.cpp", "src/thermo/SurfPhase.cpp"],
     [("InterfaceRateBase, StickingCoverage", "src/kinetics/InterfaceRate.cpp"), ("applyVoltageKfwdCorrection, convertExchangeCurrentDensityFormulation", "src/kinetics")])
prop("R01", "Reactor equations conserve mass, elements and energy",
     "For every reactor type and every state, the right-hand side of the governing equations conserves each element and total mass, and the rate of change of the reactor's energy equals what crosses its walls, inlets and outlets, summed over a whole network. Flow devices and walls give to one side exactly what they take from the other.",
     ["inputs", "configurations"], "every reactor state, flow rate, wall velocity and heat flux in the boxes", "tests integrate a few cases and compare with loose tolerances",
     ["src/zeroD"], [("eval, updateState, getState", "src/zeroD/*Reactor*.cpp"), ("FlowDevice, Wall, ReactorSurface", "src/zeroD")])
prop("R02", "Equivalent reactor formulations agree",
     "The mass-fraction-based, mole-based, ideal-gas and general formulations of a constant-volume or constant-pressure reactor describe the same time derivative of the same physical state, reading a reactor's state vector and setting it back changes nothing, and the reported Jacobian and preconditioner entries are derivatives of the right-hand side under the documented approximations.",
     ["inputs", "configurations"], "every state in the boxes", "tests compare integrated trajectories for one mechanism with tolerances of order 1e-5 to 1e-2",
     ["src/zeroD", "src/numerics/AdaptivePreconditioner.cpp"], [("getState, updateState, eval, jacobian, buildJacobian", "src/zeroD")])
prop("N01", "Function objects: evaluation and differentiation",
     "For every elementary and composed one-variable function, evaluation follows the written formula, its derivative object evaluates to the derivative, and simplifications made when composing never change the value.",
     ["inputs", "programs"], "every argument and coefficient in the boxes, for all pairs of elementary functions under every composition",
     "tests evaluate a few compositions at a few arguments", ["src/numerics/Func1.cpp", "include/cantera/numerics/Func1.h", "src/numerics/Func1Factory.cpp"],
     [("eval, derivative, newSumFunction and relatives", "src/numerics/Func1.cpp")])
prop("N02", "Linear algebra and interpolation helpers are exact",
     "Dense and banded matrices return products, row and column operations and element access that follow the definitions for any shape, solutions of the linear system given (the factorisation itself being LAPACK's), preconditioners solve the system they were given, and polynomial fits, piecewise-linear interpolation and quadrature reproduce exactly the functions they are exact for.",
     ["inputs", "configurations"], "every matrix entry and shape up to the stated sizes", "tests use single numeric examples",
     ["src/numerics/BandMatrix.cpp", "src/numerics/DenseMatrix.cpp", "src/numerics/polyfit.cpp", "src/numerics/funcs.cpp", "include/cantera/base/Array.h"],
     [("BandMatrix, DenseMatrix, linearInterp, trapezoidal, simpson, polyfit", "src/numerics")])
prop("N03", "Units conversion is a consistent linear map",
     "Converting any quantity from one unit system to another and back gives the original value, conversion factors multiply under products and powers of units, activation energies convert consistently between molar, thermal and electrical units, and a value given with explicit units means the same whatever the default units are. Reading a phase, species or reaction whose numbers are written in another unit system gives the same object, and the description an object gives of itself, written in any unit system, re-creates it.",
     ["inputs", "configurations"], "every value and the enumerated unit expressions", "tests check isolated conversions",
     ["src/base/Units.cpp", "include/cantera/base/Units.h"], [("UnitSystem::convert, convertTo, convertActivationEnergy", "src/base/Units.cpp")])
prop("D01", "One-dimensional flow residuals conserve species, mass and energy",
     "At every grid and every state the discrete residuals of the one-dimensional flow equations are the documented discretisation of the conservation equations: species diffusive fluxes sum to zero (and, with frozen ions, carry no neutral net flux), each boundary's residuals match the fluxes of the flow beside it whichever side it is on, an inlet, outlet, symmetry plane or surface imposes the values and balances documented for it, the residual at one point evaluated locally is the same as evaluated globally, and transient terms enter with the documented mask. A domain's state can be read, saved and set back unchanged.",
     ["inputs", "configurations"], "every grid spacing and state vector in the boxes, for small grids", "tests solve a few flames and compare with stored profiles",
     ["src/oneD/Flow1D.cpp", "src/oneD/Boundary1D.cpp", "src/oneD/Domain1D.cpp", "src/oneD/OneDim.cpp"], [("evalContinuity, evalSpecies, evalEnergy, updateDiffFluxes", "src/oneD/Flow1D.cpp")])
prop("E01", "Multiphase mixtures: sums over the phases, and element conservation on the way to equilibrium",
     "A multiphase mixture's mole numbers, element abundances, charge, Gibbs energy, enthalpy, entropy, internal energy, heat capacity, volume and chemical potentials are those of its phases, summed, at the mixture's temperature and pressure, for any mole numbers and also when phases are absent; every way of setting a mixture gives the same mixture and leaves every phase in the mixture's state; changing temperature or pressure changes no amounts; the order of the phases and earlier states do not matter; the components chosen are independent and as abundant as possible, formation reactions are balanced, and the estimate of the initial composition and a step towards equilibrium conserve every element.",
     ["inputs", "configurations", "histories"], "every set of mole numbers, temperature and pressure in the boxes, for mixtures of gas, solution, electrolyte, metal and stoichiometric phases; the converged result of the equilibrium solvers is outside", "tests equilibrate fixed mixtures",
     ["src/equil/MultiPhase.cpp", "src/equil/BasisOptimize.cpp", "src/equil/MultiPhaseEquil.cpp"], [("MultiPhase, BasisOptimize, MultiPhaseEquil", "src/equil")])
prop("X01", "Transport properties follow mixture rules and symmetry",
     "For every state, pure-species and mixture viscosity, conductivity and diffusion coefficients follow the documented fits and mixture rules, binary diffusion coefficients are symmetric and scale inversely with pressure, diffusive mass fluxes sum to zero and follow the Stefan-Maxwell relations, pure-species limits are reproduced, renumbering or splitting species changes nothing, mixture-averaged and multicomponent models agree where theory requires, and nothing depends on which quantities were asked for before or which states were visited before.",
     ["inputs", "configurations"], "every temperature, pressure and composition in the boxes", "tests compare stored values at a few states",
     ["src/transport/GasTransport.cpp", "src/transport/MixTransport.cpp", "src/transport/MultiTransport.cpp", "src/transport/IonGasTransport.cpp", "src/transport/HighPressureGasTransport.cpp"],
     [("updateViscosity_T, getMixDiffCoeffs, getBinaryDiffCoeffs, getSpeciesFluxes", "src/transport")])
prop("B01", "Input files and saved solutions round-trip",
     "A phase, species, reaction or solution array written to a file and read back describes the same object, parsing is deterministic, malformed input is reported with an error and never accepted silently or crashes.",
     ["inputs", "histories"], "every well-formed and malformed input text", "tests round-trip the shipped files only",
     ["src/base/AnyMap.cpp", "src/base/YamlWriter.cpp", "src/base/SolutionArray.cpp", "src/base/Storage.cpp"], [("AnyMap, YamlWriter", "src/base")])
prop("C01", "The C interface protects its handles",
     "Through the C interface, every handle refers to the object it was created for until deleted, invalid or deleted handles give an error code and no crash, and functions with caller buffers never write past the given length.",
     ["histories", "inputs"], "every sequence of creations, queries and deletions", "tests follow well-formed sequences only",
     ["src/clib", "src/clib/Cabinet.h"], [("Cabinet", "src/clib/Cabinet.h")])

NA = {
    "B01": "the property quantifies over input texts; parsing is done by the pre-built yaml-cpp (and HighFive/HDF5) library with heap-allocated trees and string processing, which cannot be executed symbolically within reach: the engine encodes numeric data flow only and treats text as concrete",
    "C01": "the property is about histories of integer handles and raw caller buffers (memory safety) across the C interface; the engine encodes floating-point data flow, not heap shapes, and the C++ containers behind the handles are beyond the reach of cbmc's C++ front end",
}
NOTES = {}
built = json.load(open(f"{V}/engine/props.json"))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in built:
        checks.append({"property": i, "quick_cmd": f"python3-vt engine/check.py {i}", "thorough_cmd": f"python3-vt engine/check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "symbolic execution of the compiled real code (LLVM instrumentation) with SMT (z3) deciding each obligation and each branch flip",
                       "level": "model_checking",
                       "level_note": "all real-valued inputs in the stated boxes on every explored path; doubles as reals with relative tolerance 1e-9; configurations concrete; see DESIGN.md " + i})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
