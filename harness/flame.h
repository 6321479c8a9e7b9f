// One-dimensional domains: a transport model that is an arbitrary function of the state, grids, states and the
// residuals the governing equations and their documented discretisation prescribe
#ifndef VERIF_FLAME_H
#define VERIF_FLAME_H
#include "common.h"
#include "cantera/onedim.h"
#include "cantera/oneD/IonFlow.h"
#include "cantera/oneD/MultiNewton.h"
#include "cantera/transport/Transport.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/kinetics/InterfaceKinetics.h"
#include "cantera/base/Interface.h"
#include "cantera/base/SolutionArray.h"
typedef vector<double> Vec;
struct Tr : public Transport {
    string model; bool varies; size_t K; double T0 = 0;
    Vec d, e, th, mob; vector<Vec> D; double mu, la;
    Tr(shared_ptr<ThermoPhase> t, const string& m, bool varies_) : model(m), varies(varies_), K(t->nSpecies()) {
        m_thermo = t.get();
        mu = in("mu", 1e-6, 1e-4); la = in("la", 0.01, 1);
        for (size_t k = 0; k < K; k++) {
            d.push_back(in("d" + S(k), 1e-6, 1e-4)); e.push_back(in("e" + S(k), 1e-6, 1e-4)); th.push_back(in("th" + S(k), -1e-5, 1e-5));
            mob.push_back(in("mob" + S(k), 1e-3, 1)); D.push_back({});
            for (size_t j = 0; j < K; j++) D[k].push_back(model.find("multi") == 0 && j != k ? in("D" + S(k) + "_" + S(j), 1e-6, 1e-4) : 0);
        }
    }
    string transportModel() const override { return model; }
    // any dependence on temperature, pressure and composition will do
    double f() const { return varies ? m_thermo->temperature() * (1 + m_thermo->moleFraction(1)) / 1000 : 1; }
    double viscosity() override { return mu * f(); }
    double thermalConductivity() override { return la * f(); }
    void getMixDiffCoeffs(double* const x) override { for (size_t k = 0; k < K; k++) x[k] = d[k] * f(); }
    void getMixDiffCoeffsMass(double* const x) override { for (size_t k = 0; k < K; k++) x[k] = e[k] * f(); }
    void getThermalDiffCoeffs(double* const x) override { for (size_t k = 0; k < K; k++) x[k] = th[k] * f(); }
    void getMobilities(double* const x) override { for (size_t k = 0; k < K; k++) x[k] = mob[k] * f(); }
    void getMultiDiffCoeffs(const size_t ld, double* const x) override { for (size_t k = 0; k < K; k++) for (size_t j = 0; j < K; j++) x[k + ld * j] = D[k][j] * f(); }
};
struct Opt {
    string kind = "free", trans = "mixture-averaged"; bool massBasis = false, soret = false, energy = true, radiation = false, twoPoint = false, ions = false, varies = true; int stage = 1;
    string left = "inlet", right = "outlet", ph = "gas"; int sign = 1, big0 = 0, bigN = 0; size_t N = 4; bool transient = true, symbolicKin = true;
};
enum { U, V, T, L, EF, UO, Y0 };
struct Sim : public OneDim { using OneDim::OneDim; Vec& st() { return *m_state; } };
struct Flame {
    Opt o; shared_ptr<Solution> sol, ref, surf, surfRef; shared_ptr<Flow1D> flow; shared_ptr<Tr> tr; shared_ptr<Boundary1D> bl, br; unique_ptr<Sim> sim;
    size_t K, nv, N; Vec z, x, old; double P; size_t zc = 1, zd = 2; double tl = 0, tright = 0;
    double& at(Vec& v, size_t c, size_t j) { return v[flow->loc() + j * nv + c]; }
    double& a(size_t c, size_t j) { return at(x, c, j); }
    shared_ptr<Boundary1D> boundary(const string& t, const string& id) {
        if (t == "inlet") return std::make_shared<Inlet1D>(sol, id);
        if (t == "outlet") return std::make_shared<Outlet1D>(sol, id);
        if (t == "reservoir") return std::make_shared<OutletRes1D>(sol, id);
        if (t == "symmetry") return std::make_shared<Symm1D>(sol, id);
        if (t == "surface") return std::make_shared<Surf1D>(sol, id);
        if (t == "reacting") return std::make_shared<ReactingSurf1D>(surf, id);
        return std::make_shared<Empty1D>(sol, id);
    }
    Vec frac(const string& tag, int big) {      // mass fractions with one known largest species
        Vec y(K); double s = 0;
        for (size_t k = 0; k < K; k++) if (int(k) != big) { y[k] = in(tag + S(k), 0.01, 0.4 / (K - 1)); s += y[k]; }
        y[big] = 1 - s;
        return y;
    }
    Flame(const Opt& o_) : o(o_) {
        string ph = o.ions ? "ions" : o.ph;
        sol = solution("flame.yaml", ph); ref = solution("flame.yaml", ph);
        if (o.left == "reacting" || o.right == "reacting") {
            surf = newInterface("flame.yaml", "surf", vector<shared_ptr<Solution>>{sol});
            surfRef = newInterface("flame.yaml", "surf", vector<shared_ptr<Solution>>{ref});
        }
        K = sol->thermo()->nSpecies(); N = o.N; P = in("P", 1e4, 1e6);
        tr = std::make_shared<Tr>(sol->thermo(), o.trans, o.varies);
        sol->setTransport(tr);
        if (o.ions) flow = std::make_shared<IonFlow>(sol, "flow", N); else flow = std::make_shared<Flow1D>(sol, "flow", N);
        if (o.kind == "free") flow->setFreeFlow(); else if (o.kind == "axisymmetric") flow->setAxisymmetricFlow(); else flow->setUnstrainedFlow();
        flow->setPressure(P);
        flow->setTransport(tr);
        if (o.ions) flow->setSolvingStage(o.stage);
        if (o.massBasis) flow->setFluxGradientBasis(ThermoBasis::mass);
        flow->enableSoret(o.soret);
        z.push_back(0); for (size_t j = 1; j < N; j++) z.push_back(z.back() + in("dz" + S(j), 1e-3, 1e-2));
        flow->setupGrid(N, z.data());
        bl = boundary(o.left, "left"); br = boundary(o.right, "right");
        vector<shared_ptr<Domain1D>> doms = {bl, flow, br}; sim = std::make_unique<Sim>(doms);
        nv = flow->nComponents();
        for (size_t j = 0; j < N; j++) flow->setTemperature(j, in("Tfix" + S(j), 300, 2000));
        if (o.energy) flow->solveEnergyEqn(); else flow->fixTemperature();
        if (o.radiation) { flow->enableRadiation(true); flow->setBoundaryEmissivities(in("el", 0.1, 1), in("er", 0.1, 1)); }
        if (o.kind == "free") { flow->m_zfixed = z[zc]; flow->m_tfixed = in("Tanchor", 500, 1500); }
        if (o.twoPoint) {
            flow->enableTwoPointControl(true); tl = in("Tleft", 500, 1500); tright = in("Tright", 500, 1500);
            flow->setLeftControlPointCoordinate(z[zc]); flow->setLeftControlPointTemperature(tl);
            flow->setRightControlPointCoordinate(z[zd]); flow->setRightControlPointTemperature(tright);
        }
        for (auto b : {bl, br}) {
            string t = b == bl ? "bl" : "br";
            b->setTemperature(in(t + "T", 300, 1500));
            b->setMdot(in(t + "mdot", 0.1, 2));
            if (auto i = dynamic_cast<Inlet1D*>(b.get())) { i->setSpreadRate(in(t + "V0", -3, 3)); }
            if (b->type() == "inlet" || b->type() == "outlet-reservoir") {
                Vec X(K); for (size_t k = 0; k < K; k++) X[k] = in(t + "X" + S(k), 0.1, 1);
                b->setMoleFractions(X.data());
            }
        }
        x.assign(sim->size(), 0); old = x;
        state(x, ""); if (o.transient) state(old, "old"); else old = x;
        if (surf) {
            Domain1D* s = o.left == "reacting" ? (Domain1D*)bl.get() : br.get();
            for (size_t k = 0; k < s->nComponents(); k++) { x[s->loc() + k] = in("cov" + S(k), 0.05, 1); old[s->loc() + k] = o.transient ? in("oldcov" + S(k), 0.05, 1) : x[s->loc() + k]; }
        }
    }
    void state(Vec& v, const string& tag) {
        for (size_t j = 0; j < N; j++) {
            string t = tag + "_" + S(j);
            at(v, U, j) = o.sign > 0 ? in(t + "u", 0.1, 2) : o.sign < 0 ? in(t + "u", -2, -0.1) : in(t + "u", -2, 2);
            at(v, V, j) = in(t + "V", -10, 10); at(v, T, j) = in(t + "T", 300, 2000); at(v, L, j) = in(t + "L", -100, 100);
            at(v, EF, j) = in(t + "E", -100, 100); at(v, UO, j) = in(t + "Uo", -2, 2);
            Vec y = frac(t + "Y", j == 0 ? o.big0 : j == N - 1 ? o.bigN : int(K) - 1);
            for (size_t k = 0; k < K; k++) at(v, Y0 + k, j) = y[k];
        }
    }
    Vec Y(Vec& v, size_t j) { Vec y(K); for (size_t k = 0; k < K; k++) y[k] = at(v, Y0 + k, j); return y; }
    void transient(double dt) { for (size_t i = 0; i < sim->nDomains(); i++) sim->domain(i).initTimeInteg(dt, old.data()); }
    void eval(Vec& r, double rdt, size_t jg = npos) {
        r.assign(sim->size(), 0);
        sim->eval(jg, x.data(), r.data(), rdt, 0);
    }
    // ---- what the equations say
    struct Pt { double rho, W, cp; Vec X, w, h; };
    Pt point(Vec& v, size_t j) {
        Pt p; auto& t = *ref->thermo(); Vec y = Y(v, j);
        t.setTemperature(at(v, T, j)); t.setMassFractions_NoNorm(y.data()); t.setPressure(P);
        p.rho = t.density(); p.W = t.meanMolecularWeight(); p.cp = t.cp_mass(); p.X.resize(K); p.w.resize(K); p.h.resize(K);
        for (size_t k = 0; k < K; k++) p.X[k] = y[k] * p.W / t.molecularWeight(k);
        ref->kinetics()->getNetProductionRates(p.w.data()); t.getPartialMolarEnthalpies(p.h.data());
        return p;
    }
    struct Mid { double mu, la, rho, W, f; };
    Mid middle(Vec& v, size_t j) {
        auto& t = *ref->thermo(); Vec y(K);
        for (size_t k = 0; k < K; k++) y[k] = 0.5 * (at(v, Y0 + k, j) + at(v, Y0 + k, j + 1));
        t.setTemperature(0.5 * (at(v, T, j) + at(v, T, j + 1))); t.setMassFractions_NoNorm(y.data()); t.setPressure(P);
        Mid m; m.f = o.varies ? t.temperature() * (1 + t.moleFraction(1)) / 1000 : 1;
        m.mu = tr->mu * m.f; m.la = tr->la * m.f; m.rho = t.density(); m.W = t.meanMolecularWeight();
        return m;
    }
    // diffusive mass fluxes between j and j+1
    Vec flux(Vec& v, size_t j, const Pt& p, const Pt& q, const Mid& m) {
        Vec J(K), w = ref->thermo()->molecularWeights(); double dz = z[j + 1] - z[j]; auto& t = *ref->thermo();
        if (o.trans.find("multi") == 0) {
            for (size_t k = 0; k < K; k++) {
                double s = 0; for (size_t i = 0; i < K; i++) s += w[i] * tr->D[k][i] * m.f * (q.X[i] - p.X[i]) / dz;
                J[k] = m.rho * w[k] / (m.W * m.W) * s;
            }
        } else {
            double sum = 0, ion = 0;
            for (size_t k = 0; k < K; k++) {
                double y0 = at(v, Y0 + k, j), y1 = at(v, Y0 + k, j + 1);
                J[k] = o.massBasis ? -m.rho * tr->e[k] * m.f * (y1 - y0) / dz : -m.rho * w[k] / m.W * tr->d[k] * m.f * (q.X[k] - p.X[k]) / dz;
                if (o.ions && t.charge(k) != 0) {
                    if (o.stage == 1) J[k] = 0;
                    else J[k] += p.rho * 0.5 * (y0 + y1) * at(v, EF, j) * t.charge(k) * tr->mob[k] * m.f;
                    ion += y0;
                }
                sum += J[k];
            }
            for (size_t k = 0; k < K; k++) {
                if (!o.ions) J[k] -= at(v, Y0 + k, j) * sum;
                else if (t.charge(k) == 0) J[k] -= at(v, Y0 + k, j) / (1 - ion) * sum;
            }
        }
        if (o.soret) for (size_t k = 0; k < K; k++) J[k] -= tr->th[k] * m.f * (at(v, T, j + 1) - at(v, T, j)) / dz / (0.5 * (at(v, T, j + 1) + at(v, T, j)));
        return J;
    }
    double planck(double TT, const Pt& p) {
        static const double h2o[] = {-0.23093, -1.12390, 9.41530, -2.99880, 0.51382, -1.86840e-5}, co2[] = {18.741, -121.310, 273.500, -194.050, 56.310, -5.8169};
        double s = 0, q = 1; size_t a = ref->thermo()->speciesIndex("H2O"), b = ref->thermo()->speciesIndex("CO2");
        for (int n = 0; n < 6; n++) { s += (p.X[a] * h2o[n] + (b == npos ? 0 : p.X[b] * co2[n])) * q; q *= 1000 / TT; }
        return s * P / OneAtm;
    }
};
#endif
