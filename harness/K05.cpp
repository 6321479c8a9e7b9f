// Reported rate derivatives against the rates: exact where the rate is analytic, and against the exact
// discrete difference (documented setting rtol-delta) where the rate derivative is numerical
#include "kin.h"
#include "cantera/numerics/eigen_sparse.h"
#include "cantera/kinetics/BlowersMaselRate.h"
#include "cantera/base/global.h"
typedef Eigen::SparseMatrix<double> Sp;
static double ipow(double c, double e) {
    double n = std::round(e);
    if (n == e && e >= 0 && e <= 6) { double x = 1; for (int i = 0; i < int(e); i++) x *= c; return x; }
    return std::pow(c, e);
}
typedef std::map<size_t, double> Ord;
static double law(const Ord& o, const vector<double>& c) { double x = 1; for (auto& [j, e] : o) x *= ipow(c[j], e); return x; }
static double dlaw(const Ord& o, const vector<double>& c, size_t j) {
    double x = 1;
    auto it = o.find(j);
    if (it == o.end() || it->second == 0) return 0;
    for (auto& [i, e] : o) x *= i == j ? e * ipow(c[i], e - 1) : ipow(c[i], e);
    return x;
}
static Ord fwd(Kinetics& k, Reaction& r) {
    Ord o;
    for (auto& [n, s] : r.reactants) o[k.kineticsSpeciesIndex(n)] += s;
    for (auto& [n, s] : r.orders) o[k.kineticsSpeciesIndex(n)] = s;
    return o;
}
static Ord rev(Kinetics& k, Reaction& r) {
    Ord o;
    for (auto& [n, s] : r.products) o[k.kineticsSpeciesIndex(n)] += s;
    return o;
}
// what = 0 full derivatives, 1 skip third bodies, 2 skip falloff; zeroSp: this species is absent
static void gasCase(const Mech& m, int what, int zeroSp, bool legacy) {
    KSys q = build(m);
    if (zeroSp >= int(q.K().nTotalSpecies())) { reach("gas"); return; }
    if (legacy) use_legacy_rate_constants(true);
    Kinetics& k = q.K();
    auto gas = q.sol->thermo();
    size_t N = k.nTotalSpecies(), R = k.nReactions();
    const double d = 0.01;
    AnyMap set;
    set["rtol-delta"] = d;
    if (what == 1) set["skip-third-bodies"] = true;
    if (what == 2) set["skip-falloff"] = true;
    k.setDerivativeSettings(set);
    AnyMap got; k.getDerivativeSettings(got);
    tru("settings", got["skip-third-bodies"].asBool() == (what == 1) && got["skip-falloff"].asBool() == (what == 2) && got["rtol-delta"].asDouble() == d);
    double T = in("T", m.Tlo, m.Thi);
    bool tp = m.id == "pdep" || m.id == "linear_burke" || m.id == "linear_burke_complex";
    size_t nsym = m.id.substr(0, 6) == "linear" ? 0 : m.id == "scratch" ? 3 : 5;
    vector<double> x(N);
    for (size_t j = 0; j < N; j++) x[j] = int(j) == zeroSp ? 0 : j < nsym ? in("x" + S(j), 0.02, 1) : 0.125;
    gas->setMoleFractions(x.data());
    if (tp) gas->setState_TP(T, in("P", m.Plo, m.Phi)); else gas->setState_TD(T, in("D", 0.01, 10));
    double D = gas->density();
    for (size_t i = 0; i < R && i < 40; i += 3) k.setMultiplier(i, in("m" + S(i), 0.1, 10));
    if (R > 1) k.setMultiplier(1, 0.0);
    double P = gas->pressure(), C = gas->molarDensity();
    vector<double> c(N), X(N);
    gas->getConcentrations(c.data()); gas->getMoleFractions(X.data());
    auto V = [&] { return vector<double>(R); };
    auto kf = V(), f = V(), r = V(), kr = V();
    use_legacy_rate_constants(false);
    k.getFwdRateConstants(kf.data());
    k.getRevRateConstants(kr.data());
    if (legacy) use_legacy_rate_constants(true);
    k.getFwdRatesOfProgress(f.data()); k.getRevRatesOfProgress(r.data());
    auto kT = V(), kP = V(), kC = V(), fT = V(), fP = V(), fC = V(), rT = V(), rP = V(), rC = V(), nT = V(), nP = V(), nC = V();
    k.getFwdRateConstants_ddT(kT.data()); k.getFwdRateConstants_ddP(kP.data()); k.getFwdRateConstants_ddC(kC.data());
    k.getFwdRatesOfProgress_ddT(fT.data()); k.getFwdRatesOfProgress_ddP(fP.data()); k.getFwdRatesOfProgress_ddC(fC.data());
    k.getRevRatesOfProgress_ddT(rT.data()); k.getRevRatesOfProgress_ddP(rP.data()); k.getRevRatesOfProgress_ddC(rC.data());
    k.getNetRatesOfProgress_ddT(nT.data()); k.getNetRatesOfProgress_ddP(nP.data()); k.getNetRatesOfProgress_ddC(nC.data());
    Sp fX = k.fwdRatesOfProgress_ddX(), rX = k.revRatesOfProgress_ddX(), nX = k.netRatesOfProgress_ddX();
    Sp fI = k.fwdRatesOfProgress_ddCi(), rI = k.revRatesOfProgress_ddCi(), nI = k.netRatesOfProgress_ddCi();
    Sp cX = k.creationRates_ddX(), dX = k.destructionRates_ddX(), wX = k.netProductionRates_ddX();
    Sp wI = k.netProductionRates_ddCi();
    auto W = [&] { return vector<double>(N); };
    auto wT = W(), wP = W(), wC = W(), cT = W(), dC = W();
    k.getNetProductionRates_ddT(wT.data()); k.getNetProductionRates_ddP(wP.data()); k.getNetProductionRates_ddC(wC.data());
    k.getCreationRates_ddT(cT.data()); k.getDestructionRates_ddC(dC.data());
    use_legacy_rate_constants(false);
    // standard Gibbs change for the reverse rates
    vector<double> g0(N), g1(N);
    gas->getStandardChemPotentials(g0.data());
    // perturbed rate constants
    auto k1T = V(), k1P = V(), k1M = V(), k1V = V();
    gas->setState_TP(T * (1 + d), P); k.getFwdRateConstants(k1T.data());
    gas->getStandardChemPotentials(g1.data());
    gas->setState_TD(T * (1 + d), D); k.getFwdRateConstants(k1V.data());
    gas->setState_TP(T, P * (1 + d)); k.getFwdRateConstants(k1P.data());
    gas->setState_TD(T, D * (1 + d)); k.getFwdRateConstants(k1M.data());
    gas->setState_TD(T, D);
    vector<double> sT(N), sP(N), sC(N), scT(N), sdC(N);
    vector<vector<double>> sX(N, vector<double>(N)), scX(sX), sdX(sX), sI(sX);
    for (size_t i = 0; i < R; i++) {
        Reaction& rx = *k.reaction(i);
        string ty = rx.rate()->type();
        bool fall = ty == "falloff" || ty == "chemically-activated";
        bool pdep = ty == "pressure-dependent-Arrhenius" || ty == "Chebyshev" || ty == "linear-Burke";
        bool lb = ty == "linear-Burke" && m.id == "scratch";
        bool off = i == 1;  // multiplier zero
        Ord of = fwd(k, rx), orv = rev(k, rx);
        // third body
        bool tb = rx.usesThirdBody(), mass = tb && rx.thirdBody()->mass_action;
        double M = 0;
        vector<double> eff(N);
        if (tb) for (size_t j = 0; j < N; j++) { eff[j] = rx.thirdBody()->efficiency(k.kineticsSpeciesName(j)); M += eff[j] * c[j]; }
        double third = mass ? M : 1;
        bool revb = rx.reversible;
        double lf = law(of, c), lr = revb ? law(orv, c) : 0;
        // (the linear-Burke reaction of the large mechanism is left to the smaller ones)
        auto EQ = [lb](const string& l, double u, double v, double sc) { if (!lb) eq(l, u, v, sc); };
        // temperature
        double dlnkT = 0;  // d ln k / dT
        bool haveT = true;
        if (ty == "Arrhenius") { if (!off) deriv("dkf/dT (" + ty + ")", kf[i], T, kT[i], 0); }
        else if (ty == "Blowers-Masel" || ty == "two-temperature-plasma") haveT = false;
        else {
            double k1 = fall ? k1V[i] : k1T[i];
            if (!lb) EQ("dkf/dT (" + ty + ")", kT[i], off ? 0 : (k1 - kf[i]) / (T * d), 1e-30);
        }
        if (haveT) {
            EQ("dfwd/dT", fT[i], kT[i] * lf * third, 1e-30);
            double dg0 = 0, dg1 = 0, dn = 0;
            for (auto& [n, s] : rx.products) { dg0 += s * g0[k.kineticsSpeciesIndex(n)]; dg1 += s * g1[k.kineticsSpeciesIndex(n)]; dn += s; }
            for (auto& [n, s] : rx.reactants) { dg0 -= s * g0[k.kineticsSpeciesIndex(n)]; dg1 -= s * g1[k.kineticsSpeciesIndex(n)]; dn -= s; }
            double RT = GasConstant * T;
            // reverse constant kf/Kc: discrete difference of the standard Gibbs energy, rest exact
            double fac = revb ? (dg1 - dg0) / (d * T * RT) + dn / T - dg0 / (RT * T) : 0;
            // kT*lr*third*(kr/kf) written with kr to avoid a division by a zero rate constant
            double base = off || !revb ? 0 : kT[i] / kf[i] * kr[i] * lr * third;
            EQ("drev/dT", rT[i], base + kr[i] * lr * third * fac, 1e-30);
        }
        EQ("dnet/dT", nT[i], fT[i] - rT[i], 1e-30);
        // pressure
        double dP = pdep && !off ? (k1P[i] - kf[i]) / (P * d) : 0;
        if (!lb) EQ("dkf/dP", kP[i], dP, 1e-30); else dP = kP[i];
        EQ("dfwd/dP", fP[i], dP * lf * third, 1e-30);
        if (revb) EQ("drev/dP", rP[i], off ? 0 : dP * kr[i] / kf[i] * lr * third, 1e-30); else EQ("drev/dP", rP[i], 0, 1e-30);
        EQ("dnet/dP", nP[i], fP[i] - rP[i], 1e-30);
        // concentrations; kf depends on M through the falloff function
        EQ("dkf/dC", kC[i], fall && what == 0 && !off ? (k1M[i] - kf[i]) / ((1 + d) * d) / C : 0, 1e-30);
        double dM = fall && what == 0 && !off ? kC[i] * C / M : 0;
        double dMr = off || !revb ? 0 : dM * kr[i] / kf[i];
        double sumf = 0, sumr = 0;
        for (size_t j = 0; j < N; j++) {
            double tj = mass && what != 1 ? eff[j] : 0, ej = tb ? eff[j] : 0;
            double vf = kf[i] * (dlaw(of, c, j) * third + lf * tj) + lf * dM * ej;
            double vr = revb ? kr[i] * (dlaw(orv, c, j) * third + lr * tj) + lr * dMr * ej : 0;
            EQ("dfwd/dCi", fI.coeff(i, j), vf, 1e-30);
            EQ("drev/dCi", rI.coeff(i, j), vr, 1e-30);
            EQ("dnet/dCi", nI.coeff(i, j), vf - vr, 1e-30);
            EQ("dfwd/dX", fX.coeff(i, j), vf * C, 1e-30);
            EQ("drev/dX", rX.coeff(i, j), vr * C, 1e-30);
            EQ("dnet/dX", nX.coeff(i, j), (vf - vr) * C, 1e-30);
            sumf += vf * c[j] / C; sumr += vr * c[j] / C;
            double net = fX.coeff(i, j) - rX.coeff(i, j), netI = fI.coeff(i, j) - rI.coeff(i, j);
            for (auto& [n, s] : rx.reactants) { size_t a = k.kineticsSpeciesIndex(n); sX[a][j] -= s * net; sI[a][j] -= s * netI; sdX[a][j] += s * fX.coeff(i, j); scX[a][j] += s * rX.coeff(i, j); }
            for (auto& [n, s] : rx.products) { size_t a = k.kineticsSpeciesIndex(n); sX[a][j] += s * net; sI[a][j] += s * netI; scX[a][j] += s * fX.coeff(i, j); sdX[a][j] += s * rX.coeff(i, j); }
        }
        EQ("dfwd/dC", fC[i], sumf, 1e-30);
        EQ("drev/dC", rC[i], sumr, 1e-30);
        EQ("dnet/dC", nC[i], fC[i] - rC[i], 1e-30);
        for (auto& [n, s] : rx.reactants) { size_t a = k.kineticsSpeciesIndex(n); sT[a] -= s * nT[i]; sP[a] -= s * nP[i]; sC[a] -= s * nC[i]; scT[a] += s * rT[i]; sdC[a] += s * fC[i]; }
        for (auto& [n, s] : rx.products) { size_t a = k.kineticsSpeciesIndex(n); sT[a] += s * nT[i]; sP[a] += s * nP[i]; sC[a] += s * nC[i]; scT[a] += s * fT[i]; sdC[a] += s * rC[i]; }
    }
    // (the mechanism with a linear-Burke reaction inside a large set is judged per reaction only)
    for (size_t a = 0; a < N && m.id != "scratch"; a++) {
        eq("production ddT", wT[a], sT[a], 1e-30); eq("production ddP", wP[a], sP[a], 1e-30); eq("production ddC", wC[a], sC[a], 1e-30);
        eq("creation ddT", cT[a], scT[a], 1e-30); eq("destruction ddC", dC[a], sdC[a], 1e-30);
        for (size_t j = 0; j < N; j++) {
            eq("production ddX", wX.coeff(a, j), sX[a][j], 1e-30);
            eq("creation ddX", cX.coeff(a, j), scX[a][j], 1e-30);
            eq("destruction ddX", dX.coeff(a, j), sdX[a][j], 1e-30);
            eq("production ddCi", wI.coeff(a, j), sI[a][j], 1e-30);
        }
    }
    // evaluating the derivatives left state and rates alone
    eq("temperature kept", gas->temperature(), T);
    eq("density kept", gas->density(), D);
    auto f2 = V();
    k.getFwdRatesOfProgress(f2.data());
    for (size_t i = 0; i < R; i++) eq("rates kept", f2[i], f[i], 1e-30);
    reach("gas");
}
// default settings: the one-sided difference is the derivative to first order; here only its exact parts
static void surfCase(const Mech& m, int zero) { // zero: -1 or the absent species
    KSys q = build(m);
    Kinetics& k = q.K();
    KState s = symState(q, m, "", 5);
    if (zero >= (int) k.nTotalSpecies()) { reach("no such species"); return; }
    if (zero >= 0) {
        size_t n = q.K().speciesPhaseIndex(zero);
        if (q.K().thermo(n).nSpecies() > 1) s.x[n][zero - q.K().kineticsSpeciesIndex(0, n)] = 0;
    }
    applyState(q, m, s);
    AnyMap set; set["skip-coverage-dependence"] = true; set["skip-electrochemistry"] = true;
    k.setDerivativeSettings(set);
    size_t N = k.nTotalSpecies(), R = k.nReactions();
    for (size_t i = 0; i < R; i += 3) k.setMultiplier(i, in("m" + S(i), 0.1, 10));
    vector<double> a(N), kf(R), kr(R);
    for (size_t n = 0; n < k.nPhases(); n++) k.thermo(n).getActivityConcentrations(a.data() + k.kineticsSpeciesIndex(0, n));
    k.getFwdRateConstants(kf.data()); k.getRevRateConstants(kr.data());
    Sp fI = k.fwdRatesOfProgress_ddCi(), rI = k.revRatesOfProgress_ddCi(), nI = k.netRatesOfProgress_ddCi();
    Sp wI = k.netProductionRates_ddCi(), cI = k.creationRates_ddCi(), dI = k.destructionRates_ddCi();
    vector<vector<double>> sI(N, vector<double>(N)), sc(sI), sd(sI);
    for (size_t i = 0; i < R; i++) {
        Reaction& rx = *k.reaction(i);
        Ord of = fwd(k, rx), orv = rev(k, rx);
        for (size_t j = 0; j < N; j++) {
            double vf = kf[i] * dlaw(of, a, j), vr = rx.reversible ? kr[i] * dlaw(orv, a, j) : 0;
            eq("dfwd/dCi", fI.coeff(i, j), vf, 1e-30);
            eq("drev/dCi", rI.coeff(i, j), vr, 1e-30);
            eq("dnet/dCi", nI.coeff(i, j), vf - vr, 1e-30);
            for (auto& [n, st] : rx.reactants) { size_t b = k.kineticsSpeciesIndex(n); sI[b][j] -= st * nI.coeff(i, j); sd[b][j] += st * fI.coeff(i, j); sc[b][j] += st * rI.coeff(i, j); }
            for (auto& [n, st] : rx.products) { size_t b = k.kineticsSpeciesIndex(n); sI[b][j] += st * nI.coeff(i, j); sc[b][j] += st * fI.coeff(i, j); sd[b][j] += st * rI.coeff(i, j); }
        }
    }
    for (size_t b = 0; b < N; b++) for (size_t j = 0; j < N; j++) {
        eq("production ddCi", wI.coeff(b, j), sI[b][j], 1e-30);
        eq("creation ddCi", cI.coeff(b, j), sc[b][j], 1e-30);
        eq("destruction ddCi", dI.coeff(b, j), sd[b][j], 1e-30);
    }
    for (int a1 = 0; a1 < 2; a1++) for (int b1 = 0; b1 < 2; b1++) {
        AnyMap x, y;
        x["skip-coverage-dependence"] = bool(a1); x["skip-electrochemistry"] = bool(b1); x["rtol-delta"] = 1e-5;
        k.setDerivativeSettings(x); k.getDerivativeSettings(y);
        tru("settings are reported as set", y["skip-coverage-dependence"].asBool() == bool(a1) && y["skip-electrochemistry"].asBool() == bool(b1) && y["rtol-delta"].asDouble() == 1e-5);
    }
    reach("surf");
}
CASES {
    for (auto& m : mechs()) {
        const Mech* p = &m;
        if (m.id == "condensed") continue;   // no independent density
        if (m.iface) {
            addcase("surf_" + m.id, [p] { surfCase(*p, -1); });
            if (m.id == "pt_surf" || m.id == "scratch_surf") for (int z : {0, 1, 2, 4, 6, 12, 13, 15}) if (z < 15 || m.id == "pt_surf") addcase("surf_zero" + S(z) + "_" + m.id, [p, z] { surfCase(*p, z); });
        } else if (m.id != "two_temp" && m.id != "plasma" && m.id != "deep_gri30") {
            addcase("gas_" + m.id, [p] { gasCase(*p, 0, -1, false); });
            if (m.id == "h2o2" || m.id == "orders" || m.id == "jacobian_mech") {
                addcase("skip3b_" + m.id, [p] { gasCase(*p, 1, -1, false); });
                addcase("skipfall_" + m.id, [p] { gasCase(*p, 2, -1, false); });
                addcase("zero_" + m.id, [p] { gasCase(*p, 0, 1, false); });
                // (not: absent species with a reaction order between zero and one, whose derivative is infinite)
                for (int z = 0; z < 9; z++) if (z != 1 && (m.id == "h2o2" || z == 2 || (z > 2 && m.id == "jacobian_mech"))) addcase((m.id == "h2o2" && z != 3 ? "deep_zero" : "zero") + S(z) + "_" + m.id, [p, z] { gasCase(*p, 0, z, false); });
                addcase("legacy_" + m.id, [p] { gasCase(*p, 0, -1, true); });
            }
        }
    }
}
