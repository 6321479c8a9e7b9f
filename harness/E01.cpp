// Multiphase mixtures: every reported quantity is the sum over the phases, at every state
#include "models.h"
#include "cantera/equil/MultiPhase.h"
#include "cantera/equil/MultiPhaseEquil.h"
struct Part { string file, name; };
struct Mix { string id; vector<Part> parts; double Tlo, Thi, Plo, Phi; bool dilute; };
static const vector<Mix>& mixes() {
    static vector<Mix> m = {
        {"gas_graphite", {{"h2o2.yaml", ""}, {"graphite.yaml", ""}}, 320, 3000, 1e4, 1e7, false},
        {"graphite_gas", {{"graphite.yaml", ""}, {"h2o2.yaml", ""}}, 320, 3000, 1e4, 1e7, false},
        {"two_condensed", {{"thermo-models.yaml", "IdealSolidSolnPhase2"}, {"thermo-models.yaml", "KCl(s)"}, {"LiKCl_liquid.yaml", ""}}, 720, 900, 1e4, 1e7, false},
        {"electrolyte", {{"debye-huckel-all.yaml", "debye-huckel-B-dot-a"}, {"thermo-models.yaml", "Metal"}, {"thermo-models.yaml", "KCl(s)"}}, 300, 360, 1e4, 1e7, true},
        {"solids", {{"thermo-models.yaml", "KCl(s)"}, {"graphite.yaml", ""}, {"thermo-models.yaml", "Metal"}}, 320, 900, 1e4, 1e7, false},
    };
    return m;
}
struct Amounts { double T, P; vector<double> n; };
struct Built {
    const Mix& m;
    vector<shared_ptr<ThermoPhase>> ph;   // in the mixture
    vector<shared_ptr<ThermoPhase>> ref;  // the same phases on their own
    MultiPhase mp;
    vector<size_t> start;
    size_t K = 0;
    Built(const Mix& m_, bool reverse = false) : m(m_) {
        dataDirs();
        for (size_t i = 0; i < m.parts.size(); i++) {
            auto& q = m.parts[reverse ? m.parts.size() - 1 - i : i];
            ph.push_back(newThermo(q.file, q.name)); ref.push_back(newThermo(q.file, q.name));
            start.push_back(K); K += ph[i]->nSpecies();
            mp.addPhase(ph[i], 0.0);
        }
        mp.init();
    }
    size_t N() { return ph.size(); }
    Amounts draw(const string& tag) {
        Amounts a;
        a.T = in(tag + "T", m.Tlo, m.Thi); a.P = in(tag + "P", m.Plo, m.Phi);
        for (size_t i = 0; i < N(); i++) {
            size_t nk = ph[i]->nSpecies();
            for (size_t k = 0; k < nk; k++) {
                string nm = tag + "n" + S(i) + "_" + S(k);
                bool solute = m.dilute && nk > 1 && k > 0;
                a.n.push_back(solute ? in(nm, 1e-3, 0.03) : in(nm, 0.05, 2));
            }
        }
        return a;
    }
    // the phases on their own, at the state of the mixture; where they are to be compared term by term, they take the
    // mole fractions which the mixture reports (and which amounts() compares with those wanted)
    vector<double> setRef(const Amounts& a, bool reported = false) {
        vector<double> N_(N()), X(K);
        mp.getMoleFractions(X.data());
        for (size_t i = 0; i < N(); i++) {
            size_t nk = ref[i]->nSpecies(); double t = 0;
            for (size_t k = 0; k < nk; k++) t += a.n[start[i] + k];
            N_[i] = t;
            if (reported) { ref[i]->setState_TPX(a.T, a.P, &X[start[i]]); continue; }
            if (nk > 1 && t > 0) ref[i]->setMoleFractions(&a.n[start[i]]);
            ref[i]->setState_TP(a.T, a.P);
        }
        return N_;
    }
};
// everything the mixture reports about amounts
static void amounts(const string& L, Built& b, const vector<double>& n) {
    MultiPhase& mp = b.mp;
    vector<double> got(b.K), X(b.K);
    mp.getMoles(got.data()); mp.getMoleFractions(X.data());
    double Q = 0;
    for (size_t i = 0; i < b.N(); i++) {
        double t = 0, q = 0;
        size_t nk = b.ph[i]->nSpecies();
        for (size_t k = 0; k < nk; k++) { t += n[b.start[i] + k]; q += n[b.start[i] + k] * b.ref[i]->charge(k); }
        eq(L + "phase moles", mp.phaseMoles(i), t, 1e-6);
        eq(L + "phase charge", mp.phaseCharge(i) / Faraday, q, 1e-6);
        Q += q;
        for (size_t k = 0; k < nk; k++) {
            size_t g = b.start[i] + k;
            eq(L + "moles", got[g], n[g], 1e-6);
            eq(L + "species moles", mp.speciesMoles(g), n[g], 1e-6);
            eq(L + "X", X[g] * t, n[g], 1e-6);
            eq(L + "mole fraction", mp.moleFraction(g), X[g], 1e-6);
            tru(L + "index", mp.speciesIndex(k, i) == g && mp.speciesPhaseIndex(g) == i && mp.speciesName(g) == b.ref[i]->speciesName(k));
        }
    }
    eq(L + "charge", mp.charge() / Faraday, Q, 1e-6);
    vector<double> e(mp.nElements());
    mp.getElemAbundances(e.data());
    std::map<string, double> sum;
    for (size_t i = 0; i < b.N(); i++) for (size_t m = 0; m < b.ref[i]->nElements(); m++) for (size_t k = 0; k < b.ref[i]->nSpecies(); k++) {
        double c = b.ref[i]->nAtoms(k, m);
        sum[b.ref[i]->elementName(m)] += c * n[b.start[i] + k];
    }
    tru(L + "elements", sum.size() == mp.nElements());
    for (auto& [nm, v] : sum) {
        size_t m = mp.elementIndex(nm);
        tru(L + "element", m != npos && mp.elementName(m) == nm);
        eq(L + "element moles", mp.elementMoles(m), v, 1e-6);
        eq(L + "element abundance", e[m], v, 1e-6);
    }
}
// everything the mixture reports about its state
static void energies(const string& L, Built& b, const Amounts& a) {
    MultiPhase& mp = b.mp;
    vector<double> N_ = b.setRef(a, true);
    eq(L + "T", mp.temperature(), a.T); eq(L + "P", mp.pressure(), a.P);
    double V = 0, H = 0, U = 0, Sx = 0, G = 0, C = 0;
    double vol = mp.volume();   // asked first: nothing else may be needed to bring the phases up to date
    for (size_t i = 0; i < b.N(); i++) {
        ThermoPhase& r = *b.ref[i];
        V += N_[i] * r.molarVolume(); H += N_[i] * r.enthalpy_mole(); U += N_[i] * r.intEnergy_mole();
        Sx += N_[i] * r.entropy_mole(); G += N_[i] * r.gibbs_mole(); C += N_[i] * r.cp_mole();
    }
    eq(L + "volume", vol, V, 1e-9);
    eq(L + "enthalpy", mp.enthalpy(), H, 1e3); eq(L + "internal energy", mp.IntEnergy(), U, 1e3);
    eq(L + "entropy", mp.entropy(), Sx, 1); eq(L + "gibbs", mp.gibbs(), G, 1e3); eq(L + "cp", mp.cp(), C, 1);
    vector<double> mu(b.K), muv(b.K), mu0(b.K), r(b.K);
    mp.getChemPotentials(mu.data()); mp.getValidChemPotentials(-1e300, muv.data()); mp.getValidChemPotentials(-1e300, mu0.data(), true);
    for (size_t i = 0; i < b.N(); i++) {
        size_t nk = b.ref[i]->nSpecies();
        bool valid = nk > 1 || (a.T >= b.ref[i]->minTemp() && a.T <= b.ref[i]->maxTemp());
        tru(L + "temperature valid", mp.tempOK(i) == (a.T >= b.ref[i]->minTemp() && a.T <= b.ref[i]->maxTemp()));
        b.ref[i]->getChemPotentials(&r[b.start[i]]);
        for (size_t k = b.start[i]; k < b.start[i] + nk; k++) {
            eq(L + "mu", mu[k], r[k], 1e3);
            if (valid) eq(L + "valid mu", muv[k], r[k], 1e3); else tru(L + "marked invalid", muv[k] == -1e300);
        }
        b.ref[i]->getStandardChemPotentials(&r[b.start[i]]);
        for (size_t k = b.start[i]; k < b.start[i] + nk; k++) if (valid) eq(L + "mu0", mu0[k], r[k], 1e3);
    }
}
// the phases handed out are in the state of the mixture
static void phases(const string& L, Built& b, const Amounts& a, bool ask = false) {
    b.setRef(a);
    for (size_t i = 0; i < b.N(); i++) {
        ThermoPhase& p = ask ? b.mp.phase(i) : *b.ph[i];
        eq(L + "phase T", p.temperature(), a.T); eq(L + "phase P", p.pressure(), a.P);
        vector<double> x(p.nSpecies()), y(p.nSpecies());
        p.getMoleFractions(x.data()); b.ref[i]->getMoleFractions(y.data());
        for (size_t k = 0; k < x.size(); k++) eq(L + "phase X", x[k], y[k], 1e-6);
        eq(L + "phase density", p.molarDensity(), b.ref[i]->molarDensity(), 1e-6);
    }
}
struct Eq : public MultiPhaseEquil {
    Eq(MultiPhase* m, bool start) : MultiPhaseEquil(m, start) {}
    using MultiPhaseEquil::stepComposition;
    using MultiPhaseEquil::computeN;
    // every formation reaction conserves every element of the mixture
    void reactions(const string& L, Built& b) {
        for (size_t j = 0; j < nFree(); j++) {
            vector<double> nu;
            getStoichVector(j, nu);
            double any = 0;
            for (double v : nu) any += std::abs(v);
            tru(L + "reaction", any > 0.5);
            for (size_t m = 0; m < b.mp.nElements(); m++) {
                double t = 0;
                for (size_t k = 0; k < m_nsp; k++) t += nu[k] * b.mp.nAtoms(m_species[k], m);
                eq(L + "reaction conserves", t, 0, 1e-3);
            }
        }
    }
};
static void conserved(const string& L, Built& b, const vector<double>& n) {
    vector<double> e(b.mp.nElements());
    b.mp.getElemAbundances(e.data());
    for (size_t m = 0; m < e.size(); m++) {
        double t = 0;
        for (size_t k = 0; k < b.K; k++) t += b.mp.nAtoms(k, m) * n[k];
        eq(L + "element", e[m], t, 1e-6);
    }
}
CASES {
    for (auto& m : mixes()) {
        addcase("sums:" + m.id, [&m] {
            Built b(m); Amounts a = b.draw("");
            b.mp.setState_TPMoles(a.T, a.P, a.n.data());
            amounts("", b, a.n);
            energies("", b, a);
            reach("end");
        });
        addcase("order:" + m.id, [&m] {   // the order of the phases is immaterial
            Built b(m), c(m, true); Amounts a = b.draw("");
            vector<double> n(b.K);
            for (size_t i = 0; i < b.N(); i++) for (size_t k = 0; k < b.ph[i]->nSpecies(); k++) n[c.start[b.N() - 1 - i] + k] = a.n[b.start[i] + k];
            b.mp.setState_TPMoles(a.T, a.P, a.n.data()); c.mp.setState_TPMoles(a.T, a.P, n.data());
            amounts("reversed ", c, n);
            eq("enthalpy", b.mp.enthalpy(), c.mp.enthalpy(), 1e3); eq("gibbs", b.mp.gibbs(), c.mp.gibbs(), 1e3);
            eq("entropy", b.mp.entropy(), c.mp.entropy(), 1); eq("volume", b.mp.volume(), c.mp.volume(), 1e-9);
            eq("cp", b.mp.cp(), c.mp.cp(), 1); eq("internal energy", b.mp.IntEnergy(), c.mp.IntEnergy(), 1e3);
            eq("Tmin", b.mp.minTemp(), c.mp.minTemp()); eq("Tmax", b.mp.maxTemp(), c.mp.maxTemp());
        });
        addcase("routes:" + m.id, [&m] {  // every way to set the mixture gives the same mixture
            Built b(m); Amounts a = b.draw("");
            MultiPhase& mp = b.mp;
            mp.setState_TPMoles(a.T, a.P, a.n.data()); phases("TPMoles ", b, a);
            mp.setState_TP(0.5 * (m.Tlo + m.Thi), 2 * m.Plo);
            amounts("after T, P ", b, a.n);
            mp.setTemperature(a.T); mp.setPressure(a.P); phases("T then P ", b, a); phases("handed out ", b, a, true); amounts("T then P ", b, a.n);
            vector<double> other(b.K);
            for (size_t k = 0; k < b.K; k++) other[k] = 0.1 + 0.01 * k;
            mp.setMoles(other.data()); amounts("overwritten ", b, other);
            for (size_t k = 0; k < b.K; k++) mp.addSpeciesMoles(k, a.n[k] - other[k]);
            amounts("added ", b, a.n); phases("added ", b, a);
            mp.setMoles(other.data());
            for (size_t i = 0; i < b.N(); i++) {
                size_t nk = b.ph[i]->nSpecies();
                double t = 0;
                for (size_t k = 0; k < nk; k++) t += a.n[b.start[i] + k];
                mp.setPhaseMoles(i, t);
                vector<double> x(nk);
                for (size_t k = 0; k < nk; k++) x[k] = a.n[b.start[i] + k] / t;
                mp.setPhaseMoleFractions(i, x.data());
            }
            amounts("phase by phase ", b, a.n); phases("phase by phase ", b, a);
            // relative amounts instead of mole fractions
            for (size_t i = 0; i < b.N(); i++) mp.setPhaseMoleFractions(i, &a.n[b.start[i]]);
            amounts("relative ", b, a.n); phases("relative ", b, a);
            // by name
            bool unique = true;
            Composition c;
            for (size_t k = 0; k < b.K; k++) { unique = unique && !c.count(mp.speciesName(k)); c[mp.speciesName(k)] = a.n[k]; }
            if (unique) { mp.setMoles(other.data()); mp.setMolesByName(c); amounts("by name ", b, a.n); phases("by name ", b, a); }
            // a mixture scaled as a whole
            double f = in("f", 0.2, 5);
            double H = mp.enthalpy(), V = mp.volume();
            vector<double> n2(b.K);
            for (size_t k = 0; k < b.K; k++) n2[k] = f * a.n[k];
            mp.setMoles(n2.data());
            eq("extensive enthalpy", mp.enthalpy(), f * H, 1e3); eq("extensive volume", mp.volume(), f * V, 1e-9);
        });
        addcase("history:" + m.id, [&m] { // nothing is left over from earlier states
            Built b(m); Amounts a = b.draw("a"), d = b.draw("d");
            b.mp.setState_TPMoles(d.T, d.P, d.n.data());
            amounts("first ", b, d.n); energies("first ", b, d);
            b.mp.setState_TPMoles(a.T, a.P, a.n.data());
            amounts("second ", b, a.n); energies("second ", b, a);
            b.mp.setState_TP(d.T, d.P);
            Amounts e = a; e.T = d.T; e.P = d.P;
            amounts("third ", b, a.n); energies("third ", b, e);
            // phases changed from outside: what the mixture stores wins
            for (auto& p : b.ph) p->setState_TP(a.T, a.P);
            energies("fourth ", b, e);
        });
        addcase("absent:" + m.id, [&m] {  // phases that are not there
            for (size_t j = 0; j < m.parts.size(); j++) {
                Built b(m); Amounts a = b.draw("");
                b.mp.setState_TPMoles(a.T, a.P, a.n.data());
                vector<double> n0 = a.n;
                Amounts z = a;
                for (size_t k = 0; k < b.ph[j]->nSpecies(); k++) z.n[b.start[j] + k] = 0;
                b.setRef(a);
                z.P = in("P2", m.Plo, m.Phi); z.T = in("T2", m.Tlo, m.Thi);
                b.mp.setState_TPMoles(z.T, z.P, z.n.data());
                for (size_t k = 0; k < b.ph[j]->nSpecies(); k++) {
                    eq("no moles", b.mp.speciesMoles(b.start[j] + k), 0);
                    // the composition the phase had is kept
                    eq("kept X", b.mp.moleFraction(b.start[j] + k), b.ref[j]->moleFraction(k), 1e-6);
                }
                amounts("absent " + S(j) + " ", b, z.n);
                phases("absent " + S(j) + " ", b, z);
                energies("absent " + S(j) + " ", b, z);
                // amounts that would become negative are taken as zero
                b.mp.setState_TPMoles(a.T, a.P, a.n.data());
                b.mp.addSpeciesMoles(b.start[j], -10.0);
                eq("clipped", b.mp.speciesMoles(b.start[j]), 0);
                for (size_t k = 0; k < b.K; k++) if (k != b.start[j]) eq("others", b.mp.speciesMoles(k), a.n[k], 1e-6);
            }
        });
        addcase("basis:" + m.id, [&m] {   // the components and the formation reactions of the rest
            Built b(m); Amounts a = b.draw("");
            b.mp.setMoles(a.n.data());
            int zeroed = 1;
            vector<size_t> ks, es; vector<double> R;
            size_t nc = BasisOptimize(&zeroed, false, &b.mp, ks, es, R), ne = b.mp.nElements();
            ElemRearrange(nc, {}, &b.mp, ks, es);
            size_t n2 = BasisOptimize(&zeroed, true, &b.mp, ks, es, R);
            tru("components", nc == n2 && !zeroed);
            for (size_t i = 0; i + nc < b.K; i++) {
                size_t k = ks[nc + i];
                for (size_t m = 0; m < ne; m++) {
                    double t = b.mp.nAtoms(k, m);
                    for (size_t j = 0; j < nc; j++) t += R[j + i * ne] * b.mp.nAtoms(ks[j], m);
                    eq("formation conserves", t, 0, 1e-3);
                }
                // no component could be replaced by a more abundant species
                for (size_t j = 0; j < nc; j++) if (std::abs(R[j + i * ne]) > 1e-6) ge("abundant components", b.mp.speciesMoles(ks[j]), b.mp.speciesMoles(k), 1e-6);
            }
        });
        if (m.id != "electrolyte" && m.id != "solids") addcase("step:" + m.id, [&m] {
            Built b(m); Amounts a = b.draw("");
            b.mp.setState_TPMoles(a.T, a.P, a.n.data());
            Eq e(&b.mp, false);
            e.reactions("", b);
            conserved("start ", b, a.n);
            double w = e.stepComposition();
            ge("step length", w, 0); ge("step length", 1, w);
            e.reactions("", b);
            conserved("step ", b, a.n);
            eq("T", b.mp.temperature(), a.T); eq("P", b.mp.pressure(), a.P);
            vector<double> n(b.K);
            b.mp.getMoles(n.data());
            if (m.id == "two_condensed") for (size_t k = 0; k < b.K; k++) if (b.mp.solutionSpecies(k)) ge("no negative amounts", n[k], 0, 1e-6);
        });
        if (m.id != "electrolyte" && m.id != "solids") addcase("estimate:" + m.id, [&m] {
            Built b(m); Amounts a = b.draw("");
            b.mp.setState_TPMoles(a.T, a.P, a.n.data());
            Eq e(&b.mp, true);
            e.reactions("", b);
            conserved("", b, a.n);
            e.setInitialMixMoles();
            conserved("again ", b, a.n);
        });
    }
}
