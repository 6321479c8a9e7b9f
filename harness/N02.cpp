// Numerical building blocks: band, dense and sparse matrices, two-dimensional arrays, polynomial fits,
// interpolation and quadrature
#include "common.h"
#include "cantera/numerics/BandMatrix.h"
#include "cantera/numerics/DenseMatrix.h"
#include "cantera/numerics/AdaptivePreconditioner.h"
#include "cantera/numerics/EigenSparseDirectJacobian.h"
#include "cantera/numerics/SystemJacobianFactory.h"
#include "cantera/numerics/polyfit.h"
#include "cantera/numerics/funcs.h"
#include "cantera/base/utilities.h"
typedef vector<double> Vec;
typedef vector<Vec> Mat;
static string at(const string& s, size_t i, size_t j) { return s + "_" + S(i) + "_" + S(j); }
// symbolic entries; `dom` puts the dominant entry on the diagonal, otherwise below it (forces row exchanges)
static Mat entries(const string& t, size_t n, size_t kl, size_t ku, bool dom) {
    Mat a(n, Vec(n, 0.0));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        if (i > j + kl || j > i + ku) continue;
        bool big = dom ? i == j : (i + 1 == j && i % 2 == 0) || (i == j + 1 && j % 2 == 0) || (i == j && i == n - 1 && n % 2);
        a[i][j] = big ? in(at(t, i, j), 3, 5) : in(at(t, i, j), -0.5, 0.6);
    }
    return a;
}
static Vec rhs(const string& t, size_t n) { Vec b(n); for (size_t i = 0; i < n; i++) b[i] = in(t + S(i), -2, 3); return b; }
static Vec times(const Mat& a, const Vec& x, bool left = false) {
    Vec r(left ? a[0].size() : a.size(), 0.0);
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) { if (left) r[j] += a[i][j] * x[i]; else r[i] += a[i][j] * x[j]; }
    return r;
}
static void same(const string& l, const Vec& a, const Vec& b, double scale = 1) {
    tru(l + " size", a.size() == b.size());
    for (size_t i = 0; i < a.size() && i < b.size(); i++) eq(l + " " + S(i), a[i], b[i], scale);
}
static void fill(BandMatrix& A, const Mat& a, size_t kl, size_t ku) {
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) if (i <= j + kl && j <= i + ku) A(i, j) = a[i][j];
}
static void checkBand(const string& l, BandMatrix& A, const Mat& a, bool doSolve) {
    size_t n = a.size();
    tru(l + "rows", A.nRows() == n); tru(l + "columns", A.nColumns() == n);
    const BandMatrix& C = A;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) eq(at(l + "entry", i, j), C(i, j), a[i][j], 1);
    Vec x = rhs("x", n), p(n);
    A.mult(x.data(), p.data()); same(l + "mult", p, times(a, x));
    A.leftMult(x.data(), p.data()); same(l + "leftMult", p, times(a, x, true));
    if (!doSolve) return;
    Vec b = rhs("b", n), sol = b;
    A.solve(sol.data());
    tru(l + "factored", A.factored());
    same(l + "solve", times(a, sol), b);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) eq(at(l + "entry kept", i, j), C(i, j), a[i][j], 1);
    Vec b2 = rhs("c", n), y(n);
    A.solve(b2.data(), y.data());
    same(l + "second solve", times(a, y), b2);
    same(l + "right-hand side kept", b2, rhs("c", n));
}
static void band(size_t n, size_t kl, size_t ku, bool dom, const string& how) {
    Mat a = entries("a", n, kl, ku, dom);
    if (how == "new") {
        BandMatrix A(n, kl, ku);
        fill(A, a, kl, ku);
        checkBand("", A, a, true);
    } else if (how == "multi") {
        BandMatrix A(n, kl, ku);
        fill(A, a, kl, ku);
        size_t ldb = n + 2;
        Vec b(ldb * 2, 7.25);
        Vec b1 = rhs("b", n), b2 = rhs("c", n);
        for (size_t i = 0; i < n; i++) { b[i] = b1[i]; b[ldb + i] = b2[i]; }
        A.solve(b.data(), 2, ldb);
        same("first", times(a, Vec(b.begin(), b.begin() + n)), b1);
        same("second", times(a, Vec(b.begin() + ldb, b.begin() + ldb + n)), b2);
        for (size_t i = n; i < ldb; i++) tru("padding", b[i] == 7.25 && b[ldb + i] == 7.25);
    } else if (how == "modify") {   // factors are refreshed after a change of an entry
        BandMatrix A(n, kl, ku);
        fill(A, a, kl, ku);
        Vec b = rhs("b", n), y = b;
        A.solve(y.data());
        double d = in("delta", 0.5, 1);
        A(n - 1, n - 1) += d; a[n - 1][n - 1] += d;
        tru("not factored", !A.factored());
        Vec z = b;
        A.solve(z.data());
        same("after change", times(a, z), b);
        A.value(0, 0) = a[0][0] = in("first", 6, 7);
        z = b; A.solve(z.data());
        same("after second change", times(a, z), b);
        A.bfill(0.0); fill(A, a, kl, ku);
        z = b; A.solve(z.data());
        same("after refill", times(a, z), b);
    } else if (how == "copy") {
        BandMatrix A(n, kl, ku);
        fill(A, a, kl, ku);
        BandMatrix B(A);                       // copy before factoring
        Vec b = rhs("b", n), y = b;
        A.solve(y.data());
        BandMatrix C(A);                       // copy of the factored matrix
        BandMatrix D(2, 1, 1, 1.0); D = A;     // assignment changes size
        for (auto* m : {&B, &C, &D}) { Vec z = b; m->solve(z.data()); same("copy", times(a, z), b); }
        C(0, 0) = 9.0;                         // copies are independent of the original
        const BandMatrix& cA = A;
        eq("original", cA(0, 0), a[0][0], 1);
        Mat c = a; c[0][0] = 9.0;
        Vec z = b; C.solve(z.data()); same("changed copy", times(c, z), b);
        z = b; A.solve(z.data()); same("original solve", times(a, z), b);
        for (size_t j = 0; j < n; j++) tru("columns belong to the copy", D.ptrColumn(j) == D.colPts()[j] && D.ptrColumn(j) != A.ptrColumn(j));
        checkBand("assigned ", D, a, false);
    } else if (how == "resize") {
        BandMatrix A(2, 1, 1, 4.0);
        Vec t{1, 2}; A(0, 0) = 9; A.solve(t.data());
        A.resize(n, kl, ku, 0.5);
        tru("not factored after resize", !A.factored());
        tru("band", A.nSubDiagonals() == kl && A.nSuperDiagonals() == ku && A.ldim() == 2 * kl + ku + 1);
        const BandMatrix& C = A;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) tru("fill", C(i, j) == (i <= j + kl && j <= i + ku ? 0.5 : 0.0));
        fill(A, a, kl, ku);
        checkBand("", A, a, true);
        A.zero();
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) tru("zero", C(i, j) == 0.0);
    } else {   // norms and the smallest row and column
        BandMatrix A(n, kl, ku);
        fill(A, a, kl, ku);
        double m = 0, rs = 1e300, cs = 1e300; size_t ir = npos, ic = npos;
        auto ab = [](double v) { return v < 0 ? -v : v; };
        for (size_t j = 0; j < n; j++) { double s = 0; for (size_t i = 0; i < n; i++) s += ab(a[i][j]); if (s > m) m = s; }
        for (size_t i = 0; i < n; i++) {
            double r = 0, c = 0;
            for (size_t j = 0; j < n; j++) { if (ab(a[i][j]) > r) r = ab(a[i][j]); if (ab(a[j][i]) > c) c = ab(a[j][i]); }
            if (r < rs) { rs = r; ir = i; }
            if (c < cs) { cs = c; ic = i; }
        }
        eq("one norm", A.oneNorm(), m, 1);
        double v; tru("row", A.checkRows(v) == ir); eq("row value", v, rs, 1);
        tru("column", A.checkColumns(v) == ic); eq("column value", v, cs, 1);
    }
    reach("band");
}
static DenseMatrix dense(const Mat& a) {
    DenseMatrix A(a.size(), a[0].size());
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) A(i, j) = a[i][j];
    return A;
}
static Mat full(const string& t, size_t n, size_t m) {
    Mat a(n, Vec(m));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) a[i][j] = in(at(t, i, j), -2, 3);
    return a;
}
static void denseOps(size_t n, size_t m) {
    Mat a = full("a", n, m);
    DenseMatrix A = dense(a);
    Vec x = rhs("x", m), y = rhs("y", n), p(n), q(m);
    A.mult(x.data(), p.data()); same("mult", p, times(a, x));
    multiply(A, x.data(), p.data()); same("multiply", p, times(a, x));
    A.leftMult(y.data(), q.data()); same("leftMult", q, times(a, y, true));
    p = rhs("z", n); increment(A, x.data(), p.data());
    Vec r = times(a, x); for (size_t i = 0; i < n; i++) r[i] += in("z" + S(i), -2, 3);
    same("increment", p, r);
    Mat b = full("b", m, n);
    DenseMatrix B = dense(b), P(n, n);
    A.mult(B, P);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t k = 0; k < m; k++) s += a[i][k] * b[k][j]; eq(at("product", i, j), P(i, j), s, 1); }
    bool threw = false;
    try { DenseMatrix W(m + 1, n); A.mult(W, P); } catch (CanteraError&) { threw = true; }
    tru("dimensions checked", threw);
    threw = false;
    try { DenseMatrix W(n, n + 1); A.mult(B, W); } catch (CanteraError&) { threw = true; }
    tru("output dimensions checked", threw);
    DenseMatrix C(A), D; D = A;
    C(0, 0) = 11.0;
    eq("copy is independent", A(0, 0), a[0][0], 1);
    D.mult(x.data(), p.data()); same("assigned mult", p, times(a, x));
    DenseMatrix PD(n, n); D.mult(B, PD);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) eq("assigned product", PD(i, j), P(i, j), 1);
    DenseMatrix E(1, 1), F(B); E.resize(m, n, 0.25);
    tru("resized", E.nRows() == m && E.nColumns() == n);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) E(i, j) = b[i][j];
    A.mult(E, PD);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) eq("resized product", PD(i, j), P(i, j), 1);
    for (size_t j = 0; j < n; j++) tru("column pointers", E.colPts()[j] == E.ptrColumn(j) && F.colPts()[j] == F.ptrColumn(j) && F.colPts()[j] != B.ptrColumn(j));
    reach("dense");
}
static void denseSolve(size_t n, bool dom, size_t nrhs) {
    Mat a = entries("a", n, n, n, dom);
    Vec b = rhs("b", n), c = rhs("c", n);
    DenseMatrix A = dense(a);
    if (nrhs == 1) {
        Vec x = b; solve(A, x.data()); same("solve", times(a, x), b);
    } else if (nrhs == 2) {
        size_t ldb = n + 1; Vec x(2 * ldb, 4.5);
        for (size_t i = 0; i < n; i++) { x[i] = b[i]; x[ldb + i] = c[i]; }
        solve(A, x.data(), 2, ldb);
        same("first", times(a, Vec(x.begin(), x.begin() + n)), b);
        same("second", times(a, Vec(x.begin() + ldb, x.begin() + ldb + n)), c);
        tru("padding", x[n] == 4.5 && x[ldb + n] == 4.5);
        A = dense(a);
        DenseMatrix X(n, 2);
        for (size_t i = 0; i < n; i++) { X(i, 0) = b[i]; X(i, 1) = c[i]; }
        solve(A, X);
        same("matrix first", times(a, Vec(X.ptrColumn(0), X.ptrColumn(0) + n)), b);
        same("matrix second", times(a, Vec(X.ptrColumn(1), X.ptrColumn(1) + n)), c);
    } else {   // inverse of the matrix and of its leading block
        invert(A);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t k = 0; k < n; k++) s += a[i][k] * A(k, j); eq(at("inverse", i, j), s, i == j, 1); }
        DenseMatrix B = dense(a);
        size_t m = n - 1;
        invert(B, m);
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { double s = 0; for (size_t k = 0; k < m; k++) s += a[i][k] * B(k, j); eq(at("block inverse", i, j), s, i == j, 1); }
        for (size_t i = 0; i < n; i++) { eq("outside kept", B(i, n - 1), a[i][n - 1], 1); eq("outside kept", B(n - 1, i), a[n - 1][i], 1); }
    }
    reach("solve");
}
static void singular() {
    double k = 0.7;
    DenseMatrix A(2, 2); A(0, 0) = A(0, 1) = k; A(1, 0) = A(1, 1) = k;
    Vec b{1, 2}; bool threw = false;
    try { solve(A, b.data()); } catch (CanteraError&) { threw = true; }
    tru("dense", threw);
    DenseMatrix C(2, 2, 0.0); threw = false;
    try { invert(C); } catch (CanteraError&) { threw = true; }
    tru("inverse", threw);
    DenseMatrix D(2, 3, 1.0); threw = false;
    try { solve(D, b.data()); } catch (CanteraError&) { threw = true; }
    tru("not square", threw);
    BandMatrix B(2, 1, 1); B(0, 0) = B(0, 1) = k; B(1, 0) = B(1, 1) = k; threw = false;
    try { B.factor(); } catch (CanteraError&) { threw = true; }
    tru("band", threw); tru("band not factored", !B.factored());
    reach("singular");
}
static void array(size_t n, size_t m) {
    Mat a = full("a", n, m);
    Array2D A(n, m);
    for (size_t j = 0; j < m; j++) { Vec c(n); for (size_t i = 0; i < n; i++) c[i] = a[i][j]; A.setColumn(j, c.data()); }
    auto check = [&](const string& l, Array2D& X) {
        tru(l + "shape", X.nRows() == a.size() && X.nColumns() == a[0].size() && X.data().size() == a.size() * a[0].size());
        for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) { eq(at(l, i, j), X(i, j), a[i][j], 1); eq(at(l + "column", i, j), X.ptrColumn(j)[i], a[i][j], 1); }
    };
    check("columns", A);
    Vec r(m), c(n);
    A.getRow(n - 1, r.data()); for (size_t j = 0; j < m; j++) eq("row", r[j], a[n - 1][j], 1);
    A.getColumn(m - 1, c.data()); for (size_t i = 0; i < n; i++) eq("column", c[i], a[i][m - 1], 1);
    Array2D B(n, m, A.data().data()), C(A), D; D = A;
    Vec rw = rhs("row", m); A.setRow(0, rw.data());
    check("copied", B); check("copy constructed", C); check("assigned", D);
    for (size_t j = 0; j < m; j++) a[0][j] = rw[j];
    check("row set", A);
    double f = in("f", -2, 2); Cantera::operator*=(A, f);
    for (auto& v : a) for (auto& w : v) w *= f;
    check("scaled", A);
    Vec col = rhs("col", n), col2 = rhs("col2", n);
    A.appendColumn(col); for (size_t i = 0; i < n; i++) a[i].push_back(col[i]);
    check("appended", A);
    A.appendColumn(col2.data()); for (size_t i = 0; i < n; i++) a[i].push_back(col2[i]);
    check("appended twice", A);
    A.resize(n, m + 4, 0.75); for (size_t i = 0; i < n; i++) { a[i].push_back(0.75); a[i].push_back(0.75); }
    check("resized", A);
    A.zero(); for (auto& v : a) for (auto& w : v) w = 0;
    check("zeroed", A);
    reach("array");
}
static void appended() {
    Mat a = full("a", 2, 2), b = full("b", 2, 1);
    DenseMatrix A = dense(a), B = dense(b), P(2, 2);
    Vec c = rhs("c", 2);
    B.appendColumn(c); b[0].push_back(c[0]); b[1].push_back(c[1]);
    for (size_t j = 0; j < 2; j++) for (size_t i = 0; i < 2; i++) eq(at("entry", i, j), B(i, j), b[i][j], 1);
    B.resize(2, 2); A.mult(B, P);
    for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 2; j++) eq(at("product", i, j), P(i, j), a[i][0] * b[0][j] + a[i][1] * b[1][j], 1);
    reach("appended");
}
// no fill-in appears in the incomplete factorisation of the bidiagonal matrix
static Mat spm(size_t n, bool cyclic) {
    Mat a(n, Vec(n, 0.0));
    for (size_t i = 0; i < n; i++) { a[i][i] = in(at("j", i, i), -6, -4); if (i + 1 < n || cyclic) a[i][(i + 1) % n] = in(at("j", i, (i + 1) % n), 0.2, 0.9); }
    return a;
}
static void sparse(const string& type, size_t n, bool transient, bool again) {
    auto J = newSystemJacobian(type);
    auto& E = dynamic_cast<EigenSparseJacobian&>(*J);
    J->initialize(n);
    if (again) {   // an earlier use leaves nothing behind
        for (size_t i = 0; i < n; i++) J->setValue(i, i, -2.0 - i);
        J->setValue(n - 1, 0, 0.4);
        J->updatePreconditioner();
        J->reset();
    }
    Mat a = spm(n, type != "Adaptive");
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i == j || a[i][j] != 0.0) J->setValue(i, j, a[i][j]);
    double d = in("extra", -0.9, -0.3);      // repeated entries add up
    J->setValue(0, 0, d); a[0][0] += d;
    Eigen::MatrixXd JM = E.jacobian();
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) eq(at("jacobian", i, j), JM(i, j), a[i][j], 1);
    Mat p = a;
    if (transient) {
        double rdt = in("rdt", 0.1, 5); vector<int> mask(n, 1); mask[n - 1] = 0;
        J->updateTransient(rdt, mask.data());
        for (size_t i = 0; i < n; i++) p[i][i] -= rdt * mask[i];
    } else {
        double g = in("gamma", 0.05, 0.5); J->setGamma(g);
        eq("gamma", J->gamma(), g, 1);
        J->updatePreconditioner();
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) p[i][j] = (i == j) - g * a[i][j];
        Eigen::MatrixXd M = E.matrix();
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) eq(at("preconditioner", i, j), M(i, j), p[i][j], 1);
    }
    Vec b = rhs("b", n), x(n, 0.0), b0 = b;
    J->solve(n, b.data(), x.data());
    same("solve", times(p, x), b0);
    same("right-hand side kept", b, b0);
    reach("sparse");
}
static void prune() {
    AdaptivePreconditioner P; P.initialize(3);
    double th = in("th", 0.05, 0.3); P.setThreshold(th);
    eq("threshold", P.threshold(), th, 1);
    Mat a(3, Vec(3, 0.0));
    for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) {
        if (i == 2 && j == 0) continue;
        a[i][j] = i == j ? in(at("j", i, j), -3, -2) : in(at("j", i, j), -0.5, 0.5); P.setValue(i, j, a[i][j]);
    }
    P.setGamma(0.5);
    Eigen::MatrixXd M = P.matrix();
    for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) {
        double v = (i == j) - 0.5 * a[i][j];
        if (i != j && (v < 0 ? -v : v) < th) v = 0;
        eq(at("pruned", i, j), M(i, j), v, 1);
    }
    P.setAbsoluteTolerance(1e-8);
    Vec s{in("s0", -1, 1), in("s1", -1, 1), 0.5};
    Vec s0 = s; P.stateAdjustment(s);
    for (size_t i = 0; i < 3; i++) eq("state adjustment", s[i], s0[i] > 1e-8 ? s0[i] : 1e-8, 1);
    reach("prune");
}
static void fit(size_t n, size_t deg, bool weighted) {
    Vec x{-1.5, -0.7, 0.1, 0.4, 1.3, 2.2}, w{1, 4, 0.25, 2.25, 1, 9}, c(deg + 1), y(n), p(deg + 1);
    for (size_t k = 0; k <= deg; k++) c[k] = in("c" + S(k), -2, 3);
    for (size_t i = 0; i < n; i++) { y[i] = 0; for (size_t k = deg + 1; k-- > 0;) y[i] = y[i] * x[i] + c[k]; }
    double rms = polyfit(n, deg, x.data(), y.data(), weighted ? w.data() : nullptr, p.data());
    for (size_t k = 0; k <= deg; k++) eq("recovered " + S(k), p[k], c[k], 1);
    // general data: the residual is orthogonal to every monomial; the return value is the (weighted) RMS
    for (size_t i = 0; i < n; i++) y[i] = in("y" + S(i), -2, 3);
    rms = polyfit(n, deg, x.data(), y.data(), weighted ? w.data() : nullptr, p.data());
    double ss = 0; Vec g(deg + 1, 0.0);
    for (size_t i = 0; i < n; i++) {
        double f = 0; for (size_t k = deg + 1; k-- > 0;) f = f * x[i] + p[k];
        double wi = weighted ? w[i] : 1, r = wi * (y[i] - f), xk = 1;
        ss += r * (y[i] - f);
        for (size_t k = 0; k <= deg; k++) { g[k] += r * xk; xk *= x[i]; }
    }
    for (size_t k = 0; k <= deg; k++) eq("normal equation " + S(k), g[k], 0, 100);
    ge("rms sign", rms, 0, 1);
    eq("rms squared", rms * rms * n, ss, 1);
    bool threw = false;
    try { polyfit(deg, deg, x.data(), y.data(), nullptr, p.data()); } catch (CanteraError&) { threw = true; }
    tru("too few points", threw);
    reach("fit");
}
static void interp(size_t n) {
    Vec x{-1, 0.5, 0.75, 2, 3}, f = rhs("f", n); x.resize(n);
    double t = in("t", -3, 5);
    double v = linearInterp(t, x, f), r = f[0];
    if (t >= x[n - 1]) r = f[n - 1];
    else for (size_t i = 0; i + 1 < n; i++) if (t >= x[i] && t < x[i + 1]) r = f[i] + (f[i + 1] - f[i]) * (t - x[i]) / (x[i + 1] - x[i]);
    eq("linear interpolation", v, r, 1);
    for (size_t i = 0; i < n; i++) eq("knot " + S(i), linearInterp(x[i], x, f), f[i], 1);
    reach("interp");
}
static void quadrature(size_t n) {
    Vec xs(n); xs[0] = in("x0", -2, 2);
    for (size_t i = 1; i < n; i++) xs[i] = xs[i - 1] + in("h" + S(i), 0.2, 1.5);
    Eigen::ArrayXd x(n), f(n), q(n);
    double c0 = in("c0", -2, 3), c1 = in("c1", -2, 3), c2 = in("c2", -2, 3);
    double ref = 0;
    for (size_t i = 0; i < n; i++) { x[i] = xs[i]; f[i] = in("f" + S(i), -2, 3); q[i] = c0 + xs[i] * (c1 + xs[i] * c2); }
    for (size_t i = 0; i + 1 < n; i++) ref += 0.5 * (f[i] + f[i + 1]) * (xs[i + 1] - xs[i]);
    eq("trapezoidal", trapezoidal(f, x), ref, 1);
    eq("by name", numericalQuadrature("trapezoidal", f, x), ref, 1);
    auto P = [&](double t) { return t * (c0 + t * (c1 / 2 + t * c2 / 3)); };
    size_t m = n % 2 ? n : n - 1;     // the last interval of an even number of points uses the trapezoidal rule
    double ex = P(xs[m - 1]) - P(xs[0]);
    for (size_t i = m - 1; i + 1 < n; i++) ex += 0.5 * (q[i] + q[i + 1]) * (xs[i + 1] - xs[i]);
    eq("simpson", simpson(q, x), ex, 1);
    eq("simpson by name", numericalQuadrature("simpson", q, x), ex, 1);
    Eigen::ArrayXd g(n), e = q; for (size_t i = 0; i < n; i++) { g[i] = f[i]; e[i] = q[i] + 2.5 * f[i]; }
    eq("simpson is linear", simpson(e, x), simpson(q, x) + 2.5 * simpson(g, x), 1);
    int bad = 0;
    Eigen::ArrayXd y = x; y[n - 1] = y[n - 2];
    try { trapezoidal(f, y); } catch (CanteraError&) { bad++; }
    try { simpson(f, y); } catch (CanteraError&) { bad++; }
    try { numericalQuadrature("other", f, x); } catch (CanteraError&) { bad++; }
    tru("rejected", bad == 3);
    reach("quadrature");
}
static void polys() {
    double x = in("x", -2, 2); Vec c = rhs("c", 9);
    auto P = [&](size_t d) { double s = 0, p = 1; for (size_t k = 0; k <= d; k++) { s += c[k] * p; p *= x; } return s; };
    double* C = c.data();
    eq("poly3", poly3(x, C), P(3), 1); eq("poly4", poly4(x, C), P(4), 1); eq("poly5", poly5(x, C), P(5), 1);
    eq("poly6", poly6(x, C), P(6), 1); eq("poly8", poly8(x, C), P(8), 1);
    Vec y = rhs("y", 9); double s4 = 0, s5 = 0, s9 = 0;
    for (size_t i = 0; i < 9; i++) { double t = c[i] * y[i]; if (i < 4) s4 += t; if (i < 5) s5 += t; s9 += t; }
    eq("dot4", dot4(c, y), s4, 1); eq("dot5", dot5(c, y), s5, 1); eq("dot", dot(c.begin(), c.end(), y.begin()), s9, 1);
    Vec o(9); scale(c.begin(), c.end(), o.begin(), x); for (size_t i = 0; i < 9; i++) eq("scale", o[i], c[i] * x, 1);
    reach("polys");
}
CASES {
    struct D { size_t n, kl, ku; };
    for (auto d : {D{3, 1, 1}, D{4, 1, 2}, D{4, 2, 1}, D{4, 0, 1}, D{4, 1, 0}, D{5, 1, 1}, D{3, 2, 2}, D{1, 0, 0}})
        for (bool dom : {true, false}) for (string how : {"new", "multi", "modify", "copy", "resize"}) {
            if (!dom && (d.kl == 0 || d.ku == 0)) continue;
            addcase("band_" + S(d.n) + S(d.kl) + S(d.ku) + (dom ? "_diag_" : "_pivot_") + how, [=] { band(d.n, d.kl, d.ku, dom, how); });
        }
    addcase("band_norms_311", [] { band(3, 1, 1, false, "norms"); });
    addcase("band_norms_301", [] { band(3, 0, 1, true, "norms"); });
    addcase("band_norms_402", [] { band(4, 0, 2, true, "norms"); });
    addcase("band_norms_320", [] { band(3, 2, 0, true, "norms"); });
    for (auto d : {D{2, 3, 0}, D{3, 2, 0}, D{3, 3, 0}, D{1, 4, 0}}) addcase("dense_" + S(d.n) + S(d.kl), [=] { denseOps(d.n, d.kl); });
    for (size_t n : {2, 3}) for (bool dom : {true, false}) for (size_t r : {1, 2, 3}) addcase("dense_solve_" + S(n) + (dom ? "_diag_" : "_pivot_") + S(r), [=] { denseSolve(n, dom, r); });
    addcase("singular", singular);
    for (auto d : {D{2, 3, 0}, D{3, 2, 0}, D{1, 1, 0}, D{3, 1, 0}, D{1, 3, 0}}) addcase("array_" + S(d.n) + S(d.kl), [=] { array(d.n, d.kl); });
    addcase("appended", appended);
    for (string t : {"Adaptive", "eigen-sparse-direct"}) for (bool tr : {false, true}) for (bool again : {false, true})
        addcase("sparse_" + t + (tr ? "_transient" : "_gamma") + (again ? "_again" : ""), [=] { sparse(t, t == "Adaptive" ? 4 : 3, tr, again); });
    addcase("prune", prune);
    for (size_t n : {4, 6}) for (size_t d : {0, 1, 2, 3}) for (bool w : {false, true}) addcase("fit_" + S(n) + S(d) + (w ? "_weighted" : ""), [=] { fit(n, d, w); });
    for (size_t n : {2, 3, 5}) addcase("interp_" + S(n), [=] { interp(n); });
    for (size_t n : {3, 4, 5, 6}) addcase("quadrature_" + S(n), [=] { quadrature(n); });
    addcase("polys", polys);
}
