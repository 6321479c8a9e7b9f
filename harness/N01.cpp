// One-variable function objects: evaluation, composition with its simplifications, differentiation
#include "common.h"
#include "cantera/numerics/Func1.h"
#include "cantera/numerics/Func1Factory.h"
typedef shared_ptr<Func1> F;
typedef vector<double> Vec;
struct Base { string name; std::function<F(const string&)> make; std::function<double(const string&, double)> formula; bool pos, smooth; };
static double c1(const string& t) { return in(t + "c", -2, 2); }
static double cp(const string& t) { return in(t + "p", 0.2, 3); }
static const vector<Base>& bases() {
    static vector<Base> b = {
        {"sin", [](const string& t) { return newFunc1("sin", c1(t)); }, [](const string& t, double x) { return sin(c1(t) * x); }, false, true},
        {"cos", [](const string& t) { return newFunc1("cos", c1(t)); }, [](const string& t, double x) { return cos(c1(t) * x); }, false, true},
        {"exp", [](const string& t) { return newFunc1("exp", c1(t)); }, [](const string& t, double x) { return exp(c1(t) * x); }, false, true},
        {"log", [](const string& t) { return newFunc1("log", cp(t)); }, [](const string& t, double x) { return log(cp(t) * x); }, true, true},
        {"log1", [](const string& t) { return newFunc1("log", 1.0); }, [](const string& t, double x) { return log(x); }, true, true},
        {"pow", [](const string& t) { return newFunc1("pow", c1(t)); }, [](const string& t, double x) { return pow(x, c1(t)); }, true, true},
        {"pow2", [](const string&) { return newFunc1("pow", 2.0); }, [](const string&, double x) { return x * x; }, false, true},
        {"pow3", [](const string&) { return newFunc1("pow", 3.0); }, [](const string&, double x) { return x * x * x; }, false, true},
        {"sqrt", [](const string&) { return newFunc1("pow", 0.5); }, [](const string&, double x) { return sqrt(x); }, true, true},
        {"inverse", [](const string&) { return newFunc1("pow", -1.0); }, [](const string&, double x) { return 1 / x; }, true, true},
        {"identity", [](const string&) { return newFunc1("pow", 1.0); }, [](const string&, double x) { return x; }, false, true},
        {"constant", [](const string& t) { return newFunc1("constant", c1(t)); }, [](const string& t, double) { return c1(t); }, false, true},
        {"scaled_sin", [](const string& t) { return newTimesConstFunction(newFunc1("sin", 1.5), c1(t)); }, [](const string& t, double x) { return sin(1.5 * x) * c1(t); }, false, true},
        {"shifted_exp", [](const string& t) { return newPlusConstFunction(newFunc1("exp", 0.5), c1(t)); }, [](const string& t, double x) { return exp(0.5 * x) + c1(t); }, false, true},
        {"scaled_pow", [](const string& t) { return newTimesConstFunction(newFunc1("pow", 2.0), c1(t)); }, [](const string& t, double x) { return x * x * c1(t); }, false, true},
        {"sum", [](const string& t) { return newSumFunction(newFunc1("sin", c1(t)), newFunc1("pow", 2.0)); }, [](const string& t, double x) { return sin(c1(t) * x) + x * x; }, false, true},
        {"polynomial", [](const string& t) { return newFunc1("polynomial3", Vec{c1(t), 0.7, in(t + "d", -2, 2)}); }, [](const string& t, double x) { return (c1(t) * x + 0.7) * x + in(t + "d", -2, 2); }, false, false},
        {"tabulated", [](const string& t) { return newFunc1("tabulated-linear", Vec{-1, 1, 2, c1(t), 0.3, in(t + "d", -2, 2)}); },
            [](const string& t, double x) { double a = c1(t), b = 0.3, c = in(t + "d", -2, 2); return x < -1 ? a : x < 1 ? a + (b - a) * (x + 1) / 2 : x < 2 ? b + (c - b) * (x - 1) : c; }, false, false},
    };
    return b;
}
static double arg(bool pos) { return pos ? in("t", 0.1, 3) : in("t", -3, 3); }
struct Op { string name; F (*make)(F, F); std::function<double(double, double)> f; bool div; };
static const vector<Op>& ops() {
    static vector<Op> o = {
        {"sum", newSumFunction, [](double a, double b) { return a + b; }, false}, {"diff", newDiffFunction, [](double a, double b) { return a - b; }, false},
        {"product", newProdFunction, [](double a, double b) { return a * b; }, false}, {"ratio", newRatioFunction, [](double a, double b) { return a / b; }, true}};
    return o;
}
static void farFromZero(double v) { sym_assume(v * v > 1e-4); }
static void elementary(const Base& b) {
    F f = b.make("a_");
    double t = arg(b.pos);
    eq("value", f->eval(t), b.formula("a_", t), 1);
    eq("call", (*f)(t), b.formula("a_", t), 1);
    F g = b.make("a_");
    if (b.smooth) tru("identical to itself", f->isIdentical(g));
    if (b.smooth) deriv("derivative", f->eval(t), t, f->derivative()->eval(t), 1);
    reach("elementary");
}
static void binary(const Base& a, const Base& b, const Op& o, bool direct) {
    F f1 = a.make("a_"), f2 = b.make("b_");
    double t = arg(a.pos || b.pos), v1 = a.formula("a_", t), v2 = b.formula("b_", t);
    if (o.div) farFromZero(v2);
    F f;
    if (direct) f = newFunc1(o.name, f1, f2);
    else f = o.make(f1, f2);
    eq("value", f->eval(t), o.f(v1, v2), 1);
    eq("first operand unchanged", f1->eval(t), v1, 1); eq("second operand unchanged", f2->eval(t), v2, 1);
    if (a.smooth && b.smooth) {
        F d1 = f1->derivative(), d2 = f2->derivative();
        double e1 = d1->eval(t), e2 = d2->eval(t);
        double ref = o.name == "sum" ? e1 + e2 : o.name == "diff" ? e1 - e2 : o.name == "product" ? e1 * v2 + v1 * e2 : (e1 * v2 - v1 * e2) / (v2 * v2);
        eq("derivative", f->derivative()->eval(t), ref, 1);
        if (a.name != "log" && b.name != "log") deriv("derivative of the value", f->eval(t), t, ref, 1);
    }
    reach("binary");
}
static void composite(const Base& a, const Base& b, bool direct) {
    F f1 = a.make("a_"), f2 = b.make("b_");
    double t = arg(b.pos), v2 = b.formula("b_", t);
    if (a.pos) sym_assume(v2 > 0.05);
    if (a.name.find("tab") == 0) sym_assume(v2 < 5 && v2 > -5);
    if (a.name.find("exp") != string::npos) sym_assume(v2 < 20);
    F f = direct ? newFunc1("composite", f1, f2) : newCompositeFunction(f1, f2);
    double v = a.formula("a_", v2);
    eq("value", f->eval(t), v, 1);
    if (a.smooth && b.smooth) eq("derivative", f->derivative()->eval(t), f1->derivative()->eval(v2) * f2->derivative()->eval(t), 1);
    reach("composite");
}
static void constants(const Base& a) {
    double t = arg(a.pos), v = a.formula("a_", t), c = in("k", -2, 2), d = in("m", -2, 2);
    auto f = [&] { return a.make("a_"); };
    eq("times", newTimesConstFunction(f(), c)->eval(t), v * c, 1); eq("plus", newPlusConstFunction(f(), c)->eval(t), v + c, 1);
    eq("times twice", newTimesConstFunction(newTimesConstFunction(f(), c), d)->eval(t), v * c * d, 1);
    eq("plus twice", newPlusConstFunction(newPlusConstFunction(f(), c), d)->eval(t), v + c + d, 1);
    eq("times object", newFunc1("times-constant", f(), c)->eval(t), v * c, 1); eq("plus object", newFunc1("plus-constant", f(), c)->eval(t), v + c, 1);
    eq("sum of multiples", newSumFunction(newTimesConstFunction(f(), c), newTimesConstFunction(f(), d))->eval(t), v * (c + d), 1);
    eq("difference of multiples", newDiffFunction(newTimesConstFunction(f(), c), newTimesConstFunction(f(), d))->eval(t), v * (c - d), 1);
    eq("product of multiples", newProdFunction(newTimesConstFunction(f(), c), newTimesConstFunction(f(), d))->eval(t), v * v * c * d, 1);
    eq("with a multiple", newSumFunction(f(), newTimesConstFunction(f(), c))->eval(t), v * (1 + c), 1);
    eq("with a multiple of", newDiffFunction(newTimesConstFunction(f(), c), f())->eval(t), v * (c - 1), 1);
    eq("with itself", newSumFunction(f(), f())->eval(t), 2 * v, 1); eq("less itself", newDiffFunction(f(), f())->eval(t), 0, 1);
    if (a.smooth) {
        double e = f()->derivative()->eval(t);
        eq("derivative times", newTimesConstFunction(f(), c)->derivative()->eval(t), e * c, 1); eq("derivative plus", newPlusConstFunction(f(), c)->derivative()->eval(t), e, 1);
    }
    reach("constants");
}
static void advanced(int what) {
    double t = in("t", -3, 3);
    if (what == 0) {
        double A = in("A", -2, 2), t0 = in("t0", -1, 1), w = in("w", 0.5, 3);
        double x = (t - t0) / w; F f = newFunc1("Gaussian", Vec{A, t0, w});
        eq("Gaussian", f->eval(t), A * exp(-4 * log(2.0) * x * x), 1);
        eq("full width at half maximum", f->eval(t0 + w / 2), A / 2, 1); eq("maximum", f->eval(t0), A, 1); eq("symmetric", f->eval(t0 - t), f->eval(t0 + t), 1);
        Gaussian1 g(A, t0, w); eq("constructor", g.eval(t), f->eval(t), 1);
    } else if (what == 1) {
        double a0 = in("a0", -2, 2), a1 = in("a1", -2, 2), a2 = in("a2", -2, 2), b1 = in("b1", -2, 2), b2 = in("b2", -2, 2), w = in("w", 0.2, 3);
        F f = newFunc1("Fourier", Vec{a0, a1, a2, w, b1, b2});
        eq("Fourier", f->eval(t), a0 / 2 + a1 * cos(w * t) + b1 * sin(w * t) + a2 * cos(2 * w * t) + b2 * sin(2 * w * t), 1);
        Vec a = {a1, a2}, b = {b1, b2}; Fourier1 g(2, w, a0, a.data(), b.data()); eq("constructor", g.eval(t), f->eval(t), 1);
    } else if (what == 2) {
        double T = in("T", 200, 2000); Vec c = {in("A1", 0.1, 5), in("b1", -2, 2), in("E1", -1e3, 1e4), in("A2", 0.1, 5), in("b2", -2, 2), in("E2", -1e3, 1e4)};
        F f = newFunc1("Arrhenius", c);
        eq("Arrhenius", f->eval(T), c[0] * pow(T, c[1]) * exp(-c[2] / T) + c[3] * pow(T, c[4]) * exp(-c[5] / T), 1e-3);
        Arrhenius1 g(2, c.data()); eq("constructor", g.eval(T), f->eval(T), 1e-3);
    } else if (what == 3) {
        Vec c; for (int i = 0; i < 5; i++) c.push_back(in("c" + S(i), -2, 2));
        double v = 0, p = 1; for (int i = 4; i >= 0; i--) { v += c[i] * p; p *= t; }
        eq("polynomial", newFunc1("polynomial3", c)->eval(t), v, 1);
        Poly1 g(4, c.data()); eq("constructor", g.eval(t), v, 1);
    } else if (what == 4) {     // periodic
        double T = in("T", 0.5, 2), s = in("s", 0, 1);
        F base = newFunc1("polynomial3", Vec{in("a", -2, 2), in("b", -2, 2)});
        F f = newFunc1("periodic", base, T);
        eq("first period", f->eval(s * T * 0.999), base->eval(s * T * 0.999), 1);
        eq("periodic", f->eval(t + T), f->eval(t), 1); eq("periodic backwards", f->eval(t - 2 * T), f->eval(t), 1);
        eq("start of a period", f->eval(0), base->eval(0), 1);
    }
    reach("advanced");
}
// tables with arbitrary points
static void table(bool linear, bool array) {
    double t0 = in("t0", -1, 0), t1 = t0 + in("d1", 0.2, 1), t2 = t1 + in("d2", 0.2, 1), t3 = t2 + in("d3", 0.2, 1);
    Vec tv = {t0, t1, t2, t3}, fv; for (int i = 0; i < 4; i++) fv.push_back(in("f" + S(i), -2, 2));
    double t = in("t", -2, 4);
    F f;
    if (array) f = std::make_shared<Tabulated1>(4, tv.data(), fv.data(), linear ? "linear" : "previous");
    else { Vec p = tv; p.insert(p.end(), fv.begin(), fv.end()); f = newFunc1(linear ? "tabulated-linear" : "tabulated-previous", p); }
    for (int i = 0; i < 4; i++) eq("table point " + S(i), f->eval(tv[i]), fv[i], 1);
    double v = f->eval(t), d = f->derivative()->eval(t);
    if (t < t0) { eq("before", v, fv[0], 1); eq("derivative before", d, 0, 1); }
    else if (t >= t3) { eq("after", v, fv[3], 1); if (t > t3) eq("derivative after", d, 0, 1); }
    else for (int i = 0; i < 3; i++) if (t >= tv[i] && t < tv[i + 1]) {
        double sl = (fv[i + 1] - fv[i]) / (tv[i + 1] - tv[i]);
        eq("between", v, linear ? fv[i] + sl * (t - tv[i]) : fv[i], 1);
        if (t > tv[i]) eq("derivative between", d, linear ? sl : 0, 1);
    }
    reach("table");
}
CASES {
    auto& b = bases();
    for (auto& x : b) { addcase("elementary_" + x.name, [&x] { elementary(x); }); addcase("constants_" + x.name, [&x] { constants(x); }); }
    auto rare = [](const Base& z) { return z.name == "log" || z.name == "cos" || z.name == "pow3" || z.name == "sum" || z.name == "polynomial" || z.name == "tabulated"; };
    for (auto& x : b) for (auto& y : b) {
        // pairs with the kinds no simplification looks at are left to the thorough tier, except for pairs of one kind
        string deep = (rare(x) || rare(y)) && x.name != y.name ? "deep_" : "";
        for (auto& o : ops()) { addcase(deep + o.name + "_" + x.name + "_" + y.name, [&x, &y, &o] { binary(x, y, o, false); }); }
        addcase(deep + "composite_" + x.name + "_" + y.name, [&x, &y] { composite(x, y, false); });
    }
    for (size_t i = 0; i + 1 < b.size(); i++) {
        auto &x = b[i], &y = b[(i * 7 + 3) % b.size()];
        for (auto& o : ops()) addcase("object_" + o.name + "_" + x.name + "_" + y.name, [&x, &y, &o] { binary(x, y, o, true); });
        addcase("object_composite_" + x.name + "_" + y.name, [&x, &y] { composite(x, y, true); });
    }
    for (int i = 0; i < 5; i++) addcase(string("advanced_") + (i == 0 ? "Gaussian" : i == 1 ? "Fourier" : i == 2 ? "Arrhenius" : i == 3 ? "polynomial" : "periodic"), [i] { advanced(i); });
    for (int l = 0; l < 2; l++) for (int a = 0; a < 2; a++) addcase(string("table_") + (l ? "linear" : "previous") + (a ? "_array" : ""), [l, a] { table(l, a); });
}
