// Harness API. A harness is ordinary C++ against Cantera's public API; a value obtained from
// sym_input is symbolic (any real in [lo, hi]); everything computed from it by the real code is
// recorded as an expression; every comparison of such values is a recorded path constraint.
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <string>
#include <functional>
extern "C" {
// symbolic input with its stated bounds
double sym_input(const char* name, double lo, double hi);
// attach a name to a value (traced, comparable across runs)
void sym_output(const char* label, double v);
// obligations: for every input on this path ...
void sym_eq(const char* label, double a, double b, double scale);     // a == b (up to rounding; scale = natural magnitude)
void sym_same(const char* label, double a, double b, double scale);   // the same, recorded once per pair of expressions
void sym_deriv(const char* label, double f, double x, double g, double scale); // d f / d x == g, x an input
void sym_ge(const char* label, double a, double b, double scale);     // a >= b (native slack 1e-9*scale)
void sym_true(const char* label, int ok);                             // structural assertion on this path
void sym_assume(int ok);                                              // path is outside the claim unless ok
void sym_reach(const char* label);                                    // reachability witness
int sym_concrete_int(const char* name, int dflt);                     // configuration value
double sym_cut(const char* name, double v);                           // replace an expression by a fresh variable
double sym_value(double v);                                           // drop the shadow
int sym_is_symbolic(double v);
}
typedef std::function<void()> SymCaseFn;
struct SymCase { SymCase(const std::string& name, SymCaseFn f); };
#define SYM_CASE(id) static void case_##id(); static SymCase reg_##id(#id, case_##id); static void case_##id()
std::string sym_data(const std::string& file);   // path of a file in the harness data directory
#endif
