#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "sym.h"
#include "cantera/core.h"
#include "cantera/thermo/ThermoFactory.h"
#include <vector>
#include <string>
#include <map>
#include <memory>
using namespace Cantera;
using std::string; using std::vector;
inline double in(const string& n, double lo, double hi) { return sym_input(n.c_str(), lo, hi); }
inline void eq(const string& l, double a, double b, double scale = 0) { sym_eq(l.c_str(), a, b, scale); }
inline void once(const string& l, double a, double b, double scale = 0) { sym_same(l.c_str(), a, b, scale); }
inline void ge(const string& l, double a, double b, double scale = 0) { sym_ge(l.c_str(), a, b, scale); }
inline void deriv(const string& l, double f, double x, double g, double scale = 0) { sym_deriv(l.c_str(), f, x, g, scale); }
inline void tru(const string& l, bool ok) { sym_true(l.c_str(), ok); }
inline void reach(const string& l) { sym_reach(l.c_str()); }
inline string S(size_t i) { return std::to_string(i); }
struct Reg { Reg(const string& n, SymCaseFn f) { SymCase(n, f); } };
// register a case at load time under a computed name
#define REG2(a, b) a##b
#define REG1(a, b) REG2(a, b)
#define CASES static void REG1(regcases_, __LINE__)(); namespace { struct REG1(RC_, __LINE__) { REG1(RC_, __LINE__)() { REG1(regcases_, __LINE__)(); } } REG1(rc_, __LINE__); } static void REG1(regcases_, __LINE__)()
inline void addcase(const string& n, SymCaseFn f) { SymCase(n, f); }
// harness YAML files live in the data directory
inline void dataDirs() { addDirectory(sym_data(".")); }
inline shared_ptr<ThermoPhase> phase(const string& file, const string& name = "") {
    dataDirs();
    return newThermo(file, name);
}
inline shared_ptr<Solution> solution(const string& file, const string& name = "", const string& tr = "none") {
    dataDirs();
    return newSolution(file, name, tr);
}
#endif
