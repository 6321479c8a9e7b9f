// Symbolic runtime: hash-consed expression DAG, shadow memory, path constraints, trace output.
#include "symops.h"
#include "sym.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <sys/mman.h>
typedef uint32_t u32;
typedef uint64_t u64;

extern "C" {
u32 __sym_args[32];
u32 __sym_ret[4];
}
namespace {
struct Node { u32 op, a, b; double v; };
std::vector<Node> nodes(1);   // node 0 = "concrete"
struct Key { u32 op, a, b; bool operator==(const Key& o) const { return op == o.op && a == o.a && b == o.b; } };
struct KH { size_t operator()(const Key& k) const { return (k.op * 0x9E3779B97F4A7C15ull) ^ (k.a * 0xC2B2AE3D27D4EB4Full + (k.b * 0x165667B19E3779F9ull << 1)); } };
std::unordered_map<Key, u32, KH> cons;
std::unordered_map<u64, u32> consts;
std::set<const char*> fns;
std::map<std::string, std::pair<double,double>> dummy;
struct Input { std::string name; double lo, hi, v; u32 id; };
std::vector<Input> inputs;
std::map<std::string, double> given;
struct Event { int kind; std::string label; u32 a, b, c; double va, vb, vc, scale; std::string where; };
std::vector<Event> events;
std::map<std::string, long> lostCount;
long sameCount;
struct Br { u32 id; bool taken; };
std::unordered_map<u32, int> decided;   // bool node -> taken (avoid repeated constraints)
u32** table;
const u64 LEAF = 1u << 20;

inline u32* leafOf(u64 addr, bool make) {
    u64 i = addr >> 20;
    if (i >= (1ull << 27)) return nullptr;
    if (!table) {
        table = (u32**) mmap(nullptr, (1ull << 27) * sizeof(u32*), PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (table == MAP_FAILED) { perror("mmap"); abort(); }
    }
    if (!table[i] && make) table[i] = (u32*) calloc(LEAF / 8, 4);
    return table[i];
}
inline u64 bits(double v) { u64 b; memcpy(&b, &v, 8); return b; }
u32 constant(double v) {
    auto it = consts.find(bits(v));
    if (it != consts.end()) return it->second;
    u32 id = nodes.size();
    nodes.push_back({OP_CONST, 0, 0, v});
    consts[bits(v)] = id;
    return id;
}
u32 mk(u32 op, u32 a, u32 b, double v) {
    Key k{op, a, b};
    auto it = cons.find(k);
    if (it != cons.end()) return it->second;
    u32 id = nodes.size();
    nodes.push_back({op, a, b, v});
    cons[k] = id;
    if (id > 40000000) { fprintf(stderr, "sym: too many nodes\n"); exit(77); }
    return id;
}
inline bool valid(u32 id, double v) { return id && id < nodes.size() && (bits(nodes[id].v) == bits(v)); }
}

extern "C" {
u32 __sym_bin(u32 op, u32 a, u32 b, double va, double vb, double r, const char* fn) {
    if (!a && !b) return 0;
    switch (op) {   // identities of real arithmetic with a concrete operand
    case OP_MUL:
        if ((!a && va == 0) || (!b && vb == 0)) return 0;
        if (!a && va == 1) return b;
        if (!b && vb == 1) return a;
        break;
    case OP_ADD:
        if (!a && va == 0) return b;
        if (!b && vb == 0) return a;
        break;
    case OP_SUB:
        if (!b && vb == 0) return a;
        if (a == b) return 0;
        break;
    case OP_DIV:
        if (!a && va == 0) return 0;
        if (!b && vb == 1) return a;
        break;
    case OP_POW:
        if (!b && vb == 1) return a;
        if (!b && vb == 0) return 0;
        break;
    }
    fns.insert(fn);
    return mk(op, a ? a : constant(va), b ? b : constant(vb), r);
}
u32 __sym_un(u32 op, u32 a, double va, double r, const char* fn) {
    if (!a) return 0;
    fns.insert(fn);
    return mk(op, a, 0, r);
}
u32 __sym_fcmp(u32 pred, u32 a, u32 b, double va, double vb, u32 r, const char* fn) {
    if (!a && !b) return 0;
    if (a == b) return 0;                       // same expression: decided
    if (!a && !std::isfinite(va)) return 0;     // reals are finite
    if (!b && !std::isfinite(vb)) return 0;
    u32 op;
    switch (pred & 7) {  // FCmp: bit0 eq, bit1 gt, bit2 lt
    case 1: op = OP_EQ; break;
    case 2: op = OP_GT; break;
    case 3: op = OP_GE; break;
    case 4: op = OP_LT; break;
    case 5: op = OP_LE; break;
    case 6: op = OP_NE; break;
    default: return 0;                          // true/false/ord/uno
    }
    if (std::isnan(va) || std::isnan(vb)) { lostCount["nan-compare"]++; return 0; }
    fns.insert(fn);
    return mk(op, a ? a : constant(va), b ? b : constant(vb), r ? 1.0 : 0.0);
}
u32 __sym_bool(u32 op, u32 a, u32 b, u32 va, u32 vb, u32 r) {
    if (!a && !b) return 0;
    if (op == OP_AND && ((!a && !va) || (!b && !vb))) return 0;
    if (op == OP_OR && ((!a && va) || (!b && vb))) return 0;
    if ((op == OP_AND || op == OP_OR)) { if (!a) return b; if (!b) return a; }
    if (op == OP_XOR) { if (!a && !va) return b; if (!b && !vb) return a; }
    return mk(op, a ? a : constant(va), b ? b : constant(vb), r ? 1.0 : 0.0);
}
void __sym_branch(u32 c, u32 taken, const char* fn, u32 site) {
    if (!c) return;
    auto it = decided.find(c);
    if (it != decided.end()) return;
    decided[c] = taken ? 1 : 0;
    events.push_back({'B', "", c, taken ? 1u : 0u, site, 0, 0, 0, 0, fn});
}
u32 __sym_load(const void* p, double v) {
    u32* l = leafOf((u64) p, false);
    if (!l) return 0;
    u32 id = l[((u64) p & (LEAF - 1)) >> 3];
    if (!id) return 0;
    return valid(id, v) ? id : 0;
}
u32 __sym_loadi(const void* p, u64 v) { double d; memcpy(&d, &v, 8); return __sym_load(p, d); }
void __sym_store(void* p, u32 id, double v) {
    if (((u64) p & 7)) { if (id) lostCount["unaligned-store"]++; return; }
    u32* l = leafOf((u64) p, id != 0);
    if (l) l[((u64) p & (LEAF - 1)) >> 3] = id;
}
void __sym_storei(void* p, u32 id) { __sym_store(p, id, 0); }
void __sym_memcpy(void* d, const void* s, u64 n) {
    if (n < 8) return;
    if (((u64) d & 7) != ((u64) s & 7)) return;
    u64 k = n >> 3, d0 = (u64) d, s0 = (u64) s;
    if (d0 & 7) return;
    // nothing to do when neither side has any shadow page
    bool any = false;
    for (u64 x = s0 >> 20; x <= (s0 + n) >> 20 && !any; x++) any = leafOf(x << 20, false);
    for (u64 x = d0 >> 20; x <= (d0 + n) >> 20 && !any; x++) any = leafOf(x << 20, false);
    if (!any) return;
    std::vector<u32> tmp(k);
    for (u64 i = 0; i < k; i++) {
        u32* l = leafOf(s0 + 8 * i, false);
        tmp[i] = l ? l[((s0 + 8 * i) & (LEAF - 1)) >> 3] : 0;
    }
    for (u64 i = 0; i < k; i++) {
        u32* l = leafOf(d0 + 8 * i, tmp[i] != 0);
        if (l) l[((d0 + 8 * i) & (LEAF - 1)) >> 3] = tmp[i];
    }
}
void __sym_memset(void* d, u64 n) {
    u64 d0 = (u64) d & ~7ull, e = (u64) d + n;
    for (u64 a = d0; a < e; a += 8) {
        u32* l = leafOf(a, false);
        if (!l) { a = ((a >> 20) + 1) << 20; a -= 8; continue; }
        l[(a & (LEAF - 1)) >> 3] = 0;
    }
}
u32 __sym_getarg(u32 i, double v) { u32 id = __sym_args[i]; return id && valid(id, v) ? id : 0; }
u32 __sym_getret(u32 i, double v) { u32 id = __sym_ret[i]; return id && valid(id, v) ? id : 0; }
void __sym_fptoi(u32 s, double v, u64 r, const char* fn) {
    if (!s) return;
    // the integer is used concretely: constrain trunc(v) == r
    double n = (double)(int64_t) r;
    u32 t = mk(OP_TRUNC, s, 0, n);
    u32 c = mk(OP_EQ, t, constant(n), 1.0);
    if (decided.count(c)) return;
    decided[c] = 1;
    events.push_back({'B', "fptoi", c, 1, 0, 0, 0, 0, 0, fn});
}
void __sym_lost(u32 s, const char* what, const char* fn) {
    if (s) lostCount[std::string(what) + " in " + fn]++;
}

// ---------------------------------------------------------------- harness API
static u32 A(int i, double v) { return __sym_getarg(i, v); }
double sym_input(const char* name, double lo, double hi) {
    double v;
    for (auto& i : inputs) if (i.name == name) { __sym_ret[0] = i.id; return i.v; }   // one variable per name
    auto it = given.find(name);
    if (it != given.end()) v = it->second;
    else {  // deterministic generic default, well inside the bounds
        u64 h = 1469598103934665603ull;
        for (const char* p = name; *p; p++) h = (h ^ (unsigned char) *p) * 1099511628211ull;
        h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        double f = 0.15 + 0.7 * ((h >> 11) * 0x1.0p-53);
        v = lo + (hi - lo) * f;
    }
    u32 id = nodes.size();
    nodes.push_back({OP_INPUT, (u32) inputs.size(), 0, v});
    inputs.push_back({name, lo, hi, v, id});
    __sym_ret[0] = id;
    return v;
}
void sym_output(const char* label, double v) {
    events.push_back({'O', label, A(0, v), 0, 0, v, 0, 0, 0, ""});
}
void sym_eq(const char* label, double a, double b, double scale) {
    u32 x = A(0, a), y = A(1, b);
    events.push_back({'E', label, x, y, 0, a, b, 0, scale, ""});
}
// as sym_eq, once for each pair of expressions
void sym_same(const char* label, double a, double b, double scale) {
    u32 x = A(0, a), y = A(1, b);
    static std::set<std::pair<std::pair<u32, u32>, std::pair<u64, u64>>> seen;
    if (!seen.insert({{x, y}, {bits(a), bits(b)}}).second) { sameCount++; return; }
    events.push_back({'E', label, x, y, 0, a, b, 0, scale, ""});
}
void sym_deriv(const char* label, double f, double x, double g, double scale) {
    events.push_back({'D', label, A(0, f), A(1, x), A(2, g), f, x, g, scale, ""});
}
void sym_ge(const char* label, double a, double b, double scale) {
    events.push_back({'G', label, A(0, a), A(1, b), 0, a, b, 0, scale, ""});
}
void sym_true(const char* label, int ok) {
    events.push_back({'T', label, ok ? 1u : 0u, 0, 0, 0, 0, 0, 0, ""});
}
static void finish(const char* outcome);
void sym_assume(int ok) { if (!ok) finish("assumed-away"); }
void sym_reach(const char* label) { events.push_back({'R', label, 0, 0, 0, 0, 0, 0, 0, ""}); }
int sym_concrete_int(const char* name, int dflt) {
    auto it = given.find(name);
    return it == given.end() ? dflt : (int) it->second;
}
double sym_cut(const char* name, double v) {
    u32 old = A(0, v);
    u32 id = nodes.size();
    nodes.push_back({OP_INPUT, (u32) inputs.size(), 0, v});
    inputs.push_back({std::string("cut:") + name, v, v, v, id});
    events.push_back({'C', name, id, old, 0, v, 0, 0, 0, ""});
    __sym_ret[0] = id;
    return v;
}
int __verif_pivot(const double* c, int n) {
    int b = 0;
    for (int i = 1; i < n; i++) if (std::fabs(c[i]) > std::fabs(c[b])) b = i;
    return b;
}
int __verif_iszero(const double* p) { return *p == 0.0 && !__sym_load(p, *p); }
double sym_value(double v) { __sym_ret[0] = 0; return v; }
int sym_is_symbolic(double v) { return A(0, v) != 0; }
}

static std::map<std::string, SymCaseFn>& cases() { static std::map<std::string, SymCaseFn> c; return c; }
SymCase::SymCase(const std::string& name, SymCaseFn f) { cases()[name] = f; }
static std::string dataDir, outFile;
std::string sym_data(const std::string& f) { return dataDir + "/" + f; }

static std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) r += (c == '\n' || c == '\t' || c == '\r') ? ' ' : c;
    return r;
}
static void finish(const char* outcome) {
    FILE* f = fopen(outFile.c_str(), "w");
    if (!f) { perror(outFile.c_str()); _Exit(70); }
    // only the nodes reachable from events
    std::vector<char> need(nodes.size(), 0);
    auto mark = [&](u32 i) { if (i) need[i] = 1; };
    for (auto& e : events) {
        if (e.kind == 'B') mark(e.a);
        else if (e.kind != 'T' && e.kind != 'R') { mark(e.a); mark(e.b); mark(e.c); }
    }
    for (auto& i : inputs) mark(i.id);
    for (size_t i = nodes.size(); i-- > 1;)
        if (need[i] && nodes[i].op != OP_CONST && nodes[i].op != OP_INPUT) { mark(nodes[i].a); mark(nodes[i].b); }
    for (size_t i = 1; i < nodes.size(); i++)
        if (need[i]) fprintf(f, "N\t%zu\t%u\t%u\t%u\t%.17g\n", i, nodes[i].op, nodes[i].a, nodes[i].b, nodes[i].v);
    for (auto& i : inputs) fprintf(f, "I\t%s\t%.17g\t%.17g\t%.17g\t%u\n", i.name.c_str(), i.lo, i.hi, i.v, i.id);
    for (auto& e : events)
        fprintf(f, "%c\t%s\t%u\t%u\t%u\t%.17g\t%.17g\t%.17g\t%.17g\t%s\n", e.kind, esc(e.label).c_str(), e.a, e.b, e.c,
                e.va, e.vb, e.vc, e.scale, e.where.c_str());
    for (auto& l : lostCount) fprintf(f, "X\t%s\t%ld\n", esc(l.first).c_str(), l.second);
    for (auto* n : fns) fprintf(f, "F\t%s\n", n);
    fprintf(f, "Z\t%s\t%zu\n", esc(outcome).c_str(), nodes.size());
    fclose(f);
    fflush(nullptr);
    _Exit(0);
}

int main(int argc, char** argv) {
    // harness CASE DATADIR OUT [name=value ...]
    if (argc < 4) {
        for (auto& c : cases()) printf("%s\n", c.first.c_str());
        return 0;
    }
    dataDir = argv[2];
    outFile = argv[3];
    for (int i = 4; i < argc; i++) {
        char* eq = strrchr(argv[i], '=');
        if (eq) given[std::string(argv[i], eq)] = strtod(eq + 1, nullptr);
    }
    auto it = cases().find(argv[1]);
    if (it == cases().end()) { fprintf(stderr, "no such case %s\n", argv[1]); return 64; }
    try {
        it->second();
    } catch (std::exception& e) {
        int st; char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
        finish((std::string("exception ") + (n ? n : "?") + ": " + std::string(e.what()).substr(0, 2000)).c_str());
    }
    finish("ok");
}
