// Native replay of a harness: inputs come from a file written by the solver run.
// Exit codes: 0 all obligations held, 42 an obligation failed, 43 an assumption is false.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <exception>
#include <iostream>
namespace sym {
struct Ent { std::string name; Mode mode; void (*f)(); };
static std::vector<Ent>& ents() { static std::vector<Ent> e; return e; }
Reg::Reg(const char* n, Mode m, void (*f)()) { ents().push_back({n, m, f}); }
static std::map<std::string, double> vals;
static std::map<std::string, int> cnt;
struct Fe { std::vector<double> a; double v; };
static std::map<std::string, std::vector<Fe>> fes;
static double tol = 1e-7; static Mode mode = REAL; static unsigned seed = 0; static bool quiet = false;
static int failed = 0;
static std::string uniq(const std::string& n) { int k = cnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
static uint64_t hs(const std::string& s) { uint64_t h = 1469598103934665603ull + seed * 7919; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h; }
static double dflt(const std::string& n) {   // no value in the model: any value will do
    if (!seed) return 0.0;
    return (double)((int64_t)(hs(n) % 33) - 16) / 4.0;
}
static double lookup(const std::string& n) { auto i = vals.find(n); return i == vals.end() ? dflt(n) : i->second; }
double real(const char* name) { return lookup(uniq(name)); }
double real_in(const char* name, double lo, double hi) {
    std::string u = uniq(name); double v = lookup(u);
    if (vals.find(u) == vals.end()) { if (!(v >= lo && v <= hi)) v = lo + (hi - lo) * (double)(hs(u) % 1000) / 1000.; }
    if (v < lo) v = lo; if (v > hi) v = hi; return v; }
double real(const std::string& b, int i) { return real((b + std::to_string(i)).c_str()); }
int choice(const char* name, int n) { std::string u = uniq(name); int v; auto i = vals.find(u); v = i == vals.end() ? (seed ? (int)(hs(u) % n) : 0) : (int)i->second; if (v < 0 || v >= n) v = 0; return v; }
double fun(const char* name, const std::vector<double>& a) {
    double best = 1e300, bv = 0; if (mode != FP) for (double d : a) if (d != d) return d;
    for (auto& e : fes[name]) { double d = 0; for (size_t i = 0; i < a.size() && i < e.a.size(); i++) d += std::fabs(a[i] - e.a[i]) / (1 + std::fabs(a[i])); if (d < best) best = d, bv = e.v; }
    if (best < 1e-9) return bv;
    double s = (double)(hs(name) % 17) / 8. - 1; uint64_t h = hs(std::string(name) + "c");
    for (size_t i = 0; i < a.size(); i++) { s += std::sin(a[i] * (1 + (double)((h >> (3 * i)) % 5) / 3) + (double)i) * 0.75; }
    return s;
}
double fun(const char* name, std::initializer_list<double> a) { return fun(name, std::vector<double>(a)); }
static double sc(double a, double b) { double m = std::fmax(std::fabs(a), std::fabs(b)); return tol * (1 + m); }
Cond lt(double a, double b) { return {a < b}; }
Cond le(double a, double b) { return {mode == REAL ? a <= b || a <= b + sc(a, b) : a <= b}; }
Cond eq(double a, double b) { return {mode == REAL ? a == b || std::fabs(a - b) <= sc(a, b) : a == b}; }
Cond same(double a, double b) { return {eq(a, b).id || (a != a && b != b)}; }
Cond isnan(double a) { return {a != a}; }
Cond truth(bool b) { return {b}; }
Cond operator!(Cond a) { return {!a.id}; }
Cond operator&&(Cond a, Cond b) { return {a.id && b.id}; }
Cond operator||(Cond a, Cond b) { return {a.id || b.id}; }
double ite(Cond c, double a, double b) { return c.id ? a : b; }
double abs(double a) { return std::fabs(a); }
static void fail(const std::string& l) { if (!quiet) printf("FAILED %s\n", l.c_str()); fflush(stdout); failed = 1; _Exit(42); }
void assume(Cond c) { if (!c.id) { if (!quiet) printf("ASSUMPTION FALSE\n"); fflush(stdout); _Exit(43); } }
void assume(bool b) { assume(Cond{b}); }
void check(Cond c, const std::string& l) { if (!c.id) fail(l); }
void check(bool b, const std::string& l) { if (!b) fail(l); }
static void finite(double a, double b) { if (mode == REAL && seed && !(std::isfinite(a) && std::isfinite(b))) { if (!quiet) printf("ASSUMPTION FALSE: values guessed lead out of the real numbers\n"); fflush(stdout); _Exit(43); } }
void check_eq(double a, double b, const std::string& l) { finite(a, b); if (!same(a, b).id) { if (!quiet) printf("  %.17g != %.17g\n", a, b); fail(l); } }
void check_near(double a, double b, double t, const std::string& l) { finite(a, b); if (!(std::fabs(a - b) <= t + 1e-12 * std::fabs(a))) { if (!quiet) printf("  %.17g vs %.17g (tol %g)\n", a, b, t); fail(l); } }
void reach(const char*) {}
bool possible(Cond c) { return c.id; }
bool decide(Cond c) { return c.id; }
void tolerance(double t) { tol = t; }
bool concrete(double) { return true; }
bool symbolic() { return false; }
void note(const std::string&) {}
void nonzero_div(bool) {}
void nofeas(bool) {}
void branch_timeout(int) {}
void summarise(bool) {}
}
using namespace sym;
int main(int argc, char** argv) {
    if (argc < 3) { printf("usage: replay HARNESS VALUES-FILE [seed]\n"); return 2; }
    if (argc > 3) seed = (unsigned)atoi(argv[3]);
    quiet = getenv("REPLAY_QUIET") != nullptr;
    std::ifstream in(argv[2]); std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string k; is >> k;
        if (k == "V") { std::string n, v; is >> n >> v; vals[n] = strtod(v.c_str(), 0); }
        else if (k == "F") { std::string n, s; int na; is >> n >> na; Fe e; for (int i = 0; i < na; i++) { is >> s; e.a.push_back(strtod(s.c_str(), 0)); } is >> s; e.v = strtod(s.c_str(), 0); fes[n].push_back(e); }
        else if (k == "S") { int s; is >> s; if (argc <= 3) seed = (unsigned)s; }
    }
    for (auto& e : ents()) if (e.name == argv[1]) {
        mode = e.mode;
        if (mode != REAL) tol = 0;
        try { e.f(); }
        catch (std::exception& x) { printf("FAILED unexpected exception: %s\n", x.what()); fflush(stdout); _Exit(42); }
        catch (...) { printf("FAILED unexpected exception\n"); fflush(stdout); _Exit(42); }
        printf("OK\n"); fflush(stdout); _Exit(0);
    }
    printf("no harness %s\n", argv[1]); return 2;
}
