// Harness API.  The same harness source is compiled twice:
//  - with clang, instrumented by symfp and linked with rt.cpp  (symbolic run)
//  - with g++, uninstrumented, linked with replay.cpp          (native replay)
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <initializer_list>
#include <vector>
#include <string>
namespace sym {
struct Cond { int id; };
enum Mode { REAL = 0, FP = 1, UF = 2 };

// --- inputs -------------------------------------------------------------
double real(const char* name);                         // arbitrary double (REAL: arbitrary real)
double real_in(const char* name, double lo, double hi);// lo <= x <= hi
double real(const std::string& base, int i);
int choice(const char* name, int n);                   // 0..n-1, explored exhaustively
inline bool flag(const char* name) { return choice(name, 2) != 0; }
double fun(const char* name, std::initializer_list<double> args);       // uninterpreted function
double fun(const char* name, const std::vector<double>& args);

// --- conditions (never fork) ---------------------------------------------
Cond lt(double a, double b);
Cond le(double a, double b);
inline Cond gt(double a, double b) { return lt(b, a); }
inline Cond ge(double a, double b) { return le(b, a); }
Cond eq(double a, double b);
Cond same(double a, double b);   // equal, or both NaN
Cond isnan(double a);
Cond truth(bool b);
Cond operator!(Cond a);
Cond operator&&(Cond a, Cond b);
Cond operator||(Cond a, Cond b);
inline Cond imp(Cond a, Cond b) { return !a || b; }
inline Cond ne(double a, double b) { return !eq(a, b); }
double ite(Cond c, double a, double b);
double abs(double a);
inline double max(double a, double b) { return ite(lt(a, b), b, a); }
inline double min(double a, double b) { return ite(lt(b, a), b, a); }

// --- obligations ------------------------------------------------------------
void assume(Cond c);
void assume(bool b);
void check(Cond c, const std::string& label);
void check(bool b, const std::string& label);
void check_eq(double a, double b, const std::string& label);
void check_near(double a, double b, double tol, const std::string& label); // |a-b|<=tol, exact polynomial bound
void reach(const char* label);       // vacuity witness
bool possible(Cond c);               // solver: is c satisfiable on this path? (replay: c itself)
bool decide(Cond c);                 // fork on a condition
void tolerance(double t);            // relative tolerance of eq/le in the native replay
bool concrete(double a);             // is the value a plain number in this run?
bool symbolic();                     // true in the symbolic run
void note(const std::string& s);     // add a sample line to the evidence
void nonzero_div(bool assume);       // true (default): a symbolic divisor is assumed non-zero; false: it is an obligation
void nofeas(bool v);                 // do not ask the solver for branch feasibility
void branch_timeout(int ms);          // cap on one feasibility query in this harness (undecided = explored)
void summarise(bool v);              // merge std::max/std::min instead of forking (default off)

struct Reg { Reg(const char* name, Mode m, void (*f)()); };
}
#define SYM_HARNESS(name, mode) static void harness_##name(); \
    static ::sym::Reg harness_reg_##name(#name, ::sym::mode, harness_##name); \
    static void harness_##name()
#endif
