// C28: a configured run does what is configured, and its reports tell what happened.
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include "ode_common.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
#include "ode_num_int/OdeSolverOutputClassesRegistrator.h"
#include "ode_num_int/OdeSolverConfiguration.h"
static ctm::testmodels::OdeTestModelClassesRegistrator<VD> theModels;
typedef OdeSolverConfiguration<VD> Cfg; typedef std::vector<std::string> Words;
// the model and the integrator of the user; what they do is told by the harness
struct Model : OdeRhs<VD>, FactoryMixin<Model, OdeRhs<VD>> { static unsigned n2, n1; static std::function<void(V&, double, const V&)> f; unsigned int secondOrderVarCount() const { return n2; } unsigned int firstOrderVarCount() const { return n1; } unsigned int zeroFuncCount() const { return 2; } using OdeRhs<VD>::rhs; void rhs(V& d, double t, const V& x) const { odeRhsPreObservers(t, x, this); d.resize(2 * n2 + n1); f(d, t, x); odeRhsPostObservers(t, x, d, this); } std::vector<unsigned> zeroFuncFlags() const { return std::vector<unsigned>(2, BothDirections); } void zeroFunctions(V& d, double, const V&) const { d.resize(2); d[0] = 1; d[1] = 1; } void switchPhaseState(const int*, double, V&) {} std::string describeZeroFunction(unsigned i) const { return i ? "ceiling" : "floor"; } };
unsigned Model::n2 = 0, Model::n1 = 1; std::function<void(V&, double, const V&)> Model::f; static Model::Registrator r0("user_model");
struct Attempt { double h, err, t; V x; bool acc, chg, trunc; unsigned izf; int dir; int its; };
struct Script : OdeSolver<VD>, FactoryMixin<Script, OdeSolver<VD>> {
    static std::vector<Script*> all; static std::function<void(Script&)> step; double t = 0; V x; std::vector<std::pair<double, V>> inits; std::vector<Attempt> log; std::vector<double> starts; std::vector<bool> softs; Script() { all.push_back(this); } ~Script() { for (auto& p : all) if (p == this) p = nullptr; }
    int order() const { return 1; } double initialTime() const { return t; } V initialState() const { return x; } void setInitialState(double a, const V& b, bool soft = false) { t = a; x = b; inits.push_back({a, b}); softs.push_back(soft); } void doStep() { starts.push_back(t); step(*this); }
    void report(Attempt a) { a.t = t; a.x = x; log.push_back(a); odeSolverPostObservers(OdeSolverPostObserverArg<VD>(a.h, a.acc, a.chg, a.trunc, a.err, a.izf, a.dir, this)); } };
std::vector<Script*> Script::all; std::function<void(Script&)> Script::step; static Script::Registrator r1("user_solver");
static void init() { Script::all.clear(); Script::step = [](Script& s) { double h = sym::real_in("h", 0.25, 1); Attempt a{h, 0, 0, V(), true, false, false, ~0u, 0, 0}; s.t += h; s.report(a); }; Model::n2 = 0; Model::n1 = 1; Model::f = [](V& d, double t, const V& x) { std::vector<double> a{t}; for (unsigned i = 0; i < x.size(); ++i) a.push_back(x[i]); for (unsigned i = 0; i < d.size(); ++i) d[i] = sym::fun(("f" + S(i)).c_str(), a); }; }
// an attempt of any kind: n-th call, accepted or not
static int serial; static Attempt attempt(bool acc, bool flags) { int i = serial++; Attempt a; a.h = sym::real_in(("h" + S(i)).c_str(), 0.25, 1); a.err = sym::real(("err" + S(i)).c_str()); a.acc = acc; a.chg = flags && sym::flag(("chg" + S(i)).c_str()); int k = flags && acc ? sym::choice(("trunc" + S(i)).c_str(), 5) : 0; a.trunc = k > 0; a.izf = k == 0 || k == 1 ? ~0u : k == 2 ? 1 : 0; a.dir = k == 2 ? -1 : k == 3 ? 1 : 0; a.its = 0; return a; }
static void goes(Script& s, const Attempt& a) { if (a.acc) { int i = serial; s.t += a.trunc ? a.h * 0.5 : a.h; for (unsigned k = 0; k < s.x.size(); ++k) s.x[k] = sym::real(("x" + S(i) + "_" + S(k)).c_str()); } s.report(a); }
// where reports go
struct Console { std::ostringstream os; std::streambuf* was; Console() { was = std::cout.rdbuf(os.rdbuf()); } ~Console() { std::cout.rdbuf(was); } };
struct Scratch { std::string name; Scratch(const char* n = "a") { name = "/tmp/verif_c28_" + S((int)getpid()) + n; } ~Scratch() { ::unlink(name.c_str()); } std::string read() const { std::ifstream f(name); std::ostringstream o; o << f.rdbuf(); return o.str(); } };
static Words split(const std::string& s, const std::string& by) { Words r; size_t at = 0; for (;;) { size_t e = s.find(by, at); if (e == std::string::npos) { r.push_back(s.substr(at)); return r; } r.push_back(s.substr(at, e - at)); at = e + by.size(); } }
static Words lines(const std::string& s) { Words r = split(s, "\n"); sym::check(!r.empty() && r.back().empty(), "a report ends with its last line"); if (!r.empty()) r.pop_back(); return r; }
static int prec = 6;
static double as(double x) { std::ostringstream o; o.precision(prec); o << x; return std::stod(o.str()); }   // a number as it is written
static void number(const std::string& w, double x, const std::string& l) { char* e; double y = std::strtod(w.c_str(), &e); sym::check(!w.empty() && !*e, l + " (a number)"); if (!w.empty() && !*e) sym::check_eq(y, as(x), l); }
static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
// a run with one report of the type given; returns what was reported
struct Run { Cfg c; Scratch f; bool file; std::string text; Script* s = nullptr; double t0; V x0; Run(const char* slot, const char* type, const Params& p, double duration, double timing, bool file_) : file(file_) { c.setValue("rhs", "user_model"); c.setValue("solver", "user_solver"); c.setValue("time", duration); c.setValue("output_timing", timing); c.setValue(slot, type); for (auto& q : p) c.setValue(std::string(slot) + "." + q.first, q.second); if (file) c.setValue(std::string(slot) + ".file_name", f.name); t0 = sym::real_in("t0", -4, 4); x0 = symVec("x", 2 * Model::n2 + Model::n1); }
    void go() { Console con; auto sc = c.apply(std::set<unsigned>(), t0, x0); s = dynamic_cast<Script*>(sc.solver().get()); sym::check(s != nullptr, "the solver is the one configured"); solveOde(&c, &sc); sym::check(file ? con.os.str().empty() : true, "reports go to the file given"); text = file ? f.read() : con.os.str(); prec = file ? 16 : 6; } };

// --- the run ---
SYM_HARNESS(duration_real, REAL) { init(); Cfg c; c.setValue("rhs", "user_model"); c.setValue("solver", "user_solver"); double d = sym::real_in("duration", -1, 1), t0 = sym::real("t0"); c.setValue("time", d); auto sc = c.apply(std::set<unsigned>(), t0, symVec("x", 1)); auto* s = dynamic_cast<Script*>(sc.solver().get()); sym::check(s != nullptr, "the solver is the one configured"); int k = 0; Script::step = [&](Script& s) { double h = sym::real_in(("h" + S(k++)).c_str(), 0.25, 1); s.t += h; }; solveOde(&c, &sc); sym::check(!s->starts.empty() && s->inits.size() == 1, "at least one step is made, from the initial state"); if (s->starts.empty()) return; sym::check_eq(s->starts[0], t0, "the first step starts at the initial time"); for (size_t i = 1; i < s->starts.size(); ++i) sym::check(sym::lt(s->starts[i], t0 + d), "no step starts at or after the end"); sym::check(sym::ge(s->t, t0 + d), "the run reaches the end"); sym::reach("duration"); }
SYM_HARNESS(again_real, REAL) { init(); Cfg c; c.setValue("rhs", "user_model"); c.setValue("solver", "user_solver"); c.setValue("time", 1.); double t0 = sym::real("t0"); auto sc = c.apply(std::set<unsigned>(), t0, symVec("x", 1)); auto* s = dynamic_cast<Script*>(sc.solver().get()); Script::step = [&](Script& s) { s.t += 0.5; }; solveOde(&c, &sc); double t = s->t; size_t n = s->starts.size(); sym::check(n == 2, "the run stops at the end"); solveOde(&c, &sc); sym::check(s->starts.size() == 2 * n && s->inits.size() == 1, "another run goes on from where the last one ended"); sym::check_eq(s->starts[n], t, "another run goes on from where the last one ended"); sym::check_eq(s->t, t + 1, "another run lasts as long"); double t1 = sym::real("t1"); auto sd = c.apply(std::set<unsigned>(), t1, symVec("y", 1)); sym::check(sd.solver() == sc.solver() && s->inits.size() == 2, "applying again starts anew"); sym::check_eq(s->t, t1, "applying again starts anew"); sym::reach("again"); }
// --- what a run starts from ---
SYM_HARNESS(start_real, REAL) { init(); Cfg c; bool model = sym::flag("model"), solver = sym::flag("solver"), ref = sym::flag("reference"); int state = sym::choice("state", 5); Model::n2 = sym::choice("n2", 2); unsigned n = 2 * Model::n2 + 1; if (model) c.setValue("rhs", "user_model"); c.setValue("solver", solver ? "user_solver" : ""); if (ref) c.setValue("reference_solver", "user_solver"); double t0 = sym::real("t0"), t1 = sym::real("t1"); V x = symVec("x", n), y = symVec("y", n); if (state) { c.setValue("init_state", "specified"); int m = (int)n + (state == 2 ? 1 : state == 3 ? -1 : state == 4 ? -(int)n : 0); c.setValue("init_state.size", m); c.setValue("init_state.time", t1); for (int i = 0; i < m && i < (int)n; ++i) c.setValue("init_state.x" + S(i), y[i]); } bool threw = false, good = solver && (!state || (model && state == 1)); try { auto sc = c.apply(std::set<unsigned>(), t0, x); if (good) { sym::check(!!sc.solver() && !!sc.refSolver() == ref, "the solvers are those configured"); sym::check(!!sc.odeRhs() == model && dynamic_cast<const Model*>(sc.odeRhs().get()) == dynamic_cast<const Model*>(c.parameterProvider()->odeRhs().get()), "the model is the one configured"); for (auto* s : {dynamic_cast<Script*>(sc.solver().get()), dynamic_cast<Script*>(sc.refSolver().get())}) if (s) { sym::check(s->odeRhs() == sc.odeRhs(), "solvers are given the model"); sym::check(s->inits.size() == 1 && !s->softs[0], "a run starts from its initial state"); sym::check_eq(s->t, state ? t1 : t0, "the initial time"); checkVec(s->x, state ? y : x, "the initial state"); } sym::check(sc.solver() != sc.refSolver(), "the reference solver is another one");
        if (!model) { bool t = false; try { solveOde(&c, &sc); } catch (cxx::exception&) { t = true; } auto* s = dynamic_cast<Script*>(sc.solver().get()); sym::check(t && s->starts.empty(), "no run without a model"); } else { auto* r = dynamic_cast<Script*>(sc.refSolver().get()); solveOde(&c, &sc); if (r) sym::check(r->starts.empty(), "the reference solver is left to the user"); } } } catch (cxx::exception&) { threw = true; } sym::check(threw == !good, "a run with missing parts or a state of the wrong size is refused"); sym::reach("start"); }
SYM_HARNESS(components_real, REAL) { init(); bool by = sym::flag("pieces"); Cfg c; const char* types[] = {"euler", "rk4", "dopri_45", "gragg", "i_euler", "user_solver"}; std::string type = types[sym::choice("solver", 6)]; double h = sym::real_in("h", 0.125, 0.5); if (by) { c.setValue("solver", type); c.setValue("solver.h_init", h); } else { Params p; p["h_init"] = h; c.setValue("solver", OptionalParameters::Value(type, p)); } c.setValue("rhs", "user_model"); auto sc = c.apply(std::set<unsigned>(), 0, symVec("x", 1)); auto g = dynamic_cast<TypeIdGetter<OdeSolver<VD>>*>(sc.solver().get()); sym::check(g && g->typeId() == type, "the solver is the one configured"); sym::check_eq(sc.solver()->initialStepSize(), h, "the solver has the parameters configured"); sym::check(sc.solver() == c.parameterProvider()->solver() && sc.odeRhs() == c.parameterProvider()->odeRhs() && sc.solver()->odeRhs() == sc.odeRhs(), "the solver and model are those configured"); sym::reach("components"); }
// a run by configuration does what the same done by hand does
static void byHand(const char* type, int n2, int n1) { init(); Model::n2 = n2; Model::n1 = n1; int n = 2 * n2 + n1; Cfg c; double h = sym::real_in("h", 0.375, 0.5), d = sym::real_in("duration", 0.25, 1), t0 = sym::real_in("t0", -4, 4); c.setValue("rhs", "user_model"); c.setValue("solver", type); c.setValue("solver.h_init", h); c.setValue("time", d); c.setValue("output_file", "con_solution"); Scratch f; c.setValue("output_file.file_name", f.name); V x = symVec("x", n); auto sc = c.apply(std::set<unsigned>(), t0, x); auto s = newSolver(type); s->setInitialStepSize(h); auto m = std::make_shared<Model>(); s->setOdeRhs(m); s->setInitialState(t0, x); solveOde(&c, &sc); Words ls = lines(f.read()); prec = 16; sym::check(ls.size() >= 2, "the start is reported"); size_t k = 1; for (;; ++k) { if (k >= ls.size()) { sym::check(false, "every accepted step is reported"); return; } Words w = split(ls[k], "\t"); sym::check((int)w.size() == n + 1, "a record has the time and the variables"); if ((int)w.size() != n + 1) return; number(w[0], s->initialTime(), "the time reported is the one reached"); V y = s->initialState(); for (int i = 0; i < n; ++i) number(w[i + 1], y[i], "the state reported is the one reached"); if (k > 1 && !sym::decide(sym::lt(s->initialTime(), t0 + d))) break; s->doStep(); } sym::check(k + 1 == ls.size(), "no more steps are made"); sym::check_eq(sc.solver()->initialTime(), s->initialTime(), "the run ends where the solver by hand does"); checkVec(sc.solver()->initialState(), s->initialState(), "the run ends where the solver by hand does"); sym::reach("by hand"); }
SYM_HARNESS(by_hand_euler_real, REAL) { byHand("euler", 0, 1); }
SYM_HARNESS(by_hand_euler2_real, REAL) { byHand("euler", 1, 1); }
SYM_HARNESS(by_hand_rk4_real, REAL) { byHand("rk4", 0, 1); }

// --- what each step was: con_general ---
static void general(int steps, bool rej, double timing, bool file) { init(); serial = 0; int left = steps; Run r("output_con", "con_general", Params(), 1e9, timing, file); Script::step = [&](Script& s) { if (rej && left > 1 && sym::flag(("rej" + S(left)).c_str())) { goes(s, attempt(false, true)); --left; } goes(s, attempt(true, true)); if (--left <= 0) s.t = 2e9; }; r.go(); Words ls = lines(r.text); size_t at = 0; bool any = false; double last = 0; for (size_t i = 0; i < r.s->log.size(); ++i) { auto& a = r.s->log[i]; double t = a.t; bool due = timing <= 0 || a.trunc || !any || sym::decide(sym::ge(t, last + timing)); if (!due) continue; any = true; last = t; if (at >= ls.size()) { sym::check(false, "every step is reported"); return; } Words w = split(ls[at++], ", "); size_t want = 5 + a.chg + a.trunc; sym::check(w.size() == want, "a record tells all about the step"); if (w.size() != want) return; sym::check(w[0] == "step " + S((int)i + 1), "steps are counted"); sym::check(starts(w[1], "time = ") && starts(w[2], "h = ") && starts(w[3], "err = "), "a record tells time, step size and error"); number(w[1].substr(7), t, "the time reported"); number(w[2].substr(4), a.h, "the step size reported"); number(w[3].substr(6), a.err, "the error reported"); sym::check(w[4] == (a.acc ? "accepted" : "rejected"), "a record tells if the step was accepted"); if (a.chg) sym::check(w[5] == "step size changed", "a record tells if the step size changed"); if (a.trunc) sym::check(w.back() == (a.izf == ~0u ? std::string("step truncated") : std::string("step truncated due to ") + (a.izf ? "ceiling " : "floor ") + (a.dir > 0 ? "+" : a.dir < 0 ? "-" : "?")), "a record tells which event truncated the step"); } sym::check(at == ls.size(), "nothing else is reported"); sym::reach("general"); }
SYM_HARNESS(general_real, REAL) { general(3, true, 0, false); }
SYM_HARNESS(general_interval_real, REAL) { general(3, true, sym::flag("negative") ? -1 : 0.75, true); }
SYM_HARNESS(general_interval_real_thorough, REAL) { general(4, true, 0.75, true); }
SYM_HARNESS(iterations_real, REAL) { init(); Run r("output_con", "con_general", Params(), 1, 0, sym::flag("file")); auto nw = std::make_shared<NdNewton>(); int its = sym::choice("iterations", 4); double alpha = sym::real("alpha"); struct P : NewtonIterationPerformer<VD> { double a; double currentStepRatio() const { return a; } unsigned n() const { return 0; } }; auto def = nw->iterationPerformer(); Script::step = [&](Script& s) { for (int i = 0; i < its; ++i) { bool stop = s.iterationObservers(i, nw.get()); sym::check(!stop, "reporting does not stop the iterations"); } Attempt a{1, 0, 0, V(), true, false, false, ~0u, 0, its}; s.t += 1; s.report(a); }; (void)alpha; r.go(); Words ls = lines(r.text); sym::check((int)ls.size() == its + 1, "each iteration is reported once"); for (int i = 0; i < its && i < (int)ls.size(); ++i) sym::check(ls[i].find("Newton it. " + S(i + 1) + ",") != std::string::npos, "iterations are counted from one"); if (!ls.empty()) sym::check(starts(ls.back(), "step 1,"), "iterations are reported before their step"); sym::reach("iterations"); }

// --- the solution: con_solution ---
static std::vector<unsigned> shown(unsigned n2, unsigned n1, unsigned lim) { std::vector<unsigned> r; unsigned b[4] = {0, n2, 2 * n2, 2 * n2 + n1}; for (int g = 0; g < 3; ++g) for (unsigned i = b[g]; i < b[g + 1]; ++i) { unsigned k = i - b[g], n = b[g + 1] - b[g]; if (k < lim || n - k <= lim || n <= 2 * lim) r.push_back(i); } return r; }
static void solution(const char* slot, unsigned n2, unsigned n1, int lim, int steps, bool rej, double timing, bool file) { init(); serial = 0; Model::n2 = n2; Model::n1 = n1; Params p; if (lim >= 0) p["size_half_lim"] = (unsigned)lim; unsigned L = lim < 0 ? 5 : lim; int left = steps; Run r(slot, "con_solution", p, 1e9, timing, file); Script::step = [&](Script& s) { if (rej && sym::flag(("rej" + S(left)).c_str())) goes(s, attempt(false, false)); goes(s, attempt(true, false)); if (--left <= 0) s.t = 2e9; }; r.go(); Words ls = lines(r.text); auto idx = shown(n2, n1, L); std::string head = "time"; for (auto i : idx) head += "\t" + (n2 == 0 || i < n2 ? "x" + S(i) : i < 2 * n2 ? "v" + S(i - n2) : "z" + S(i - 2 * n2)); sym::check(!ls.empty() && ls[0] == head, "the columns are named"); size_t at = 1; double last = r.t0; auto row = [&](double t, const V& x) { if (at >= ls.size()) { sym::check(false, "every record due is written"); return; } Words w = split(ls[at++], "\t"); sym::check(w.size() == idx.size() + 1, "a record has the time and the variables"); if (w.size() != idx.size() + 1) return; number(w[0], t, "the time reported is the one reached"); for (size_t k = 0; k < idx.size(); ++k) number(w[k + 1], x[idx[k]], "the state reported is the one reached"); last = t; }; row(r.t0, r.x0); for (auto& a : r.s->log) if (a.acc && (timing <= 0 || sym::decide(sym::ge(a.t, last + timing)))) row(a.t, a.x); sym::check(at == ls.size(), "nothing else is reported"); sym::reach("solution"); }
SYM_HARNESS(solution_real, REAL) { solution("output_con", 0, 2, -1, 3, true, 0, false); }
SYM_HARNESS(solution_file_real, REAL) { solution("output_file", 1, 1, -1, 2, true, 0, true); }
SYM_HARNESS(solution_interval_real, REAL) { solution("output_file", 0, 1, -1, 3, true, 0.75, true); }
SYM_HARNESS(solution_interval_real_thorough, REAL) { solution("output_file", 1, 0, -1, 4, true, 0.75, true); }
SYM_HARNESS(solution_columns_real, REAL) { int n2 = sym::choice("n2", 4), n1 = sym::choice("n1", 6), lim = sym::choice("limit", 4); if (n2 + n1 == 0) return; solution("output_con", n2, n1, lim, 1, false, 0, false); }
SYM_HARNESS(solution_default_columns_real, REAL) { solution("output_con", sym::flag("second") ? 11 : 0, 9 + sym::choice("n", 4), -1, 1, false, 0, false); }

// --- columnwise ---
static void columns(unsigned n2, unsigned n1, int maxSteps, int steps, bool rej, double timing, bool file) { init(); serial = 0; Model::n2 = n2; Model::n1 = n1; unsigned n = 2 * n2 + n1; Params p; if (maxSteps >= 0) p["max_steps"] = (unsigned)maxSteps; unsigned L = maxSteps < 0 ? 10 : maxSteps; int left = steps; Run r("output_file", "con_solution_columnwise", p, 1e9, timing, file); Script::step = [&](Script& s) { if (rej && sym::flag(("rej" + S(left)).c_str())) goes(s, attempt(false, false)); goes(s, attempt(true, false)); if (--left <= 0) s.t = 2e9; }; r.go(); std::vector<std::pair<double, V>> cols; if (L > 0) cols.push_back({r.t0, r.x0}); double last = r.t0; for (auto& a : r.s->log) if (a.acc && cols.size() < L && (timing <= 0 || sym::decide(sym::ge(a.t, last + timing)))) { cols.push_back({a.t, a.x}); last = a.t; } Words ls = lines(r.text); sym::check(ls.size() == n + 2, "a line per variable"); if (ls.size() != n + 2) return; std::string head = "index\tname"; for (size_t k = 0; k < cols.size(); ++k) head += "\tn" + S((int)k); sym::check(ls[0] == head, "the columns are named"); for (unsigned i = 0; i <= n; ++i) { Words w = split(ls[i + 1], "\t"); sym::check(w.size() == cols.size() + 2, "a column per record"); if (w.size() != cols.size() + 2) return; sym::check(w[0] == S((int)i - 1) && (i ? !w[1].empty() : w[1] == "time"), "lines are numbered and named"); for (size_t k = 0; k < cols.size(); ++k) number(w[k + 2], i ? cols[k].second[i - 1] : cols[k].first, i ? "the state reported is the one reached" : "the time reported is the one reached"); for (unsigned j = 1; j < i; ++j) sym::check(split(ls[j + 1], "\t")[1] != w[1], "each variable has its name"); } sym::reach("columns"); }
SYM_HARNESS(columns_real, REAL) { columns(sym::choice("n2", 2), 1, sym::choice("limit", 5), 3, true, 0, sym::flag("file")); }
SYM_HARNESS(columns_interval_real, REAL) { columns(0, 1, 3, 3, true, 0.75, true); }
SYM_HARNESS(columns_default_real, REAL) { columns(0, sym::flag("many") ? 11 : 1, -1, 11, false, 0, true); }

// --- statistics ---
static std::string field(const Words& ls, const std::string& head) { std::string r; int n = 0; for (auto& l : ls) if (starts(l, head)) { r = l.substr(head.size()); ++n; } sym::check(n == 1, "'" + head + "' is reported once"); return r; }
static long count(const std::string& s) { return std::strtol(s.c_str(), nullptr, 10); }
struct Truth { long all = 0, rej = 0, chg = 0, tr = 0, rhs = 0, jac = 0, jrhs = 0; double sum = 0; };
static void sameStats(const Words& ls, const Truth& t) { sym::check(count(field(ls, "Total steps: ")) == t.all, "all steps are counted"); sym::check(count(field(ls, "Rejected steps: ")) == t.rej, "rejected steps are counted"); sym::check(count(field(ls, "Step changes: ")) == t.chg, "changes of the step size are counted"); sym::check(count(field(ls, "Truncated steps: ")) == t.tr, "truncated steps are counted"); sym::check(count(field(ls, "Number of ODE RHS evaluations to refresh Jacobian: ")) == t.jrhs, "evaluations for the Jacobian are counted"); Words w = split(field(ls, "Total number of ODE RHS evaluations: "), " "); sym::check(w.size() == 5 && count(w[0]) == t.rhs && count(w[2]) == t.rhs - t.jrhs && count(w[4]) == t.jrhs, "evaluations are counted"); number(field(ls, "Average step size: "), t.sum / (t.all - t.rej), "the average step size is that of the accepted steps"); for (auto& l : ls) { if (starts(l, "TIMING: ODE RHS")) sym::check(count(l.substr(l.find("count = ") + 8)) == t.rhs, "evaluations are counted"); if (starts(l, "TIMING: Jacobian")) sym::check(count(l.substr(l.find("count = ") + 8)) == t.jac, "refreshments of the Jacobian are counted"); } auto pc = [&](const char* h, long n) { std::string s = field(ls, h); size_t b = s.find('('); sym::check(b != std::string::npos, "the share is told"); if (b != std::string::npos) sym::check(std::fabs(std::strtod(s.c_str() + b + 1, nullptr) - 100. * n / t.all) < 1e-3, "the share is that of all steps"); }; pc("Rejected steps: ", t.rej); pc("Step changes: ", t.chg); pc("Truncated steps: ", t.tr); }
static void stats(int steps, bool twice) { init(); serial = 0; Truth t; int left = 0, start = 0; Run r("output_stats", "stats_full", Params(), 1, 0, sym::flag("file")); auto eval = [&](Script& s, int n) { for (int i = 0; i < n; ++i) { V d(1); s.odeRhs()->rhs(d, s.t, s.x); ++t.rhs; } }; Script::step = [&](Script& s) { int mode = sym::choice(("mode" + S(left)).c_str(), 4); if (mode & 1) { s.jacobianRefreshObservers(true); eval(s, mode); s.jacobianRefreshObservers(false); ++t.jac; t.jrhs += mode; } eval(s, left % 3); if (mode & 2) { Attempt a = attempt(false, false); a.chg = true; goes(s, a); ++t.all; ++t.rej; ++t.chg; } Attempt a = attempt(true, false); int k = sym::choice(("kind" + S(left)).c_str(), 3); a.chg = k == 1; a.trunc = k == 2; goes(s, a); ++t.all; t.chg += a.chg; t.tr += a.trunc; t.sum += a.h; s.t = ++left < steps ? start : start + 2; }; start = 0; r.t0 = 0; r.go(); sameStats(lines(r.text), t); if (twice) { t = Truth(); left = 0; r.go(); sameStats(lines(r.text), t); } { t = Truth(); int had = r.s->log.size(); left = 0; Script::step(*r.s); sym::check((int)r.s->log.size() > had, "steps are possible after the report"); } sym::reach("stats"); }
SYM_HARNESS(stats_real, REAL) { stats(2, false); }
SYM_HARNESS(stats_again_real, REAL) { stats(1, true); }
SYM_HARNESS(stats_real_thorough, REAL) { stats(3, false); }

// --- reports together, and around the run ---
SYM_HARNESS(together_real, REAL) { init(); serial = 0; Cfg c; Scratch a("1"), b("2"), d("3"); c.setValue("rhs", "user_model"); c.setValue("solver", "user_solver"); c.setValue("reference_solver", "user_solver"); c.setValue("time", 1e9); const char* k[] = {"con_general", "con_solution", "con_solution_columnwise", "stats_full", ""}; const char* slots[] = {"output_stats", "output_con", "output_file"}; Scratch* fs[] = {&a, &b, &d}; int sel[3]; for (int i = 0; i < 3; ++i) { sel[i] = sym::choice(slots[i], 5); c.setValue(slots[i], k[sel[i]]); if (sel[i] < 4) c.setValue(std::string(slots[i]) + ".file_name", fs[i]->name); } int left = 2; Script::step = [&](Script& s) { goes(s, attempt(true, false)); if (--left <= 0) s.t = 2e9; }; Console con; auto sc = c.apply(std::set<unsigned>(), 0, symVec("x", 1)); solveOde(&c, &sc); auto* ref = dynamic_cast<Script*>(sc.refSolver().get()); for (int i = 0; i < 3; ++i) { std::string text = fs[i]->read(); if (sel[i] == 4) { sym::check(text.empty(), "no report where none is configured"); continue; } Words ls = lines(text); const size_t want[] = {2, 4, 3}; if (sel[i] < 3) sym::check(ls.size() == want[sel[i]], "each report is complete"); else sym::check(count(field(ls, "Total steps: ")) == 2, "each report is complete"); } sym::check(con.os.str().empty(), "reports go to the files given"); auto* s = dynamic_cast<Script*>(sc.solver().get()); std::string before[3]; for (int i = 0; i < 3; ++i) before[i] = fs[i]->read(); sym::check(s->odeSolverPostObservers.empty() && ref->odeSolverPostObservers.empty() && s->iterationObservers.empty() && s->jacobianRefreshObservers.empty() && sc.odeRhs()->odeRhsPreObservers.empty() && sc.odeRhs()->odeRhsPostObservers.empty(), "nobody listens after the run"); left = 1; s->doStep(); for (int i = 0; i < 3; ++i) sym::check(before[i] == fs[i]->read(), "steps after the run are not reported"); sym::reach("together"); }
SYM_HARNESS(unwritable_real, REAL) { init(); Cfg c; c.setValue("rhs", "user_model"); c.setValue("solver", "user_solver"); const char* k[] = {"con_general", "con_solution", "con_solution_columnwise", "stats_full"}; const char* slots[] = {"output_stats", "output_con", "output_file"}; std::string slot = slots[sym::choice("slot", 3)]; c.setValue(slot, k[sym::choice("kind", 4)]); c.setValue(slot + ".file_name", "/nonexistent_c28/report"); auto sc = c.apply(std::set<unsigned>(), 0, symVec("x", 1)); bool threw = false; try { solveOde(&c, &sc); } catch (std::exception&) { threw = true; } auto* s = dynamic_cast<Script*>(sc.solver().get()); sym::check(threw && s->starts.empty(), "a report that cannot be written is refused before the run"); sym::reach("unwritable"); }
