// C22: components configured by parameters behave as the parameters say.
#include <cstring>
#include <map>
#include <set>
#include "ode_common.h"
#include "alg_common.h"
#include "../src/reg_ode_solvers.cpp"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
#include "ode_num_int/OdeSolverOutputClassesRegistrator.h"
#include "ode_num_int/OdeStepMappingClassesRegistrator.h"
#include "ode_num_int/OdeSolverConfiguration.h"
typedef OptionalParameters::Value Value; typedef std::vector<std::string> Path;
static ctm::testmodels::OdeTestModelClassesRegistrator<VD> theModels;
// components of the user's own, created by name like the others
struct UserCtl : OdeStepSizeController<VD>, FactoryMixin<UserCtl, OdeStepSizeController<VD>> { double gain = 1; bool flip = false; Result controlStepSize(double h, double e, double p) const { return Result(h * gain, true, flip); } Parameters parameters() const { Parameters r; r["gain"] = gain; r["flip"] = flip; return r; } void setParameters(const Parameters& p) { maybeLoadParameter(p, "gain", gain); maybeLoadParameter(p, "flip", flip); } };
struct UserNorm : ErrorNormCalculator<VD>, FactoryMixin<UserNorm, ErrorNormCalculator<VD>> { double weight = 1; double errorNorm(const V& e) const { double s = 0; for (unsigned i = 0; i < e.size(); ++i) s += weight * e[i]; return s; } Parameters parameters() const { Parameters r; r["weight"] = weight; return r; } void setParameters(const Parameters& p) { maybeLoadParameter(p, "weight", weight); } };
struct UserNewton : NdNewton, FactoryMixin<UserNewton, NewtonSolverInterface<VD>> { UserNewton() { f = [](const VectorMapping<VD>& m, const V& g, V& y) { V r(m.outputSize()); m.map(r, g); y = g; for (unsigned i = 0; i < y.size(); ++i) y[i] = g[i] - 0.5 * r[i]; return NdNewton::Converged; }; } };
static UserCtl::Registrator r1("user_ctl"); static UserNorm::Registrator r2("user_norm"); static UserNewton::Registrator r3("user_newton");

enum Kind { Real, Bool, Uint, Int, Enum, Text, Type };
static Kind kindOf(const std::string& k, const Value& v) { static const std::set<std::string> ty = {"algsolver", "ddir", "err", "itperf", "jacobian", "jtrim", "linsearch", "regularizer", "eventctl", "predictor", "reorder", "stepsizectl", "enorm", "reference_solver", "step_sequence", "rhs", "solver", "output_con", "output_file", "output_stats", "init_state"}; if (v.typeRegistryGetter() || ty.count(k)) return Type; static const std::set<std::string> b = {"disable_error_check", "force_error_calc", "smooth", "symmetric", "flip"}, u = {"max_stages", "max_iterations", "lazy_iterations", "width", "predictor_steps", "n", "size_half_lim", "max_steps"}, e = {"mode", "friction"}, t = {"file_name", "simout_basename"}; if (b.count(k)) return Bool; if (u.count(k)) return Uint; if (k == "size") return Int; if (e.count(k)) return Enum; if (t.count(k)) return Text; return Real; }
struct Leaf { Path p; Kind k; };
static void leaves(const Params& t, Path at, std::vector<Leaf>& r) { for (auto& q : t) { Path p = at; p.push_back(q.first); r.push_back(Leaf{p, kindOf(q.first, q.second)}); if (q.second.nestedParameters()) leaves(*q.second.nestedParameters(), p, r); } }
static std::string dots(const Path& p) { std::string s; for (auto& q : p) s += (s.empty() ? "" : ".") + q; return s; }
static void sameValue(const Value& a, const Value& b, Kind k, const std::string& l) { if (k == Real) sym::check_eq(a.value<double>(), b.value<double>(), l); else sym::check(a.value<std::string>() == b.value<std::string>(), l); }
static void sameTree(const Params& a, const Params& b, const std::string& l) { for (auto& q : a) { auto it = b.find(q.first); sym::check(it != b.end(), l + " (" + q.first + " is there)"); if (it == b.end()) continue; sameValue(q.second, it->second, kindOf(q.first, q.second), l + " (" + q.first + ")"); auto *m = q.second.nestedParameters(), *n = it->second.nestedParameters(); sameTree(m ? *m : Params(), n ? *n : Params(), l); } sym::check(a.size() == b.size(), l + " (no more parameters)"); }
static Params deep(const Params& p) { Params r; for (auto& q : p) { r[q.first] = q.second; if (q.second.nestedParameters()) *(&r[q.first]) = Value(q.second.value<std::string>(), deep(*q.second.nestedParameters())); } return r; }
// one leaf set to another value of its kind, as a tree holding that leaf only
static Params only(const Path& p, const Value& v, const Params& whole) { Params r; auto& w = whole.at(p[0]); if (p.size() == 1) r[p[0]] = v; else r[p[0]] = Value(w.value<std::string>(), only(Path(p.begin() + 1, p.end()), v, *w.nestedParameters())); return r; }
static Value newValue(const Leaf& l, double x) { int i = sym::choice("value", 3); switch (l.k) { case Real: return Value(x); case Bool: return i < 2 ? Value(i == 1) : Value(std::string("1")); case Uint: return i == 0 ? Value(3u) : i == 1 ? Value(0u) : Value(std::string("+12")); case Int: return Value(i); case Enum: return l.p.back() == "mode" ? Value(i ? "high" : "low") : Value(i == 0 ? "atan" : i == 1 ? "linear" : "tabular"); default: return Value(i ? "some text/with.dots" : ""); } }
static std::string canonical(const Leaf& l, const Value& v) { std::string s = v.value<std::string>(); if (l.k == Bool) return s == "1" ? "true" : s; if (l.k == Uint) return s[0] == '+' ? s.substr(1) : s; return s; }
template <class I> static Params treeOf(const std::shared_ptr<I>& o) { auto op = dynamic_cast<OptionalParameters*>(o.get()); return op ? op->parameters() : Params(); }
// every parameter of a component: set alone, it is taken, reported back, and nothing else changes
template <class I> static void each(const char* iface, const Params* configured = nullptr) { bool mapping = !strcmp(iface, "mapping"); // whose setters demand a positive step and a weight
   
    auto types = Factory<I>::registeredTypes(); std::string type = types[configured ? 0 : sym::choice(iface, (int)types.size())]; auto o = Factory<I>::newInstance(type); auto other = Factory<I>::newInstance(type); sym::check(o && o != other, "each instance is a new one"); auto g = dynamic_cast<TypeIdGetter<I>*>(o.get()); sym::check(g && g->typeId() == type, "an instance is of the type asked for"); sym::check(Factory<I>::isTypeRegistered(type), "registered types are registered");
    auto op = dynamic_cast<OptionalParameters*>(o.get()); sym::reach("types"); if (!op) return; Params first = op->parameters(); sameTree(first, dynamic_cast<OptionalParameters&>(*other).parameters(), "instances start alike"); if (configured) { op->setParameters(*configured); dynamic_cast<OptionalParameters&>(*other).setParameters(*configured); } Params was = op->parameters(); op->setParameters(Params()); sameTree(op->parameters(), was, "no parameters change nothing"); std::vector<Leaf> ls; leaves(was, Path(), ls); if (ls.empty()) return; Leaf l = ls[sym::choice("parameter", (int)ls.size())]; if (configured && l.p.size() > 1) return; // a nested component is a new one
    double x = mapping ? sym::real_in("x", 0.0009765625, 1) : sym::real("x"); Params want = deep(was); std::string path = dots(l.p);
    Value& slot = OptionalParameters::value(want, path); if (l.k == Type) { auto reg = OptionalParameters::value(was, path).typeRegistryGetter()(); if (reg.empty()) return; std::string t = reg[sym::choice("type", (int)reg.size())]; op->setParameters(only(l.p, Value(t), was)); Params now = op->parameters(); sym::check(OptionalParameters::value(now, path).value<std::string>() == t, "a component asked for is there"); Params nested = OptionalParameters::value(now, path).safeNestedParameters(); slot = Value(t, nested); sameTree(now, want, "setting one component changes nothing else"); }
    else { Value v = newValue(l, x); op->setParameters(only(l.p, v, was)); Params now = op->parameters(); Value& got = OptionalParameters::value(now, path); if (l.k == Real) sym::check_eq(got.value<double>(), x, "a parameter set is reported back"); else sym::check(got.value<std::string>() == canonical(l, v), "a parameter set is reported back"); if (l.p.back() == "size") { int n = v.value<int>(); for (int i = 0; i < n; ++i) want["x" + S(i)] = Value(0.); } slot = Value(canonical(l, v), slot.safeNestedParameters()); sameTree(now, want, "setting one parameter changes nothing else"); }
    Params now = op->parameters(); auto copy = Factory<I>::newInstance(type); dynamic_cast<OptionalParameters&>(*copy).setParameters(now); sameTree(treeOf(copy), now, "a component given the parameters of another reports the same"); sameTree(dynamic_cast<OptionalParameters&>(*other).parameters(), was, "other components stay as they were"); Value byType(o); sym::check(byType.value<std::string>() == type, "a value made of a component is its type"); auto again = byType.value<std::shared_ptr<I>>(); sym::check(again && again != o, "a value made of a component makes new ones"); sameTree(treeOf(again), now, "a value made of a component makes ones alike"); sym::reach("parameter"); }
SYM_HARNESS(solvers_real, REAL) { each<OdeSolver<VD>>("solver"); }
SYM_HARNESS(models_real, REAL) { each<OdeRhs<VD>>("rhs"); }
SYM_HARNESS(controllers_real, REAL) { each<OdeStepSizeController<VD>>("controller"); }
SYM_HARNESS(events_real, REAL) { each<OdeEventController<VD>>("events"); }
SYM_HARNESS(norms_real, REAL) { each<ErrorNormCalculator<VD>>("norm"); }
SYM_HARNESS(outputs_real, REAL) { each<OdeSolverOutputOption<VD>>("output"); }
SYM_HARNESS(states_real, REAL) { each<OdeInitState<VD>>("state"); }
SYM_HARNESS(newton_real, REAL) { each<NewtonSolverInterface<VD>>("newton"); }
SYM_HARNESS(configured_newton_real, REAL) { Params n; n["ddir"] = "hart"; n["jacobian"] = "sparse"; Params w; w["width"] = 3u; n["jtrim"] = Value("width", w); n["max_iterations"] = 7u; Params e; e["abs_tol"] = 0.5; n["err"] = Value("simple", e); each<NewtonSolverInterface<VD>>("newton", &n); }
SYM_HARNESS(descent_real, REAL) { each<NewtonDescentDirection<VD>>("ddir"); }
SYM_HARNESS(trimmers_real, REAL) { each<JacobianTrimmer<VD>>("jtrim"); }
SYM_HARNESS(estimators_real, REAL) { each<ErrorEstimator<VD>>("err"); }
SYM_HARNESS(searches_real, REAL) { each<NewtonLinearSearch<VD>>("linsearch"); }
SYM_HARNESS(performers_real, REAL) { each<NewtonIterationPerformer<VD>>("itperf"); }
SYM_HARNESS(jacobians_real, REAL) { each<JacobianProvider<VD>>("jacobian"); }
SYM_HARNESS(mappings_real, REAL) { each<OdeStepMapping<VD>>("mapping"); }
SYM_HARNESS(sequences_real, REAL) { each<ExtrapolatorStepSequence>("sequence"); auto r = Factory<ExtrapolatorStepSequence>::registeredTypes(); sym::check(r.size() == 3, "the step sequences can be asked for"); }
// names nobody registered, and values that are none of the parameter's kind, are refused and change nothing
template <class I> static void refuse(const char* iface) { auto types = Factory<I>::registeredTypes(); std::string type = types[sym::choice(iface, (int)types.size())]; auto o = Factory<I>::newInstance(type); auto op = dynamic_cast<OptionalParameters*>(o.get()); sym::reach("refuse"); if (!op) return; Params was = op->parameters(); std::vector<Leaf> ls; leaves(was, Path(), ls); if (ls.empty()) return; Leaf l = ls[sym::choice("parameter", (int)ls.size())]; std::vector<std::string> bad; switch (l.k) { case Real: bad = {"", "x", "1,5", "1e", "0x10", " 1", "1 ", "1 2", "--1", ".", "1e5.5", "nan()"}; break; case Bool: bad = {"", "yes", "True", "2", "00", "true "}; break; case Uint: bad = {"", "-1", "1.5", "1e3", "0x1", "4294967296", "99999999999999999999", "-4294967295", "3x", "true"}; break; case Int: bad = {"", "1.5", "-1", "2147483648", "one"}; break; case Enum: bad = {"", "High", "hig", "lows", "Atan", "table"}; break; case Text: return; case Type: bad = {"no_such_type", " ", "Euler", "simple "}; break; }
    std::string b = bad[sym::choice("bad", (int)bad.size())]; bool threw = false; try { op->setParameters(only(l.p, Value(b), was)); } catch (std::exception&) { threw = true; } sym::check(threw, "a value that is none is refused"); sameTree(op->parameters(), was, "a refused value leaves the parameters as they were"); }
SYM_HARNESS(refused_solvers_real, REAL) { refuse<OdeSolver<VD>>("solver"); }
SYM_HARNESS(refused_models_real, REAL) { refuse<OdeRhs<VD>>("rhs"); }
SYM_HARNESS(refused_newton_real, REAL) { refuse<NewtonSolverInterface<VD>>("newton"); }
SYM_HARNESS(refused_outputs_real, REAL) { refuse<OdeSolverOutputOption<VD>>("output"); }
SYM_HARNESS(refused_states_real, REAL) { refuse<OdeInitState<VD>>("state"); }
SYM_HARNESS(refused_trimmers_real, REAL) { refuse<JacobianTrimmer<VD>>("jtrim"); refuse<NewtonDescentDirection<VD>>("ddir"); }
template <class I> static void unknown(const char* what) { const char* bad[] = {"", "no_such_type", "Euler", "simple ", "default1"}; std::string b = bad[sym::choice(what, 5)]; size_t n = Factory<I>::registeredTypes().size(); bool threw = false; try { Factory<I>::newInstance(b); } catch (std::exception&) { threw = true; } sym::check(threw, "an unknown type is refused"); sym::check(!Factory<I>::isTypeRegistered(b) && Factory<I>::registeredTypes().size() == n, "asking for a type does not register it"); }
SYM_HARNESS(unknown_types_real, REAL) { switch (sym::choice("interface", 8)) { case 0: unknown<OdeSolver<VD>>("t"); break; case 1: unknown<OdeRhs<VD>>("t"); break; case 2: unknown<NewtonSolverInterface<VD>>("t"); break; case 3: unknown<OdeStepSizeController<VD>>("t"); break; case 4: unknown<OdeEventController<VD>>("t"); break; case 5: unknown<ErrorNormCalculator<VD>>("t"); break; case 6: unknown<OdeSolverOutputOption<VD>>("t"); break; default: unknown<ExtrapolatorStepSequence>("t"); } sym::reach("unknown"); }
// values and their text
SYM_HARNESS(values_real, REAL) { double x = sym::real("x"); Value v(x); sym::check_eq(v.value<double>(), x, "a number survives the way through its text"); double y = v; sym::check_eq(y, x, "a number survives the way through its text"); sym::check_eq(Value(v.value<std::string>()).value<double>(), x, "the text of a number is that number"); const double xs[] = {0., 1. / 3, -0.1, 1e-17, 123456789.123456789, 5e-300, 1.7e308, 0x1.fffffffffffffp-1, -2.2250738585072014e-308, 4503599627370497.5}; double c = xs[sym::choice("c", 10)]; sym::check(Value(c).value<double>() == c, "a number survives the way through its text");
    sym::reach("values"); }
SYM_HARNESS(integers_real, REAL) { const int is[] = {0, 7, -1, 2147483647, -2147483647 - 1}; int i = is[sym::choice("i", 5)]; sym::check(Value(i).value<int>() == i, "an integer survives the way through its text"); const unsigned us[] = {0u, 1u, 2147483648u, 4294967295u}; unsigned u = us[sym::choice("u", 4)]; sym::check(Value(u).value<unsigned>() == u, "an integer survives the way through its text"); if (i < 0) { bool t = false; try { Value(i).value<unsigned>(); } catch (std::exception&) { t = true; } sym::check(t, "negative numbers are no unsigned ones"); } if (u > 2147483647u) { bool t = false; try { Value(u).value<int>(); } catch (std::exception&) { t = true; } sym::check(t, "too large numbers are refused"); } sym::check(Value(i).value<double>() == i, "an integer is a number"); sym::reach("integers"); }
SYM_HARNESS(texts_real, REAL) { bool b = sym::flag("b"); sym::check(Value(b).value<bool>() == b && Value(b ? "1" : "0").value<bool>() == b, "a truth value survives the way through its text"); Value none; sym::check(none.value<std::string>().empty() && !none.nestedParameters() && none.safeNestedParameters().empty(), "an empty value is empty"); sym::check(!none.value<SolverPtr>(), "an empty value makes no component"); sym::check(Value(SolverPtr()).value<std::string>().empty(), "no component is an empty value"); const char* tx[] = {"", "a b\tc", "1.5", "{}"}; std::string s = tx[sym::choice("s", 4)]; sym::check(Value(s).value<std::string>() == s, "text stays as it is"); std::ostringstream os; os << Value(s); sym::check(os.str() == s, "text stays as it is"); const char* good[] = {"1", "+1", "1.", "01", "10e-1", "0.1E1", "0.1e+1", "1.000"}; sym::check(Value(std::string(good[sym::choice("g", 8)])).value<double>() == 1, "numbers are read in all their forms"); sym::reach("texts"); }
// paths into trees of parameters
SYM_HARNESS(paths_real, REAL) { double x = sym::real("x"), y = sym::real("y"); Params in; in["x"] = x; in["s"] = "t"; Params mid; mid["in"] = Value("inner", in); mid["y"] = y; Params root; root["mid"] = Value("middle", mid); root["z"] = 5; sym::check_eq(OptionalParameters::value(root, "mid.in.x").value<double>(), x, "a path leads to its value"); sym::check_eq(OptionalParameters::value(root, Path{"mid", "y"}).value<double>(), y, "a path leads to its value"); sym::check(OptionalParameters::value(root, "mid.in").value<std::string>() == "inner", "a path leads to its value"); sym::check(&OptionalParameters::parameters(root, "") == &root && &OptionalParameters::parameters(root) == &root, "the empty path is the whole tree"); sym::check(OptionalParameters::parameters(root, "mid.in").size() == 2 && OptionalParameters::parameters(root, "mid").count("y") == 1, "a path leads to its parameters"); double w = sym::real("w"); OptionalParameters::value(root, "mid.in.x") = w; sym::check_eq(OptionalParameters::value(root, "mid.in.x").value<double>(), w, "a value set by its path is there"); sym::check_eq(OptionalParameters::value(root, "mid.y").value<double>(), y, "other values stay");
    const char* bad[] = {"", ".", "q", "mid.q", "mid.y.x", "z.x", "mid.in.x.x", "mid..in", "mid..y", ".mid", "mid.in.q", "Mid", "mid in", "mid..", "z..q"}; std::string b = bad[sym::choice("bad", 15)]; bool threw = false; try { OptionalParameters::value(root, b); } catch (cxx::exception&) { threw = true; } sym::check(threw, "a path to nothing is refused"); const char* leaf[] = {"z", "mid.y", "q", "mid.in.x", "mid..in"}; threw = false; try { OptionalParameters::parameters(root, leaf[sym::choice("leaf", 5)]); } catch (cxx::exception&) { threw = true; } sym::check(threw, "a path to no parameters is refused"); sym::reach("paths"); }
// a configuration: the tree a user edits by paths
typedef OdeSolverConfiguration<VD> Cfg;
static Params snap(Cfg& c) { return deep(c.parameters()); }
static void editing(int edits) { Cfg c; c.setValue("rhs", "bouncing_ball"); c.setValue("solver", "dopri_45"); c.setValue("init_state", "specified"); c.setValue("init_state.size", 2); c.setValue("output_file", "con_solution"); c.setValue("solver.stepsizectl", "user_ctl");
    for (int e = 0; e < edits; ++e) { Params was = snap(c), want = deep(was); std::vector<Leaf> ls; leaves(was, Path(), ls); Leaf l = ls[e ? sym::choice(("parameter" + S(e)).c_str(), 1) + 7 * e : sym::choice("parameter", (int)ls.size())]; std::string path = dots(l.p); Value& slot = OptionalParameters::value(want, path); double x = sym::real("x", e); bool asPath = e == 0 && sym::flag("as_path"), bad = e == 0 && sym::flag("bad");
        auto put = [&](const Value& v) { if (asPath) c.setValue(l.p, v); else c.setValue(path, v); };
        if (bad) { if (l.k == Text) return; bool threw = false; try { put(Value(l.k == Enum || l.k == Type ? "nothing like it" : l.k == Uint || l.k == Int ? "-1" : "yes")); } catch (std::exception&) { threw = true; } sym::check(threw, "a value that is none is refused"); sameTree(snap(c), was, "a refused value leaves the configuration as it was"); c.setValue("time", x); sym::check_eq(c.value("time").value<double>(), x, "a configuration goes on after a refused value"); want = was; want["time"] = Value(x); sameTree(snap(c), want, "a configuration goes on after a refused value"); }
        else if (l.k == Type) { auto reg = c.value(path).typeRegistryGetter(); sym::check(bool(reg), "the types to choose from are known"); auto ts = reg(); if (ts.empty()) continue; std::string t = ts[sym::choice("type", (int)ts.size())]; put(Value(t)); Params now = snap(c); sym::check(OptionalParameters::value(now, path).value<std::string>() == t, "a component asked for is there"); slot = Value(t, OptionalParameters::value(now, path).safeNestedParameters()); sameTree(now, want, "setting one component changes nothing else"); }
        else { Value v = newValue(l, x); put(v); Params now = snap(c); if (l.k == Real) sym::check_eq(c.value(path).value<double>(), x, "a value set is there"); else sym::check(c.value(l.p).value<std::string>() == canonical(l, v), "a value set is there"); if (l.p.back() == "size") { Params& q = OptionalParameters::parameters(want, Path(l.p.begin(), l.p.end() - 1)); int n = v.value<int>(); for (int i = 0; i < 2; ++i) if (i >= n) q.erase("x" + S(i)); } slot = Value(canonical(l, v), slot.safeNestedParameters()); sameTree(now, want, "setting one value changes nothing else"); }
        sameTree(c.parameterProvider()->parameters(), c.parameters(), "the components have the parameters of the configuration"); }
    sym::reach("editing"); }
SYM_HARNESS(nowhere_real, REAL) { Cfg c; c.setValue("rhs", "bouncing_ball"); c.setValue("solver", "dopri_45"); c.setValue("init_state", "specified"); c.setValue("init_state.size", 2); c.setValue("output_file", "con_solution"); c.setValue("solver.stepsizectl", "user_ctl"); const char* nowhere[] = {"", "no", "solver.no", "time.x", "solver..h_init", "solver.h_init.x", "rhs."}; std::string b = nowhere[sym::choice("nowhere", 6)]; Params was = snap(c); bool threw = false; try { c.setValue(b, 1.); } catch (std::exception&) { threw = true; } sym::check(threw, "a path to nothing is refused"); sameTree(snap(c), was, "a refused path changes nothing"); sym::reach("nowhere"); }
SYM_HARNESS(editing_real, REAL) { editing(1); }
SYM_HARNESS(editing_real_thorough, REAL) { editing(3); }
SYM_HARNESS(help_real, REAL) { Cfg c; c.setValue("rhs", "oscillator"); c.setValue("solver", sym::flag("i") ? "i_euler" : "dopri_45"); Params t = snap(c); std::vector<Leaf> ls; leaves(t, Path(), ls); Leaf l = ls[sym::choice("parameter", (int)ls.size())]; sym::check(!c.helpOnValue(l.p).empty() && c.helpOnValue(l.p) == c.helpOnValue(dots(l.p)), "there is help on every value"); sym::check(c.helpOnValue("no.such.path") == c.helpOnValue("none"), "there is no help on what does not exist"); if (l.k == Type) for (auto& q : c.value(l.p).typeRegistryGetter()()) sym::check(c.helpOnValue(l.p).find(q) != std::string::npos, "help on a component names the types there are"); sameTree(snap(c), t, "asking for help changes nothing"); sym::reach("help"); }
// copies behave alike: a configured integrator and one given its parameters take the same steps
struct Memo { struct Row { std::vector<double> a; double r; }; std::vector<Row> rows; int calls = 0; double operator()(const std::string& n, const std::vector<double>& a) { std::string m = n + S(calls++); for (auto& q : rows) if (q.a.size() == a.size() && !memcmp(q.a.data(), a.data(), a.size() * sizeof(double))) return q.r; double r = sym::real(m.c_str()); rows.push_back({a, r}); return r; } };
static void twins(const char* type, std::function<void(Params&)> conf, int steps, bool events = false) { double h = sym::real_in("h", 0.0625, 0.5); Params p; p["h_init"] = h; p["h_min"] = sym::real_in("h_min", 0, 0.0009765625); conf(p); auto a = newSolver(type); a->setParameters(p); sym::check_eq(a->initialStepSize(), h, "the step size is the one set"); sym::check_eq(a->stepSizeMinThreshold(), p["h_min"].value<double>(), "the threshold is the one set"); auto b = newSolver(type); b->setParameters(a->parameters()); auto m = std::make_shared<Memo>(); auto f = std::make_shared<LamRhs>(0, 1, [m](V& d, double t, const V& x) { d[0] = (*m)("f", {t, x[0]}); }); if (events) { f->nz = 1; f->zflags = { OdeRhs<VD>::BothDirections }; f->zf = [](V& d, double t, const V& x) { d[0] = x[0]; }; f->sw = [](const int*, double, V& x) { x[0] += 1; }; }
    double t = sym::real("t"); V x = symVec("x", 1); Rec ra, rb; a->setOdeRhs(f); b->setOdeRhs(f); ra.attach(*a); rb.attach(*b); a->setInitialState(t, x); b->setInitialState(t, x); for (int i = 0; i < steps; ++i) { a->doStep(); b->doStep(); sym::check_eq(b->initialTime(), a->initialTime(), "copies reach the same time"); checkVec(b->initialState(), a->initialState(), "copies reach the same state"); sym::check(a->order() == b->order(), "copies have the same order"); } sym::check(ra.order == rb.order, "copies report alike"); if (ra.order == rb.order) for (size_t i = 0; i < ra.post.size(); ++i) { sym::check_eq(ra.post[i].stepSize(), rb.post[i].stepSize(), "copies report alike"); sym::check_eq(ra.post[i].errorNorm(), rb.post[i].errorNorm(), "copies report alike"); sym::check(ra.post[i].stepAccepted() == rb.post[i].stepAccepted() && ra.post[i].stepSizeChanged() == rb.post[i].stepSizeChanged() && ra.post[i].stepTruncated() == rb.post[i].stepTruncated(), "copies report alike"); } sym::check_eq(ra.pre[0], h, "the first step has the size set"); sym::reach("twins"); }
static void adaptive(Params& p) { p["disable_error_check"] = sym::flag("disable"); p["force_error_calc"] = sym::flag("force"); p["mode"] = sym::flag("high") ? "high" : "low"; p["h_after_switch"] = sym::flag("after") ? 0. : 0.125; Params q; q["gain"] = sym::real_in("gain", 0.5, 2); q["flip"] = sym::flag("flip"); p["stepsizectl"] = Value("user_ctl", q); Params w; w["weight"] = sym::real("weight"); p["enorm"] = Value("user_norm", w); }
SYM_HARNESS(twins_euler_real, REAL) { twins("euler", [](Params& p) { if (sym::flag("no_events")) p["eventctl"] = ""; }, 2, true); }
SYM_HARNESS(twins_rk4_real, REAL) { twins("rk4", [](Params&) {}, 2); }
SYM_HARNESS(twins_gragg_real, REAL) { twins("gragg", [](Params& p) { p["smooth"] = sym::flag("smooth"); }, 2); }
SYM_HARNESS(twins_dopri45_real, REAL) { twins("dopri_45", adaptive, 2); }
SYM_HARNESS(twins_dopri56_real, REAL) { twins("dopri_56", adaptive, 1); }
SYM_HARNESS(twins_dopri78_real, REAL) { twins("dopri_78", adaptive, 1); }
SYM_HARNESS(twins_extrapolator_real, REAL) { twins("extrapolator", [](Params& p) { p["symmetric"] = sym::flag("symmetric"); p["max_stages"] = 2u + sym::choice("stages", 2); const char* q[] = {"harmonic", "romberg", "bulirsch"}; p["step_sequence"] = q[sym::choice("sequence", 3)]; Params g; g["smooth"] = true; p["reference_solver"] = sym::flag("gragg") ? Value("gragg", g) : Value("euler"); p["disable_error_check"] = sym::flag("disable"); Params u; u["gain"] = sym::real_in("gain", 0.5, 2); u["flip"] = sym::flag("flip"); p["stepsizectl"] = Value("user_ctl", u); p["enorm"] = "user_norm"; }, 1); }
SYM_HARNESS(twins_i_euler_real, REAL) { twins("i_euler", [](Params& p) { p["alpha"] = sym::choice("alpha", 3) * 0.5; Params n; n["max_iterations"] = 7u; p["algsolver"] = Value("user_newton", n); if (sym::flag("predict")) { p["predictor"] = sym::flag("rk4") ? "rk4" : "euler"; p["predictor_steps"] = 1u + sym::choice("steps", 2); } }, 2); }
// components given by parameters are connected to the integrator they are given to
SYM_HARNESS(wiring_real, REAL) { auto f = std::make_shared<LamRhs>(0, 1, [](V& d, double, const V& x) { d[0] = -x[0]; }); bool late = sym::flag("late"); auto s = newSolver("dopri_45"); if (!late) s->setOdeRhs(f); Params p; p["enorm"] = "user_norm"; p["eventctl"] = "linear"; s->setParameters(p); if (late) s->setOdeRhs(f); auto* en = dynamic_cast<OdeSolverErrorNormCalculator<VD>*>(s.get()); auto* ec = dynamic_cast<OdeSolverEventController<VD>*>(s.get()); sym::check(en && en->errorNormCalculator()->odeRhs() == f, "a norm set by parameters knows the system"); sym::check(ec && ec->eventController()->odeRhs() == f, "an event controller set by parameters knows the system"); Params none; none["enorm"] = ""; none["eventctl"] = ""; s->setParameters(none); sym::check(!en->errorNormCalculator() && !ec->eventController(), "components can be left out"); s->setOdeRhs(f); sym::check(s->parameters()["enorm"].value<std::string>().empty(), "components can be left out");
    auto e = newSolver("i_euler"); if (!late) e->setOdeRhs(f); Params n; const char* dd[] = {"broyden", "const", "fake-broyden", "hart", "lazy-fake-broyden", "simple"}; n["ddir"] = dd[sym::choice("ddir", 6)]; n["jacobian"] = sym::flag("sparse") ? "sparse" : "default"; Params w; w["width"] = 2u; n["jtrim"] = Value("width", w); n["max_iterations"] = 9u; Params er; er["abs_tol"] = 0.5; n["err"] = Value("simple", er); Params q; q["algsolver"] = Value("newton", n); e->setParameters(q); if (late) e->setOdeRhs(f); auto nw = dynamic_cast<OdeNewtonSolver<VD>*>(e.get())->newtonSolver(); auto it = nw->iterationPerformer(); auto map = it->mapping(); sym::check(map && map->inputSize() == 1 && it->newtonDescentDirection()->mapping() == map && it->newtonLinearSearch()->mapping() == map && it->newtonDescentDirection()->jacobianProvider()->mapping() == map && it->newtonDescentDirection()->jacobianProvider()->jacobianTrimmer()->mapping() == map, "an algebraic solver set by parameters solves the integrator's equation"); sym::check(nw->iterationCountLimit() == 9, "the iteration limit is the one set"); int seen = 0, refreshed = 0; e->iterationObservers.add([&](unsigned, const NewtonSolverInterface<VD>* o) { seen += o == nw.get(); return false; }); e->jacobianRefreshObservers.add([&](bool) { ++refreshed; }); nw->iterationObservers(0, nw.get()); it->newtonDescentDirection()->jacobianRefreshObservers(true); sym::check(seen == 1 && refreshed == 1, "the integrator passes on what its algebraic solver tells"); Params no; no["algsolver"] = ""; bool threw = false; try { e->setParameters(no); } catch (cxx::exception&) { threw = true; } sym::check(threw && dynamic_cast<OdeNewtonSolver<VD>*>(e.get())->newtonSolver() == nw, "an integrator does not go without its algebraic solver"); sym::reach("wiring"); }
