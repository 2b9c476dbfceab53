// C10: adaptive integrators with their own error norm and step-size controller: what is accepted passed the error test;
// NaN or infinite right-hand sides never reach the solution and never make a step spin.
#include "ode_common.h"
#include <cmath>
struct Stop {};
// the error test of the controller, in terms of the step ratio it predicts (order of the lower result: q)
static void withinTol(double e, double tol, int q) { if (sym::decide(sym::eq(e, 0.))) return; sym::check(sym::gt(std::pow(tol / e, 1. / (q + 1)), 1 - 1.01e-5), "an accepted step has an error within the tolerance"); }
struct Setup { const char* type; const char* mode; const char* ref; bool symm; int stages, q; };
static SolverPtr make(const Setup& u, std::shared_ptr<LamRhs> f, double h, bool check, const char* mode, double tol) {
    SolverPtr s = newSolver(u.type); Params p; p["disable_error_check"] = !check;
    if (u.ref) { p["max_stages"] = u.stages; p["symmetric"] = u.symm; s->setParameters(p); auto* e = dynamic_cast<OdeSolverExtrapolator<VD>*>(s.get()); e->setStepSequence(std::make_shared<ExtrapolatorStepSequenceHarmonic>()); e->setReferenceSolver(newSolver(u.ref)); }
    else { if (mode) p["mode"] = std::string(mode); s->setParameters(p); }
    if (check) { auto c = Factory<OdeStepSizeController<VD>>::newInstance("simple"); Params q; q["tolerance"] = tol; c->setParameters(q); setController(s, c); setNorm(s, Factory<ErrorNormCalculator<VD>>::newInstance("inf")); }
    s->setOdeRhs(f); s->setInitialStepSize(h); return s;
}
static const int N2 = 1, N1 = 1, NV = 3;
// the error test decides, from the two embedded results, over all values of the right-hand side
static void gate(Setup u) {
    double h = 0.125, t = sym::real("t"), tol = sym::real("tol"); sym::assume(sym::gt(tol, 0.)); V x = symVec("x", NV);
    SolverPtr s = make(u, funRhs(N2, N1), h, true, u.mode, tol); int attempts = 0; double en = 0; bool accepted = false, told = false; V xp; double tp = 0;
    s->odeSolverPreObservers.add([&](double, const OdeSolver<VD>*) { if (attempts++) throw Stop(); });
    s->odeSolverPostObservers.add([&](const OdeSolverPostObserverArg<VD>& a) { told = true; en = a.errorNorm(); accepted = a.stepAccepted(); tp = a.solver()->initialTime(); xp = a.solver()->initialState(); });
    s->setInitialState(t, x); bool stopped = false; try { s->doStep(); } catch (Stop&) { stopped = true; }
    V hi, lo; { SolverPtr o = make(u, funRhs(N2, N1), h, false, "high", tol); o->setInitialState(t, x); o->doStep(); hi = o->initialState(); }
    { Setup v = u; if (u.ref) v.stages = u.stages - 1; SolverPtr o = make(v, funRhs(N2, N1), h, false, "low", tol); if (u.ref) o = nullptr; if (o) { o->setInitialState(t, x); o->doStep(); lo = o->initialState(); } }
    sym::check(told, "the attempt is reported"); if (!told) return; sym::check(stopped != accepted, "a step ends exactly when an attempt is accepted");
    if (!u.ref) {
        double m = 0; for (int i = 0; i < NV; ++i) m = sym::max(m, sym::abs(hi[i] - lo[i]));
        sym::check_eq(en, m, "the error reported is the maximum norm of the difference of the embedded results");
        if (accepted) withinTol(en, tol, u.q); else sym::check(sym::gt(m, tol), "a rejected step has an error above the tolerance");
    } else { if (accepted) withinTol(en, tol, u.q); else sym::check(sym::gt(en, tol), "a rejected step has an error above the tolerance"); }
    if (accepted) { checkVec(xp, u.ref || u.mode[0] == 'h' ? hi : lo, "an accepted step gives the method's result"); sym::check_eq(tp, t + h, "an accepted step advances the time"); sym::reach("accepted"); }
    else { checkVec(xp, x, "a rejected step leaves the state"); sym::check_eq(tp, t, "a rejected step leaves the time"); checkVec(s->initialState(), x, "a rejected step leaves the state (later)"); sym::reach("rejected"); }
}
SYM_HARNESS(gate_dopri45_low_real, REAL) { gate({"dopri_45", "low", nullptr, false, 0, 4}); }
SYM_HARNESS(gate_dopri45_high_real, REAL) { gate({"dopri_45", "high", nullptr, false, 0, 4}); }
SYM_HARNESS(gate_dopri56_low_real, REAL) { gate({"dopri_56", "low", nullptr, false, 0, 5}); }
SYM_HARNESS(gate_dopri56_high_real, REAL) { gate({"dopri_56", "high", nullptr, false, 0, 5}); }
SYM_HARNESS(gate_dopri78_low_real, REAL) { gate({"dopri_78", "low", nullptr, false, 0, 7}); }
SYM_HARNESS(gate_dopri78_high_real, REAL) { gate({"dopri_78", "high", nullptr, false, 0, 7}); }
SYM_HARNESS(gate_extrapolator_real, REAL) { gate({"extrapolator", "high", "euler", false, 2, 1}); }
SYM_HARNESS(gate_extrapolator_sym_real, REAL) { gate({"extrapolator", "high", "gragg", true, 3, 4}); }
// the right-hand side fails (NaN) at one call of the first attempt, in one component, for that call or for ever after
static void fault(Setup u, int calls, int steps) {
    double h = 0.125, t = sym::real("t"), tol = sym::real("tol"); sym::assume(sym::gt(tol, 0.)); V x = symVec("x", NV); int k = sym::choice("failing_call", calls), comp = sym::choice("failing_component", N1 + N2) + N2; bool ever = sym::flag("for_ever"); double bad = !ever && sym::flag("infinite") ? INFINITY : std::nan("");
    auto g = funRhs(N2, N1); int n = 0; bool hit = false; auto f = std::make_shared<LamRhs>(N2, N1, [&](V& d, double tt, const V& y) { g->f(d, tt, y); if (n == k || (ever && n > k)) { d[comp] = bad; hit = true; } ++n; });
    SolverPtr s = make(u, f, h, true, u.mode, tol); int attempts = 0; bool faultyDone = false;
    s->odeSolverPreObservers.add([&](double, const OdeSolver<VD>*) { if (faultyDone && !ever) throw Stop(); if (++attempts > 60) { sym::check(false, "a failing right-hand side cannot make a step spin"); throw Stop(); } });
    s->odeSolverPostObservers.add([&](const OdeSolverPostObserverArg<VD>& a) { V y = a.solver()->initialState();
        if (a.stepAccepted()) { sym::check(!sym::isnan(a.errorNorm()), "a step with a NaN error is never accepted"); for (int i = 0; i < NV; ++i) sym::check(!sym::isnan(y[i]) && sym::lt(sym::abs(y[i]), INFINITY), "NaN or infinity never enters the solution"); withinTol(a.errorNorm(), tol, u.q); }
        else for (int i = 0; i < NV; ++i) sym::check(!sym::isnan(y[i]), "a rejected step leaves the state"); faultyDone = hit; });
    s->setInitialState(t, x); bool thrown = false, stopped = false;
    for (int i = 0; i < steps && !thrown && !stopped; ++i) try { s->doStep(); } catch (Stop&) { stopped = true; } catch (cxx::exception&) { thrown = true; }
    V y = s->initialState(); for (int i = 0; i < NV; ++i) sym::check(!sym::isnan(y[i]) && sym::lt(sym::abs(y[i]), INFINITY), "NaN or infinity never enters the solution (end)");
    if (ever && hit) sym::check(thrown, "a right-hand side failing for ever ends in an exception"); sym::reach("fault");
}
SYM_HARNESS(fault_dopri45_real, REAL) { fault({"dopri_45", "low", nullptr, false, 0, 4}, 7, 1); }
SYM_HARNESS(fault_dopri45_high_real, REAL) { fault({"dopri_45", "high", nullptr, false, 0, 4}, 7, 1); }
SYM_HARNESS(fault_dopri56_real, REAL) { fault({"dopri_56", "low", nullptr, false, 0, 5}, 8, 1); }
SYM_HARNESS(fault_dopri78_real, REAL) { fault({"dopri_78", "low", nullptr, false, 0, 7}, 13, 1); }
SYM_HARNESS(fault_dopri78_high_real, REAL) { fault({"dopri_78", "high", nullptr, false, 0, 7}, 13, 1); }
SYM_HARNESS(fault_extrapolator_real, REAL) { fault({"extrapolator", "high", "euler", false, 3, 2}, 6, 1); }
SYM_HARNESS(fault_extrapolator_sym_real, REAL) { fault({"extrapolator", "high", "gragg", true, 2, 2}, 7, 1); }
