// C14: the extrapolated result is the polynomial extrapolation to zero step of the stages' results, and has the order reported.
#include "trees.h"
#include "c13_sequences.cpp"
static void poly(const std::string& name, int maxStages, bool control) {
    int ns = (control ? 2 : 1) + sym::choice("stages", maxStages - (control ? 1 : 0)); bool symm = sym::flag("symmetric"); SolverPtr s = newSolver("extrapolator"); auto* e = dynamic_cast<OdeSolverExtrapolator<VD>*>(s.get()); auto ref = std::make_shared<RefStub>(); ref->ord = symm ? 2 : 1; e->setStepSequence(seq(name)); e->setReferenceSolver(ref); Params p; p["max_stages"] = ns; p["symmetric"] = symm; p["disable_error_check"] = !control; s->setParameters(p);
    auto nm = std::make_shared<NdNorm>(); double low = -1, en = 0; if (control) { setNorm(s, nm); auto c = std::make_shared<NdController>(); c->f = [&](double hc, double er, double o) { low = o; en = er; return NdController::Result(hc, true, false); }; setController(s, c); }
    double h = sym::real("h"), t = sym::real("t"); int nv = 2; V x = symVec("x", nv); std::vector<V> T; for (int i = 0; i < ns; ++i) T.push_back(symVecIn("T" + S(i) + "_", nv, -1, 1)); ref->result = [&](int i) { return T[i]; }; std::vector<int> n = terms(name, ns);
    s->setOdeRhs(funRhs(0, nv)); s->setInitialStepSize(h); s->setInitialState(t, x); int times = 1 + sym::choice("steps_before", 2); for (int k = 0; k < times; ++k) { ref->st.clear(); nm->seen.clear(); nm->given.clear(); s->doStep(); }
    // Lagrange weights of the stages first..ns-1 at zero
    auto weights = [&](int first) { std::vector<double> w(ns, 0.); for (int i = first; i < ns; ++i) { double q = 1; for (int j = first; j < ns; ++j) if (j != i) { double a = n[i], b = n[j]; if (symm) a *= a, b *= b; q *= a / (a - b); } w[i] = q; } return w; };
    std::vector<double> w = weights(0); V y = s->initialState(); for (int c = 0; c < nv; ++c) { double v = 0; for (int i = 0; i < ns; ++i) v = v + w[i] * T[i][c]; sym::check_near(y[c], v, 1e-9, "the result is the polynomial extrapolation to zero step"); }
    sym::check(s->order() == (symm ? 2 : 1) * ns, "the order reported is the one the stages reach");
    if (control) { sym::check(low == (symm ? 2 : 1) * (ns - 1), "the controller is told the order of the lower extrapolation"); sym::check(nm->seen.size() == 1, "one error estimate"); if (nm->seen.size() == 1) { sym::check_eq(en, nm->given[0], "the controller is told the norm of the error");
        std::vector<double> w1 = weights(1); std::vector<double> w2(ns, 0.); for (int i = 0; i < ns - 1; ++i) { double q = 1; for (int j = 0; j < ns - 1; ++j) if (j != i) { double a = n[i], b = n[j]; if (symm) a *= a, b *= b; q *= a / (a - b); } w2[i] = q; }   // either of the two next lower extrapolations
        for (int c = 0; c < nv; ++c) { double d = 0; for (int i = 0; i < ns; ++i) d = d + (w[i] - w1[i]) * T[i][c]; sym::check_near(nm->seen[0][c], d, 1e-9, "the error is the difference to the next lower extrapolation"); } } }
    sym::reach("poly");
}
SYM_HARNESS(poly_romberg_real, REAL) { poly("romberg", 5, false); }
SYM_HARNESS(poly_bulirsch_real, REAL) { poly("bulirsch", 6, false); }
SYM_HARNESS(poly_harmonic_real, REAL) { poly("harmonic", 5, false); }
SYM_HARNESS(error_romberg_real, REAL) { poly("romberg", 5, true); }
SYM_HARNESS(error_bulirsch_real, REAL) { poly("bulirsch", 5, true); }
SYM_HARNESS(error_harmonic_real, REAL) { poly("harmonic", 5, true); }
// order over all rooted trees
static void order(const char* ref, const std::string& name, bool symm, int stages, int expect, double tol) {
    SolverPtr s = newSolver("extrapolator"); auto* e = dynamic_cast<OdeSolverExtrapolator<VD>*>(s.get()); e->setStepSequence(seq(name)); e->setReferenceSolver(newSolver(ref)); Params p; p["max_stages"] = stages; p["symmetric"] = symm; p["disable_error_check"] = true; s->setParameters(p);
    sym::check(s->order() == expect, "reported order"); int q = std::min(s->order(), 6); TreeOde o(q, sym::flag("leaf_time")); double h = sym::real_in("h", 0, 1); s->setOdeRhs(o.rhs); s->setInitialStepSize(h); s->setInitialState(o.t0, o.s); s->doStep(); o.checkOrder(s->initialState(), h, q, tol, "order condition"); sym::check_eq(s->initialTime(), o.t0 + h, "time advanced by h"); sym::reach("order");
}
SYM_HARNESS(order_euler2_real, REAL) { order("euler", "harmonic", false, 2, 2, 1e-11); }
SYM_HARNESS(order_euler3_real, REAL) { order("euler", "bulirsch", false, 3, 3, 1e-11); }
SYM_HARNESS(order_euler4_real, REAL) { order("euler", "romberg", false, 4, 4, 1e-11); }
SYM_HARNESS(order_gragg1_real, REAL) { order("gragg", "romberg", true, 1, 2, 1e-11); }
SYM_HARNESS(order_gragg2_real, REAL) { order("gragg", "harmonic", true, 2, 4, 1e-11); }
SYM_HARNESS(order_gragg2_bulirsch_real, REAL) { order("gragg", "bulirsch", true, 2, 4, 1e-11); }
SYM_HARNESS(order_gragg_plain_real, REAL) { order("gragg", "harmonic", false, 2, 2, 1e-11); }
SYM_HARNESS(order_rk4_real, REAL) { order("rk4", "harmonic", false, 2, 4, 1e-11); }
SYM_HARNESS(order_gragg3_thorough, REAL) { order("gragg", "harmonic", true, 3, 6, 1e-10); }
SYM_HARNESS(order_euler5_thorough, REAL) { order("euler", "harmonic", false, 5, 5, 1e-10); }
// mistakes are reported
SYM_HARNESS(mistakes_real, REAL) {
    SolverPtr s = newSolver("extrapolator"); auto* e = dynamic_cast<OdeSolverExtrapolator<VD>*>(s.get()); bool ref = sym::flag("reference"), sq = sym::flag("sequence"), check = sym::flag("error_check"); int ns = sym::choice("stages", 3); bool later = sym::flag("raise_stages_later"); double t = sym::real("t"), h = sym::real("h"); V x = symVec("x", 2);
    if (ref) e->setReferenceSolver(newSolver("euler")); if (sq) e->setStepSequence(seq("harmonic")); else e->setStepSequence(nullptr); Params p; p["max_stages"] = ns; p["disable_error_check"] = !check; s->setParameters(p); setNorm(s, std::make_shared<NdNorm>()); auto c = std::make_shared<NdController>(); c->f = [](double hc, double, double) { return NdController::Result(hc, true, false); }; setController(s, c);
    s->setOdeRhs(funRhs(0, 2)); s->setInitialStepSize(h); s->setInitialState(t, x); bool ok = ref && sq && ns >= (check ? 2 : 1), thrown = false; try { s->doStep(); } catch (cxx::exception&) { thrown = true; }
    sym::check(thrown == !ok, "exactly the configuration mistakes are reported by an exception"); if (!ok) { checkVec(s->initialState(), x, "a refused step leaves the state"); sym::check_eq(s->initialTime(), t, "a refused step leaves the time"); sym::reach("mistake"); return; }
    if (later) { p["max_stages"] = 4; s->setParameters(p); double t1 = s->initialTime(); V x1 = s->initialState(); s->doStep(); SolverPtr o = newSolver("extrapolator"); auto* eo = dynamic_cast<OdeSolverExtrapolator<VD>*>(o.get()); eo->setReferenceSolver(newSolver("euler")); eo->setStepSequence(seq("harmonic")); Params po; po["max_stages"] = 4; po["disable_error_check"] = true; o->setParameters(po); o->setOdeRhs(funRhs(0, 2)); o->setInitialStepSize(h); o->setInitialState(t1, x1); o->doStep(); checkVec(s->initialState(), o->initialState(), "more stages take effect in the next step"); }
    sym::reach("fine");
}
