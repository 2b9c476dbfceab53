// C15: implicit Euler: whatever the algebraic solver returns as a zero of the mapping it was given satisfies the alpha-weighted implicit equations.
#include "ode_common.h"
#include "ode_num_int/alg/VectorReorderingMapping.h"
struct Perm : VectorReorderingMapping<VD> {};
// second-order variables u (with velocities v) and first-order variables z
static void body(int n2, int n1, int steps, bool reorder, int predictor) {
    int n = 2 * n2 + n1, ne = n2 + n1; auto f = funRhs(n2, n1); SolverPtr s = newSolver("i_euler"); auto nw = std::make_shared<NdNewton>(); setNewton(s, nw);
    double al = 1; Params p; if (sym::flag("alpha_given")) { static const double A[] = { 0, 0.5, 0.625 }; al = A[sym::choice("alpha", 3)]; p["alpha"] = al; }
    if (predictor) { p["predictor"] = newSolver(predictor == 1 ? "euler" : "rk4"); p["predictor_steps"] = (unsigned)predictor; } s->setParameters(p);
    std::vector<unsigned> io; for (int i = 0; i < ne; ++i) io.push_back(i);
    if (reorder) { auto r = std::make_shared<Perm>(); std::vector<unsigned> o = io; int k = sym::choice("order", ne == 3 ? 6 : 2); for (int i = 0; i < k; ++i) std::next_permutation(io.begin(), io.end()); int k2 = sym::choice("output_order", 2); for (int i = 0; i < k2; ++i) std::next_permutation(o.begin(), o.end()); r->setInputOrdering(io); r->setOutputOrdering(o); dynamic_cast<OdeSolverImplicitEuler<VD>*>(s.get())->setReorder(r); }
    bool fail = false; V expectedGuess; bool haveGuess = false; typedef NdNewton::Status St; int run = 0;
    nw->f = [&](const VectorMapping<VD>& m, const V& g, V& y) -> St {
        if (sym::flag("not_converged")) { fail = true; y = symVec("junk", ne); static const NdNewton::Status st[] = { NdNewton::Diverged, NdNewton::Terminated, NdNewton::IterationCountLimitExceeded }; return st[sym::choice("status", 3)]; }
        if (haveGuess) for (int i = 0; i < ne; ++i) sym::check_eq(g[i], expectedGuess[io[i]], predictor ? "the predictor's result is the initial guess" : "the current state is the initial guess");
        sym::check(m.inputSize() == (unsigned)ne && m.outputSize() == (unsigned)ne, "as many equations as unknowns");
        y = symVec("sol" + S(run++) + "_", ne); V r; m.map(r, y); for (int i = 0; i < ne; ++i) sym::assume(sym::eq(r[i], 0.)); return NdNewton::Converged; };
    double t = sym::real("t"), h = sym::real("h"); sym::assume(sym::gt(h, 0.)); V x = symVec("x", n); s->setOdeRhs(f); s->setInitialStepSize(h); s->setInitialState(t, x); Rec rec; rec.attach(*s);
    for (int k = 0; k < steps; ++k) {
        if (k && sym::flag("other_step")) { h = sym::real("h_new" + S(k), 0); sym::assume(sym::gt(h, 0.)); s->setInitialStepSize(h); }
        V gs = x; if (predictor) { SolverPtr o = newSolver(predictor == 1 ? "euler" : "rk4"); o->setOdeRhs(funRhs(n2, n1)); o->setInitialStepSize(h / predictor); o->setInitialState(t, x); for (int i = 0; i < predictor; ++i) o->doStep(); gs = o->initialState(); }
        expectedGuess = V(ne); for (int i = 0; i < ne; ++i) expectedGuess[i] = gs[n2 + i]; haveGuess = true; size_t np = rec.post.size();
        bool thrown = false; try { s->doStep(); } catch (cxx::exception&) { thrown = true; }
        sym::check(thrown == fail, "a step fails exactly if the algebraic solver does");
        V x1 = s->initialState(); if (fail) { checkVec(x1, x, "a failed step leaves the state"); sym::check_eq(s->initialTime(), t, "a failed step leaves the time"); sym::check(rec.post.size() == np, "a failed step is not reported as made"); sym::reach("failed"); return; }
        sym::check_eq(s->initialTime(), t + h, "the time advances by the step size"); sym::check(rec.post.size() == np + 1 && rec.post.back().stepAccepted(), "the step is reported"); if (rec.post.size() == np + 1) sym::check_eq(rec.post.back().stepSize(), h, "the step size is reported");
        V f0(n), f1(n); f->f(f0, t, x); f->f(f1, t + h, x1); sym::check(x1.size() == (unsigned)n, "state size"); if (x1.size() != (unsigned)n) return;
        for (int i = 0; i < n; ++i) sym::check_eq(x1[i] - x[i], h * ((1 - al) * f0[i] + al * f1[i]), i < n2 ? "positions satisfy the weighted equations" : i < 2 * n2 ? "velocities satisfy the weighted equations" : "first-order variables satisfy the weighted equations");
        x = x1; t = t + h;
    }
    if (nw->hard.size()) sym::check(nw->hard[0], "the first step starts from scratch");
    // a new initial state starts from scratch again; a soft one does not have to
    double t2 = sym::real("t_restart"); V x2 = symVec("x_restart", n); s->setInitialState(t2, x2); sym::check_eq(s->initialTime(), t2, "the new initial time is taken"); checkVec(s->initialState(), x2, "the new initial state is taken");
    haveGuess = false; size_t nh = nw->hard.size(); try { s->doStep(); sym::check(nw->hard.size() > nh && nw->hard[nh], "a new initial state starts from scratch"); } catch (cxx::exception&) {}
    sym::reach("implicit");
}
SYM_HARNESS(plain_real, REAL) { body(1, 1, 2, false, 0); }
SYM_HARNESS(second_order_real, REAL) { body(2, 0, 1, false, 0); }
SYM_HARNESS(first_order_real, REAL) { body(0, 2, 1, false, 0); }
SYM_HARNESS(reordered_real, REAL) { body(1, 1, 1, true, 0); }
SYM_HARNESS(reordered3_real, REAL) { body(1, 2, 1, true, 1); }
SYM_HARNESS(predicted_real, REAL) { body(1, 1, 2, false, 2); }
SYM_HARNESS(deep_thorough, REAL) { body(2, 2, 3, false, 1); }
// any implicitness value
SYM_HARNESS(alpha_real, REAL) {
    auto f = funRhs(1, 1); OdeStepMappingEuler<VD> m; m.setOdeRhs(f); double al = sym::real("alpha"), h = sym::real("h"), t = sym::real("t"); sym::assume(sym::gt(h, 0.)); V x = symVec("x", 3), y = symVec("y", 2);
    m.setImplicitnessParameter(al); m.setInitialState(t, x); m.setTimeStep(h); if (sym::flag("used_before")) { V d; m.setTimeStep(sym::real_in("h_before", 0.5, 1)); if (sym::flag("other_alpha")) m.setImplicitnessParameter(sym::real("alpha_before")); m.map(d, symVec("y_before", 2)); m.setTimeStep(h); m.setImplicitnessParameter(al); if (sym::flag("other_state")) { x = symVec("x_new", 3); t = sym::real("t_new"); m.setInitialState(t, x); } }
    V r, full; m.map(r, y); m.computeOdeState(full, y); V f0(3), f1(3); f->f(f0, t, x); f->f(f1, t + h, full);
    sym::check_eq(full[0], x[0] + h * ((1 - al) * x[1] + al * y[0]), "positions follow the weighted velocities"); sym::check_eq(full[1], y[0], "velocity"); sym::check_eq(full[2], y[1], "first-order variable");
    for (int i = 0; i < 2; ++i) sym::check_eq(r[i], y[i] - x[1 + i] - h * ((1 - al) * f0[1 + i] + al * f1[1 + i]), "the mapping is the residual of the weighted equations");
    V e; m.computeEqnState(e, full); checkVec(e, y, "the unknowns are recovered from the state"); sym::check_eq(m.implicitnessParameter(), al, "alpha kept"); sym::reach("alpha");
}
