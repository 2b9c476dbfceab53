// C13: the step sequences as the extrapolating integrator uses them: stage k makes n_k steps of size h/n_k from the start of the step.
#include "ode_common.h"
#include "../src/reg_ode_solvers.cpp"
// reference integrator that records what it is asked to do; each stage returns an arbitrary vector
struct RefStub : OdeSolver<VD> {
    struct Stage { double t, h; V x; int steps; }; std::vector<Stage> st; V cur; double tc = 0; int ord = 1; int calls = 0; std::function<V(int)> result;
    int order() const { return ord; } double initialTime() const { return tc; } V initialState() const { return result ? result((int)st.size() - 1) : cur; }
    void setInitialState(double t, const V& x, bool soft) { cur = x; tc = t; if (soft) st.push_back({t, 0, x, 0}); }
    void doStep() { ++calls; if (!st.empty()) { st.back().h = initialStepSize(); ++st.back().steps; } }
};
static std::vector<int> terms(const std::string& n, int k) {   // mathematical definition
    std::vector<int> r; for (int i = 0; i < k; ++i) r.push_back(n == "harmonic" ? i + 1 : n == "romberg" ? 1 << i : i == 0 ? 1 : i & 1 ? 2 << (i / 2) : 3 << (i / 2 - 1)); return r; }
static std::shared_ptr<ExtrapolatorStepSequence> seq(const std::string& n) { return Factory<ExtrapolatorStepSequence>::newInstance(n); }
#ifndef TREES_H
static void body(const std::string& name, int stages, int steps) {
    SolverPtr s = newSolver("extrapolator"); auto* e = dynamic_cast<OdeSolverExtrapolator<VD>*>(s.get()); auto q = seq(name); int used = sym::choice("terms_taken_before", stages + 1); for (int i = 0; i < used; ++i) q->next(); bool again = sym::flag("reset_before"); if (again) q->reset();
    int ns = 2 + sym::choice("stages", stages - 1); auto ref = std::make_shared<RefStub>(); e->setStepSequence(q); e->setReferenceSolver(ref); Params p; p["max_stages"] = ns; p["disable_error_check"] = true; s->setParameters(p);
    double h = sym::real("h"), t = sym::real("t"); V x = symVec("x", 1); s->setOdeRhs(funRhs(0, 1)); s->setInitialStepSize(h); s->setInitialState(t, x); std::vector<int> n = terms(name, ns);
    for (int k = 0; k < steps; ++k) {
        ref->st.clear(); if (k) for (int i = sym::choice("taken_between", 3); i; --i) q->next(); double tk = s->initialTime(); V xk = s->initialState(); ref->result = [=](int i) { V r(1); r[0] = sym::real("T" + S(k) + "_", i); return r; }; s->doStep();
        sym::check((int)ref->st.size() == ns, "one stage per term"); if ((int)ref->st.size() != ns) return;
        for (int i = 0; i < ns; ++i) { sym::check(ref->st[i].steps == n[i], "stage makes as many steps as the term says"); sym::check_eq(ref->st[i].h * n[i], h, "the steps of a stage cover the whole step"); sym::check_eq(ref->st[i].t, tk, "every stage starts at the start of the step"); sym::check_eq(ref->st[i].x[0], xk[0], "every stage starts from the state at the start of the step"); if (i) sym::check(ref->st[i].steps > ref->st[i - 1].steps, "terms increase"); }
    }
    sym::reach("sequence");
}
SYM_HARNESS(romberg_real, REAL) { body("romberg", 9, 2); }
SYM_HARNESS(bulirsch_real, REAL) { body("bulirsch", 10, 2); }
SYM_HARNESS(harmonic_real, REAL) { body("harmonic", 12, 2); }
SYM_HARNESS(bulirsch_long_thorough, REAL) { body("bulirsch", 20, 1); }
SYM_HARNESS(romberg_long_thorough, REAL) { body("romberg", 13, 1); }
SYM_HARNESS(harmonic_long_thorough, REAL) { body("harmonic", 40, 1); }
#endif
