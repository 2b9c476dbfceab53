// C07: one step of each explicit one-step method matches the Taylor expansion of the solution up to order(),
// decided for every rooted tree, step size, coefficient, initial time and state.
#include "trees.h"
static void body(const char* type, int expect, const char* mode, double tol) {
    SolverPtr s = newSolver(type); if (mode) { OptionalParameters::Parameters p; p["disable_error_check"] = true; p["mode"] = std::string(mode); s->setParameters(p); }
    int p = s->order(); sym::check(p == expect, "reported order"); if (p > 8) p = 8;
    bool lt = sym::flag("leaf_time"); TreeOde o(p, lt); double h = sym::real_in("h", 0, 1);
    s->setOdeRhs(o.rhs); s->setInitialStepSize(h); s->setInitialState(o.t0, o.s); s->doStep();
    o.checkOrder(s->initialState(), h, p, tol, "order condition");
    sym::check_eq(s->initialTime(), o.t0 + h, "time advanced by h");
    sym::reach("order");
}
SYM_HARNESS(euler_real, REAL) { body("euler", 1, nullptr, 1e-12); }
SYM_HARNESS(rk4_real, REAL) { body("rk4", 4, nullptr, 1e-12); }
SYM_HARNESS(dopri45_high_real, REAL) { body("dopri_45", 5, "high", 1e-12); }
SYM_HARNESS(dopri45_low_real, REAL) { body("dopri_45", 4, "low", 1e-12); }
SYM_HARNESS(dopri56_high_real, REAL) { body("dopri_56", 6, "high", 1e-12); }
SYM_HARNESS(dopri56_low_real, REAL) { body("dopri_56", 5, "low", 1e-12); }
SYM_HARNESS(dopri78_high_real, REAL) { body("dopri_78", 8, "high", 1e-11); }
SYM_HARNESS(dopri78_low_real, REAL) { body("dopri_78", 7, "low", 1e-11); }
SYM_HARNESS(gragg_real, REAL) { body("gragg", 2, nullptr, 1e-12); }
