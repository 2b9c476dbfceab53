// C09: contract of the step-size controller, over the reals for every setting, and in IEEE arithmetic for accept/reject and NaN.
#include "common.h"
#include "ode_num_int/OdeStepSizeSimpleController.h"
using namespace ctm; using namespace ctm::math;
typedef OdeStepSizeSimpleController<VD> C; typedef OptionalParameters::Parameters Params;
struct Cfg { double tol, ins, imin, imax, dmax, ceil; };
static void put(C& c, const Cfg& g) { Params p; p["tolerance"] = g.tol; p["insurance"] = g.ins; p["inc_min_factor"] = g.imin; p["inc_max_factor"] = g.imax; p["dec_max_factor"] = g.dmax; p["max_threshold"] = g.ceil; c.setParameters(p); }
static double ipow(double x, int k) { double r = x; while (--k) r = r * x; return r; }
static Cfg anyCfg() {   // each limit present or switched off (zero)
    Cfg g; g.tol = sym::real("tol"); sym::assume(sym::gt(g.tol, 0)); g.ins = sym::real("ins"); sym::assume(sym::gt(g.ins, 0) && sym::le(g.ins, 1));
    g.imin = g.imax = g.dmax = g.ceil = 0;
    if (sym::flag("inc_min")) { g.imin = sym::real("imin"); sym::assume(sym::gt(g.imin, 1)); }
    if (sym::flag("inc_max")) { g.imax = sym::real("imax"); sym::assume(sym::gt(g.imax, 1) && sym::ge(g.imax, g.imin)); }
    if (sym::flag("dec_max")) { g.dmax = sym::real("dmax"); sym::assume(sym::gt(g.dmax, 0) && sym::lt(g.dmax, 0.9)); }
    if (sym::flag("ceiling")) { g.ceil = sym::real("ceil"); sym::assume(sym::gt(g.ceil, 0)); }
    return g;
}
static void contract(int q, bool residual) {   // q: order passed to the controller; p: the step ratio the error model predicts
    Cfg g = anyCfg(); C c; put(c, g); double h = sym::real("h"), e = sym::real("err"); sym::assume(sym::gt(h, 0) && sym::gt(e, 0));
    double p = std::pow(g.tol / e, 1. / (q + 1)), full = g.ins * p;
    C::Result r = c.controlStepSize(h, e, q); double n = r.newStepSize; const double L = 1 - 1e-5, L2 = 1 - 1.01e-5;
    if (r.acceptStep) {
        if (residual) sym::check(sym::le(e * ipow(L2, q + 1), g.tol), "an accepted error is within the tolerance (up to the documented margin)");
        sym::check(sym::gt(p, L), "acceptance: the predicted ratio is at least one (up to the documented margin)");
        if (r.changeStepSize) {
            if (g.imax > 0) sym::check(sym::le(n, h * g.imax), "growth is limited by the maximal increase factor");
            if (g.imin > 0) sym::check(sym::ge(n, h * g.imin), "no change smaller than the minimal increase factor");
            if (g.ceil > 0) sym::check(sym::le(n, g.ceil) || sym::le(n, h), "growth is limited by the ceiling");
            sym::check(sym::le(n, h * full), "growth never exceeds the step the error model allows");
            if (g.imin > 0) sym::check(sym::gt(n, h), "an accepted step is not followed by a smaller one");
            sym::Cond ok = sym::eq(n, h * full); if (g.imax > 0) ok = ok || sym::eq(n, h * g.imax); if (g.ceil > 0) ok = ok || sym::eq(n, g.ceil);
            sym::check(ok, "the new step is the predicted one, unless limited");
        } else {
            sym::check_eq(n, h, "an unchanged step size is the current one");
            sym::Cond may = sym::lt(p, 1.); if (g.imin > 0) may = may || sym::lt(full, g.imin); if (g.ceil > 0) may = may || sym::lt(g.ceil, h) || (g.imin > 0 ? sym::lt(g.ceil, h * g.imin) : sym::truth(false));
            sym::check(may, "the step grows if the predicted growth is large enough and not limited");
        }
        sym::reach("accept");
    } else {
        sym::check(sym::gt(e, g.tol), "a rejected error exceeds the tolerance"); sym::check(sym::lt(p, 1.), "rejection: the predicted ratio is less than one"); sym::check(r.changeStepSize, "rejection always changes the step size");
        sym::check(sym::lt(n, h) && sym::gt(n, 0.), "the retry is made with a smaller positive step");
        if (g.dmax > 0) sym::check(sym::ge(n, h * g.dmax), "decrease is limited by the maximal decrease factor");
        sym::Cond optimal = sym::eq(n, h * full); if (g.dmax > 0) optimal = optimal || (sym::eq(n, h * g.dmax) && sym::le(full, g.dmax));
        sym::check(optimal, "the retry step is the one the error model predicts, unless limited");
        sym::reach("reject");
    }
}
SYM_HARNESS(order1_real, REAL) { contract(1, true); }
SYM_HARNESS(order2_real, REAL) { contract(2, true); }
SYM_HARNESS(order3_real, REAL) { contract(3, false); }
SYM_HARNESS(order4_real, REAL) { contract(4, false); }
SYM_HARNESS(order5_real, REAL) { contract(5, false); }
SYM_HARNESS(order7_real, REAL) { contract(7, false); }
SYM_HARNESS(defaults_real, REAL) {
    C c; int q = 1 + sym::choice("q", 3); double h = sym::real("h"), e = sym::real("err"); sym::assume(sym::gt(h, 0) && sym::gt(e, 0)); C::Result r = c.controlStepSize(h, e, q); double p = std::pow(1e-6 / e, 1. / (q + 1));
    if (!r.acceptStep) { sym::check(sym::gt(e, 1e-6), "default: a rejected error exceeds the tolerance"); sym::check(sym::ge(r.newStepSize, 0.1 * h) && sym::lt(r.newStepSize, h), "default: decrease within [0.1, 1)"); }
    else { sym::check(sym::gt(p, 1 - 1e-5), "default: an accepted error is within the tolerance"); if (r.changeStepSize) sym::check(sym::ge(r.newStepSize, 1.3 * h) && sym::le(r.newStepSize, 2 * h), "default: growth within [1.3, 2]"); else sym::check_eq(r.newStepSize, h, "default: unchanged"); }
    sym::reach("defaults"); }
SYM_HARNESS(zero_error_real, REAL) { Cfg g = anyCfg(); C c; put(c, g); double h = sym::real("h"); sym::assume(sym::gt(h, 0)); C::Result r = c.controlStepSize(h, 0., 1 + sym::choice("q", 8)); sym::check(r.acceptStep, "zero error is accepted"); if (!r.changeStepSize) sym::check_eq(r.newStepSize, h, "an unchanged step size is the current one"); sym::reach("zero"); }
// IEEE doubles: NaN and infinite errors are rejected with a smaller step; the default and every other setting of the limits
SYM_HARNESS(nan_error_fp, FP) {
    Cfg g; g.tol = 1e-6; g.ins = 0.8; g.imin = sym::flag("inc_min") ? 1.3 : 0; g.imax = sym::flag("inc_max") ? 2 : 0; g.dmax = 0.1; g.ceil = sym::flag("ceiling") ? 0.5 : 0; C c; put(c, g);
    int q = 1 + 3 * sym::choice("q", 2); double h = sym::real("h"); sym::assume(sym::gt(h, 1e-300) && sym::lt(h, 1e300)); double e = sym::flag("nan") ? NAN : INFINITY;
    C::Result r = c.controlStepSize(h, e, q);
    sym::check(!r.acceptStep && r.changeStepSize, "a NaN or infinite error is rejected"); sym::check(sym::lt(r.newStepSize, h) && sym::gt(r.newStepSize, 0.), "the retry is made with a smaller positive step"); sym::reach("nan");
}
