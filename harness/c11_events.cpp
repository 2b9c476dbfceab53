// C11: the linear event controller truncates a step exactly at the earliest declared sign change of an event function.
#include "ode_common.h"
#include "ode_num_int/ode/LinearOdeEventController.h"
typedef OdeRhs<VD> R;
static int sgn(double z) { if (sym::decide(sym::lt(z, 0.))) return -1; return sym::decide(sym::gt(z, 0.)) ? 1 : 0; }
struct Fn { unsigned flags; bool rec; double z; int s, st; };   // value and sign at the start of the step; st (both directions): the sign last left behind
struct Call { std::vector<int> tr; double t; V x; };
static bool fires(const Fn& f, int s2) {
    if ((f.flags & 3) == R::BothDirections) return s2 != f.st && !(f.s == 0 && s2 == 0);
    int d = (f.flags & 3) == R::MinusPlus ? 1 : -1;   // declared direction
    return f.st == -d ? s2 != -d : f.st == 0 ? s2 == d : false;
}
// table: the event functions take arbitrary values at the start, end and switch of each step (otherwise they are affine in time and state)
static void run(int nz, int steps, int kinds, bool useReset, bool table, int given = -1) {
    V tab;
    static const unsigned K[] = { R::PlusMinus, R::MinusPlus, R::BothDirections };
    std::vector<unsigned> flags; std::vector<Fn> fn(nz); bool anyRec = false;
    for (int i = 0; i < nz; ++i) { int k = given >= 0 ? (given + i) % 3 : sym::choice("direction", 3); bool rec = kinds > 1 && sym::flag("recompute"); anyRec = anyRec || rec; flags.push_back(K[k] | (rec ? (unsigned)R::RecomputeAfterSwitch : 0u)); fn[i].flags = K[k]; fn[i].rec = rec; }
    int n = nz + 1;   // the last variable has no event function
    auto rhs = std::make_shared<LamRhs>(0, n, [](V&, double, const V&) {}); rhs->nz = nz; rhs->zflags = flags;
    rhs->zf = [&](V& d, double t, const V& x) { for (int i = 0; i < nz; ++i) d[i] = table ? tab[i] : x[i] + t; };
    std::vector<Call> calls; V jump; rhs->sw = [&](const int* tr, double t, V& x) { Call c; c.tr.assign(tr, tr + nz); c.t = t; c.x = x; calls.push_back(c); if (jump.size()) x = jump; if (table) tab = symVec("zswitch", nz); };
    LinearOdeEventController<VD> ec; ec.setOdeRhs(rhs);
    double t = sym::real("t"); V x = symVec("x", n); bool fresh = true;
    for (int step = 0; step < steps; ++step) {
        std::string k = S(step);
        if (useReset && step && sym::flag("reset")) { t = sym::real("t_new" + k, 0); x = symVec("x_new" + k, n); ec.reset(); fresh = true; }
        else if (table && step) { t = sym::real("t" + k, 0); x = symVec("x" + k + "_", n); }
        if (fresh && table) tab = symVec("zstart" + k + "_", nz);
        if (fresh) for (int i = 0; i < nz; ++i) { fn[i].z = table ? tab[i] : x[i] + t; fn[i].s = fn[i].st = sgn(fn[i].z); } fresh = false;
        double h = sym::real("h" + k, 0); sym::assume(sym::gt(h, 0.)); V x2 = symVec("end" + k, n), xe = x2; double t2 = t + h; if (anyRec) jump = symVec("jump" + k, n);
        ec.atStepStart(x, t); V zend; if (table) tab = zend = symVec("zend" + k + "_", nz); unsigned izf = 77; int type = 55; calls.clear(); V x1 = x;
        bool got = ec.atStepEnd(x1, x2, t2, [](V&, double) {}, &izf, &type);
        // specification
        std::vector<int> s2(nz); std::vector<double> z2(nz), tc(nz); std::vector<char> fired(nz, 0); bool any = false;
        for (int i = 0; i < nz; ++i) { z2[i] = table ? zend[i] : xe[i] + (t + h); s2[i] = sgn(z2[i]); fired[i] = fires(fn[i], s2[i]); any = any || fired[i]; if (fired[i]) tc[i] = fn[i].s == 0 ? 0. : s2[i] == 0 ? 1. : fn[i].z / (fn[i].z - z2[i]); }
        for (int i = 0; i < n; ++i) sym::check_eq(x1[i], x[i], "the state at the start of the step is not changed");
        sym::check(got == any, "a step is truncated exactly if an event function changes sign in a declared direction");
        if (got != any) return;
        if (!any) {
            checkVec(x2, xe, "without an event the end state is unchanged"); sym::check_eq(t2, t + h, "without an event the end time is unchanged"); sym::check(calls.empty(), "without an event the model is not switched"); sym::check(izf == 77 && type == 55, "without an event no index or direction is reported");
            for (int i = 0; i < nz; ++i) { fn[i].z = z2[i]; fn[i].s = s2[i]; fn[i].st = s2[i]; }
            x = x2; t = t2; continue;
        }
        sym::check(izf < (unsigned)nz, "the event function index is valid"); if (!(izf < (unsigned)nz)) return; sym::check(fired[izf], "the event function reported changed sign in a declared direction"); if (!fired[izf]) return;
        double tm = tc[izf]; for (int j = 0; j < nz; ++j) if (fired[j]) sym::check(sym::le(tm, tc[j]), "the earliest crossing is chosen");
        sym::check(sym::ge(tm, 0.) && sym::le(tm, 1.), "the crossing lies within the step"); sym::check_eq(t2, t + h * tm, "the step ends at the linearly interpolated crossing");
        int dir = s2[izf] ? s2[izf] : fn[izf].s ? -fn[izf].s : -fn[izf].st; sym::check(type == dir, "the direction reported is that of the sign change");
        sym::check(calls.size() == 1, "the model is switched exactly once"); if (calls.size() != 1) return;
        for (int j = 0; j < nz; ++j) sym::check(calls[0].tr[j] == (j == (int)izf ? dir : 0), "the model is told which function crossed and in which direction");
        sym::check_eq(calls[0].t, t + h * tm, "the model is switched at the crossing time");
        for (int i = 0; i < n; ++i) { double m = x[i] + tm * (xe[i] - x[i]); sym::check_eq(calls[0].x[i], m, "the model is switched at the interpolated state"); sym::check_eq(x2[i], jump.size() ? jump[i] : m, "the state returned is the one the model switched to"); }
        // a function still before zero stays armed, even if it reached zero at the same time
        for (int i = 0; i < nz; ++i) { Fn& f = fn[i]; bool both = (f.flags & 3) == R::BothDirections;
            if (f.rec) { f.z = table ? tab[i] : x2[i] + t2; f.s = f.st = sgn(f.z); if (i == (int)izf && !both) sym::assume(f.s != ((f.flags & 3) == R::MinusPlus ? 1 : -1)); }
            else { f.z = i == (int)izf ? 0. : f.z + tm * (z2[i] - f.z); f.s = i == (int)izf ? 0 : sgn(f.z); int d = (f.flags & 3) == R::MinusPlus ? 1 : -1; if (i == (int)izf) f.st = both ? dir : 0; else if (both ? f.st == 0 : f.st != -d) f.st = f.s; }  }
        if (anyRec && !table) for (int i = 0; i < nz; ++i) if (!fn[i].rec) sym::assume(sym::eq(jump[i] + t2, fn[i].z));   // without the flag the function is continuous at the switch
        x = x2; t = t2; if (step == steps - 1) sym::reach("event in the last step");
    }
    sym::reach("end");
}
SYM_HARNESS(one_function_real, REAL) { run(1, 3, 1, false, true); }
SYM_HARNESS(one_recomputed_real, REAL) { run(1, 3, 2, false, true); }
SYM_HARNESS(one_reset_real, REAL) { run(1, 2, 1, true, false); }
SYM_HARNESS(one_affine_real, REAL) { run(1, 1, 2, false, false); }
SYM_HARNESS(two_functions_real, REAL) { run(2, 1, 1, false, false); }
SYM_HARNESS(two_recomputed_real, REAL) { run(2, 1, 2, false, true); }
SYM_HARNESS(two_functions_twice0_real, REAL) { run(2, 2, 1, false, true, 0); }
SYM_HARNESS(two_functions_twice2_thorough, REAL) { run(2, 2, 1, false, true, 2); }
SYM_HARNESS(one_function_long0_thorough, REAL) { run(1, 4, 1, true, true, 0); }
SYM_HARNESS(one_function_long1_thorough, REAL) { run(1, 4, 1, true, true, 1); }
SYM_HARNESS(one_function_long2_thorough, REAL) { run(1, 4, 1, true, true, 2); }
// no event functions: the model's own truncation decides
SYM_HARNESS(no_function_real, REAL) {
    auto rhs = std::make_shared<LamRhs>(0, 1, [](V&, double, const V&) {}); bool cut = sym::flag("cut"); double tc = sym::real("tc"), xc = sym::real("xc"); int n = 0; double seenT, seenX;
    rhs->trunc = [&](double& t, V& x) { ++n; seenT = t; seenX = x[0]; if (!cut) return false; t = tc; x[0] = xc; return true; };
    LinearOdeEventController<VD> ec; ec.setOdeRhs(rhs); V x1 = symVec("x", 1), x2 = symVec("e", 1), xe = x2; double t1 = sym::real("t"), t2 = sym::real("t2"), te = t2; ec.atStepStart(x1, t1); bool got = ec.atStepEnd(x1, x2, t2, [](V&, double) {});
    sym::check(got == cut && n == 1, "without event functions the model decides about truncation, once"); sym::check_eq(seenT, te, "the model sees the end time"); sym::check_eq(seenX, xe[0], "the model sees the end state"); sym::check_eq(t2, cut ? tc : te, "the end time is the model's"); sym::check_eq(x2[0], cut ? xc : xe[0], "the end state is the model's"); sym::reach("trunc");
}
