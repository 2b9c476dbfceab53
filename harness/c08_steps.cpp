// C08: step bookkeeping and history independence of explicit integrators, for uninterpreted right-hand sides.
#include "ode_common.h"
static const int N2 = 1, N1 = 1, NV = 3;
static int depth(int q, int t) { return getenv("SYM_THOROUGH") ? t : q; }
// an integrator without step-size control: k steps, each compared with a fresh integrator's first step
static void fixedSteps(const char* type) {
    auto f = funRhs(N2, N1); SolverPtr s = newSolver(type); Rec r; r.attach(*s); double h = sym::real("h"), t = sym::real("t"); V x = symVec("x", NV);
    s->setOdeRhs(f); s->setInitialStepSize(h); s->setInitialState(t, x); f->rec = true;
    int k = depth(3, 4);
    for (int i = 0; i < k; ++i) {
        f->before.clear(); f->before2.clear(); s->doStep();
        auto g = funRhs(N2, N1); SolverPtr o = newSolver(type); o->setOdeRhs(g); o->setInitialStepSize(h); o->setInitialState(t, x); o->doStep();
        sym::check_eq(s->initialTime(), t + h, "time advances by the step size"); checkVec(s->initialState(), o->initialState(), "state = one step of a fresh integrator");
        sym::check(r.order.size() == 2u * (i + 1) && r.order[2 * i] == '<' && r.order[2 * i + 1] == '>', "one pre- and one post-notification per step"); if (r.order.size() != 2u * (i + 1)) return;
        sym::check_eq(r.pre[i], h, "step size told before the step"); const auto& a = r.post[i];
        sym::check_eq(a.stepSize(), h, "step size told after the step"); sym::check(a.stepAccepted() && !a.stepTruncated() && !a.stepSizeChanged() && a.solver() == s.get(), "a plain step is reported as accepted, not truncated");
        sym::check_eq(r.tPost[i], t + h, "observers see the new time"); checkVec(r.xPost[i], o->initialState(), "observers see the new state");
        sym::check(f->before.size() == 1, "model told once before the step"); if (f->before.size() == 1) { sym::check_eq(f->before[0].first, t, "model told the time before the step"); checkVec(f->before[0].second, x, "model told the state before the step"); }
        t = s->initialTime(); x = s->initialState();
    }
    sym::reach("fixed");
}
SYM_HARNESS(euler_uf, UF) { fixedSteps("euler"); }
SYM_HARNESS(rk4_uf, UF) { fixedSteps("rk4"); }

struct Setup { const char* type; const char* mode; bool extrap; const char* ref; bool symm; int stages; };
static SolverPtr make(const Setup& u, std::shared_ptr<LamRhs> f, double h, bool check, const char* mode) {
    SolverPtr s = newSolver(u.type); Params p; p["disable_error_check"] = !check;
    if (u.extrap) { p["max_stages"] = u.stages; p["symmetric"] = u.symm; s->setParameters(p); auto* e = dynamic_cast<OdeSolverExtrapolator<VD>*>(s.get()); e->setStepSequence(std::make_shared<ExtrapolatorStepSequenceHarmonic>()); auto ref = newSolver(u.ref); e->setReferenceSolver(ref); }
    else { p["mode"] = std::string(mode); s->setParameters(p); }
    s->setOdeRhs(f); s->setInitialStepSize(h); return s;
}
// adaptive integrator with an arbitrary controller
static void adaptive(Setup u, int steps, int attempts) {
    sym::nofeas(true);
    auto f = funRhs(N2, N1); double h = sym::real("h"), t = sym::real("t"); V x = symVec("x", NV);
    SolverPtr s = make(u, f, h, true, u.mode); double thr = s->stepSizeMinThreshold(); sym::assume(sym::gt(h, thr));
    auto nm = std::make_shared<NdNorm>(); setNorm(s, nm); auto ctl = std::make_shared<NdController>(); setController(s, ctl);
    struct Call { double h, e, p; NdController::Result r; }; std::vector<Call> calls; int left = attempts;
    ctl->f = [&](double hc, double e, double p) { bool acc = left <= 1 || sym::flag("accept"), chg = sym::flag("change"); --left; double nh = chg ? sym::real("newh", calls.size()) : hc; NdController::Result r(nh, acc, chg); calls.push_back({hc, e, p, r}); return r; };
    Rec r; r.attach(*s); s->setInitialState(t, x); f->rec = true;
    for (int i = 0; i < steps; ++i) {
        size_t c0 = calls.size(), o0 = r.order.size(), p0 = r.post.size(), n0 = nm->seen.size(); f->before.clear(); left = attempts; bool thrown = false;
        try { s->doStep(); } catch (cxx::exception&) { thrown = true; }
        size_t nc = calls.size() - c0; sym::check(nc >= 1, "every attempt is submitted to the controller"); if (!nc) return;
        double hc = h; V xa = x;
        for (size_t k = 0; k < nc; ++k) {
            const Call& c = calls[c0 + k]; bool last = k + 1 == nc; std::string l = last ? " (last attempt)" : " (rejected attempt)";
            sym::check_eq(c.h, hc, "the attempt uses the step size decided last"); sym::check(last || !c.r.acceptStep, "retrying stops at acceptance");
            V lo, hi; { auto g = funRhs(N2, N1); SolverPtr o = make(u, g, hc, false, "high"); o->setInitialState(t, x); o->doStep(); hi = o->initialState(); }
            if (!u.extrap) { auto g = funRhs(N2, N1); SolverPtr o = make(u, g, hc, false, "low"); o->setInitialState(t, x); o->doStep(); lo = o->initialState(); V d = hi; d -= lo;
                sym::check(nm->seen.size() > n0 + k, "an error estimate per attempt"); if (nm->seen.size() <= n0 + k) return; sym::Cond a = sym::truth(true), b = a; for (int j = 0; j < NV; ++j) { a = a && sym::eq(nm->seen[n0 + k][j], d[j]); b = b && sym::eq(nm->seen[n0 + k][j], -d[j]); }
                sym::check(a || b, "the error vector is the difference of the two embedded results"); }
            sym::check(nm->seen.size() > n0 + k, "error estimate per attempt"); sym::check_eq(c.e, nm->given[n0 + k], "the controller is given the norm of the error");
            const V& res = u.extrap || u.mode[0] == 'h' ? hi : lo;
            bool expectThrow = c.r.changeStepSize && sym::decide(sym::le(c.r.newStepSize, thr));
            sym::check(!expectThrow || (thrown && last), "falling to the minimal step size stops the integration");
            if (expectThrow) { sym::check(thrown, "exception at the minimal step size"); sym::reach("threshold"); return; }
            sym::check(!last || c.r.acceptStep, "the step ends with an accepted attempt");
            size_t ip = p0 + k; sym::check(r.post.size() > ip && r.pre.size() > ip && f->before.size() > k, "every attempt is notified"); if (r.post.size() <= ip || f->before.size() <= k) return;
            sym::check_eq(r.pre[ip], hc, "step size told before the attempt" + l); const auto& a = r.post[ip]; sym::check_eq(a.stepSize(), hc, "step size told after the attempt" + l); sym::check_eq(a.errorNorm(), c.e, "error norm told" + l);
            sym::check(a.stepAccepted() == c.r.acceptStep && a.stepSizeChanged() == c.r.changeStepSize && !a.stepTruncated() && a.solver() == s.get(), "flags told" + l);
            sym::check_eq(f->before[k].first, t, "model told the time before the attempt"); checkVec(f->before[k].second, x, "model told the state before the attempt");
            if (!c.r.acceptStep) { sym::check_eq(r.tPost[ip], t, "rejection leaves the time"); checkVec(r.xPost[ip], x, "rejection leaves the state"); }
            else { sym::check_eq(r.tPost[ip], t + hc, "acceptance advances the time by the step size"); checkVec(r.xPost[ip], res, "acceptance gives the result of one step of a fresh integrator"); t = t + hc; x = res; }
            if (c.r.changeStepSize) hc = c.r.newStepSize;
        }
        sym::check(!thrown, "no exception otherwise"); sym::check(r.order.size() - o0 == 2 * nc, "notifications per attempt"); for (size_t k = 0; k < 2 * nc && o0 + k < r.order.size(); ++k) sym::check(r.order[o0 + k] == (k & 1 ? '>' : '<'), "notification order");
        sym::check_eq(s->initialTime(), t, "time after the step"); checkVec(s->initialState(), x, "state after the step"); h = hc;
    }
    sym::reach("adaptive");
}
static const int ST = 2;
SYM_HARNESS(dopri45_low_real, REAL) { adaptive({"dopri_45", "low", false, nullptr, false, 0}, 2, depth(3, 4)); }
SYM_HARNESS(dopri45_high_real, REAL) { adaptive({"dopri_45", "high", false, nullptr, false, 0}, 2, depth(3, 4)); }
SYM_HARNESS(dopri56_low_real, REAL) { adaptive({"dopri_56", "low", false, nullptr, false, 0}, 2, depth(3, 4)); }
SYM_HARNESS(dopri56_high_real, REAL) { adaptive({"dopri_56", "high", false, nullptr, false, 0}, 2, depth(3, 4)); }
SYM_HARNESS(dopri78_low_real, REAL) { adaptive({"dopri_78", "low", false, nullptr, false, 0}, 2, depth(3, 4)); }
SYM_HARNESS(dopri78_high_real, REAL) { adaptive({"dopri_78", "high", false, nullptr, false, 0}, 2, depth(3, 4)); }
SYM_HARNESS(extrapolator_real, REAL) { adaptive({"extrapolator", "high", true, "euler", false, 2}, 2, depth(3, 4)); }
SYM_HARNESS(extrapolator_sym_real, REAL) { adaptive({"extrapolator", "high", true, "gragg", true, 2}, 2, depth(3, 4)); }
