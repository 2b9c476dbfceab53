// C12: every integrator applies the truncation its event controller decides, whatever the truncated time and state.
#include "ode_common.h"
static const int N2 = 1, N1 = 1, NV = 3;
enum Kind { PLAIN, EMBEDDED, ADAPTIVE, NEWTON, ROSEN };
struct Setup { const char* type; Kind kind; const char* mode; const char* ref; bool symm; int stages; };
static SolverPtr make(const Setup& u, double h, bool check, std::shared_ptr<LamRhs> f) {
    SolverPtr s = newSolver(u.type); Params p; if (u.kind == EMBEDDED || u.kind == ADAPTIVE || std::string(u.type) == "rosenbrock_sw2_4") p["disable_error_check"] = !check;
    if (u.ref) { p["max_stages"] = u.stages; p["symmetric"] = u.symm; s->setParameters(p); auto* e = dynamic_cast<OdeSolverExtrapolator<VD>*>(s.get()); e->setStepSequence(std::make_shared<ExtrapolatorStepSequenceHarmonic>()); e->setReferenceSolver(newSolver(u.ref)); }
    else { if (u.mode) p["mode"] = std::string(u.mode); s->setParameters(p); }
    s->setOdeRhs(f); s->setInitialStepSize(h); return s;
}
static std::shared_ptr<LamRhs> rhsOf(const Setup& u) {
    if (u.kind != ROSEN) return funRhs(N2, N1);
    // affine system: its Jacobian is the same everywhere, so that a kept Jacobian is a fresh one
    static const double A[3][3] = { { 0, 1, 0 }, { -2, -0.5, 0.25 }, { 0.5, 0.125, -3 } }; return std::make_shared<LamRhs>(N2, N1, [](V& d, double, const V& x) { for (int i = 0; i < 3; ++i) d[i] = A[i][0] * x[0] + A[i][1] * x[1] + A[i][2] * x[2] + (i ? 0.75 : 0.); });
}
static V oneStep(const Setup& u, double h, double t, const V& x) { SolverPtr o = make(u, h, false, rhsOf(u)); setEvents(o, nullptr); o->setInitialState(t, x); o->doStep(); return o->initialState(); }
static void same(const V& a, const V& b, const std::string& l, bool rosen) { if (!rosen) { checkVec(a, b, l); return; } sym::check(a.size() == b.size(), l + " (size)"); for (unsigned i = 0; i < a.size() && i < b.size(); ++i) sym::check_near(a[i], b[i], 1e-6, l); }
static void body(Setup u, int steps, bool control) {
    bool rosen = u.kind == ROSEN; auto f = rhsOf(u); double h = rosen ? 0.25 : sym::real("h"), t = rosen ? sym::real_in("t", -1, 1) : sym::real("t"); V x = rosen ? symVecIn("x", NV, -1, 1) : symVec("x", NV); if (!rosen) sym::assume(sym::gt(h, 1e-10));
    SolverPtr s = make(u, h, control, f); auto ev = std::make_shared<NdEvents>(); setEvents(s, ev); sym::check(ev->odeRhs() == f, "the event controller is given the model");
    double after = 0; if (u.kind == EMBEDDED && sym::flag("h_after_switch")) { after = 0.0625; Params p; p["h_after_switch"] = after; s->setParameters(p); }
    bool trunc = false, byModel = false; double tt = 0; V xx; unsigned idx = 0; int dir = 0;
    ev->f = [&](V& x2, double& t2, unsigned* i, int* d) { int how = sym::choice("truncate", 3); trunc = how != 0; byModel = how == 2; if (!trunc) return false; std::string k = S(ev->ends.size()); tt = rosen ? sym::real_in(("tt" + k).c_str(), -1, 1) : sym::real("tt" + k, 0); xx = rosen ? symVecIn("xx" + k + "_", NV, -1, 1) : symVec("xx" + k + "_", NV); idx = 3; x2 = xx; t2 = tt; if (byModel) return true; dir = sym::flag("direction") ? 1 : -1; if (i) *i = idx; if (d) *d = dir; return true; };
    std::vector<char> verdict; int left = 0; std::shared_ptr<NdController> ctl; double pending = h;
    if (control) { setNorm(s, std::make_shared<NdNorm>()); ctl = std::make_shared<NdController>(); setController(s, ctl); ctl->f = [&](double hc, double, double) { bool acc = left <= 1 || sym::flag("accept"); --left; verdict.push_back(acc); double nh = acc ? hc : hc * 0.5; pending = nh; return NdController::Result(nh, acc, !acc); }; }
    Rec rec; rec.attach(*s); s->setInitialState(t, x); sym::check(ev->resets >= 1, "setting the initial state resets the event controller"); sym::check(ev->starts.empty() && ev->ends.empty(), "no events before the first step");
    for (int k = 0; k < steps; ++k) {
        ev->log.clear(); ev->starts.clear(); ev->ends.clear(); verdict.clear(); left = 2; size_t p0 = rec.post.size(); trunc = false; s->doStep();
        size_t na = control ? verdict.size() : 1; double hc = h; for (size_t i = 1; i < na; ++i) hc = hc * 0.5;
        sym::check(ev->starts.size() == na, "the event controller is told the start of every attempt"); for (auto& b : ev->starts) { sym::check_eq(b.t, t, "start time told to the event controller"); same(b.x, x, "start state told to the event controller", rosen); }
        sym::check(ev->ends.size() == 1 && ev->log.back() == 'E', "the event controller is asked exactly once, about the accepted attempt"); if (ev->ends.size() != 1) return;
        V X = oneStep(u, hc, t, x); same(ev->ends[0].x1, x, "the event controller is given the start state", rosen); same(ev->ends[0].x2, X, "the event controller is given the result of the step", rosen); sym::check_eq(ev->ends[0].t2, t + hc, "the event controller is given the end time");
        sym::check(rec.post.size() == p0 + na, "every attempt is reported"); if (rec.post.size() != p0 + na) return; const auto& a = rec.post.back();
        sym::check(a.stepTruncated() == trunc, "truncation is reported to observers"); if (trunc && byModel) sym::check(a.transitionType() == 0, "a truncation by the model has no direction"); else if (trunc) { sym::check(a.izfTrunc() == idx, "the index is reported to observers"); sym::check(a.transitionType() == dir, "the direction is reported to observers"); }
        sym::check_eq(a.stepSize(), hc, "the step size tried is reported"); for (size_t i = p0; i + 1 < rec.post.size(); ++i) sym::check(!rec.post[i].stepTruncated() && !rec.post[i].stepAccepted(), "rejected attempts are not reported as truncated");
        t = trunc ? tt : t + hc; x = trunc ? xx : X; sym::check_eq(s->initialTime(), t, trunc ? "integration continues at the truncated time" : "without truncation the time advances by the step size"); same(s->initialState(), x, trunc ? "integration continues from the truncated state" : "without truncation the result of the step is kept", rosen);
        sym::check_eq(rec.tPost.back(), t, "observers see the new time"); same(rec.xPost.back(), x, "observers see the new state", rosen);
        h = control ? pending : h; if (trunc && after > 0) { size_t np = rec.pre.size(); bool cutH = sym::decide(sym::gt(h, after)); if (cutH) h = after; (void)np; sym::reach("after switch"); }
        if (trunc && k + 1 < steps) sym::reach("truncated");
        if (k + 1 < steps && sym::flag("restart")) { int r0 = ev->resets; t = rosen ? sym::real_in("t_new", -1, 1) : sym::real("t_new"); x = rosen ? symVecIn("x_new", NV, -1, 1) : symVec("x_new", NV); h = rosen ? 0.25 : sym::real("h_new"); if (!rosen) sym::assume(sym::gt(h, 1e-10)); s->setInitialStepSize(h); s->setInitialState(t, x); sym::check(ev->resets > r0, "a new initial state forgets pending events"); }
    }
    sym::reach("end");
}
SYM_HARNESS(euler_real, REAL) { body({"euler", PLAIN, nullptr, nullptr, false, 0}, 3, false); }
SYM_HARNESS(rk4_real, REAL) { body({"rk4", PLAIN, nullptr, nullptr, false, 0}, 3, false); }
SYM_HARNESS(dopri45_low_real, REAL) { body({"dopri_45", EMBEDDED, "low", nullptr, false, 0}, 2, true); }
SYM_HARNESS(dopri45_high_real, REAL) { body({"dopri_45", EMBEDDED, "high", nullptr, false, 0}, 2, true); }
SYM_HARNESS(dopri56_real, REAL) { body({"dopri_56", EMBEDDED, "high", nullptr, false, 0}, 3, false); }
SYM_HARNESS(dopri78_real, REAL) { body({"dopri_78", EMBEDDED, "low", nullptr, false, 0}, 3, false); }
SYM_HARNESS(extrapolator_real, REAL) { body({"extrapolator", ADAPTIVE, nullptr, "euler", false, 2}, 3, true); }
SYM_HARNESS(extrapolator_sym_real, REAL) { body({"extrapolator", ADAPTIVE, nullptr, "gragg", true, 2}, 3, true); }
SYM_HARNESS(rosenbrock_w1_real, REAL) { body({"rosenbrock_w1", ROSEN, nullptr, nullptr, false, 0}, 3, false); }
SYM_HARNESS(rosenbrock_sw24_real, REAL) { body({"rosenbrock_sw2_4", ROSEN, nullptr, nullptr, false, 0}, 3, false); }
SYM_HARNESS(rosenbrock_sw24_control_real, REAL) { body({"rosenbrock_sw2_4", ROSEN, nullptr, nullptr, false, 0}, 2, true); }
// Gragg: a step that was not truncated continues the leapfrog, a truncated one starts anew
SYM_HARNESS(gragg_real, REAL) {
    double h = sym::real("h"), t = sym::real("t"); V x = symVec("x", NV); auto f = funRhs(N2, N1); SolverPtr s = newSolver("gragg"); s->setOdeRhs(f); s->setInitialStepSize(h); auto ev = std::make_shared<NdEvents>(); setEvents(s, ev); Rec rec; rec.attach(*s); s->setInitialState(t, x); sym::check(ev->resets >= 1, "setting the initial state resets the event controller");
    SolverPtr o; auto fresh = [&]() { o = newSolver("gragg"); o->setOdeRhs(funRhs(N2, N1)); o->setInitialStepSize(h); setEvents(o, nullptr); o->setInitialState(t, x); }; fresh();
    bool trunc, byModel = false; double tt; V xx; int dir = 1; ev->f = [&](V& x2, double& t2, unsigned* i, int* d) { int how = sym::choice("truncate", 3); trunc = how != 0; byModel = how == 2; if (!trunc) return false; std::string k = S(rec.post.size()); tt = sym::real("tt" + k, 0); xx = symVec("xx" + k + "_", NV); x2 = xx; t2 = tt; if (byModel) return true; if (i) *i = 2; if (d) *d = dir; return true; };
    for (int k = 0; k < 3; ++k) { trunc = false; ev->starts.clear(); ev->ends.clear(); s->doStep(); o->doStep(); V X = o->initialState();
        sym::check(ev->starts.size() == 1 && ev->ends.size() == 1, "the event controller is told start and end once"); if (ev->ends.size() != 1) return; checkVec(ev->starts[0].x, x, "start state told"); sym::check_eq(ev->starts[0].t, t, "start time told"); checkVec(ev->ends[0].x2, X, "the event controller is given the result of the step"); sym::check_eq(ev->ends[0].t2, t + h, "the event controller is given the end time");
        const auto& a = rec.post.back(); sym::check(a.stepTruncated() == trunc && (!trunc || byModel || (a.izfTrunc() == 2 && a.transitionType() == dir)), "truncation, index and direction are reported");
        t = trunc ? tt : t + h; x = trunc ? xx : X; sym::check_eq(s->initialTime(), t, "time after the step"); checkVec(s->initialState(), x, "state after the step"); if (trunc) { fresh(); sym::reach("truncated"); }
        if (k < 2 && sym::flag("restart")) { int r0 = ev->resets; t = sym::real("t_new" + S(k), 0); x = symVec("x_new" + S(k) + "_", NV); s->setInitialState(t, x); fresh(); sym::check(ev->resets > r0, "a new initial state forgets pending events"); } }
    sym::reach("gragg");
}
// implicit Euler with an arbitrary algebraic solver
SYM_HARNESS(implicit_euler_real, REAL) {
    double h = sym::real("h"), t = sym::real("t"); sym::assume(sym::gt(h, 0.)); V x = symVec("x", NV); auto f = funRhs(N2, N1); SolverPtr s = newSolver("i_euler"); auto nw = std::make_shared<NdNewton>(); setNewton(s, nw); s->setOdeRhs(f); s->setInitialStepSize(h); auto ev = std::make_shared<NdEvents>(); setEvents(s, ev); Rec rec; rec.attach(*s); s->setInitialState(t, x); sym::check(ev->resets >= 1, "setting the initial state resets the event controller");
    V sol; int run = 0; nw->f = [&](const VectorMapping<VD>&, const V&, V& y) { y = sol = symVec("sol" + S(run++) + "_", 2); return NdNewton::Converged; };
    bool trunc, byModel = false; double tt; V xx; ev->f = [&](V& x2, double& t2, unsigned* i, int* d) { int how = sym::choice("truncate", 3); trunc = how != 0; byModel = how == 2; if (!trunc) return false; std::string k = S(run); tt = sym::real("tt" + k, 0); xx = symVec("xx" + k + "_", NV); x2 = xx; t2 = tt; if (byModel) return true; if (i) *i = 2; if (d) *d = -1; return true; };
    for (int k = 0; k < 2; ++k) { trunc = false; ev->starts.clear(); ev->ends.clear(); V g = x; s->doStep(); V X(3); X[0] = x[0] + h * sol[0]; X[1] = sol[0]; X[2] = sol[1];
        checkVec(nw->guess, V(x.block(1, 2)), "the step starts from the current state"); sym::check(ev->starts.size() == 1 && ev->ends.size() == 1, "the event controller is told start and end once"); if (ev->ends.size() != 1) return; checkVec(ev->starts[0].x, x, "start state told"); sym::check_eq(ev->starts[0].t, t, "start time told"); checkVec(ev->ends[0].x2, X, "the event controller is given the result of the step"); sym::check_eq(ev->ends[0].t2, t + h, "the event controller is given the end time");
        const auto& a = rec.post.back(); sym::check(a.stepTruncated() == trunc && (!trunc || byModel || (a.izfTrunc() == 2 && a.transitionType() == -1)), "truncation, index and direction are reported");
        t = trunc ? tt : t + h; x = trunc ? xx : X; sym::check_eq(s->initialTime(), t, "time after the step"); checkVec(s->initialState(), x, "state after the step"); if (trunc) sym::reach("truncated"); }
    sym::reach("implicit");
}
// the integrators' own event controllers: the model is switched exactly once per event, at the state integration continues from
static void own(Setup u, bool newton, bool predictor) {
    auto g = u.type && u.kind == ROSEN ? rhsOf(u) : funRhs(N2, N1); auto f = std::make_shared<LamRhs>(N2, N1, g->f); f->nz = 1; f->zf = [](V& d, double, const V& x) { d[0] = x[0] + x[1]; }; int sw = 0; V at; V jump = symVec("jump", NV); int dir = 0; double tAt = 0; f->sw = [&](const int* tr, double tt, V& x) { ++sw; at = x; dir = tr[0]; tAt = tt; x = jump; };
    SolverPtr s; double h = 0.25, t = sym::real("t"); V x = symVec("x", NV); V y;
    if (newton) { s = newSolver("i_euler"); auto nw = std::make_shared<NdNewton>(); setNewton(s, nw); if (predictor) { Params p; p["predictor"] = newSolver("euler"); p["predictor_steps"] = 2u; s->setParameters(p); } nw->f = [&](const VectorMapping<VD>&, const V&, V& z) { z = y = symVec("sol", 2); return NdNewton::Converged; }; s->setOdeRhs(f); s->setInitialStepSize(h); } else s = make(u, h, false, f);
    Rec rec; rec.attach(*s); s->setInitialState(t, x); s->doStep(); V X; if (newton) { X = V(3); X[0] = x[0] + h * y[0]; X[1] = y[0]; X[2] = y[1]; } else X = oneStep(u, h, t, x);
    const auto& a = rec.post.back(); double z0 = x[0] + x[1], z1 = X[0] + X[1]; bool ev = sym::decide((sym::lt(z0, 0.) && sym::ge(z1, 0.)) || (sym::gt(z0, 0.) && sym::le(z1, 0.)) || (sym::eq(z0, 0.) && sym::ne(z1, 0.)));
    sym::check(a.stepTruncated() == ev, "a sign change of the event function truncates the step"); sym::check(sw == (ev ? 1 : 0), "the model is switched exactly once per event"); if (a.stepTruncated() != ev || sw != (ev ? 1 : 0)) return;
    if (ev) { sym::check(dir == a.transitionType() && a.izfTrunc() == 0, "model and observers are told the same"); checkVec(s->initialState(), jump, "integration continues from the switched state"); sym::check_eq(s->initialTime(), tAt, "integration continues at the switching time"); sym::check(sym::ge(tAt, t) && sym::le(tAt, t + h), "the event lies within the step"); sym::reach("event"); }
    else { checkVec(s->initialState(), X, "without an event the step stands"); sym::check_eq(s->initialTime(), t + h, "without an event the time advances by the step"); sym::reach("no event"); }
}
SYM_HARNESS(own_euler_real, REAL) { own({"euler", PLAIN, nullptr, nullptr, false, 0}, false, false); }
SYM_HARNESS(own_rk4_real, REAL) { own({"rk4", PLAIN, nullptr, nullptr, false, 0}, false, false); }
SYM_HARNESS(own_dopri45_real, REAL) { own({"dopri_45", EMBEDDED, "low", nullptr, false, 0}, false, false); }
SYM_HARNESS(own_gragg_real, REAL) { own({"gragg", PLAIN, nullptr, nullptr, false, 0}, false, false); }
SYM_HARNESS(own_extrapolator_real, REAL) { own({"extrapolator", ADAPTIVE, nullptr, "euler", false, 2}, false, false); }
SYM_HARNESS(own_extrapolator_sym_real, REAL) { own({"extrapolator", ADAPTIVE, nullptr, "gragg", true, 2}, false, false); }
SYM_HARNESS(own_implicit_real, REAL) { own({}, true, false); }
SYM_HARNESS(own_implicit_predicted_real, REAL) { own({}, true, true); }
