// C27: after a new initial state an integrator steps like a freshly built one, whatever it did before.
#include <cstring>
#include <map>
#include "ode_common.h"
#include "alg_common.h"
struct Boom : std::exception {};
struct Cfg { const char* type; const char* ref; bool adaptive; bool events; unsigned n2, n1; };
// the algebraic solver's answer is a function of the mapping and the guess
struct Newton : NdNewton { bool failing = false; Newton() { f = [this](const VectorMapping<VD>& m, const V& g, V& y) { if (failing) return NdNewton::Diverged; V r(m.outputSize()); m.map(r, g); y = g; for (unsigned i = 0; i < y.size(); ++i) y[i] = g[i] - 0.5 * r[i]; return NdNewton::Converged; }; } };
// values nobody knows, the same for the same arguments: what the restarted and the fresh integrator are both told
struct Memo { struct Row { std::vector<double> args; double r; }; std::vector<Row> rows; int calls = 0;
    double operator()(const char* nm, const std::vector<double>& a, double lo = 0, double hi = 0) { std::string n = nm + S(calls++); for (auto& q : rows) if (q.args.size() == a.size() && (a.empty() || !memcmp(q.args.data(), a.data(), a.size() * sizeof(double)))) return q.r; double r = lo < hi ? sym::real_in(n.c_str(), lo, hi) : sym::real(n.c_str()); rows.push_back({a, r}); return r; } };
struct World { std::map<std::string, Memo> m; bool past = false; double get(const std::string& n, std::vector<double> a, double lo = 0, double hi = 0) { return m[n](n.c_str(), a, lo, hi); } };
static std::vector<double> list(const V& v) { std::vector<double> r; for (unsigned i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; }
struct Rig {
    Cfg c; SolverPtr s; std::shared_ptr<Newton> nw; std::shared_ptr<NdController> ctl; std::shared_ptr<NdNorm> norm; Rec rec; struct Ans { bool acc, chg; int kind; }; std::vector<Ans> script; size_t at = 0; bool playing = false; int attempts = 0;
    World& w; Rig(Cfg c_, World& w_) : c(c_), w(w_) {
        s = newSolver(c.type); if (!strcmp(c.type, "extrapolator")) { Params p; p["max_stages"] = 2u; s->setParameters(p); auto* e = dynamic_cast<OdeSolverExtrapolator<VD>*>(s.get()); e->setStepSequence(std::make_shared<ExtrapolatorStepSequenceHarmonic>()); auto r = newSolver(c.ref); plain(r); e->setReferenceSolver(r); }
        if (!strcmp(c.type, "i_euler")) { plain(s); if (c.ref) { Params p; p["predictor"] = newSolver(c.ref); p["predictor_steps"] = 2u; s->setParameters(p); } Params p; p["alpha"] = 0.5; s->setParameters(p); }
        if (!strcmp(c.type, "gragg") && c.ref) { Params p; p["smooth"] = true; s->setParameters(p); }
        if (!c.adaptive) { Params p; p["disable_error_check"] = true; s->setParameters(p); }
        else { ctl = std::make_shared<NdController>(); norm = std::make_shared<NdNorm>(); norm->f = [this](const V& e) { return w.past ? 0.5 : w.get("norm", list(e), 0, 4); }; setController(s, ctl); setNorm(s, norm);
            ctl->f = [this](double h, double e, double) { Ans a; if (playing) { sym::check(at < script.size(), "the number of attempts is that of a fresh integrator"); if (at >= script.size()) return NdController::Result(h, true, false); a = script[at++]; } else { a.acc = attempts <= 1 || sym::flag("accept"); a.chg = !a.acc || sym::flag("change"); --attempts; script.push_back(a); } double nh = w.past ? 0.75 * h : w.get("new_h", {h, e}, 0.125, 2); return NdController::Result(a.chg ? nh : h, a.acc, a.chg); }; }
        if (!c.events) { if (auto* h = dynamic_cast<OdeSolverEventController<VD>*>(s.get())) (void)h; }
        rec.attach(*s); }
    void plain(SolverPtr r) { if (auto* h = dynamic_cast<OdeNewtonSolver<VD>*>(r.get())) { nw = std::make_shared<Newton>(); h->setNewtonSolver(nw); } else if (strcmp(c.type, "i_euler")) { Params p; p["disable_error_check"] = true; r->setParameters(p); } }
};
static std::shared_ptr<LamRhs> rhsOf(World& w, unsigned n2, unsigned n1, bool other, bool events, int* fault) {
    auto r = std::make_shared<LamRhs>(n2, n1, [=, &w](V& d, double t, const V& x) { if (fault && *fault >= 0 && (*fault)-- == 0) throw Boom(); for (unsigned i = 0; i < n2; ++i) d[i] = x[n2 + i];
        if (other) { double q = 0.25 * t; for (unsigned i = 0; i < x.size(); ++i) q += (i + 1) * 0.125 * x[i]; for (unsigned i = n2; i < 2 * n2 + n1; ++i) d[i] = q - 0.5 * i; return; }
        auto a = list(x); a.push_back(t); for (unsigned i = n2; i < 2 * n2 + n1; ++i) d[i] = w.get("f" + S(i), a, -8, 8); });
    if (events) { r->nz = 1; r->zflags = { OdeRhs<VD>::BothDirections }; r->zf = [&w](V& d, double t, const V& x) { d[0] = x[0] - t; }; r->sw = [&w](const int*, double, V& x) { x[0] = w.get("jump", {x[0]}); }; } return r; }
static void body(Cfg c, int before, int after, int attempts, bool symbolicPast = false) {
    unsigned n = 2 * c.n2 + c.n1; int fault = -1; World w; auto f = rhsOf(w, c.n2, c.n1, false, c.events, nullptr); Rig a(c, w); double h = 0.375 * (1 + sym::choice("h", 2)), t = sym::real("t"); V x = symVec("x", n);
    // the history: other settings, another system, steps taken and refused, a failing model
    bool otherRhs = sym::flag("other_system"), otherH = sym::flag("other_step"), boom = sym::flag("failing_model"); unsigned m2 = c.n2, m1 = c.n1; if (otherRhs && !c.events) { m2 = c.n2 ? 0 : 1; m1 = c.n1 + 1; } unsigned m = 2 * m2 + m1;
    auto g = otherRhs || boom ? rhsOf(w, m2, m1, otherRhs, c.events, &fault) : f; a.s->setOdeRhs(g); a.s->setInitialStepSize(otherH ? 0.5 : h); w.past = true; V xo = symbolicPast ? symVec("x_old", m) : V(m); if (!symbolicPast) for (unsigned i = 0; i < m; ++i) xo[i] = 0.25 * i - 0.5; a.s->setInitialState(symbolicPast ? sym::real("t_old") : -0.75, xo); int k = sym::choice("steps_before", before + 1); bool thrown = false;
    if (boom) fault = sym::choice("fault_at", 4); for (int i = 0; i < k && !thrown; ++i) { a.attempts = attempts; if (a.nw && i == k - 1) a.nw->failing = sym::flag("failing_solver"); try { a.s->doStep(); } catch (Boom&) { thrown = true; } catch (cxx::exception&) { thrown = true; } } fault = -1; if (a.nw) a.nw->failing = false;
    // the restart
    w.past = false;    if (g != f) a.s->setOdeRhs(f); if (otherH) a.s->setInitialStepSize(h); a.s->setInitialState(t, x); a.script.clear(); a.rec.pre.clear(); a.rec.post.clear(); a.rec.tPost.clear(); a.rec.xPost.clear(); a.rec.order.clear(); size_t hard = a.nw ? a.nw->hard.size() : 0; sym::check_eq(a.s->initialTime(), t, "the time is the one set"); checkVec(a.s->initialState(), x, "the state is the one set");
    Rig b(c, w); bool late = sym::flag("step_size_last"); b.s->setOdeRhs(f); if (!late) b.s->setInitialStepSize(h); b.s->setInitialState(t, x); if (late) b.s->setInitialStepSize(h); b.playing = true;
    for (int i = 0; i < after; ++i) { a.attempts = attempts; f->rec = true; f->before.clear(); f->calls.clear(); a.s->doStep(); auto fa = f->before; b.script = a.script; f->before.clear(); b.s->doStep(); f->rec = false; sym::check_eq(a.s->initialTime(), b.s->initialTime(), "the time is that of a fresh integrator"); checkVec(a.s->initialState(), b.s->initialState(), "the state is that of a fresh integrator"); sym::check(fa.size() == f->before.size(), "the model is told of as many steps as by a fresh integrator"); if (fa.size() == f->before.size()) for (size_t j = 0; j < fa.size(); ++j) { sym::check_eq(fa[j].first, f->before[j].first, "the model is told the times a fresh integrator tells"); checkVec(fa[j].second, f->before[j].second, "the model is told the states a fresh integrator tells"); } }
    if (a.ctl) sym::check(b.at == a.script.size(), "the number of attempts is that of a fresh integrator");
    sym::check(a.rec.order == b.rec.order, "observers are notified as by a fresh integrator"); if (a.rec.order != b.rec.order) return; for (size_t i = 0; i < a.rec.pre.size(); ++i) sym::check_eq(a.rec.pre[i], b.rec.pre[i], "step sizes are those of a fresh integrator");
    for (size_t i = 0; i < a.rec.post.size(); ++i) { const auto &p = a.rec.post[i], &q = b.rec.post[i]; sym::check_eq(p.stepSize(), q.stepSize(), "step sizes are those of a fresh integrator"); sym::check(p.stepAccepted() == q.stepAccepted() && p.stepSizeChanged() == q.stepSizeChanged() && p.stepTruncated() == q.stepTruncated() && p.izfTrunc() == q.izfTrunc() && p.transitionType() == q.transitionType(), "steps are reported as by a fresh integrator"); sym::check_eq(p.errorNorm(), q.errorNorm(), "errors are those of a fresh integrator"); sym::check_eq(a.rec.tPost[i], b.rec.tPost[i], "observers see the times of a fresh integrator"); checkVec(a.rec.xPost[i], b.rec.xPost[i], "observers see the states of a fresh integrator"); }
    if (a.nw) { sym::check(a.nw->hard.size() - hard == b.nw->hard.size(), "the algebraic solver runs as often as for a fresh integrator"); if (a.nw->hard.size() - hard == b.nw->hard.size()) for (size_t i = 0; i < b.nw->hard.size(); ++i) sym::check(a.nw->hard[hard + i] == b.nw->hard[i], "the algebraic solver is reset as for a fresh integrator"); }
    sym::reach("restart");
}
SYM_HARNESS(euler_real, REAL) { body({"euler", nullptr, false, false, 1, 1}, 2, 2, 1); }
SYM_HARNESS(rk4_real, REAL) { body({"rk4", nullptr, false, false, 1, 1}, 2, 2, 1); }
SYM_HARNESS(gragg_real, REAL) { body({"gragg", nullptr, false, false, 1, 1}, 2, 2, 1); }
SYM_HARNESS(gragg_smooth_real, REAL) { body({"gragg", "smooth", false, false, 1, 1}, 2, 2, 1); }
SYM_HARNESS(dopri45_real, REAL) { body({"dopri_45", nullptr, true, false, 1, 1}, 1, 2, 2); }
SYM_HARNESS(dopri56_real, REAL) { body({"dopri_56", nullptr, true, false, 0, 1}, 1, 2, 2); }
SYM_HARNESS(dopri78_real, REAL) { body({"dopri_78", nullptr, true, false, 0, 1}, 1, 1, 2); }
SYM_HARNESS(dopri45_plain_real, REAL) { body({"dopri_45", nullptr, false, false, 1, 1}, 2, 2, 1); }
SYM_HARNESS(extrapolated_euler_real, REAL) { body({"extrapolator", "euler", true, false, 0, 1}, 1, 2, 2); }
SYM_HARNESS(extrapolated_gragg_real, REAL) { body({"extrapolator", "gragg", true, false, 1, 0}, 1, 2, 2); }
SYM_HARNESS(extrapolated_i_euler_real, REAL) { body({"extrapolator", "i_euler", true, false, 0, 1}, 1, 1, 2); }
SYM_HARNESS(extrapolated_plain_real, REAL) { body({"extrapolator", "rk4", false, false, 0, 1}, 1, 2, 1); }
SYM_HARNESS(i_euler_real, REAL) { body({"i_euler", nullptr, false, false, 1, 1}, 2, 2, 1); }
SYM_HARNESS(i_euler_predictor_real, REAL) { body({"i_euler", "euler", false, false, 0, 1}, 2, 2, 1); }
SYM_HARNESS(rosenbrock_w1_real, REAL) { body({"rosenbrock_w1", nullptr, false, false, 0, 1}, 2, 2, 1); }
SYM_HARNESS(rosenbrock_sw24_real, REAL) { body({"rosenbrock_sw2_4", nullptr, true, false, 0, 1}, 1, 1, 2); }
SYM_HARNESS(rosenbrock_sw24_plain_real, REAL) { body({"rosenbrock_sw2_4", nullptr, false, false, 0, 1}, 1, 2, 1); }
SYM_HARNESS(extrapolated_rosenbrock_real, REAL) { body({"extrapolator", "rosenbrock_sw2_4", true, false, 0, 1}, 1, 1, 1); }
// with the linear event controller
SYM_HARNESS(euler_events_real, REAL) { body({"euler", nullptr, false, true, 0, 1}, 2, 1, 1); }
SYM_HARNESS(gragg_events_real, REAL) { body({"gragg", nullptr, false, true, 0, 1}, 1, 1, 1); }
SYM_HARNESS(i_euler_events_real, REAL) { body({"i_euler", nullptr, false, true, 0, 1}, 1, 1, 1); }
SYM_HARNESS(rosenbrock_events_real, REAL) { body({"rosenbrock_w1", nullptr, false, true, 0, 1}, 1, 1, 1); }
SYM_HARNESS(sw24_events_real, REAL) { body({"rosenbrock_sw2_4", nullptr, false, true, 0, 1}, 1, 1, 1); }
SYM_HARNESS(dopri45_events_real, REAL) { body({"dopri_45", nullptr, true, true, 0, 1}, 1, 1, 2); }
SYM_HARNESS(extrapolated_events_real, REAL) { body({"extrapolator", "euler", true, true, 0, 1}, 1, 1, 2); }
// the values of the past are arbitrary as well
SYM_HARNESS(dopri45_symbolic_past_real_thorough, REAL) { body({"dopri_45", nullptr, true, false, 1, 1}, 1, 2, 2, true); }
SYM_HARNESS(extrapolated_gragg_symbolic_past_real_thorough, REAL) { body({"extrapolator", "gragg", true, false, 1, 0}, 1, 2, 2, true); }
SYM_HARNESS(i_euler_symbolic_past_real_thorough, REAL) { body({"i_euler", "euler", false, false, 0, 1}, 2, 2, 1, true); }
SYM_HARNESS(sw24_symbolic_past_real_thorough, REAL) { body({"rosenbrock_sw2_4", nullptr, true, false, 0, 1}, 1, 1, 2, true); }
SYM_HARNESS(dopri45_two_steps_past_real_thorough, REAL) { body({"dopri_45", nullptr, true, false, 1, 1}, 2, 2, 1); }
