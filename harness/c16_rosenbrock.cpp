// C16: the linearly implicit integrators: every stage solves its defining linear system with the Jacobian of the last refresh and the step size used.
#include "trees.h"
typedef std::vector<V> M;   // columns
// difference quotients of the system at (t, x)
static M jac(const LamRhs& f, double t, const V& x) {
    unsigned n = x.size(); V f0(n); f.f(f0, t, x); M J; for (unsigned i = 0; i < n; ++i) { V y = x; y[i] += 1e-6; V g(n); f.f(g, t, y); V c(n); for (unsigned j = 0; j < n; ++j) c[j] = j < f.n2 ? (j + f.n2 == i ? 1. : 0.) : (g[j] - f0[j]) / 1e-6; J.push_back(c); } return J; }
static V mul(const M& J, const V& v) { unsigned n = v.size(); V r(n); for (unsigned j = 0; j < n; ++j) { double s = 0; for (unsigned i = 0; i < n; ++i) s += J[i][j] * v[i]; r[j] = s; } return r; }
static V lin(double a, const V& x, double b, const V& y) { V r(x.size()); for (unsigned i = 0; i < x.size(); ++i) r[i] = a * x[i] + b * y[i]; return r; }
// (I - hd J) k = r
static bool nearly = false;   // concrete matrices are decomposed in doubles
static void same(double a, double b, const std::string& l) { if (nearly) sym::check_near(a, b, 1e-6, l); else sym::check_eq(a, b, l); }
static void solves(const M& J, double hd, const V& k, const V& r, const std::string& l) { V w = mul(J, k); for (unsigned i = 0; i < k.size(); ++i) same(k[i] - hd * w[i], r[i], l); }
static double stepOf(const char* n, bool symbolicStep) { static const double H[] = { 0.375, 0.75, 0.1875 }; return symbolicStep ? sym::real_in(n, 0.1, 1) : H[sym::choice(n, 2)]; }   // multiples of 3: thirds are exact
struct Cfg { unsigned n2, n1; int steps; bool control, linear, symbolicStep; };
static double tm(const Cfg& c, const std::string& n) { return sym::real_in(n.c_str(), -1, 1); }
static V st(const Cfg& c, const std::string& n) { int k = 2 * c.n2 + c.n1; return symVecIn(n, k, -1, 1); }
static std::shared_ptr<LamRhs> system(const Cfg& c) {
    if (c.symbolicStep) return funRhs(c.n2, c.n1); unsigned n = 2 * c.n2 + c.n1, n2 = c.n2;
    return std::make_shared<LamRhs>(c.n2, c.n1, [=](V& d, double t, const V& x) { for (unsigned i = 0; i < n2; ++i) d[i] = x[n2 + i]; static const double A[] = { -1, 0.5, 0, 0.25, -0.75, 1, 0.5, 0, -2 }; int k = 0; for (unsigned j = n2; j < n; ++j) { double s = 0.5 * t + 0.125 * j; for (unsigned i = 0; i < n; ++i) s += A[k++ % 9] * x[i]; d[j] = s; } }); }
static void w1(Cfg c) {
    nearly = c.linear; sym::tolerance(1e-4); unsigned n = 2 * c.n2 + c.n1; auto f = system(c); SolverPtr s = newSolver("rosenbrock_w1"); double d = 1; if (sym::flag("d_given")) { d = 0.5; Params p; p["d"] = d; s->setParameters(p); }
    double h = stepOf("h", c.symbolicStep), t = tm(c, "t"); V x = st(c, "x"); s->setOdeRhs(f); s->setInitialStepSize(h); s->setInitialState(t, x); M J = jac(*f, t, x);
    for (int k = 0; k < c.steps; ++k) {
        std::string q = S(k);
        if (k) { if (sym::flag("other_step")) { h = stepOf(("h" + q).c_str(), c.symbolicStep); s->setInitialStepSize(h); } if (sym::flag("restart")) { t = tm(c, "t" + q); x = st(c, "x" + q + "_"); s->setInitialState(t, x); J = jac(*f, t, x); } }
        s->doStep(); V x1 = s->initialState(), f0(n); f->f(f0, t, x); same(s->initialTime(), t + h, "time advances by the step size"); solves(J, h * d, lin(1, x1, -1, x), lin(h, f0, 0, f0), "the increment solves the linear system of the method");
        t = t + h; x = x1;
    }
    sym::reach("w1");
}
static void sw24(Cfg c) {
    nearly = c.linear; sym::tolerance(1e-4); unsigned n = 2 * c.n2 + c.n1; auto f = system(c); SolverPtr s = newSolver("rosenbrock_sw2_4"); Params p; double d = 1; p["disable_error_check"] = !c.control; if (sym::flag("d_given")) { d = 0.5; p["d"] = d; } s->setParameters(p);
    double h = stepOf("h", c.symbolicStep), t = tm(c, "t"); V x = st(c, "x"); s->setOdeRhs(f); s->setInitialStepSize(h); s->setInitialState(t, x); M J = jac(*f, t, x); Rec rec; rec.attach(*s);
    auto norm = std::make_shared<NdNorm>(); norm->f = [](const V&) { return 1.; }; setNorm(s, norm); auto ctl = std::make_shared<NdController>(); setController(s, ctl); std::vector<double> hs; std::vector<size_t> callsAt; bool accepted = false; double hNext = h; f->rec = true; int att = 0;
    ctl->f = [&](double hc, double, double) { hs.push_back(hc); callsAt.push_back(f->calls.size()); ++att; accepted = att >= 2 || sym::flag("accept"); bool ch = !accepted || sym::flag("change"); hNext = ch ? stepOf(("hc" + S(hs.size())).c_str(), c.symbolicStep) : hc; return NdController::Result(hNext, accepted, ch); };
    for (int k = 0; k < c.steps; ++k) {
        std::string q = S(k);
        if (k) { if (sym::flag("other_step")) { h = stepOf(("h" + q).c_str(), c.symbolicStep); s->setInitialStepSize(h); } if (sym::flag("restart")) { t = tm(c, "t" + q); x = st(c, "x" + q + "_"); s->setInitialStepSize(h); s->setInitialState(t, x); J = jac(*f, t, x); } }
        V x0 = x; hs.clear(); callsAt.clear(); norm->seen.clear(); f->calls.clear(); att = 0; s->doStep(); f->rec = false; if (!c.control) { hs.push_back(h); callsAt.push_back(f->calls.size()); }
        V f0(n); f->f(f0, t, x0); sym::check(!hs.empty(), "attempts are made");
        for (size_t a = 0; a < hs.size(); ++a) {
            double hc = hs[a], hd = hc * d; sym::check_eq(hc, h, "the attempt uses the current step size"); size_t e = callsAt[a]; unsigned m = c.control ? 3 : 2; sym::check(e >= m, "stages are evaluated"); if (e < m) return;
            auto &c2 = f->calls[e - m], &cn = f->calls[e - m + 1]; V k1 = lin(1.5 / hc, c2.second, -1.5 / hc, x0); same(c2.first, t + hc * 2 / 3, "the second stage is at two thirds of the step"); same(cn.first, t + hc, "the next right-hand side is at the end of the step");
            V x1 = cn.second, k2 = lin(1, x1, -1, x0), f2(n), f3(n); for (unsigned i = 0; i < n; ++i) k2[i] = (4 * k2[i] / hc - k1[i]) / 3; f->f(f2, c2.first, c2.second); f->f(f3, cn.first, x1);
            solves(J, hd, k1, f0, "the first stage solves its system"); solves(J, hd, k2, lin(1, f2, -4. / 3 * hd, mul(J, k1)), "the second stage solves its system");
            if (c.control) {
                auto& c4 = f->calls[e - 1]; V k3 = lin(1.5 / hc, c4.second, -1.5 / hc, x1), f4(n); f->f(f4, c4.first, c4.second); same(c4.first, t + hc * 5 / 3, "the fourth stage is at five thirds of the step");
                solves(J, hd, k3, f3, "the third stage solves its system"); sym::check(norm->seen.size() == hs.size(), "each attempt has an error estimate"); if (norm->seen.size() != hs.size()) return;
                // k4 from the error reported: err = h/8 (5 (k3 - k2) + k1 - k4)
                V er = norm->seen[a], k4 = lin(5, lin(1, k3, -1, k2), 1, k1); for (unsigned i = 0; i < n; ++i) k4[i] = k4[i] - 8 * er[i] / hc; solves(J, hd, k4, lin(1, f4, hd, mul(J, lin(2. / 3, k1, 6, k2))), "the error estimate is that of the method");
            }
            bool last = a + 1 == hs.size();
            if (last) { V xe = s->initialState(); for (unsigned i = 0; i < n; ++i) same(xe[i], x1[i], "the state accepted is the method's result"); same(s->initialTime(), t + hc, "time advances by the step size of the accepted attempt"); x = s->initialState(); t = t + hc; }
            if (c.control) h = a + 1 < hs.size() ? hs[a + 1] : hNext;
        }
        f->rec = true;
    }
    sym::reach("sw24");
}
SYM_HARNESS(w1_real, REAL) { w1({0, 1, 2, false, false, true}); }
SYM_HARNESS(w1_second_order_real, REAL) { w1({1, 0, 2, false, false, true}); }
SYM_HARNESS(w1_mixed_linear_real, REAL) { w1({1, 1, 3, false, true, false}); }
SYM_HARNESS(w1_large_linear_real, REAL) { w1({2, 1, 2, false, true, false}); }
SYM_HARNESS(sw24_real, REAL) { sw24({0, 1, 1, false, false, true}); }
SYM_HARNESS(sw24_control_real, REAL) { sw24({0, 1, 1, true, false, false}); }
SYM_HARNESS(sw24_second_order_real, REAL) { sw24({1, 0, 1, true, false, false}); }
SYM_HARNESS(sw24_mixed_linear_real, REAL) { sw24({1, 1, 2, true, true, false}); }
SYM_HARNESS(sw24_large_linear_real, REAL) { sw24({2, 1, 1, true, true, false}); }
// order conditions over rooted trees (trees.h); the Jacobian of these systems is nilpotent and its difference quotients are exact
static void order(const char* type, int expect) {
    static const double D[] = { 1, 0.5, 0.375 }; SolverPtr s = newSolver(type); Params p; p["d"] = D[sym::choice("d", 3)]; if (expect == 2) p["disable_error_check"] = true; s->setParameters(p); sym::check(s->order() == expect, "the order reported");
    TreeOde o(expect, sym::flag("leaf_time")); double h = sym::real_in("h", 0.001, 1); s->setOdeRhs(o.rhs); s->setInitialStepSize(h); s->setInitialState(o.t0, o.s); s->doStep(); o.checkOrder(s->initialState(), h, s->order(), 1e-9, "order condition"); sym::reach("order");
}
SYM_HARNESS(w1_order_real, REAL) { order("rosenbrock_w1", 1); }
SYM_HARNESS(sw24_order_real, REAL) { order("rosenbrock_sw2_4", 2); }
// a damped oscillator with a second-order variable: error of third (second) power of the step size
SYM_HARNESS(w1_order_second_real, REAL) {
    double a = sym::real_in("a", -1, 1), b = sym::real_in("b", -1, 1), c = sym::real_in("c", -1, 1), g = sym::real_in("g", -1, 1), h = sym::real_in("h", 0, 0.125); sym::assume(sym::gt(h, 0.)); SolverPtr s = newSolver("rosenbrock_w1");
    auto f = std::make_shared<LamRhs>(1, 0, [=](V& r, double t, const V& x) { r[0] = x[1]; r[1] = a + b * x[0] + c * x[1] + g * t; }); V x(2); x[0] = 0; x[1] = 0.5; s->setOdeRhs(f); s->setInitialStepSize(h); s->setInitialState(0, x); s->doStep(); V y = s->initialState();
    sym::check(sym::le(sym::abs(y[0] - h * 0.5), 8 * h * h), "position has the order reported"); sym::check(sym::le(sym::abs(y[1] - 0.5 - h * (a + c * 0.5)), 8 * h * h), "velocity has the order reported"); sym::reach("order");
}
