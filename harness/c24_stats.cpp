// C24: error statistics are the statistics of the samples added; Richardson estimates meet their definition.
#include <cstring>
#include "ode_common.h"
#include "alg_common.h"
#include "ode_num_int/ErrorStats.h"
#include "ode_num_int/RichardsonErrorCalculator.h"
typedef ErrorStats<double> SD; typedef ErrorStats<V> SV;
// the definitions
struct Def { double mx = 0, sum = 0, sq = 0; unsigned n = 0; std::vector<double> e; void add(double x) { double a = sym::abs(x); mx = sym::max(mx, a); sum += a; sq += x * x; ++n; e.push_back(a); } };
static void agree(double mx, double sum, double sq, const Def& d) { sym::check_eq(mx, d.mx, "the maximum is that of the magnitudes"); sym::check_eq(sum, d.sum, "the sum is that of the magnitudes"); sym::check_eq(sq, d.sq, "the sum of squares is that of the samples"); }
static void dev(double m, double s, const Def& d) { double mean = 0, v = 0; for (double x : d.e) mean += x; mean /= d.n; for (double x : d.e) v += (x - mean) * (x - mean); sym::check_near(m, mean, 1e-9, "the mean is that of the magnitudes"); sym::check(sym::ge(s, 0), "the deviation is not negative"); sym::check_near(s * s, v / d.n, 1e-9, "the square of the deviation is the mean square distance from the mean"); }
static void one(const SD& s, const Def& d, bool all = true) { sym::check(s.sampleCount() == d.n, "samples are counted"); agree(s.errorMaxValue(), s.errorSum(), s.errorSquareSum(), d); if (d.n && (all || d.n != 3)) dev(s.errorMeanValue(), s.errorMeanSqareDev(), d); }
static void vec(const SV& s, const std::vector<Def>& d) { sym::check(s.sampleCount() == d[0].n, "samples are counted"); V a = s.errorMaxValue(), b = s.errorSum(), c = s.errorSquareSum(); sym::check(a.size() == d.size() && b.size() == d.size() && c.size() == d.size(), "statistics have the size of the samples"); if (a.size() != d.size()) return; for (unsigned i = 0; i < d.size(); ++i) agree(a[i], b[i], c[i], d[i]); if (d[0].n) { V m = s.errorMeanValue(), q = s.errorMeanSqareDev(); for (unsigned i = 0; i < d.size(); ++i) dev(m[i], q[i], d[i]); } }
static void numbers(int k) { int n = sym::choice("count", k + 1); bool dflt = sym::flag("default_constructed"); void* dirty = operator new(sizeof(SD)); std::memset(dirty, 0x41, sizeof(SD)); SD* s = dflt ? new (dirty) SD() : new (dirty) SD(0.0); Def d; for (int i = 0; i < n; ++i) { double x = sym::real_in(("e" + S(i)).c_str(), -4, 4); s->addSample(x); d.add(x); } one(*s, d); s->~SD(); operator delete(dirty); sym::reach("numbers"); }
SYM_HARNESS(numbers_real, REAL) { numbers(3); }
SYM_HARNESS(numbers_real_thorough, REAL) { numbers(4); }
static void vectors(int k, int m) { SV s = SV(V(m)); std::vector<Def> d(m); for (int i = 0; i < k; ++i) { V x = symVecIn("e" + S(i) + "_", m, -4, 4); s.addSample(x); for (int j = 0; j < m; ++j) d[j].add(x[j]); } vec(s, d); sym::reach("vectors"); }
SYM_HARNESS(vectors_real, REAL) { vectors(2, 2); }
SYM_HARNESS(vectors_real_thorough, REAL) { vectors(3, 2); }
// statistics of two sets merged are those of all samples
static void merged(int k) { int n1 = sym::choice("first", k + 1), n2 = sym::choice("second", k + 1); bool plus = sym::flag("operator_plus"), self = n1 == n2 && sym::flag("same_object"); SD a(0.0), b(0.0); Def d;
    for (int i = 0; i < n1; ++i) { double x = sym::real_in(("e" + S(i)).c_str(), -4, 4); a.addSample(x); d.add(x); } if (self) { for (int i = 0; i < n1; ++i) d.add(sym::abs(d.e[i])); } else for (int i = 0; i < n2; ++i) { double x = sym::real_in(("g" + S(i)).c_str(), -4, 4); b.addSample(x); d.add(x); }
    const SD& o = self ? a : b; SD c = plus ? a + o : a; if (plus) { sym::check(a.sampleCount() == unsigned(n1), "merging into a new object changes neither"); } else if (self) { a += a; c = a; } else { SD& r = (a += b); sym::check(&r == &a, "merging returns the object"); c = a; } if (!self) sym::check(b.sampleCount() == unsigned(n2), "merging does not change the argument"); one(c, d, false);
    SD e(c.errorMaxValue(), c.errorSum(), c.errorSquareSum(), c.sampleCount()); one(e, d, false); sym::reach("merged"); }
SYM_HARNESS(merged_real, REAL) { merged(2); }
SYM_HARNESS(merged_vectors_real, REAL) { SV a = SV(V(2)), b = SV(V(2)); std::vector<Def> d(2); for (int i = 0; i < 2; ++i) { V x = symVecIn("e" + S(i) + "_", 2, -4, 4); (i ? a : b).addSample(x); for (int j = 0; j < 2; ++j) d[j].add(x[j]); } SV c = a + b; vec(c, d); a += b; vec(a, d); sym::reach("merged"); }
// Richardson estimates with an integrator whose steps are anything
struct NdSolver : OdeSolver<VD> { double t = 0; V x; int p = 2; std::string log; std::vector<double> hs, ts; std::vector<V> xs; std::function<void(NdSolver&, OdeSolverPostObserverArg<VD>&)> f; std::vector<char> soft;
    int order() const { return p; } double initialTime() const { return t; } V initialState() const { return x; }
    void setInitialState(double t_, const V& x_, bool s = false) { t = t_; x = x_; soft.push_back(s); log += 'I'; }
    void setInitialStepSize(double h) { OdeSolver<VD>::setInitialStepSize(h); log += 'H'; }
    void doStep() { double h = this->initialStepSize(); hs.push_back(h); ts.push_back(t); xs.push_back(x); this->odeSolverPreObservers(h, this); V y(x.size()); for (unsigned i = 0; i < y.size(); ++i) { std::vector<double> a{t, h}; for (unsigned j = 0; j < x.size(); ++j) a.push_back(x[j]); y[i] = sym::fun(("step" + S(i)).c_str(), a); } OdeSolverPostObserverArg<VD> r; r.setSolver(this); r.setStepSize(h); t += h; x = y; if (f) f(*this, r); this->odeSolverPostObservers(r); } };
static double stepFun(int i, double t, double h, const V& x) { std::vector<double> a{t, h}; for (unsigned j = 0; j < x.size(); ++j) a.push_back(x[j]); return sym::fun(("step" + S(i)).c_str(), a); }
static V stepOf(double t, double h, const V& x) { V y(x.size()); for (unsigned i = 0; i < y.size(); ++i) y[i] = stepFun(i, t, h, x); return y; }
static void richardson(int m, int steps) {
    auto s = std::make_shared<NdSolver>(); s->p = 1 + sym::choice("order", 4); s->x = symVec("x", m); s->t = sym::real("t"); double t = s->t; V x = s->x; RichardsonErrorCalculator<VD> r; r.setOdeSolver(s); double h = 0.5; int extra = sym::choice("remainder", 2); double T = h * steps - (extra ? 0.25 : 0);
    struct Seen { double t, h; V e; }; std::vector<Seen> seen; r.stepObservers.add([&](double t_, double h_, const V& e) { seen.push_back({t_, h_, e}); }); auto res = r.calculateError(T, h);
    double k = 1 << s->p; std::vector<Def> d(m); sym::check(seen.size() == size_t(steps), "every step of the period is estimated"); if (seen.size() != size_t(steps)) return;
    for (int i = 0; i < steps; ++i) { V x1 = stepOf(t + h / 2, h / 2, stepOf(t, h / 2, x)), x2 = stepOf(t, h, x); sym::check_eq(seen[i].t, t, "observers see the time of the step"); sym::check_eq(seen[i].h, h, "observers see the step size"); sym::check(seen[i].e.size() == unsigned(m), "observers see an error of the size of the state"); for (int j = 0; j < m; ++j) { sym::assume(sym::le(sym::abs(x1[j] - x2[j]), 8)); sym::check_near(seen[i].e[j] * (k - 1), (x1[j] - x2[j]) * k, 1e-9, "the estimate is the difference of two half steps and one step, extrapolated"); d[j].add(seen[i].e[j]); } x = x1; t += h; }
    V a = res.errorMaxValue(), b = res.errorSum(), c = res.errorSquareSum(); sym::check(res.sampleCount() == unsigned(steps), "samples are counted"); for (int j = 0; j < m; ++j) agree(a[j], b[j], c[j], d[j]); sym::check(s->odeSolverPostObservers.empty(), "the calculator leaves no observer behind"); sym::reach("richardson"); }
SYM_HARNESS(richardson_real, REAL) { richardson(1, 2); }
SYM_HARNESS(richardson_two_variables_real, REAL) { richardson(2, 1); }
SYM_HARNESS(richardson_real_thorough, REAL) { richardson(1, 3); }
// steps cut short by an event give no sample, and the next step starts where the half steps ended; a changed step size is refused
SYM_HARNESS(richardson_events_real, REAL) {
    auto s = std::make_shared<NdSolver>(); s->x = symVec("x", 1); s->t = sym::real("t"); double t = s->t; RichardsonErrorCalculator<VD> r; r.setOdeSolver(s); int at = sym::choice("at", 6), what = sym::choice("what", 4), n = 0; double cut = 0.125, tCut = 0; V xCut;
    s->f = [&](NdSolver& q, OdeSolverPostObserverArg<VD>& a) { if (n++ != at) return; if (what == 1) { q.t -= cut; a.setStepTruncated(true); tCut = q.t; xCut = q.x; } else if (what == 2) a.setStepAccepted(false); else if (what == 3) { a.setStepSizeChanged(true); } };
    std::vector<double> ts; std::vector<V> es; r.stepObservers.add([&](double t_, double, const V& e) { ts.push_back(t_); es.push_back(e); }); bool threw = false; double h = 0.5; unsigned cnt = 0; try { cnt = r.calculateError(0.75, h).sampleCount(); } catch (cxx::exception&) { threw = true; }
    sym::check(threw == (what == 3), "a changed step size is refused, and nothing else"); sym::check(s->odeSolverPostObservers.empty(), "the calculator leaves no observer behind"); if (!threw) { bool skip = what == 1 || what == 2; unsigned steps = s->hs.size() / 3; sym::check(s->hs.size() == 3 * steps && steps >= 2 && steps <= 3, "every step is taken once whole and once in halves"); sym::check(cnt == ts.size() && cnt == steps - (skip ? 1 : 0), "steps truncated or rejected give no sample"); if (at >= 3) sym::check_eq(ts.at(0), t, "the first step starts at the time given");
        if (what == 1 && at < 2) { sym::check_eq(s->ts[3], at == 1 ? tCut : tCut + h / 2, "the step after an event starts at the time the half steps reached"); if (at == 1) checkVec(s->xs[3], xCut, "the step after an event starts at the state the half steps reached"); } else sym::check_eq(s->ts[3], t + h, "the second step starts where the first ended"); for (unsigned i = 0; i < steps; ++i) { sym::check_eq(s->ts[3 * i], s->ts[3 * i + 2], "the step and its halves start at the same time"); checkVec(s->xs[3 * i], s->xs[3 * i + 2], "the step and its halves start at the same state"); } }
    sym::reach("events"); }
// the integrators shipped: for a polynomial of time the estimate is the error of the step
static void exact(const char* type, int p) { auto s = newSolver(type); Params q; q["disable_error_check"] = true; s->setParameters(q); double a = sym::real_in("a", -2, 2), t = sym::real_in("t", -2, 2); s->setOdeRhs(std::make_shared<LamRhs>(0, 1, [=](V& d, double u, const V&) { double v = a; for (int i = 0; i < p; ++i) v *= u; d[0] = v; })); V x(1); x[0] = sym::real_in("x", -2, 2); s->setInitialState(t, x); RichardsonErrorCalculator<VD> r; r.setOdeSolver(s); double h = 0.5, e = 0; int k = 0; r.stepObservers.add([&](double, double, const V& v) { e = v[0]; ++k; }); r.calculateError(h, h);
    auto pw = [](double u, int n) { double v = 1; while (n--) v *= u; return v; }; auto b = newSolver(type); b->setParameters(q); b->setOdeRhs(s->odeRhs()); b->setInitialStepSize(h); b->setInitialState(t, x); b->doStep(); double truth = x[0] + a * (pw(t + h, p + 1) - pw(t, p + 1)) / (p + 1); sym::check(k == 1, "one step is estimated"); sym::check_near(e, truth - b->initialState()[0], 1e-9, "the estimate is the error of the step for a polynomial the method is just not exact for"); sym::reach("exact"); }
SYM_HARNESS(exact_euler_real, REAL) { exact("euler", 1); }
SYM_HARNESS(exact_rk4_real, REAL) { exact("rk4", 4); }
SYM_HARNESS(exact_gragg_real, REAL) { exact("gragg", 2); }
