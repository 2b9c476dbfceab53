// C20: descent directions solve the linear system of the matrix they maintain.
#include "alg_common.h"
#include "ode_num_int/alg/DefaultJacobianProvider.h"
#include "ode_num_int/alg/SparseJacobianProvider.h"
#include "ode_num_int/alg/SimpleNewtonDescentDirection.h"
#include "ode_num_int/alg/ConstJacobianNewtonDescentDirection.h"
#include "ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h"
#include "ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h"
#include "ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h"
#include "ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h"
typedef sparse::SparseMatrix<double> SM; typedef sparse::SparseMatrixTemplate<sparse::SparseMatrixFastData<double>> FM; typedef SM::Index Ix; typedef std::vector<std::vector<char>> Mask; typedef std::vector<std::vector<double>> Mat;
enum Kind { Simple, Const, Broyden, Hart, Fake, Lazy };
static std::shared_ptr<NewtonDescentDirection<VD>> make(Kind k) { switch (k) { case Simple: return std::make_shared<SimpleNewtonDescentDirection<VD>>(); case Const: return std::make_shared<ConstJacobianNewtonDescentDirection<VD>>(); case Broyden: return std::make_shared<JacobianBroydenUpdateNewtonDescentDirection<VD>>(); case Hart: return std::make_shared<JacobianHartUpdateNewtonDescentDirection<VD>>(); case Fake: return std::make_shared<JacobianFakeBroydenUpdateNewtonDescentDirection<VD>>(); default: return std::make_shared<JacobianLazyFakeBroydenUpdateNewtonDescentDirection<VD>>(); } }
// supplies arbitrary matrices of a given structure
struct Jp : JacobianProvider<VD> { FM J; Mask k; std::vector<Mat> given; std::vector<V> at; unsigned resets = 0; bool fix = false;
    void hardReset() { ++resets; J = FM(); }
    void computeJacobian(const V& x) { int n = k.size(); SM j(n, n); Mat q(n, std::vector<double>(n)); static const double C[][4] = { { 2, 1, -1, 4 }, { -1, 2, 4, 1 }, { 4, -1, 1, -2 } }; for (int i = 0; i < n; ++i) for (int l = 0; l < n; ++l) if (k[i][l]) j.at(i, l) = q[i][l] = fix ? C[given.size() % 3][2 * i + l] : sym::real(("J" + S(given.size()) + "_" + S(i) + S(l)).c_str()); J = j; given.push_back(q); at.push_back(x); }
    FM& jacobian() { return J; } };
// history of calls with consecutive points a known distance apart (so that updates stay linear in the matrix)
static void history(Kind kind, int n, int steps, bool full, bool fix, bool ops) {
    auto d = make(kind); auto jp = std::make_shared<Jp>(); jp->fix = fix; jp->k.assign(n, std::vector<char>(n, 1)); if (!full) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) jp->k[i][j] = sym::flag("entry"); auto g = funMap(n, n); d->setMapping(g); d->setJacobianProvider(jp); sym::check(jp->mapping() == d->mapping(), "the Jacobian provider is given the mapping");
    if (n == 1 && sym::flag("replace")) { g = funMap(n, n); d->setMapping(g); sym::check(jp->mapping() == g, "the Jacobian provider is given a new mapping"); }
    std::vector<char> refresh; unsigned pre = 0, post = 0, jac = 0; Mat seen; V sd, sx, sf; FM raw; d->jacobianRefreshObservers.add([&](bool s) { refresh.push_back(s); }); d->ddirPreObservers.add([&] { ++pre; }); d->ddirPostObservers.add([&](const V& v) { ++post; sd = v; });
    bool watch = kind == Broyden || kind == Fake || kind == Lazy || !sym::flag("unobserved"); if (watch) d->jacobianObservers.add([&](const FM& J, const V& x, const V& f) { ++jac; sx = x; sf = f; seen.assign(n, std::vector<double>(n)); sym::check(J.size() == Ix(n, n), "the matrix is square"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) seen[i][j] = J.get(i, j); });
    Mat J, dJ; bool have = false, prev = false; int action = 0; V xp, fp; unsigned lazy = 10, it = 0, last = 0; if (kind == Lazy) { lazy = sym::choice("lazy", 2); OptionalParameters::Parameters p; p["lazy_iterations"] = lazy; d->setParameters(p); }
    static const double DXS[][2] = { { 1, 0 }, { 1, 1 }, { -1, 2 }, { 0, -2 }, { 0.5, 0.5 } }; V x = symVec("x", n), f;
    for (int s = 0; s < steps; ++s) {
        if (s) { int o = ops ? sym::choice("before", kind == Lazy ? 5 : 3) : 0; it = o == 0 ? it + 1 : 0; unsigned r = jp->resets;
            if (o == 1) { d->reset(false); prev = false; sym::check(jp->resets == r, "a soft reset keeps the Jacobian"); } else if (o == 2) { d->reset(true); prev = have = false; action = 0; sym::check(jp->resets == r + 1, "a hard reset is passed to the Jacobian provider"); }
            else if (o == 3) { d->reportSuccess(true); action = last + 1 <= lazy ? 1 : 2; } else if (o == 4) { d->reportSuccess(false); action = 0; } }
        V x1 = x; if (s) { int c = kind == Hart && n > 1 ? 1 + sym::choice("dx", 2) : sym::choice("dx", n == 1 ? 2 : 3);   // (the Hart update of a step whose last component is zero may not exist)
            for (int i = 0; i < n; ++i) x1[i] += DXS[n == 1 ? (c ? 4 : 0) : c][i]; } f = symVec("f" + S(s) + "_", n); if (kind == Hart && n > 1) f[0] = sym::flag("f0") ? 1. : -2.5; x = x1;
        size_t calls = jp->given.size(); refresh.clear(); pre = post = jac = 0; V dir = n > 1 ? V(s % 2 * n) : sym::flag("sized") ? V(n) : V(), x0 = x, f0 = f; d->computeDescentDirection(dir, x, f, it); bool fresh = jp->given.size() != calls;
        checkVec(x, x0, "the point is left"); checkVec(f, f0, "the residual is left"); sym::check(dir.size() == (unsigned)n, "the direction has the size of the problem"); if (dir.size() != (unsigned)n) return;
        bool want = kind == Simple || !have || (kind == Lazy && it == 0 && action == 0); sym::check(fresh == want, want ? "the Jacobian is computed" : "the Jacobian is not computed again");
        sym::check(jp->given.size() <= calls + 1, "the Jacobian is computed at most once"); sym::check(fresh ? refresh == std::vector<char>({ 1, 0 }) : refresh.empty(), "refreshing the Jacobian is announced"); sym::check(pre == 1 && post == 1, "computing the direction is announced once"); checkVec(sd, dir, "observers see the direction");
        if (fresh) { checkVec(jp->at.back(), x, "the Jacobian is that of the point"); J = jp->given.back(); }
        else if (prev && kind != Simple && kind != Const && kind != Lazy) { V dx = x - xp, df = f - fp; double q = sumSq(dx); if (kind == Hart) { J = seen; } else for (int i = 0; i < n; ++i) { double l = df[i]; for (int j = 0; j < n; ++j) l -= J[i][j] * dx[j]; std::vector<double> r = J[i]; for (int j = 0; j < n; ++j) if (kind == Broyden || jp->k[i][j]) r[j] += l * (1 / q) * dx[j]; J[i] = r; } }
        if (kind == Lazy) { if (fresh) dJ.assign(n, std::vector<double>(n)); else if (prev) { V dx = x - xp, df = f - fp; double q = sumSq(dx); for (int i = 0; i < n; ++i) { double l = df[i]; for (int j = 0; j < n; ++j) l -= J[i][j] * dx[j]; for (int j = 0; j < n; ++j) if (jp->k[i][j]) dJ[i][j] += l * (1 / q) * dx[j]; } } if (it == 0 && action == 2) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { J[i][j] += dJ[i][j]; dJ[i][j] = 0; } }
        if (watch) { sym::check(jac == 1, "observers see the matrix once"); checkVec(sx, x, "observers see the point"); checkVec(sf, f, "observers see the residual"); if (kind == Hart) J = seen; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym::check_eq(seen[i][j], J[i][j], fresh ? "the matrix is the Jacobian" : "the matrix is the Jacobian with the updates of the strategy"); }
        if (watch && !fresh && prev && full && (kind == Broyden || kind == Fake || (kind == Hart && n == 1))) { V dx = x - xp; for (int i = 0; i < n; ++i) { double l = 0; for (int j = 0; j < n; ++j) l += seen[i][j] * dx[j]; sym::check_eq(l, f[i] - fp[i], "the updated matrix satisfies the secant condition"); } }
        if (watch || kind != Hart) for (int i = 0; i < n; ++i) { double l = f[i]; for (int j = 0; j < n; ++j) l += J[i][j] * dir[j]; sym::check_eq(l, 0., "the direction solves the linear system of the matrix"); }
        have = true; prev = true; xp = x; fp = f; last = it;
    }
    sym::check(d->hardResetMayHelp() == (kind != Simple), "a hard reset may help unless the Jacobian is always fresh"); sym::reach("directions");
}
SYM_HARNESS(simple1_real, REAL) { history(Simple, 1, 3, true, false, true); }
SYM_HARNESS(simple2_real, REAL) { history(Simple, 2, 2, false, false, true); }
SYM_HARNESS(const1_real, REAL) { history(Const, 1, 3, true, false, true); }
SYM_HARNESS(const2_real, REAL) { history(Const, 2, 2, false, false, true); }
SYM_HARNESS(broyden1_real, REAL) { history(Broyden, 1, 3, true, false, true); }
SYM_HARNESS(broyden2_real, REAL) { history(Broyden, 2, 2, false, true, true); }
SYM_HARNESS(fake1_real, REAL) { history(Fake, 1, 3, true, false, true); }
SYM_HARNESS(fake2_real, REAL) { history(Fake, 2, 2, false, false, true); }
SYM_HARNESS(hart1_real, REAL) { history(Hart, 1, 3, true, false, true); }
SYM_HARNESS(hart2_real, REAL) { history(Hart, 2, 2, true, true, true); }
SYM_HARNESS(lazy1_real, REAL) { history(Lazy, 1, 4, true, false, true); }
SYM_HARNESS(lazy2_real, REAL) { history(Lazy, 2, 3, false, true, true); }
SYM_HARNESS(broyden1_long_thorough, REAL) { history(Broyden, 1, 4, true, false, true); }
SYM_HARNESS(fake2_long_thorough, REAL) { history(Fake, 2, 3, false, true, true); }
SYM_HARNESS(broyden2_long_thorough, REAL) { history(Broyden, 2, 3, true, true, false); }
SYM_HARNESS(const2_long_thorough, REAL) { history(Const, 2, 4, false, true, true); }
SYM_HARNESS(lazy1_long_thorough, REAL) { history(Lazy, 1, 5, true, true, true); }
// with the numerical Jacobians: a hard reset discards the old matrix, a soft reset keeps it where the strategy keeps it
static void numeric(Kind kind) { std::shared_ptr<JacobianProvider<VD>> jp; if (sym::flag("sparse")) jp = std::make_shared<SparseJacobianProvider<VD>>(); else jp = std::make_shared<DefaultJacobianProvider<VD>>(); auto d = make(kind); auto g = funMap(1, 1); d->setMapping(g); d->setJacobianProvider(jp); auto slope = [&](const V& x) { V a(1), b(1), y = x; y[0] += 1e-6; g->f(a, x); g->f(b, y); double q = (b[0] - a[0]) / 1e-6; sym::assume(sym::ne(q, 0.)); return q; };
    double J = 0; for (int s = 0; s < 3; ++s) { int o = s ? sym::choice("before", 3) : 0; if (o) d->reset(o == 2); V x = symVec("x" + S(s), 1), f = symVec("f" + S(s), 1), dir; bool fresh = !s || o == 2 || kind == Simple || (kind == Lazy); if (s && !o && kind != Simple && kind != Const) { sym::assume(false); } if (fresh) J = slope(x); d->computeDescentDirection(dir, x, f, 0); sym::check_eq(J * dir[0] + f[0], 0., "the direction solves the system linearized where the strategy says"); } sym::reach("numeric"); }
SYM_HARNESS(numeric_simple_real, REAL) { numeric(Simple); }
SYM_HARNESS(numeric_const_real, REAL) { numeric(Const); }
SYM_HARNESS(numeric_broyden_real, REAL) { numeric(Broyden); }
SYM_HARNESS(numeric_hart_real, REAL) { numeric(Hart); }
SYM_HARNESS(numeric_fake_real, REAL) { numeric(Fake); }
SYM_HARNESS(numeric_lazy_real, REAL) { numeric(Lazy); }
