// C19: numerical Jacobians and their trimming.
#include "alg_common.h"
#include "ode_num_int/alg/DefaultJacobianProvider.h"
#include "ode_num_int/alg/SparseJacobianProvider.h"
#include "ode_num_int/alg/JacobianWidthBasedTrimmer.h"
#include "ode_num_int/alg/JacobianThresholdBasedTrimmer.h"
typedef sparse::SparseMatrix<double> SM; typedef sparse::SparseMatrixTemplate<sparse::SparseMatrixFastData<double>> FM; typedef SM::Index Ix; typedef std::vector<std::vector<char>> Mask; typedef std::vector<std::vector<double>> Mat;
static const double DX = 1e-6;
// component i is an arbitrary function of the variables its mask names
static std::shared_ptr<LamMap> masked(const Mask& k, const std::string& nm = "h") { int m = k.size(), n = k[0].size(); return std::make_shared<LamMap>(n, m, [=](V& d, const V& x) { for (int i = 0; i < m; ++i) { std::vector<double> a; for (int j = 0; j < n; ++j) if (k[i][j]) a.push_back(x[j]); d[i] = a.empty() ? (double)(i + 1) : sym::fun((nm + S(i)).c_str(), a); } }); }
static Mask mask(int m, int n, const char* nm = "depends") { Mask k(m, std::vector<char>(n)); for (auto& r : k) for (auto& c : r) c = sym::flag(nm); return k; }
static Mat quotients(const LamMap& g, const V& x) { V f0(g.no); g.f(f0, x); Mat q(g.no, std::vector<double>(g.ni)); for (unsigned j = 0; j < g.ni; ++j) { V y = x, f(g.no); y[j] += DX; g.f(f, y); for (unsigned i = 0; i < g.no; ++i) q[i][j] = (f[i] - f0[i]) / DX; } return q; }
template<class MM> static void equal(const MM& J, const Mat& q, const std::string& l) { int m = q.size(), n = q[0].size(); sym::check(J.size() == Ix(m, n), l + ": size"); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) sym::check_eq(J.get(i, j), q[i][j], l); }
template<class MM> static void within(const MM& J, const Mask& k, const std::string& l) { for (auto v : J) sym::check(v.first.first < k.size() && v.first.second < k[0].size() && k[v.first.first][v.first.second], l); }

static void dense(int n) { auto k = mask(n, n); auto g = masked(k); V x = symVec("x", n), x0 = x; g->rec = true; SM J = computeJacobian(*g, x); g->rec = false; sym::check(g->args.size() <= n + 1u, "one evaluation for each variable and one more"); checkVec(x, x0, "the point is left"); equal(J, quotients(*g, x), "entry is the difference quotient"); within(J, k, "no entry where the mapping does not depend on the variable"); sym::reach("dense"); }
SYM_HARNESS(dense1_real, REAL) { dense(1); }
SYM_HARNESS(dense2_real, REAL) { dense(2); }
SYM_HARNESS(dense3_thorough, REAL) { dense(3); }
SYM_HARNESS(affine_real, REAL) { int n = 2; Mat A(n, std::vector<double>(n)); std::vector<double> b; for (int i = 0; i < n; ++i) { b.push_back(sym::real_in(("b" + S(i)).c_str(), -1, 1)); for (int j = 0; j < n; ++j) A[i][j] = sym::flag("entry") ? sym::real_in(("a" + S(i) + S(j)).c_str(), -1, 1) : 0.; } sym::tolerance(1e-4);
    auto g = std::make_shared<LamMap>(n, n, [&](V& d, const V& x) { for (int i = 0; i < n; ++i) { d[i] = b[i]; for (int j = 0; j < n; ++j) d[i] += A[i][j] * x[j]; } }); V x = symVecIn("x", n, -1, 1); equal(computeJacobian(*g, x), A, "the Jacobian of an affine mapping is its matrix"); sym::reach("affine"); }

// entries allowed are a superset of the dependencies
static void grouped(int m, int n, bool superset, int evals) { auto k = mask(m, n, "entry"), t = k; if (superset) for (auto& r : t) for (auto& c : r) if (c) c = sym::flag("depends"); auto g = masked(t); FM J(m, n); { SM J0(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (k[i][j]) J0.at(i, j) = 7; J = J0; } sym::check(J.size() == Ix(m, n), "size");
    SparseJacobianCalculator<VD> c(&J); int need = c.mappingEvaluationsRequired(); sym::check(need <= n + 1, "grouping never costs evaluations");
    for (int e = 0; e < evals; ++e) { V x = symVec("x" + S(e), n), x0 = x; g->args.clear(); g->rec = true; if (e == 1 && sym::flag("function")) { computeSparseJacobian(J, *g, x, DX); } else c.calculate(*g, x, DX); g->rec = false; sym::check((int)g->args.size() == need, "evaluations used are those announced"); checkVec(x, x0, "the point is left"); equal(J, quotients(*g, x), "entry is the difference quotient"); unsigned cnt = 0; for (auto& r : k) for (auto v : r) cnt += v; sym::check(J.count() == cnt, "the structure is kept"); }
    sym::reach("grouped"); }
SYM_HARNESS(grouped22_real, REAL) { grouped(2, 2, true, 2); }
SYM_HARNESS(grouped33_real, REAL) { grouped(3, 3, false, 1); }
SYM_HARNESS(grouped23_real, REAL) { grouped(2, 3, false, 2); }
SYM_HARNESS(grouped32_real, REAL) { grouped(3, 2, false, 2); }
SYM_HARNESS(grouped14_real, REAL) { grouped(1, 4, false, 1); }
SYM_HARNESS(grouped33_superset_thorough, REAL) { grouped(3, 3, true, 1); }
SYM_HARNESS(grouped34_thorough, REAL) { grouped(3, 4, false, 1); }
// structures with several groups: bands and arrows of four and five variables
static void shaped(int n) { Mask k(n, std::vector<char>(n)); int kind = sym::choice("kind", 4), lo = sym::choice("below", 3), up = sym::choice("above", 3); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) k[i][j] = kind == 0 ? i - j <= lo && j - i <= up : kind == 1 ? i == j || i == lo || j == n - 1 - up : kind == 2 ? (i + 2 * j) % 3 != lo || i == up : (i + j) % (lo + 2) == 0 && j != up; auto g = masked(k); FM J; SM J0(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (k[i][j]) J0.at(i, j) = 1; J = J0; SparseJacobianCalculator<VD> c(&J); V x = symVec("x", n); double dl = sym::flag("delta") ? 0.25 : DX; c.calculate(*g, x, dl); V f0(n); g->f(f0, x); for (int j = 0; j < n; ++j) { V y = x, f(n); y[j] += dl; g->f(f, y); for (int i = 0; i < n; ++i) sym::check_eq(J.get(i, j), (f[i] - f0[i]) / dl, "entry is the difference quotient with the increment given"); } sym::reach("shaped"); }
SYM_HARNESS(shaped4_real, REAL) { shaped(4); }
SYM_HARNESS(shaped5_real, REAL) { shaped(5); }
SYM_HARNESS(shaped7_thorough, REAL) { shaped(7); }

// trimmers
static void band(Mat& q, unsigned w) { int n = q.size(); if (w) for (int i = 0; i < n; ++i) for (int j = 0; j < (int)q[0].size(); ++j) if (std::abs(i - j) >= (int)w) q[i][j] = 0; }
static void small(Mat& q, double t) { if (t == 0) return; double mx = 0; for (auto& r : q) for (double v : r) mx = sym::max(mx, sym::abs(v)); for (size_t i = 0; i < q.size(); ++i) for (size_t j = 0; j < q[0].size(); ++j) if (i != j && sym::decide(sym::lt(sym::abs(q[i][j]), t * mx))) q[i][j] = 0; }
static SM build(int m, int n, Mat& q, Mask& k) { k = mask(m, n, "entry"); SM J(m, n); q.assign(m, std::vector<double>(n)); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (k[i][j]) J.at(i, j) = q[i][j] = sym::real(("a" + S(i) + S(j)).c_str()); return J; }
SYM_HARNESS(width_uf, UF) { int s = sym::choice("shape", 3), m = s == 1 ? 2 : 3, n = s == 2 ? 2 : 3; Mat q; Mask k; SM J = build(m, n, q, k), J0 = J; JacobianWidthBasedTrimmer<VD> t; unsigned w = sym::choice("width", 5); if (sym::flag("set")) { OptionalParameters::Parameters p; p["width"] = w; t.setParameters(p); } else w = 0; SM r = t.trimJacobian(J); Mat u = q; band(u, w); equal(r, u, "entries within the width are kept, others removed"); Mask kk = k; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (w && std::abs(i - j) >= (int)w) kk[i][j] = 0; within(r, kk, "no entry is stored outside the width"); equal(J, q, "the matrix trimmed is left"); sym::reach("width"); }
static void threshold(int m, int n) { Mat q; Mask k; SM J = build(m, n, q, k); JacobianThresholdBasedTrimmer<VD> t; static const double T[] = { 0, 0.25, 1, 0.5 }; double th = T[sym::choice("threshold", 3)]; if (sym::flag("set")) { OptionalParameters::Parameters p; p["threshold"] = th; t.setParameters(p); } else th = 0; SM r = t.trimJacobian(J); Mat u = q; small(u, th); equal(r, u, "diagonal and large entries are kept, others removed"); within(r, k, "no entry is invented"); equal(J, q, "the matrix trimmed is left"); sym::reach("threshold"); }
SYM_HARNESS(threshold22_real, REAL) { threshold(2, 2); }
SYM_HARNESS(threshold23_thorough, REAL) { threshold(2, 3); }
SYM_HARNESS(threshold13_real, REAL) { threshold(1, 3); }

// providers: whatever happened before, the matrix is that of the point asked for
static void provider(bool sparseOne, int n, int steps) {
    std::shared_ptr<JacobianProvider<VD>> p; if (sparseOne) p = std::make_shared<SparseJacobianProvider<VD>>(); else p = std::make_shared<DefaultJacobianProvider<VD>>();
    auto k = mask(n, n); auto g = masked(k); p->setMapping(g); auto w = std::make_shared<JacobianWidthBasedTrimmer<VD>>(); { OptionalParameters::Parameters q; q["width"] = 1; w->setParameters(q); } bool trim = false; sym::check(!p->jacobianTrimmer(), "no trimmer by default"); sym::check(p->jacobian().empty(), "no Jacobian before it is computed");
    for (int s = 0; s < steps; ++s) { switch (sym::choice("before", 4)) { case 1: p->hardReset(); sym::check(p->jacobian().empty(), "a hard reset discards the Jacobian"); break; case 2: trim = true; p->setJacobianTrimmer(w); sym::check(w->mapping() == p->mapping(), "the trimmer knows the mapping"); break; case 3: trim = false; p->setJacobianTrimmer(std::shared_ptr<JacobianTrimmer<VD>>()); break; default:; }
        V x = symVec("x" + S(s), n), x0 = x; Mat q = quotients(*g, x); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (k[i][j]) sym::assume(sym::ne(q[i][j], 0.)); p->computeJacobian(x); checkVec(x, x0, "the point is left"); if (trim) band(q, 1); equal(p->jacobian(), q, "the Jacobian provided is that of the point"); const auto& c = *p; equal(c.jacobian(), q, "the Jacobian provided is that of the point"); }
    sym::reach("provider"); }
SYM_HARNESS(default_real, REAL) { provider(false, 2, 2); }
SYM_HARNESS(sparse_real, REAL) { provider(true, 2, 3); }
SYM_HARNESS(sparse3_thorough, REAL) { provider(true, 3, 2); }
SYM_HARNESS(default3_thorough, REAL) { provider(false, 3, 2); }
SYM_HARNESS(sparse_long_thorough, REAL) { provider(true, 2, 4); }
// a new mapping after a hard reset
SYM_HARNESS(remap_real, REAL) { std::shared_ptr<JacobianProvider<VD>> p; if (sym::flag("sparse")) p = std::make_shared<SparseJacobianProvider<VD>>(); else p = std::make_shared<DefaultJacobianProvider<VD>>(); int n1 = 1 + sym::choice("size1", 2), n2 = 1 + sym::choice("size2", 2); auto k1 = mask(n1, n1), k2 = mask(n2, n2); auto g1 = masked(k1), g2 = masked(k2, "k"); p->setMapping(g1); p->computeJacobian(symVec("x", n1)); p->setMapping(g2); p->hardReset(); V x = symVec("y", n2); p->computeJacobian(x); equal(p->jacobian(), quotients(*g2, x), "after a hard reset the Jacobian is that of the new mapping"); sym::reach("remap"); }
