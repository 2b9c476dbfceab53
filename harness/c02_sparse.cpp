// C02: sparse matrix algebra agrees with dense semantics for every sparsity pattern.
#include "ode_num_int/la/SparseMatrixTemplate.h"
#include "common.h"
using namespace ctm::math; using namespace ctm::math::sparse;
typedef Vector<double> V; typedef SparseMatrix<double> M; typedef SparseMatrixTemplate<SparseMatrixFastData<double>> FM; typedef M::Index Ix;

struct Dense { int r, c; std::vector<double> v; std::vector<bool> h; Dense(int r, int c) : r(r), c(c), v(r * c), h(r * c) {} double& at(int i, int j) { return v[i * c + j]; } bool has(int i, int j) { return h[i * c + j]; } };
// every entry independently absent or an arbitrary value
static M make(const char* name, int r, int c, Dense& d) {
    M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (sym::flag((std::string(name) + "_has").c_str())) { double x = sym::real((std::string(name) + S(i) + S(j)).c_str()); m.at(i, j) = x; d.at(i, j) = x; d.h[i * c + j] = true; }
    return m;
}
template<class MM> static void same(const MM& m, Dense& d, const std::string& l) {
    sym::check((int)m.size().first == d.r && (int)m.size().second == d.c, l + ": size");
    for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) { sym::check_eq(m.get(i, j), d.at(i, j), l + ": get(r,c)"); sym::check_eq(m.get(Ix(i, j)), d.at(i, j), l + ": get(index)"); sym::check_eq(m[Ix(i, j)], d.at(i, j), l + ": [index]"); }
    int n = 0; for (auto v : m) { sym::check((int)v.first.first < d.r && (int)v.first.second < d.c, l + ": stored element within the size"); double x = v.second; sym::check_eq(x, d.at(v.first.first, v.first.second), l + ": iteration"); ++n; }
    sym::check((int)m.count() == n, l + ": count");
    for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) { auto g = m.checkedGet(Ix(i, j)); sym::check(g.second == m.hasIndex(Ix(i, j)), l + ": checkedGet/hasIndex"); if (g.second) sym::check_eq(g.first, d.at(i, j), l + ": checkedGet value"); else sym::check_eq(0., d.at(i, j), l + ": missing entry is zero"); }
}
static void shape(int& r, int& c) { int k = sym::choice("shape", 5); static const int R[] = {1, 2, 2, 1, 3}, C[] = {1, 2, 3, 3, 2}; r = R[k]; c = C[k]; }

SYM_HARNESS(access_uf, UF) {
    int r, c; shape(r, c); Dense d(r, c); M m = make("a", r, c, d); double s = sym::real("s");
    same(m, d, "matrix");
    M cp(m); same(cp, d, "copy"); M as(1, 1); as.at(0, 0) = 5; as = m; same(as, d, "assignment");
    FM f; f = m; same(f, d, "fast matrix from sparse"); M back; back = f; same(back, d, "sparse from fast"); FM fc(m); same(fc, d, "fast matrix constructed from sparse"); M bc(f); same(bc, d, "sparse constructed from fast"); FM ff(f); same(ff, d, "copy of a fast matrix");
    same(m.scaled(s), *new Dense([&] { Dense e = d; for (auto& x : e.v) x = x * s; return e; }()), "scaled view");
    M sc; sc = m.scaled(s); Dense ds = d; for (auto& x : ds.v) x = x * s; same(sc, ds, "assign from scaled");
    FM fsc; fsc = m.scaled(s); same(fsc, ds, "fast from scaled");
    Dense dt(c, r); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { dt.at(j, i) = d.at(i, j); dt.h[j * r + i] = d.has(i, j); }
    same(m.transposed(), dt, "transposed view"); M t; t = m.transposed(); same(t, dt, "assign from transposed");
    FM ft; ft = m.transposed(); same(ft, dt, "fast from transposed"); FM ftc(m.transposed()); same(ftc, dt, "fast constructed from transposed"); M mtc(m.transposed()); same(mtc, dt, "constructed from transposed"); M msc(m.scaled(s)); same(msc, ds, "constructed from scaled");
    M cl = m.clone(); same(cl, d, "clone");
    same(m, d, "views do not modify the matrix");
    M z = m; z.makeZero(); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { sym::check_eq(z.get(i, j), 0., "makeZero"); sym::check(z.hasIndex(Ix(i, j)) == d.has(i, j), "makeZero keeps the pattern"); }
    M cr = m; cr.clear(); sym::check(cr.empty() && cr.count() == 0, "clear");
    sym::reach("access");
}

SYM_HARNESS(blocks_uf, UF) {
    int r, c; shape(r, c); Dense d(r, c); M m = make("a", r, c, d); const M m0 = m;
    int fr = sym::choice("fr", r), fc = sym::choice("fc", c), nr = 1 + sym::choice("nr", r - fr), nc = 1 + sym::choice("nc", c - fc);
    Dense b(nr, nc); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) { b.at(i, j) = d.at(fr + i, fc + j); b.h[i * nc + j] = d.has(fr + i, fc + j); }
    same(m.block(fr, fc, nr, nc), b, "block view"); M bm; bm = m.block(fr, fc, nr, nc); same(bm, b, "assign from block");
    // replace a block by another matrix
    M w = m; M one(nr, nc); double x = sym::real("x"); int pi = sym::choice("pi", nr), pj = sym::choice("pj", nc); one.at(pi, pj) = x;
    w.block(fr, fc, nr, nc) = one;
    Dense e = d; for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) e.at(fr + i, fc + j) = (i == pi && j == pj) ? x : 0.;
    same(w, e, "assign to block");
    M w2 = m; w2.block(fr, fc, nr, nc) += one; Dense e2 = d; e2.at(fr + pi, fc + pj) = d.at(fr + pi, fc + pj) + x; same(w2, e2, "block += ");
    M w3 = m; w3.block(fr, fc, nr, nc).clear(); Dense e3 = d; for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) e3.at(fr + i, fc + j) = 0; same(w3, e3, "block.clear()");
    M w4 = m; w4.block(fr, fc, nr, nc).at(Ix(pi, pj)) = x; Dense e4 = d; e4.at(fr + pi, fc + pj) = x; same(w4, e4, "write through block");
    same(m, d, "block() does not modify the matrix");
    sym::reach("blocks");
}

SYM_HARNESS(sums_uf, UF) {
    int k = sym::choice("shape", 3), r = k == 0 ? 1 : 2, c = k == 1 ? 2 : k == 2 ? 2 : 3; if (k == 2) r = 1;
    Dense da(r, c), db(r, c); M a = make("a", r, c, da), b = make("b", r, c, db); double s = sym::real("s");
    M p = a; p += b; Dense dp = da; for (size_t i = 0; i < dp.v.size(); ++i) dp.v[i] = da.v[i] + db.v[i]; same(p, dp, "a+=b");
    M q = a; q -= b; Dense dq = da; for (size_t i = 0; i < dq.v.size(); ++i) dq.v[i] = da.v[i] - db.v[i]; same(q, dq, "a-=b");
    M t = a; t += b.scaled(s); Dense dd = da; for (size_t i = 0; i < dd.v.size(); ++i) dd.v[i] = db.h[i] ? da.v[i] + db.v[i] * s : da.v[i]; same(t, dd, "a+=b.scaled(s)");
    same(b, db, "right operand unchanged");
    if (r == c) { M i = a; i.addScaledIdentity(s); Dense di = da; for (int j = 0; j < r; ++j) di.at(j, j) = da.at(j, j) + s; same(i, di, "addScaledIdentity");
        Dense did(r, r); for (int j = 0; j < r; ++j) did.at(j, j) = s; same(M::scaledIdentity(r, s), did, "scaledIdentity"); for (int j = 0; j < r; ++j) did.at(j, j) = 1; same(M::identity(r), did, "identity"); }
    sym::reach("sums");
}

SYM_HARNESS(matvec_real, REAL) {
    int r, c; shape(r, c); Dense d(r, c); M m = make("a", r, c, d); V x = symVec("x", c), y = symVec("y", r);
    FM f; f = m;
    V mx = m * x, fx = f * x; sym::check((int)mx.size() == r && (int)fx.size() == r, "m*v size");
    for (int i = 0; i < r; ++i) { double e = 0; for (int j = 0; j < c; ++j) e += d.at(i, j) * x[j]; sym::check_eq(mx[i], e, "m*v"); sym::check_eq(fx[i], e, "fast m*v"); }
    V ym = y * m; sym::check((int)ym.size() == c, "v*m size");
    for (int j = 0; j < c; ++j) { double e = 0; for (int i = 0; i < r; ++i) e += d.at(i, j) * y[i]; sym::check_eq(ym[j], e, "v*m"); }
    double one = 0, sq = 0; for (auto v : d.v) { one += sym::abs(v); sq += v * v; }
    sym::check_eq(m.oneNorm(), one, "oneNorm"); sym::check_eq(m.euclideanNormSquare(), sq, "euclideanNormSquare");
    double inf = m.infNorm(); sym::Cond at = sym::eq(inf, 0.); for (auto v : d.v) { at = at || sym::eq(inf, sym::abs(v)); sym::check(sym::le(sym::abs(v), inf), "infNorm bounds every element"); }
    sym::check(at, "infNorm is attained");
    sym::reach("matvec");
}

SYM_HARNESS(product_real, REAL) {
    sym::nofeas(true);
    int k = sym::choice("shape", 4); static const int R[] = {1, 2, 2, 1}, I[] = {2, 1, 2, 3}, C[] = {2, 2, 2, 1}; int r = R[k], n = I[k], c = C[k];
    Dense da(r, n), db(n, c); M a = make("a", r, n, da), b = make("b", n, c, db);
    Dense dp(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) for (int l = 0; l < n; ++l) dp.at(i, j) = dp.at(i, j) + da.at(i, l) * db.at(l, j);
    M p = a * b; sym::check((int)p.size().first == r && (int)p.size().second == c, "product size");
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym::check_eq(p.get(i, j), dp.at(i, j), "product");
    if (r == n && n == c) { M q = a; q *= b; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym::check_eq(q.get(i, j), dp.at(i, j), "a*=b"); }
    sym::reach("product");
}

SYM_HARNESS(resize_uf, UF) {
    int r, c; shape(r, c); Dense d(r, c); M m = make("a", r, c, d); int nr = 1 + sym::choice("nr", 3), nc = 1 + sym::choice("nc", 3);
    m.resize(nr, nc); Dense e(nr, nc); for (int i = 0; i < nr && i < r; ++i) for (int j = 0; j < nc && j < c; ++j) e.at(i, j) = d.at(i, j);
    same(m, e, "resize"); sym::reach("resize");
}
SYM_HARNESS(norm_nan_fp, FP) {
    M m(2, 2); double x = sym::real("x"), y = sym::real("y"), z = sym::real("z"); m.at(0, 0) = x; m.at(0, 1) = y; m.at(1, 1) = z;
    double inf = m.infNorm(); sym::Cond any = sym::isnan(x) || sym::isnan(y) || sym::isnan(z);
    sym::check(sym::imp(any, sym::isnan(inf)), "infNorm of a matrix with a NaN is NaN");
    sym::check(sym::imp(!any, sym::eq(inf, sym::abs(x)) || sym::eq(inf, sym::abs(y)) || sym::eq(inf, sym::abs(z))), "infNorm attained"); sym::reach("nan");
}
