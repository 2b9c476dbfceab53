// C05: the factorizer reproduces the matrix it holds, before and after factorization.
#include "lu_common.h"
#include "ode_num_int/lu/util.h"
static void same(const LU& lu, const M& m, int n, const std::string& l) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym::check_eq(lu.elementAt(i, j), m.get(i, j), l); }
static void envelope(const LU& lu, const M& m, int n) {
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (m.hasIndex({(unsigned)i, (unsigned)j})) { sym::check((int)lu.firstCol(i) <= j && (int)lu.firstRow(j) <= i && (int)lu.lastCol(i) >= j, "reported envelope covers every stored entry"); }
}
static void body(int n, bool diag) {
    Pat p = symPat("has", n, diag); if (!okPat(p)) sym::assume(false); M m = fill(p, "a"); LU lu(m);
    same(lu, m, n, "elementAt before factorization"); envelope(lu, m, n);
    M mm = luToMatrix<double>(lu); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym::check_eq(mm.get(i, j), m.get(i, j), "luToMatrix before factorization");
    V b = symVec("b", n); lu.solve(b.data().data()); sym::check(lu.isFactorized(), "factorized after solve");
    same(lu, m, n, "elementAt after factorization");
    M mf = luToMatrix<double>(lu); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym::check_eq(mf.get(i, j), m.get(i, j), "luToMatrix after factorization");
    V b2 = symVec("c", n); lu.solve(b2.data().data()); same(lu, m, n, "elementAt after two solves"); sym::reach("lu");
}
SYM_HARNESS(n12_real, REAL) { body(1 + sym::choice("n", 2), false); }
SYM_HARNESS(n3_real, REAL) { body(3, true); }
SYM_HARNESS(n4_real, REAL) {
    static const int K = getenv("SYM_THOROUGH") ? 7 : 3; Pat p; p.n = 4; p.h.assign(16, false); int k = 0;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { if (i == j) p.h[i * 4 + j] = true; else if (k < K && sym::flag("has")) { p.h[i * 4 + j] = true; ++k; } }
    M m = fill(p, "a"); LU lu(m); same(lu, m, 4, "elementAt before factorization"); V b = symVec("b", 4); lu.solve(b.data().data()); same(lu, m, 4, "elementAt after factorization");
    M mf = luToMatrix<double>(lu); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) sym::check_eq(mf.get(i, j), m.get(i, j), "luToMatrix after factorization"); sym::reach("n4");
}
