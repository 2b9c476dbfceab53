// C04: refreshing an existing factorizer is equivalent to building a new one, whatever it held before.
#include "lu_common.h"
static const int N = 3;
static void prior(LU& lu, int n0, bool diag) {   // an arbitrary earlier life of the factorizer
    Pat p = symPat("old", n0, diag); if (!okPat(p)) sym::assume(false);
    M m = fill(p, "o"); lu.setMatrix(m); int used = sym::choice("used", 2);
    if (used == 1) { V d(n0); for (int i = 0; i < n0; ++i) d[i] = 1; lu.solve(d.data().data()); }
}
// bit-exact: same state and same solution as a fresh factorizer
static void compare(LU& a, LU& f, int n) {
    sym::check(a.size() == f.size(), "same size as a fresh factorizer"); if (a.size() != f.size()) return;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym::check_eq(a.elementAt(i, j), f.elementAt(i, j), "same matrix as a fresh factorizer");
}
SYM_HARNESS(same_size_real, REAL) {
    LU lu; prior(lu, N, true); Pat p = symPat("new", N, true);
    M m = fill(p, "a"); lu.setMatrixFast(m); LU fresh(m); compare(lu, fresh, N); checkSolve(lu, m, N, "refreshed factorizer solves the new system"); sym::reach("same");
}
SYM_HARNESS(other_size_real, REAL) {
    LU lu; int n0 = sym::choice("n0", 4); if (n0) prior(lu, n0, true); int n = 1 + sym::choice("n1", 3); if (n == n0 && n == 3) sym::assume(false); Pat p = symPat("new", n, false); if (!okPat(p)) sym::assume(false);
    M m = fill(p, "a"); lu.setMatrixFast(m); LU fresh(m); compare(lu, fresh, n); checkSolve(lu, m, n, "refreshed factorizer solves the new system"); sym::reach("other");
}
SYM_HARNESS(repeat_real, REAL) {   // same stencil, new values, factorized in between; and full setMatrix over an old life
    LU lu; Pat p = symPat("old", N, true); M m0 = fill(p, "o"); lu.setMatrix(m0); V d = symVec("d", N); lu.solve(d.data().data());
    M m = fill(p, "a"); if (sym::flag("full")) lu.setMatrix(m); else { FM f; f = m; lu.setMatrixFast(f.begin(), f.end()); } sym::check(!lu.isFactorized(), "refreshed matrix is not considered factorized");
    LU fresh(m); compare(lu, fresh, N); checkSolve(lu, m, N, "refreshed factorizer solves the new system"); sym::reach("repeat");
}
