// C03: LUFactorizer::solve solves A x = b for every valid stencil; invalid stencils are refused.
#include "lu_common.h"
SYM_HARNESS(n12_real, REAL) {
    int n = 1 + sym::choice("n", 2); Pat p = symPat("has", n, false); if (!okPat(p)) { sym::assume(false); }
    M m = fill(p, "a"); LU lu(m); checkSolve(lu, m, n, "A*solve(b) = b"); checkSolve(lu, m, n, "A*solve(b) = b, second right-hand side");
    sym::check((int)lu.size() == n && !lu.empty() && lu.isFactorized(), "size/state"); sym::reach("n12");
}
SYM_HARNESS(n3_real, REAL) {
    Pat p = symPat("has", 3, false); if (!okPat(p)) sym::assume(false);
    M m = fill(p, "a"); LU lu; lu.setMatrix(m); checkSolve(lu, m, 3, "A*solve(b) = b"); sym::reach("n3");
}
// n = 4: full diagonal, at most 5 off-diagonal entries
SYM_HARNESS(n4_real, REAL) {
    static const int K = getenv("SYM_THOROUGH") ? 8 : 4; Pat p; p.n = 4; p.h.assign(16, false); int k = 0;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { if (i == j) p.h[i * 4 + j] = true; else if (k < K && sym::flag("has")) { p.h[i * 4 + j] = true; ++k; } }
    M m = fill(p, "a"); LU lu(m); checkSolve(lu, m, 4, "A*solve(b) = b"); sym::reach("n4");
}
// selected larger structures: arrow, banded, block, full fill-in
SYM_HARNESS(n5_real, REAL) {
    int n = 5, kind = sym::choice("kind", 6); Pat p; p.n = n; p.h.assign(n * n, false);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool h = i == j; if (kind == 0) h |= i == 0 || j == n - 1; if (kind == 1) h |= j == 0 || i == n - 1; if (kind == 2) h |= j - i == 1 || i - j == 1; if (kind == 3) h |= (j > i && j - i <= 2); if (kind == 4) h |= (i == 3 && j == 0) || (i == 0 && j == 4) || (i == 4 && j == 1); if (kind == 5) h |= (i > j && (i + j) % 2) || (i == 1 && j == 4); p.h[i * n + j] = h; }
    M m = fill(p, "a"); LU lu(m); checkSolve(lu, m, n, "A*solve(b) = b"); sym::reach("n5");
}
SYM_HARNESS(stencils_uf, UF) {
    int n = 3; int r = 1 + sym::choice("r", n), c = 1 + sym::choice("c", n); M m(r, c); std::vector<bool> h(n * n, false); bool any = false;
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (sym::flag("has")) { m.at(i, j) = sym::real((std::string("a") + S(i) + S(j)).c_str()); h[i * n + j] = true; any = true; }
    int nr = 0, nc = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (h[i * n + j]) { nr = std::max(nr, i + 1); nc = std::max(nc, j + 1); }
    Pat p; p.n = nr; bool valid = nr == nc; if (valid) { p.h.assign(nr * nr, false); for (int i = 0; i < nr; ++i) for (int j = 0; j < nr; ++j) p.h[i * nr + j] = h[i * n + j]; valid = validPat(p); }
    bool thrown = false; LU lu; try { lu.setMatrix(m); } catch (std::exception&) { thrown = true; }
    sym::check(thrown == !valid, "a stencil is refused exactly when it is not square or does not cover the diagonal");
    if (!thrown && any) sym::check((int)lu.size() == nr, "size"); sym::reach("stencils");
}
