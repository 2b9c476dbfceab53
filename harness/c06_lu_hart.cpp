// C06: the Hart secant update makes the factorized matrix satisfy LU*s = y and keeps the stencil.
#include "lu_common.h"
static void body(int n, bool diag, int part = -1, int zero = 0) {   // zero: bit mask of the components of the step that are zero; -1: any but the last
    if (n > 2) sym::nofeas(true);
    Pat p = symPat("has", n, diag); if (!okPat(p)) sym::assume(false); if (part >= 0 && p.has(0, 1) != ((part & 2) != 0)) sym::assume(false); M m = fill(p, "a"); LU lu(m);
    V s = symVec("s", n), y = symVec("y", n); std::vector<char> z(n, 0);
    for (int i = 0; i < n; ++i) { z[i] = zero >= 0 ? zero >> i & 1 : i < n - 1 && sym::flag("zero_component"); if (z[i]) s[i] = 0; else sym::assume(sym::ne(s[i], 0.)); }
    for (int i = 0; i < n; ++i) { bool some = false; for (int k = i; k < n; ++k) some = some || (!z[k] && lu.firstRow(k) <= (unsigned)i); if (!some) sym::assume(false); }   // every row can be corrected within the stencil
    if (part < 0 ? sym::flag("solved_before") : part & 1) { V b = symVec("b", n); lu.solve(b.data().data()); }
    std::vector<unsigned> fc, fr, lc; for (int i = 0; i < n; ++i) { fc.push_back(lu.firstCol(i)); fr.push_back(lu.firstRow(i)); lc.push_back(lu.lastCol(i)); }
    lu.secantUpdateHart(s.data().data(), y.data().data());
    for (int i = 0; i < n; ++i) { double e = 0; for (int j = 0; j < n; ++j) e += lu.elementAt(i, j) * s[j]; sym::check_eq(e, y[i], "LU*s = y after the update"); }
    for (int i = 0; i < n; ++i) sym::check(lu.firstCol(i) == fc[i] && lu.firstRow(i) == fr[i] && lu.lastCol(i) == lc[i], "the stencil is preserved");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if ((i > j && j < (int)fc[i]) || (i <= j && i < (int)fr[j])) sym::check_eq(lu.elementAt(i, j), 0., "entries outside the stencil stay zero");
    sym::reach("hart");
}
SYM_HARNESS(n1_real, REAL) { body(1, true); }
SYM_HARNESS(n2_real, REAL) { body(2, false, -1, -1); }
SYM_HARNESS(n3_part0_real, REAL) { body(3, true, 0); }
SYM_HARNESS(n3_part1_real, REAL) { body(3, true, 1); }
SYM_HARNESS(n3_part2_real, REAL) { body(3, true, 2); }
SYM_HARNESS(n3_part3_real, REAL) { body(3, true, 3); }
SYM_HARNESS(n3_zero0_real, REAL) { body(3, true, sym::choice("part", 4), 1); }
SYM_HARNESS(n3_zero1_real, REAL) { body(3, true, sym::choice("part", 4), 2); }
SYM_HARNESS(n3_zero01_real, REAL) { body(3, true, sym::choice("part", 4), 3); }
// a pair that is already satisfied leaves the matrix unchanged
SYM_HARNESS(fixpoint_real, REAL) {
    int n = 2; Pat p = symPat("has", n, true); M m = fill(p, "a"); LU lu(m); V s = symVec("s", n); V y = m * s; for (int i = 0; i < n; ++i) sym::assume(sym::ne(s[i], 0.));
    lu.secantUpdateHart(s.data().data(), y.data().data()); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym::check_eq(lu.elementAt(i, j), m.get(i, j), "a satisfied secant pair changes nothing"); sym::reach("fix");
}
