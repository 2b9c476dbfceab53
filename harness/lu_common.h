#ifndef LU_COMMON_H
#define LU_COMMON_H
#include "ode_num_int/LUFactorizer.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"
#include "common.h"
using namespace ctm::math; using namespace ctm::math::sparse;
typedef Vector<double> V; typedef SparseMatrix<double> M; typedef LUFactorizer<double> LU; typedef SparseMatrixTemplate<SparseMatrixFastData<double>> FM;
struct Pat { int n; std::vector<bool> h; bool has(int i, int j) const { return h[i * n + j]; } };
// valid <=> for every i some entry (i, c<=i) and some entry (r<=i, i)
inline bool validPat(const Pat& p) { for (int i = 0; i < p.n; ++i) { bool a = false, b = false; for (int k = 0; k <= i; ++k) { a |= p.has(i, k); b |= p.has(k, i); } if (!a || !b) return false; } return true; }
// structural pivots: elimination without pivoting never meets an entry that is identically zero
inline bool pivotsExist(Pat p) { for (int k = 0; k < p.n; ++k) { if (!p.has(k, k)) return false; for (int i = k + 1; i < p.n; ++i) for (int j = k + 1; j < p.n; ++j) if (p.has(i, k) && p.has(k, j)) p.h[i * p.n + j] = true; } return true; }
inline bool okPat(const Pat& p) { return validPat(p) && pivotsExist(p); }
inline Pat symPat(const char* nm, int n, bool diag) { Pat p; p.n = n; p.h.assign(n * n, false); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) p.h[i * n + j] = (i == j && diag) ? true : sym::flag(nm); return p; }
inline M fill(const Pat& p, const char* nm) { M m(p.n, p.n); for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) if (p.has(i, j)) m.at(i, j) = sym::real((std::string(nm) + S(i) + S(j)).c_str()); return m; }
inline void checkSolve(LU& lu, const M& m, int n, const std::string& l) {
    V b = symVec("b", n), x = b; lu.solve(x.data().data()); V r = m * x;
    for (int i = 0; i < n; ++i) sym::check_eq(r[i], b[i], l);
}
#endif
