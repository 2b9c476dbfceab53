from mkbug import make
LU = "include/ode_num_int/lu/LUFactorizer.h"
LUHEAD = r'''
#include "ode_num_int/la/SparseMatrixTemplate.h"
#include "ode_num_int/LUFactorizer.h"
#include <cstdio>
#include <cmath>
using namespace ctm; using namespace ctm::math; using namespace ctm::math::sparse; typedef SparseMatrix<double> M; typedef Vector<double> V;
static double dist(const V& a, const V& b) { double m = 0; for (unsigned i = 0; i < a.size(); ++i) m = std::max(m, std::fabs(a[i] - b[i])); return m; }
'''
make("C03_lu_row_start", "C03", [(LU, "                    auto k = maxpq( i, c );\n                    auto prow = adr_L_i_0 + k;", "                    auto k = std::max( maxpq( i, c ), m_p[c] );\n                    auto prow = adr_L_i_0 + k;")],
 "a sparse stencil in which row i starts left of where row c<i starts and column c starts above, so the skipped products are not zero (never with a full matrix, as in the test)",
 "the factorization skips products L(i,k)*U(k,c) for k left of the first column of row c, so solve() returns a wrong solution",
 LUHEAD + r'''
int main() { M a(3, 3); a.at(0,0) = 4; a.at(0,1) = 1; a.at(1,1) = 5; a.at(1,2) = 1; a.at(2,0) = 1; a.at(2,1) = 2; a.at(2,2) = 6; V b(3); b[0] = 1; b[1] = 2; b[2] = 3;
 V x = b; LUFactorizer<double> f(a); f.solve(x.data().data()); V r = a * x; double d = dist(r, b); printf("residual %g\n", d); return d < 1e-12 ? 0 : 1; }
''')
make("C04_lu_fast_stale_u", "C04", [(LU, "            std::fill( m_l.begin(), m_l.end(), 0 );\n            std::fill( m_u.begin(), m_u.end(), 0 );\n#ifdef", "            if( m_factorized ) {\n                std::fill( m_l.begin(), m_l.end(), 0 );\n                std::fill( m_u.begin(), m_u.end(), 0 );\n                }\n#ifdef")],
 "setMatrixFast called on a factorizer that has not been factorized since the last load, with a matrix whose stencil lacks an entry the previous one had",
 "values of the previous matrix survive in the positions absent from the new one",
 LUHEAD + r'''
int main() { M a(2, 2), c(2, 2); a.at(0,0) = 2; a.at(0,1) = 7; a.at(1,0) = 1; a.at(1,1) = 3; c.at(0,0) = 2; c.at(1,0) = 1; c.at(1,1) = 3;
 LUFactorizer<double> f(a); f.setMatrixFast(c); V x(2); x[0] = 2; x[1] = 4; f.solve(x.data().data()); printf("%g %g\n", x[0], x[1]); return std::fabs(x[0] - 1) + std::fabs(x[1] - 1) < 1e-12 ? 0 : 1; }
''')
make("C05_element_lower", "C05", [(LU, "                    for (auto k=kmin; k<=kmax; ++k )\n                        result += safeL(r,k)*U(k,c);\n                    return result;", "                    for (auto k=kmin; k<kmax; ++k )\n                        result += safeL(r,k)*U(k,c);\n                    result += r <= c ?   U(r,c) :   m_q[c] < c || m_p[r] == c ?   safeL(r,c)*U(c,c) :   safeL(r,c);\n                    return result;")],
 "an element below the diagonal read after factorization, in a column that starts at its diagonal and a row that starts further left", "elementAt() returns the factor L(r,c) instead of the matrix element",
 LUHEAD + r"""
int main() { M a(3, 3); a.at(0,0) = 2; a.at(1,1) = 3; a.at(2,2) = 4; a.at(2,0) = 5; a.at(2,1) = 6;
 LUFactorizer<double> f(a); V x(3); x[0] = x[1] = x[2] = 1; f.solve(x.data().data()); double d = 0; const M& ca = a; for (unsigned r = 0; r < 3; ++r) for (unsigned c = 0; c < 3; ++c) d = std::max(d, std::fabs(f.elementAt(r, c) - ca.get(r, c))); printf("%g\n", d); return d < 1e-12 ? 0 : 1; }
""")
make("C07_dopri56_c", "C07", [("include/ode_num_int/ode/OdeSolverDOPRI56.h", "                   1./10,           2./9,        3./7,              3./5,               4./5,           1,               1 },", "                   1./10,           2./9,        3./7,              4./5,               3./5,           1,               1 },")],
 "a right-hand side that depends explicitly on time", "two nodes of DOPRI 5(6) swapped: autonomous systems are integrated correctly, time-dependent ones with the wrong order",
 r'''
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include <cstdio>
#include <cmath>
using namespace ctm; using namespace ctm::math; typedef VectorData<double> VD; typedef Vector<double> V;
static OdeNumIntClassesRegistrator<VD> reg;
struct R : OdeRhs<VD> { unsigned secondOrderVarCount() const { return 0; } unsigned firstOrderVarCount() const { return 1; } void rhs(V& d, double t, const V&) const { d.resize(1); d[0] = 5 * t * t * t * t; } };
int main() { auto s = Factory<OdeSolver<VD>>::newInstance("dopri_56"); s->setOdeRhs(std::make_shared<R>()); s->setInitialStepSize(0.5); OptionalParameters::Parameters p; p["disable_error_check"] = true; s->setParameters(p); V x(1); x[0] = 0; s->setInitialState(0, x); s->doStep(); double e = std::fabs(s->initialState()[0] - std::pow(0.5, 5)); printf("error %g\n", e); return e < 1e-12 ? 0 : 1; }
''')
make("C09_ceiling_order", "C09", [("include/ode_num_int/ode/OdeStepSizeSimpleController.h", "if( m_maxThreshold > 0   &&   pd*currentStepSize > m_maxThreshold ) {", "if( m_maxThreshold > 0   &&   pd*currentStepSize > m_maxThreshold   &&   !( m_incMaxFactor > 0   &&   pd > m_incMaxFactor ) ) {")],
 "a step-size ceiling set, and an error so small that the growth is limited by the maximal increase factor", "the ceiling is not applied when the growth factor is limited: the step grows beyond the ceiling",
 r'''
#include "ode_num_int/la/VectorTemplate.h"
#include "ode_num_int/OdeStepSizeController.h"
#include "ode_num_int/ode/OdeStepSizeSimpleController.h"
#include <cstdio>
using namespace ctm; using namespace ctm::math; typedef VectorData<double> VD;
int main() { OdeStepSizeSimpleController<VD> c; OptionalParameters::Parameters p; p["max_threshold"] = 1.5; c.setParameters(p); auto r = c.controlStepSize(1, 1e-20, 4); printf("%g\n", r.newStepSize); return r.newStepSize <= 1.5 ? 0 : 1; }
''')
make("C06_hart_skip", "C06", [(LU, "                    auto factor = beta/aa;\n                    for( unsigned int k=m_p[i]; k<i; ++k )\n                        L(i,k) += m_r[k] * factor;\n                    for( unsigned int k=i; k<=umaxcol; ++k )\n                        if( i >= m_q[k] ) {\n                            const auto& sk = s[k];\n                            auto& Uik = U(i,k);\n                            Uik += sk*factor;\n                            ri += Uik * sk;\n                            }",
 "                    auto factor = beta/aa;\n                    for( unsigned int k=m_p[i]; k<i; ++k )\n                        L(i,k) += m_r[k] * factor;\n                    for( unsigned int k=i; k<=umaxcol; ++k )\n                        if( i >= m_q[k] ) {\n                            const auto& sk = s[k];\n                            if( sk == 0 )\n                                break;\n                            auto& Uik = U(i,k);\n                            Uik += sk*factor;\n                            ri += Uik * sk;\n                            }")],
 "a step s with a zero component in the middle of a row's stored columns and a non-zero one after it", "the update stops at the first zero component of the step, so the secant condition is violated",
 LUHEAD + r'''
int main() { M a(3, 3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a.at(i, j) = i == j ? 4 : 0.5 * (i + 1) - 0.25 * j; LUFactorizer<double> f(a); double s[3] = {1, 0, 2}, y[3] = {1, -2, 5}; f.secantUpdateHart(s, y);
 double d = 0; for (int i = 0; i < 3; ++i) { double v = 0; for (int j = 0; j < 3; ++j) v += f.elementAt(i, j) * s[j]; d = std::max(d, std::fabs(v - y[i])); } printf("%g\n", d); return d < 1e-12 ? 0 : 1; }
''')
