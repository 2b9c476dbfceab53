// C25: the numeric helpers compute what their names say.
#include "common.h"
#include "ode_num_int/util/m_inline.h"
#include "ode_num_int/util/foreachindex.h"
using namespace ctm; using namespace ctm::math;
typedef double D;
// what makes a function the value, slope and curvatures of one cubic: Taylor's formula is exact
static void taylor(D p, D d, D d2, D d3, D ph, D h, const std::string& l) { sym::check_eq(ph, p + h * (d + h * (d2 / 2 + h * (d3 / 6))), l); }
struct Basis { D (*f)(D), (*d)(D), (*d2)(D); D at0, at1, s0, s1; const char* n; };
static const Basis basis[] = {{&cubic::f00<D>, &cubic::df00<D>, &cubic::d2f00<D>, 1, 0, 0, 0, "f00"}, {&cubic::f01<D>, &cubic::df01<D>, &cubic::d2f01<D>, 0, 1, 0, 0, "f01"}, {&cubic::f10<D>, &cubic::df10<D>, &cubic::d2f10<D>, 0, 0, 1, 0, "f10"}, {&cubic::f11<D>, &cubic::df11<D>, &cubic::d2f11<D>, 0, 0, 0, 1, "f11"}};
SYM_HARNESS(hermite_real, REAL) { auto& b = basis[sym::choice("basis", 4)]; std::string n = b.n; sym::check_eq(b.f(0), b.at0, n + " at 0"); sym::check_eq(b.f(1), b.at1, n + " at 1"); sym::check_eq(b.d(0), b.s0, n + "' at 0"); sym::check_eq(b.d(1), b.s1, n + "' at 1"); D t = sym::real("t"), h = sym::real("h"); taylor(b.f(t), b.d(t), b.d2(t), b.d2(1) - b.d2(0), b.f(t + h), h, n + ": slope and curvature are its derivatives"); sym::reach("hermite"); }
struct Scaled { D (*f)(D, D), (*d)(D, D), (*d2)(D, D); D at0, at1, s0, s1; const char* n; };
static const Scaled scaled[] = {{&cubic::f00<D>, &cubic::df00<D>, &cubic::d2f00<D>, 1, 0, 0, 0, "f00"}, {&cubic::f01<D>, &cubic::df01<D>, &cubic::d2f01<D>, 0, 1, 0, 0, "f01"}, {&cubic::f10<D>, &cubic::df10<D>, &cubic::d2f10<D>, 0, 0, 1, 0, "f10"}, {&cubic::f11<D>, &cubic::df11<D>, &cubic::d2f11<D>, 0, 0, 0, 1, "f11"}};
SYM_HARNESS(hermite_scaled_real, REAL) { auto& b = scaled[sym::choice("basis", 4)]; std::string n = std::string(b.n) + " on [0,L]"; const D Ls[] = {0.25, 1, 2, 8, -4}; D L = Ls[sym::choice("L", 5)]; sym::check_eq(b.f(0, L), b.at0, n + " at 0"); sym::check_eq(b.f(L, L), b.at1, n + " at L"); sym::check_eq(b.d(0, L), b.s0, n + "' at 0"); sym::check_eq(b.d(L, L), b.s1, n + "' at L"); D x = sym::real("x"), h = sym::real("h"); taylor(b.f(x, L), b.d(x, L), b.d2(x, L), (b.d2(L, L) - b.d2(0, L)) / L, b.f(x + h, L), h, n + ": slope and curvature are its derivatives"); sym::reach("scaled"); }
SYM_HARNESS(hermite_scaled_any_real, REAL) { auto& b = scaled[sym::choice("basis", 4)]; auto& u = basis[sym::choice("same", 1) + (&b - scaled)]; std::string n = std::string(b.n) + " on [0,L]"; D L = sym::real("L"); sym::assume(sym::ne(L, 0)); sym::check_eq(b.f(0, L), b.at0, n + " at 0"); sym::check_eq(b.f(L, L), b.at1, n + " at L"); sym::check_eq(b.d(0, L), b.s0, n + "' at 0"); sym::check_eq(b.d(L, L), b.s1, n + "' at L"); D t = sym::real("t"); D k = b.at0 != b.at1 ? 1 : L; (void)k; sym::check_eq(b.f(t * L, L), u.f(t) * k, n + " is the unit one, scaled"); sym::check_eq(b.d(t * L, L) * L, u.d(t) * k, n + "' is the unit one, scaled"); sym::check_eq(b.d2(t * L, L) * L * L, u.d2(t) * k, n + "'' is the unit one, scaled"); sym::reach("any length"); }
SYM_HARNESS(cubic_real, REAL) { D f0 = sym::real("f0"), d0 = sym::real("d0"), f1 = sym::real("f1"), d1 = sym::real("d1"), t = sym::real("t"), h = sym::real("h"); auto P = [&](D x) { return cubic::CalcCubicPolynom(f0, d0, f1, d1, x); }; auto Q = [&](D x) { return cubic::CalcCubicPolynomD(f0, d0, f1, d1, x); }; sym::check_eq(P(0), f0, "value at 0"); sym::check_eq(P(1), f1, "value at 1"); sym::check_eq(Q(0), d0, "slope at 0"); sym::check_eq(Q(1), d1, "slope at 1"); taylor(P(t), Q(t), cubic::CalcCubicPolynomD2(f0, d0, f1, d1, t), cubic::CalcCubicPolynomD3(f0, d0, f1, d1, t), P(t + h), h, "the derivatives are those of the cubic"); sym::check_eq(P(t), f0 * cubic::f00(t) + f1 * cubic::f01(t) + d0 * cubic::f10(t) + d1 * cubic::f11(t), "the cubic is the combination of the basis"); sym::reach("cubic"); }
SYM_HARNESS(cubic_quadratic_real, REAL) { D a = sym::real("a"), b = sym::real("b"), c = sym::real("c"), t = sym::real("t"); D f1 = a + b + c, d1 = b + 2 * c; sym::check_eq(cubic::CalcCubicPolynom(a, b, f1, d1, t), a + t * (b + t * c), "polynomials are reproduced"); sym::check_eq(cubic::CalcCubicPolynomD(a, b, f1, d1, t), b + 2 * c * t, "polynomials are reproduced"); sym::check_eq(cubic::CalcCubicPolynomD2(a, b, f1, d1, t), 2 * c, "polynomials are reproduced"); sym::check_eq(cubic::CalcCubicPolynomD3(a, b, f1, d1, t), 0, "polynomials are reproduced"); sym::reach("quadratic"); }
SYM_HARNESS(order_real, REAL) { D a = sym::real("a"), b = sym::real("b"); D lo = Min(a, b), hi = Max(a, b); sym::check(sym::le(lo, a) && sym::le(lo, b) && (sym::eq(lo, a) || sym::eq(lo, b)), "the minimum is the least"); sym::check(sym::ge(hi, a) && sym::ge(hi, b) && (sym::eq(hi, a) || sym::eq(hi, b)), "the maximum is the greatest"); sym::check_eq(lo + hi, a + b, "minimum and maximum are the two"); D s = Sgn(a); sym::check(sym::eq(s * a, sym::abs(a)) && (sym::eq(s, 1) || sym::eq(s, -1)) && sym::imp(sym::ge(a, 0), sym::eq(s, 1)), "the sign, +1 at zero"); sym::check_eq(sqr(a), a * a, "the square"); sym::reach("order"); }
SYM_HARNESS(order_fp, FP) { D a = sym::real("a"), b = sym::real("b"); sym::assume(!sym::isnan(a) && !sym::isnan(b)); D lo = Min(a, b), hi = Max(a, b); sym::check(sym::le(lo, a) && sym::le(lo, b) && (sym::eq(lo, a) || sym::eq(lo, b)), "the minimum is the least"); sym::check(sym::ge(hi, a) && sym::ge(hi, b) && (sym::eq(hi, a) || sym::eq(hi, b)), "the maximum is the greatest"); D s = Sgn(a); sym::check(sym::eq(s, sym::ite(sym::lt(a, 0), -1, 1)), "the sign, +1 at zero"); sym::reach("order"); }
SYM_HARNESS(round_real, REAL) { D x = sym::real_in("x", -4.25, 4.25); int r = roundi(x); sym::check(sym::le(sym::abs(x - r), 0.5), "the nearest integer"); sym::check(sym::imp(sym::eq(sym::abs(x - r), 0.5), sym::lt(sym::abs(x), std::abs((D)r) )), "halves are rounded away from zero"); sym::check(roundi(-x) == -r, "rounding is odd"); sym::reach("round"); }
SYM_HARNESS(modd_real, REAL) { D x = sym::real_in("x", -16, 16), bias = sym::real_in("bias", -16, 16); const D ps[] = {1, 0.5, 3, 6.25}; D p = ps[sym::choice("period", 4)]; D r = modd(x, p, bias); sym::check(sym::ge(r, bias) && sym::lt(r, bias + p), "the remainder is in [bias, bias+period)"); D k = (x - r) / p; sym::check_eq(k, std::floor(k), "the remainder differs by whole periods"); sym::check(sym::imp(sym::ge(x, bias) && sym::lt(x, bias + p), sym::eq(r, x)), "what is in the range stays"); sym::reach("modd"); }
SYM_HARNESS(modd_any_real, REAL) { D x = sym::real_in("x", -16, 16), bias = sym::real_in("bias", -16, 16), p = sym::real_in("period", 0.5, 16); D r = modd(x, p, bias); sym::check(sym::ge(r, bias), "the remainder is in [bias, bias+period)"); sym::check(sym::lt(r, bias + p), "the remainder is in [bias, bias+period)"); sym::reach("modd"); }
SYM_HARNESS(modp_real, REAL) { int x = (int)std::floor(sym::real_in("x", -7, 7.5)); unsigned m = (unsigned)sym::real_in("m", 1, 4.5); unsigned r = modp(x, m); sym::check(r < m, "the remainder is below the modulus"); sym::check((x - (int)r) % (int)m == 0, "the remainder differs by whole moduli"); sym::reach("modp"); }
SYM_HARNESS(indices_real, REAL) { int n = sym::choice("n", 4); std::vector<D> v; for (int i = 0; i < n; ++i) v.push_back(sym::real("v", i)); unsigned at = 0; foreachIndex(v, [&](const D& x, unsigned i) { sym::check(i == at, "items are visited in order"); if (at < v.size()) sym::check_eq(x, v[at], "items are visited in order"); ++at; }); sym::check(at == v.size(), "each item is visited once"); sym::reach("indices"); }
