// C18: the line search.
#include "alg_common.h"
static void body(int n, int m, unsigned trunc, bool again, bool clear = false) {
    auto g = funMap(n, m); if (clear) { auto h = funMap(n, m); g->f = [=](V& d, const V& x) { h->f(d, x); double q = sumSq(d); sym::assume(sym::lt(q, 0.5) || sym::ge(q, 16.)); }; }   // clear: no step reduces the residual a little
    SimpleNewtonLinearSearch<VD> ls; if (trunc != 10) ls.setMaxStepTruncations(trunc); else sym::check(ls.maxStepTruncations() == 10, "default number of truncations"); ls.setMapping(g);
    std::vector<double> al; std::vector<V> fs; std::vector<unsigned> nums; ls.lineSearchObservers.add([&](unsigned k, double a, const V&, const V&, const V&, const V& f) { nums.push_back(k); al.push_back(a); fs.push_back(f); });
    for (int r = 0; r < (again ? 2 : 1); ++r) {
        V x = symVec("x" + S(r) + "_", n), d = symVec("d" + S(r) + "_", n), f0(m), fx(m); g->f(fx, x);
        static const double F[][4] = { { 1, 0, 0 }, { 2, 2, 0 }, { -4, 0, 0 } }; int kf = clear ? 2 : sym::choice("f0", again ? 2 : 3);   // norms are powers of two: 0.8 times them is exact
         for (int i = 0; i < m; ++i) { f0[i] = F[kf][i]; sym::assume(sym::eq(fx[i], f0[i])); } V res = f0; bool given = sym::flag("residual"); V x0 = x, d0 = d; al.clear(); fs.clear(); nums.clear(); g->args.clear(); g->rec = true;
        double w = ls.lineSearch(d, x, f0, given ? &res : nullptr); g->rec = false; checkVec(x, x0, "the starting point is left"); checkVec(d, d0, "the direction is left");
        // steps tried: 1, 1/2, ... and, if none of them reduces the residual, the same in the opposite direction
        double n0 = sumSq(f0), best = n0, bw = 0, sgn = 1; size_t k = 0; bool first = false; V bf = f0;
        auto at = [&](double a, V& f) { V y(n); for (int i = 0; i < n; ++i) y[i] = x[i] + a * d[i]; g->f(f, y); };
        for (int side = 0; side < 2 && bw == 0 && !first; ++side, sgn = -1) { double a = sgn; for (unsigned i = 0; i < trunc; ++i, a *= 0.5) { V f(m); at(a, f); ++k; double q = sumSq(f); if (sym::decide(sym::lt(q, best))) { best = q; bw = a; bf = f; } if (sym::decide(sym::lt(best, 0.8 * n0))) { first = true; break; } } }
        sym::check(k == al.size(), "the search stops at the first step that reduces the residual enough, or after its limit"); sym::check(w == bw, bw == 0 ? "failure is reported by a zero step" : "the step returned is the best of those tried");
        if (given) checkVec(res, bf, bw == 0 ? "without a step the residual is left" : "the residual returned is that at the point returned");
        sym::check(g->args.size() <= 2 * trunc, "the mapping is evaluated within the limit"); for (size_t i = 0; i < al.size(); ++i) { sym::check(nums[i] == i, "attempts are numbered"); V f(m); at(al[i], f); checkVec(fs[i], f, "observers see the residual at the step"); }
        if (bw != 0) sym::check(sym::lt(sumSq(bf), n0), "a step taken reduces the residual"); sym::check(w >= -1 && w <= 1, "the step is not longer than the direction");
    }
    sym::reach("search");
}
SYM_HARNESS(short_real, REAL) { body(1, 1, 3, false); }
SYM_HARNESS(default_real, REAL) { body(1, 1, 10, false, true); }
SYM_HARNESS(medium_real, REAL) { body(1, 1, 5, false); }
SYM_HARNESS(vector_real, REAL) { body(2, 2, 2, false); }
SYM_HARNESS(more_equations_real, REAL) { body(1, 2, 2, false); }
SYM_HARNESS(twice_real, REAL) { body(1, 1, 2, true); }
SYM_HARNESS(none_real, REAL) { body(1, 1, 0, false); }
SYM_HARNESS(vector_long_thorough, REAL) { body(2, 2, 6, false); }
SYM_HARNESS(vector_twice_thorough, REAL) { body(2, 3, 3, true); }
// a zero residual: there is nothing to improve
SYM_HARNESS(solved_real, REAL) { auto g = funMap(1, 1); SimpleNewtonLinearSearch<VD> ls; ls.setMaxStepTruncations(2); ls.setMapping(g); V f0(1), x = symVec("x", 1), d = symVec("d", 1), r = f0; f0[0] = r[0] = 0; V fx(1); g->f(fx, x); sym::assume(sym::eq(fx[0], 0.)); sym::nonzero_div(false); double w = ls.lineSearch(d, x, f0, &r); sym::check(w == 0, "no step from a solution"); sym::check_eq(r[0], 0., "the residual stays zero"); sym::reach("solved"); }
// a residual that is not a number is never taken
SYM_HARNESS(nan_real, REAL) {
    int bad = sym::choice("bad", 3); bool inf = sym::flag("infinite"); int calls = 0; auto g = std::make_shared<LamMap>(1, 2, [&](V& d, const V& x) { d[0] = sym::fun("g", {x[0]}); d[1] = calls++ == bad ? (inf ? INFINITY : NAN) : 0.; });
    SimpleNewtonLinearSearch<VD> ls; ls.setMaxStepTruncations(2); ls.setMapping(g); V x = symVec("x", 1), d = symVec("d", 1), f0(2); f0[0] = sym::real("f0"); f0[1] = 0; sym::assume(sym::gt(f0[0], 0.)); V r = f0; double w = ls.lineSearch(d, x, f0, &r);
    sym::check(sym::le(sym::abs(r[0]), f0[0]), "the residual is not increased"); sym::check(r[1] == 0, "a point whose residual is not a number is not taken"); if (w != 0) sym::check_eq(r[0], sym::fun("g", {x[0] + w * d[0]}), "the residual is that at the point returned"); sym::reach("nan");
}
