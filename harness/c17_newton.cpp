// C17: what the Newton solver reports is what happened.
#include "alg_common.h"
typedef NewtonSolverInterface<VD> NS;
struct Cfg { int n; unsigned limit; int help; bool reg, term, realSearch, thresholds, rerun; };   // help: a hard reset may help (2: or not)
static void body(Cfg c) {
    int n = c.n; auto s = Factory<NS>::newInstance("newton"); auto m = funMap(n, n); auto dir = std::make_shared<NdDir>(); dir->mayHelp = c.help == 2 ? sym::flag("hard_reset_may_help") : c.help;
    s->setComponent(std::shared_ptr<NewtonDescentDirection<VD>>(dir)); int nd = 0; V lastDir, expX, expF; bool fresh = true;
    dir->f = [&](V& d, const V& x, const V& f0, unsigned) { V fx(n); m->f(fx, x); checkVec(f0, fx, "the direction is computed from the residual at the current point"); d = symVec("d" + S(nd++) + "_", n); lastDir = d; };
    std::vector<double> ratios; auto ls = std::make_shared<NdSearch>();
    if (!c.realSearch) { s->setComponent(std::shared_ptr<NewtonLinearSearch<VD>>(ls)); ls->f = [&](const V& d, const V& x, const V& f0, V* r) { static const double W[] = { 1, 0, -0.5 }; double w = W[sym::choice("w", c.thresholds || c.reg ? 3 : 2)]; ratios.push_back(w); if (w != 0 && r) { V y(n), fy(n); for (int i = 0; i < n; ++i) y[i] = x[i] + d[i] * w; m->f(fy, y); *r = fy; } return w; }; }
    else { Params p; auto l = std::make_shared<SimpleNewtonLinearSearch<VD>>(); l->setMaxStepTruncations(1); s->setComponent(std::shared_ptr<NewtonLinearSearch<VD>>(l)); }
    std::shared_ptr<NdReg> rg; std::vector<char> adj; if (c.reg) { rg = std::make_shared<NdReg>(); s->setComponent(std::shared_ptr<NewtonRegularizationStrategy<VD>>(rg)); rg->f = [&] { bool a = sym::flag("adjust"); adj.push_back(a); return a; }; }
    s->setComponent(std::shared_ptr<VectorMapping<VD>>(m));
    auto ee = s->iterationPerformer()->errorEstimator(); double at = sym::real("abs_tol"), rt = c.thresholds && sym::flag("rel_tol") ? 1e-6 : 0.25; sym::assume(sym::gt(at, 0.)); Params p; p["abs_tol"] = at; p["rel_tol"] = rt; double am = 1e20, rm = 10;
    if (c.thresholds) { am = sym::flag("abs_threshold") ? sym::real("am") : 0.; rm = sym::flag("rel_threshold") ? 2. : 0.; if (!sym::concrete(am)) sym::assume(sym::gt(am, 0.)); } else am = 0; p["abs_max_threshold"] = am; p["rel_max_threshold"] = rm; ee->setParameters(p);
    sym::check_eq(ee->absoluteTolerance(), at, "absolute tolerance"); sym::check_eq(ee->relativeTolerance(), rt, "relative tolerance"); s->setIterationCountLimit(c.limit);
    std::vector<V> xs; std::vector<unsigned> nums; std::vector<char> terms; s->iterationObservers.add([&](unsigned k, const NS* q) -> bool { nums.push_back(k); xs.push_back(q->currentSolution()); bool t = c.term && sym::flag("terminate"); terms.push_back(t); return t; });
    V x = symVec("x", n); bool hard = !c.thresholds && !c.rerun ? true : sym::flag("hard"); s->setInitialGuess(x, hard); sym::check(dir->resets.size() && dir->resets.back() == hard, "the descent direction is told whether the guess is a hard reset");
    for (int run = 0; run < (c.rerun ? 2 : 1); ++run) {
        if (run) { if (sym::flag("new_guess")) { x = symVec("guess", n); s->setInitialGuess(x, false); } else x = s->currentSolution(); }
        xs.clear(); nums.clear(); terms.clear(); adj.clear(); dir->reports.clear(); dir->resets.clear(); size_t w0 = ratios.size(); NS::Status st = s->run();
        // what happened
        NS::Status want = NS::IterationCountLimitExceeded; size_t k = 0, ia = 0, iw = w0; bool done = false, again = false; int attempt = 0; V prev = x, cur = x;
        sym::check(xs.size() <= 2 * c.limit, "at most the number of iterations allowed in each of at most two attempts");
        for (; attempt < 2 && !done; ++attempt) {
            want = NS::IterationCountLimitExceeded; prev = x; unsigned it = 0; if (attempt) again = true;
            for (; it < c.limit; ++it) {
                if (k >= xs.size()) { sym::check(false, "the solver goes on while neither converged nor diverged"); return; }
                sym::check(nums[k] == k, "iterations are numbered"); cur = xs[k]; bool zero; if (!c.realSearch) { zero = ratios[iw] == 0; ++iw; } else { zero = true; for (int i = 0; i < n; ++i) zero = zero && sym::decide(sym::eq(cur[i], prev[i])); }
                V f(n), dx(n); m->f(f, cur); for (int i = 0; i < n; ++i) dx[i] = cur[i] - prev[i]; double xn = maxAbs(prev), ae = maxAbs(f), dn = maxAbs(dx); bool t = terms[k]; ++k; prev = cur; if (t) { want = NS::Terminated; done = true; break; }
                bool rel = sym::decide(sym::gt(xn, 0.)); // relative change; none is defined from the zero vector
                bool conv = sym::decide(sym::le(ae, at) && (rel ? sym::le(dn, rt * xn) : sym::truth(true))), div = false; if (!conv) div = zero || ((!sym::concrete(am) || am != 0) && sym::decide(sym::ge(ae, am))) || (rm != 0 && rel && sym::decide(sym::ge(dn, rm * xn)));
                bool a = false; if (c.reg) { sym::check(ia < adj.size(), "the regularization parameter is adjusted after each iteration"); if (ia >= adj.size()) return; a = adj[ia++]; }
                if (a) continue; if (conv) { want = NS::Converged; done = true; break; } if (div) { want = NS::Diverged; break; }
            }
            if (done) break; if (!dir->mayHelp) { ++attempt; break; }
        }
        sym::check(k == xs.size(), "the solver stops when converged, diverged or at the limit");
        sym::check(st == want, want == NS::Converged ? "convergence is reported" : want == NS::Diverged ? "divergence is reported as such" : want == NS::Terminated ? "termination by an observer is reported as such" : "the iteration limit is reported as such");
        if (st == NS::Converged) { V f(n); m->f(f, s->currentSolution()); sym::check(sym::le(maxAbs(f), at), "the solution returned meets the tolerance"); }
        if (xs.size() && !(again && c.limit == 0)) checkVec(s->currentSolution(), xs.back(), "the solution returned is the last iterate");
        bool ok = false, bad = false; for (char r : dir->reports) (r ? ok : bad) = true; sym::check(ok == (st == NS::Converged), "success is reported to the descent direction exactly if converged"); if (st == NS::Diverged || st == NS::IterationCountLimitExceeded) sym::check(bad, "failure is reported to the descent direction"); if (st == NS::Converged) sym::check(dir->reports.back(), "success is reported last");
        bool hardened = false; for (char r : dir->resets) hardened = hardened || r; sym::check(hardened == again, "a second attempt starts from scratch"); if (st == NS::Terminated) break;
    }
    sym::reach("newton");
}
SYM_HARNESS(scalar_real, REAL) { body({1, 3, 0, false, false, false, false, false}); }
SYM_HARNESS(reset_real, REAL) { body({1, 1, 1, false, false, false, false, false}); }
SYM_HARNESS(thresholds_real, REAL) { body({1, 1, 2, false, false, false, true, false}); }
SYM_HARNESS(vector_real, REAL) { body({2, 1, 2, false, false, false, false, false}); }
SYM_HARNESS(terminated_real, REAL) { body({1, 2, 0, false, true, false, false, false}); }
SYM_HARNESS(regularized_real, REAL) { body({1, 2, 0, true, false, false, false, false}); }
SYM_HARNESS(regularized_reset_real, REAL) { body({1, 1, 1, true, false, false, false, false}); }
SYM_HARNESS(searched_real, REAL) { body({1, 1, 0, false, false, true, false, false}); }
SYM_HARNESS(again_real, REAL) { body({1, 1, 0, false, false, false, false, true}); }
SYM_HARNESS(no_iterations_real, REAL) { body({1, 0, 2, false, false, false, false, false}); }
SYM_HARNESS(reset_long_thorough, REAL) { body({1, 2, 1, false, false, false, false, false}); }
SYM_HARNESS(terminated_reset_thorough, REAL) { body({1, 2, 1, false, true, false, false, false}); }
// values that are not numbers never count as converged
static void nan(bool inf) {
    auto s = Factory<NS>::newInstance("newton"); double bad = inf ? INFINITY : NAN; int calls = 0, at = sym::choice("at", 3), comp = sym::choice("component", 2); bool forever = sym::flag("for_ever"); bool isBad = false; auto m = std::make_shared<LamMap>(2, 2, [&](V& d, const V& x) { for (int i = 0; i < 2; ++i) d[i] = sym::fun(("g" + S(i)).c_str(), {x[0], x[1]}); isBad = forever ? calls >= at : calls == at; ++calls; if (isBad) d[comp] = bad; });
    auto dir = std::make_shared<NdDir>(); dir->f = [](V& d, const V&, const V&, unsigned) { d = symVec("d", 2); }; s->setComponent(std::shared_ptr<NewtonDescentDirection<VD>>(dir)); auto l = std::make_shared<NdSearch>(); int nw = 0; l->f = [&](const V& d, const V& x, const V& f0, V* r) { double w = nw++ ? 0.5 : 1; if (r) { V y(2), fy(2); for (int i = 0; i < 2; ++i) y[i] = x[i] + d[i] * w; m->map(fy, y); *r = fy; } return w; }; s->setComponent(std::shared_ptr<NewtonLinearSearch<VD>>(l)); s->setComponent(std::shared_ptr<VectorMapping<VD>>(m)); s->setIterationCountLimit(2);
    s->setInitialGuess(symVec("x", 2)); NS::Status st = s->run(); V f = s->iterationPerformer()->currentResidual(); double tol = s->iterationPerformer()->errorEstimator()->absoluteTolerance();
    if (st == NS::Converged) for (int i = 0; i < 2; ++i) sym::check(sym::le(sym::abs(f[i]), tol), "a residual that is not a number is not converged"); sym::reach("nan");
}
SYM_HARNESS(nan_real, REAL) { nan(false); }
SYM_HARNESS(inf_real, REAL) { nan(true); }
