from mkbug import make
I = "include/ode_num_int/"
HEAD = r'''
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
#include "ode_num_int/OdeSolverConfiguration.h"
#include "ode_num_int/OdeStepSizeController.h"
#include "ode_num_int/ode/ExtrapolatorStepSequenceHarmonic.h"
#include "ode_num_int/ode/ExtrapolatorStepSequenceRomberg.h"
#include "ode_num_int/ode/ExtrapolatorStepSequenceBulirsch.h"
#include "ode_num_int/ode/ode_solver_output.h"
#include "ode_num_int/alg/SimpleNewtonLinearSearch.h"
#include "ode_num_int/alg/VectorNarrowingMapping.h"
#include "ode_num_int/alg/VectorReorderingMapping.h"
#include "ode_num_int/alg/SparseJacobianCalculator.h"
#include "ode_num_int/util/ErrorStats.h"
#include <cstdio>
#include <cmath>
#include <sstream>
#include <functional>
using namespace ctm; using namespace ctm::math; typedef VectorData<double> VD; typedef Vector<double> V; typedef OptionalParameters::Parameters P;
static OdeNumIntClassesRegistrator<VD> reg_;
static ctm::testmodels::OdeTestModelClassesRegistrator<VD> reg2_;
struct R : OdeRhs<VD> { unsigned n2, n1, nz = 0; std::vector<unsigned> fl; std::function<void(V&, double, const V&)> f, z; std::function<void(const int*, double, V&)> sw; R(unsigned a, unsigned b, std::function<void(V&, double, const V&)> g) : n2(a), n1(b), f(g) {} unsigned secondOrderVarCount() const { return n2; } unsigned firstOrderVarCount() const { return n1; } using OdeRhs<VD>::rhs; void rhs(V& d, double t, const V& x) const { odeRhsPreObservers(t, x, this); d.resize(2 * n2 + n1); f(d, t, x); odeRhsPostObservers(t, x, d, this); } unsigned zeroFuncCount() const { return nz; } std::vector<unsigned> zeroFuncFlags() const { return fl; } void zeroFunctions(V& d, double t, const V& x) const { d.resize(nz); z(d, t, x); } void switchPhaseState(const int* tr, double t, V& x) { if (sw) sw(tr, t, x); } };
struct Map : VectorMapping<VD> { unsigned n, m; std::function<void(V&, const V&)> f; Map(unsigned a, unsigned b, std::function<void(V&, const V&)> g) : n(a), m(b), f(g) {} unsigned inputSize() const { return n; } unsigned outputSize() const { return m; } void map(V& d, const V& x) const { d.resize(m); f(d, x); } std::vector<unsigned> inputIds() const { return std::vector<unsigned>(n, 0); } std::vector<unsigned> outputIds() const { return std::vector<unsigned>(m, 0); } };
static V vec(std::initializer_list<double> l) { V v(l.size()); unsigned i = 0; for (double x : l) v[i++] = x; return v; }
static std::shared_ptr<OdeSolver<VD>> solver(const char* t) { return Factory<OdeSolver<VD>>::newInstance(t); }
static int ok(bool b) { printf("%s\n", b ? "as described" : "BROKEN"); return b ? 0 : 1; }
'''
LEC = I + "ode/LinearOdeEventController.h"
make("C11_other_state", "C11", [(LEC, "                    zf = zf*( 1. - tmin ) + m_zf2[i]*tmin;", "                    zf = m_zf2[i];")],
 "two event functions, both crossing zero within one step, at different times", "after the first event the other function is taken from the untruncated end, so its crossing is dated wrongly in the next step",
 HEAD + r'''
int main() { auto f = std::make_shared<R>(0, 1, [](V& d, double, const V&) { d[0] = 1; }); f->nz = 2; f->fl = {R::PlusMinus | R::MinusPlus, R::PlusMinus | R::MinusPlus}; f->z = [](V& d, double, const V& x) { d[0] = x[0] - 0.25; d[1] = x[0] - 0.75; };
 auto s = solver("euler"); s->setInitialStepSize(1); s->setOdeRhs(f); s->setInitialState(0, vec({0})); s->doStep(); double t1 = s->initialTime(); s->doStep(); double t2 = s->initialTime(); printf("%g %g\n", t1, t2); return ok(std::fabs(t1 - 0.25) < 1e-12 && std::fabs(t2 - 0.75) < 1e-12); }
''')
make("C12_gragg_smooth_event", "C12", [(I + "ode/OdeSolverGragg.h", "            m_stepsRunning = !stepTruncated;", "            m_stepsRunning = !stepTruncated   ||   ( m_stepsRunning   &&   transitionType == 0 );")],
 "Gragg's method, a truncation by the model itself (truncateStep, no event index) after an untruncated step", "the second half-step variable of the untruncated step is kept, so the step after the truncation is wrong",
 HEAD + r'''
struct T : R { using R::R; mutable int n = 0; bool truncateStep(double& t, V& x) const { if (++n != 2) return false; t -= 0.25; x[0] = 5; return true; } };
int main() { auto f = std::make_shared<T>(0, 1, [](V& d, double, const V& x) { d[0] = -x[0]; }); auto s = solver("gragg"); s->setInitialStepSize(0.5); s->setOdeRhs(f); s->setInitialState(0, vec({1})); s->doStep(); s->doStep(); auto q = solver("gragg"); q->setInitialStepSize(0.5); auto g = std::make_shared<R>(0, 1, f->f); q->setOdeRhs(g); q->setInitialState(s->initialTime(), s->initialState()); s->doStep(); q->doStep(); printf("%g %g\n", s->initialState()[0], q->initialState()[0]); return ok(s->initialState()[0] == q->initialState()[0]); }
''')
make("C13_bulirsch_reset", "C13", [(I + "ode/ExtrapolatorStepSequenceBulirsch.h", None, None)], "", "", "") if False else None
EX = I + "ode/OdeSolverExtrapolator.h"
make("C14_ratio", "C14", [(EX, "                        real_type r = static_cast<real_type>(m_n[j-1])/m_n[j-k-1];", "                        real_type r = static_cast<real_type>(m_n[j-1])/m_n[k == 1 ?   j-2 :   j-3];")],
 "four or more extrapolation stages with a step sequence whose ratios differ", "the last extrapolation columns use the wrong ratio of step numbers: the order drops",
 HEAD + r'''
int main() { auto f = std::make_shared<R>(0, 1, [](V& d, double, const V& x) { d[0] = x[0]; }); auto s = std::dynamic_pointer_cast<OdeSolverExtrapolator<VD>>(solver("extrapolator")); P p; p["max_stages"] = 4u; p["disable_error_check"] = true; p["h_init"] = 0.5; s->setParameters(p); s->setStepSequence(std::make_shared<ExtrapolatorStepSequenceHarmonic>()); s->setReferenceSolver(solver("euler")); s->setOdeRhs(f); s->setInitialState(0, vec({1})); s->doStep(); double T[4], h[4]; for (int n = 1; n <= 4; ++n) { T[n - 1] = std::pow(1 + 0.5 / n, n); h[n - 1] = 1. / n; } for (int k = 1; k < 4; ++k) for (int j = 3; j >= k; --j) T[j] += (T[j] - T[j - 1]) / (h[j - k] / h[j] - 1); double e = std::fabs(s->initialState()[0] - T[3]); printf("error %g\n", e); return ok(e < 1e-12); }
''')
make("C15_reorder_result", "C15", [(I + "ode/OdeSolverImplicitEuler.h", "                m_reorder->unorderInput( m_eqnbuf, newton->currentSolution() );", "                m_reorder->orderInput( m_eqnbuf, newton->currentSolution() );")],
 "an ordering that is not its own inverse (three or more variables moved in a circle)", "the solution is permuted the wrong way round",
 HEAD + r'''
struct O : VectorReorderingMapping<VD> { O() { setInputOrdering({1, 2, 0}); setOutputOrdering({1, 2, 0}); } };
int main() { auto f = std::make_shared<R>(0, 3, [](V& d, double, const V& x) { for (int i = 0; i < 3; ++i) d[i] = -(i + 1) * x[i]; }); auto s = std::dynamic_pointer_cast<OdeSolverImplicitEuler<VD>>(solver("i_euler")); s->setInitialStepSize(0.5); s->setOdeRhs(f); s->setReorder(std::make_shared<O>()); s->setInitialState(0, vec({1, 2, 3})); s->doStep(); V x = s->initialState(); double e = 0; for (int i = 0; i < 3; ++i) e = std::max(e, std::fabs(x[i] * (1 + 0.5 * (i + 1)) - (i + 1))); printf("%g\n", e); return ok(e < 1e-3); }
''')
make("C16_j2_scale", "C16", [(I + "ode/OdeSolverRosenbrock_W_base.h", "            m_J2.block( 0, 0, m_n2+m_n1, m_n2 ).mulVectRight( x.begin(), m_buf4mul.begin() );\n            x.block( m_n2, m_n2+m_n1 ) += m_buf4mul.scaled( hd );", "            if( m_n1 == 0 ||   m_n2 > 0 ) {\n                m_J2.block( 0, 0, m_n2, m_n2 ).mulVectRight( x.begin(), m_buf4mul.begin() );\n                x.block( m_n2, m_n2 ) += m_buf4mul.block( 0, m_n2 ).scaled( hd );\n                }")],
 "a system with second-order and first-order variables, in which the slope of a first-order variable depends on a position", "the influence of positions on first-order variables is left out of the linear solution",
 HEAD + r'''
int main() { auto f = std::make_shared<R>(1, 1, [](V& d, double, const V& x) { d[0] = x[1]; d[1] = -x[0]; d[2] = 3 * x[0] - x[2]; }); auto s = solver("rosenbrock_w1"); s->setInitialStepSize(0.5); s->setOdeRhs(f); s->setInitialState(0, vec({1, 0.5, 2})); double t = 0; P p = s->parameters(); s->doStep(); V x = s->initialState(); double h = s->initialTime();
 // d = 1: (I - h d J) k = f(x0), x1 = x0 + h k; d as in the class: solve for it from the first component
 V f0(3); f->f(f0, 0, vec({1, 0.5, 2})); V k(3); for (int i = 0; i < 3; ++i) k[i] = (x[i] - vec({1, 0.5, 2})[i]) / h; double hd = (k[0] - f0[0]) / k[1]; double r = k[2] - f0[2] - hd * (3 * k[0] - k[2]); (void)t; printf("residual %g\n", r); return ok(std::fabs(r) < 1e-5); }
''')
make("C17_second_guess", "C17", [(I + "alg/NewtonSolver.h", "                    setInitialGuess( x0, true );", "                    setInitialGuess( failureStatus == BaseClass::Diverged ?   x0 :   currentSolution(), true );")],
 "a first attempt that exceeds the iteration limit (not one that diverges) with a strategy whose hard reset may help", "the second attempt starts from the last iterate instead of the initial guess",
 HEAD + r'''
struct D : NewtonDescentDirection<VD> { std::vector<std::pair<unsigned, double>> seen; void reset(bool) {} bool hardResetMayHelp() const { return true; } void computeDescentDirection(V& d, const V& x, const V&, unsigned k) { seen.push_back({k, x[0]}); d = vec({1}); } void reportSuccess(bool) {} };
int main() { auto n = Factory<NewtonSolverInterface<VD>>::newInstance("newton"); auto d = std::make_shared<D>(); n->setComponent(std::shared_ptr<NewtonDescentDirection<VD>>(d)); n->setComponent(std::shared_ptr<VectorMapping<VD>>(std::make_shared<Map>(1, 1, [](V& f, const V& x) { f[0] = 10 - x[0] / 10; }))); n->setIterationCountLimit(2); n->setInitialGuess(vec({3})); n->run(); double first = -1; int starts = 0; for (auto& q : d->seen) { printf("%u %g\n", q.first, q.second); if (q.first == 0) { ++starts; first = q.second; } } return ok(starts == 2 && first == 3); }
''')
make("C18_opposite_null", "C18", [(I + "alg/SimpleNewtonLinearSearch.h", "                    if( f_f0Best > f_f0 ) {\n                        f_f0Best = f_f0;\n                        alphaBest = alpha;\n                        if( residual )\n                            *residual = f;\n                        }\n                    if( f_f0Best < eta )\n                        break;\n                    }\n                if(", "                    if( f_f0Best > f_f0 ) {\n                        f_f0Best = f_f0;\n                        alphaBest = alpha;\n                        if( residual )\n                            *residual = f;\n                        }\n                    else if( f_f0Best < 1 )\n                        break;\n                    if( f_f0Best < eta )\n                        break;\n                    }\n                if(")],
 "only the opposite direction reduces the norm, the reduction is small at first, and a shorter step is worse before a still shorter one is better", "the search along the opposite direction stops at the first step that is no improvement",
 HEAD + r'''
int main() { SimpleNewtonLinearSearch<VD> ls; ls.setMapping(std::make_shared<Map>(1, 1, [](V& d, const V& x) { double a = -x[0]; d[0] = x[0] >= 0 ? 1 + x[0] : a == 1 ? 0.95 : a == 0.5 ? 2 : a == 0.25 ? 0.1 : 1.5; })); V r(1); double a = ls.lineSearch(vec({1}), vec({0}), vec({1}), &r); printf("%g %g\n", a, r[0]); return ok(a == -0.25 && std::fabs(r[0] - 0.1) < 1e-15); }
''')
make("C19_group", "C19", [(I + "alg/SparseJacobianCalculator.h", "                        addRows( affectedRows, col2 );\n                        itcol", "                        if( colRows[col2].size() > 1 )\n                            addRows( affectedRows, col2 );\n                        itcol")],
 "two columns that share a row, one of which has just that entry, and a third column evaluated before them in the same group", "columns that share a row are differenced together, so their entries are sums",
 HEAD + r'''
int main() { typedef SparseJacobianCalculator<VD>::SparseMatrix M; sparse::SparseMatrix<double> a(2, 3); a.at(0, 0) = 1; a.at(1, 1) = 1; a.at(1, 2) = 1; M J = a; Map m(3, 2, [](V& d, const V& x) { d[0] = 2 * x[0]; d[1] = 3 * x[1] + 5 * x[2]; }); computeSparseJacobian<VD>(J, m, vec({0, 0, 0}), 1e-3); double e = 0; for (auto& q : J) { double w = q.first.first == 0 ? 2 : q.first.second == 1 ? 3 : 5; e = std::max(e, std::fabs(q.second - w)); } printf("%g\n", e); return ok(e < 1e-9); }
''')
make("C21_widen", "C21", [(I + "alg/VectorNarrowingMapping.h", "                        dst[is] = m_state[is];", "                        dst[is] = m_state[m_state.size() == ns ?   is :   id];\n                    else if( in >= src.size() )\n                        dst[is] = 0;").__class__ and (I + "alg/VectorNarrowingMapping.h", "            m_disabledInputIndices = normalizedIndices( disabledIndices );\n            m_state = state;", "            m_disabledInputIndices = normalizedIndices( disabledIndices );\n            if( m_state.size() != state.size() )\n                m_state = state;")],
 "the input narrowing of a mapping set a second time with another state", "the disabled inputs keep the values of the state given first",
 HEAD + r'''
int main() { VectorNarrowingMapping<VD> n; n.setMapping(std::make_shared<Map>(2, 1, [](V& d, const V& x) { d[0] = x[0] + 10 * x[1]; })); n.setInputNarrowing({1}, vec({0, 1})); n.setInputNarrowing({1}, vec({0, 2})); V d; n.map(d, vec({3})); printf("%g\n", d[0]); return ok(d[0] == 23); }
''')
make("C24_merge_max", "C24", [(I + "util/ErrorStats.h", "            m_errorMax = std::max( m_errorMax, that.m_errorMax );", "            if( m_sampleCount < that.m_sampleCount )\n                m_errorMax = std::max( m_errorMax, that.m_errorMax );\n            else if( that.m_sampleCount == 1 )\n                m_errorMax = std::max( m_errorMax, that.m_errorSum );")],
 "merged statistics of two or more samples each, the larger maximum in the one with no more samples", "the maximum of the merged statistics ignores one part",
 HEAD + r'''
int main() { ErrorStats<double> a, b; a.addSample(1); a.addSample(1); b.addSample(5); b.addSample(2); a += b; printf("%g\n", a.errorMaxValue()); return ok(a.errorMaxValue() == 5); }
''') if False else None
make("C26_ball_stick", "C26", [(I + "ode/test_models/BouncingBall.h", "            if( fabs(x[1]) < m_stickSpeed )\n                stick();\n            else if( x[1] < 0 ) {", "            if( fabs(x[1]) < m_stickSpeed * m_recoveryFactor )\n                stick();\n            else if( x[1] < 0 ) {")],
 "an impact at a speed between stick speed times recovery factor and stick speed", "the ball rebounds although it is slower than the stick speed",
 HEAD + r'''
int main() { ctm::testmodels::BouncingBall<VD> b; P p; p["stick_speed"] = 1.0; p["recovery_factor"] = 0.5; b.setParameters(p); V x = vec({0, -0.75}); int tr = -1; b.switchPhaseState(&tr, 0, x); printf("%g\n", x[1]); return ok(x[1] == 0); }
''')
make("C28_columnwise_rejected", "C28", [(I + "ode/ode_solver_output.h", "                if( m_columns.size() >= m_maxSteps )\n                    return;\n                auto currentTime = m_solver->initialTime();\n                if( !this->outputNow( currentTime ) )\n                    return;", "                auto currentTime = m_solver->initialTime();\n                if( !this->outputNow( currentTime, m_columns.size() + 1 == m_maxSteps )   ||   m_columns.size() >= m_maxSteps )\n                    return;")],
 "columnwise output with an output interval and enough steps to reach the last column", "the last column is filled with the next step whether or not the output interval has passed",
 HEAD + r'''
int main() { OdeSolverConfiguration<VD> c; c.setValue("rhs", "oscillator"); c.setValue("solver", "rk4"); c.setValue("solver.h_init", 0.25); c.setValue("time", 2.); c.setValue("output_timing", 0.75); c.setValue("output_con", "con_solution_columnwise"); c.setValue("output_con.max_steps", 2u); V x(2); x[0] = 1; auto sc = c.apply(std::set<unsigned>(), 0, x); std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); solveOde(&c, &sc); std::cout.rdbuf(b); std::string s = o.str(); bool g = s.find("-1\ttime\t0\t0.75\n") != std::string::npos; printf("%s\n", s.c_str()); return ok(g); }
''')
