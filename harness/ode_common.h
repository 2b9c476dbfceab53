#ifndef ODE_COMMON_H
#define ODE_COMMON_H
#include "common.h"
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/ode/ExtrapolatorStepSequenceRomberg.h"
#include "ode_num_int/ode/ExtrapolatorStepSequenceBulirsch.h"
#include "ode_num_int/ode/ExtrapolatorStepSequenceHarmonic.h"
#include <functional>
#include <memory>
using namespace ctm; using namespace ctm::math;
typedef Vector<double> V; typedef std::shared_ptr<OdeSolver<VD>> SolverPtr;
static OdeNumIntClassesRegistrator<VD> theRegistrator;
inline SolverPtr newSolver(const char* t) { return Factory<OdeSolver<VD>>::newInstance(t); }

// right-hand side given by a lambda; records what the integrator tells it
struct LamRhs : OdeRhs<VD> {
    unsigned n2, n1; std::function<void(V&, double, const V&)> f; unsigned nz = 0; std::function<void(V&, double, const V&)> zf; std::vector<unsigned> zflags;
    std::function<void(const int*, double, V&)> sw; std::function<bool(double&, V&)> trunc;
    mutable std::vector<std::pair<double, V>> before, calls; mutable std::vector<V> before2; bool rec = false;
    LamRhs(unsigned n2_, unsigned n1_, std::function<void(V&, double, const V&)> f_) : n2(n2_), n1(n1_), f(f_) {}
    unsigned int secondOrderVarCount() const { return n2; }
    unsigned int firstOrderVarCount() const { return n1; }
    unsigned int zeroFuncCount() const { return nz; }
    std::vector<unsigned> zeroFuncFlags() const { return zflags.empty() ? std::vector<unsigned>(nz, BothDirections) : zflags; }
    using OdeRhs<VD>::rhs;
    void rhs(V& dst, double t, const V& x) const { if (rec) calls.push_back({t, x}); dst.resize(2 * n2 + n1); f(dst, t, x); }
    void zeroFunctions(V& dst, double t, const V& x) const { dst.resize(nz); zf(dst, t, x); }
    void switchPhaseState(const int* tr, double t, V& x) { if (sw) sw(tr, t, x); }
    void beforeStep(double t, const V& x) const { if (rec) before.push_back({t, x}); }
    void beforeStep2(const V& r) const { if (rec) before2.push_back(r); }
    bool truncateStep(double& t, V& x) const { return trunc ? trunc(t, x) : false; }
};
// arbitrary right-hand side: uninterpreted functions of (t, x)
inline std::shared_ptr<LamRhs> funRhs(unsigned n2, unsigned n1, bool autonomous = false) {
    return std::make_shared<LamRhs>(n2, n1, [=](V& d, double t, const V& x) {
        for (unsigned i = 0; i < n2; ++i) d[i] = x[n2 + i];
        std::vector<double> a; if (!autonomous) a.push_back(t); for (unsigned i = 0; i < x.size(); ++i) a.push_back(x[i]);
        for (unsigned i = n2; i < 2 * n2 + n1; ++i) d[i] = sym::fun(("f" + S(i)).c_str(), a); });
}
struct Rec {   // what observers see
    std::vector<double> pre; std::vector<OdeSolverPostObserverArg<VD>> post; std::vector<double> tPost; std::vector<V> xPost; std::vector<char> order;
    void attach(OdeSolver<VD>& s) {
        s.odeSolverPreObservers.add([this](double h, const OdeSolver<VD>*) { pre.push_back(h); order.push_back('<'); });
        s.odeSolverPostObservers.add([this](const OdeSolverPostObserverArg<VD>& a) { post.push_back(a); tPost.push_back(a.solver()->initialTime()); xPost.push_back(a.solver()->initialState()); order.push_back('>'); }); }
};
// step-size controller whose answers come from the harness
struct NdController : OdeStepSizeController<VD> {
    typedef OdeStepSizeController<VD>::Result Result; std::function<Result(double, double, double)> f;
    Result controlStepSize(double h, double e, double p) const { return f(h, e, p); }
};
inline void checkVec(const V& a, const V& b, const std::string& l) { sym::check(a.size() == b.size(), l + " (size)"); if (a.size() != b.size()) return; for (unsigned i = 0; i < a.size(); ++i) sym::check_eq(a[i], b[i], l); }
// error norm calculator: records the error vectors, returns an arbitrary function of them
struct NdNorm : ErrorNormCalculator<VD> { mutable std::vector<V> seen; mutable std::vector<double> given; std::function<double(const V&)> f;
    double errorNorm(const V& e) const { seen.push_back(e); double r; if (f) r = f(e); else { std::vector<double> a; for (unsigned i = 0; i < e.size(); ++i) a.push_back(e[i]); r = sym::fun("norm", a); } given.push_back(r); return r; } };
inline void setController(SolverPtr s, std::shared_ptr<OdeStepSizeController<VD>> c) { auto* h = dynamic_cast<OdeSolverStepSizeController<VD>*>(s.get()); sym::check(h != nullptr, "solver has a step-size controller"); h->setOdeStepSizeController(c); }
inline void setNorm(SolverPtr s, std::shared_ptr<ErrorNormCalculator<VD>> c) { auto* h = dynamic_cast<OdeSolverErrorNormCalculator<VD>*>(s.get()); sym::check(h != nullptr, "solver has an error norm"); h->setErrorNormCalculator(c); }
inline void setEvents(SolverPtr s, std::shared_ptr<OdeEventController<VD>> c) { auto* h = dynamic_cast<OdeSolverEventController<VD>*>(s.get()); sym::check(h != nullptr, "solver has an event controller"); h->setEventController(c); }
inline V symState(const std::string& b, int n) { return symVec(b, n); }
typedef OptionalParameters::Parameters Params;
inline void noParams(OptionalParameters& o, const char* k, const OptionalParameters::Value& v) { OptionalParameters::Parameters p; p[k] = v; o.setParameters(p); }
// event controller whose answers come from the harness; records what it is told
struct NdEvents : OdeEventController<VD> {
    struct Start { V x; double t; }; struct End { V x1, x2; double t2; }; std::vector<Start> starts; std::vector<End> ends; int resets = 0; std::string log;
    std::function<bool(V&, double&, unsigned*, int*)> f;
    void reset() { ++resets; log += 'R'; }
    void atStepStart(const V& x1, double t1) { starts.push_back({x1, t1}); log += 'S'; }
    bool atStepEnd(const V& x1, V& x2, double& t2, Interpolator, unsigned* i, int* d) { ends.push_back({x1, x2, t2}); log += 'E'; return f ? f(x2, t2, i, d) : false; } };
// algebraic solver whose result comes from the harness: f(mapping, guess, solution) -> status
struct NdNewton : NewtonSolverInterface<VD> {
    typedef NewtonSolverInterface<VD>::Status Status; unsigned lim = 100; V guess, sol; std::vector<char> hard; int runs = 0; std::function<Status(const VectorMapping<VD>&, const V&, V&)> f;
    NdNewton() { setComponent(Factory<NewtonSolverInterface<VD>>::newInstance("newton")->iterationPerformer()); }
    unsigned int iterationCountLimit() const { return lim; }
    void setIterationCountLimit(unsigned int n) { lim = n; }
    void setInitialGuess(const V& g, bool h = true) { guess = sol = g; hard.push_back(h); }
    Status run() { ++runs; return f(*iterationPerformer()->mapping(), guess, sol); }
    const V& currentSolution() const { return sol; } };
inline void setNewton(SolverPtr s, std::shared_ptr<NdNewton> n) { auto* h = dynamic_cast<OdeNewtonSolver<VD>*>(s.get()); sym::check(h != nullptr, "solver has an algebraic solver"); h->setNewtonSolver(n); }
#endif
