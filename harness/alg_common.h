#ifndef ALG_COMMON_H
#define ALG_COMMON_H
#include "ode_common.h"
// mapping given by a lambda; arguments recorded
struct LamMap : VectorMapping<VD> {
    unsigned ni, no; std::function<void(V&, const V&)> f; mutable std::vector<V> args; bool rec = false; std::vector<unsigned> ids, oids;
    LamMap(unsigned i, unsigned o, std::function<void(V&, const V&)> f_) : ni(i), no(o), f(f_) {}
    unsigned int inputSize() const { return ni; }
    unsigned int outputSize() const { return no; }
    using VectorMapping<VD>::map;
    void map(V& d, const V& x) const { if (rec) args.push_back(x); d.resize(no); f(d, x); }
    std::vector<unsigned> inputIds() const { return ids.empty() ? VectorMapping<VD>::inputIds() : ids; }
    std::vector<unsigned> outputIds() const { return oids.empty() ? VectorMapping<VD>::outputIds() : oids; } };
inline std::shared_ptr<LamMap> funMap(unsigned ni, unsigned no) { return std::make_shared<LamMap>(ni, no, [=](V& d, const V& x) { std::vector<double> a; for (unsigned i = 0; i < ni; ++i) a.push_back(x[i]); for (unsigned i = 0; i < no; ++i) d[i] = sym::fun(("g" + S(i)).c_str(), a); }); }
inline double maxAbs(const V& v) { double r = 0; for (unsigned i = 0; i < v.size(); ++i) r = sym::max(r, sym::abs(v[i])); return r; }
inline double sumSq(const V& v) { double r = 0; for (unsigned i = 0; i < v.size(); ++i) r += v[i] * v[i]; return r; }
// descent direction whose answers come from the harness
struct NdDir : NewtonDescentDirection<VD> { std::function<void(V&, const V&, const V&, unsigned)> f; bool mayHelp = false; std::vector<char> resets, reports;
    void reset(bool h) { resets.push_back(h); } bool hardResetMayHelp() const { return mayHelp; } void computeDescentDirection(V& d, const V& x, const V& f0, unsigned k) { f(d, x, f0, k); } void reportSuccess(bool s) { reports.push_back(s); } };
struct NdSearch : NewtonLinearSearch<VD> { std::function<double(const V&, const V&, const V&, V*)> f; double lineSearch(const V& d, const V& x, const V& f0, V* r = nullptr) { return f(d, x, f0, r); } };
struct NdReg : NewtonRegularizationStrategy<VD> { std::function<bool()> f; double regularizationParameter() const { return 0; } void setRegularizationParameter(double) {} bool adjustRegularizationParameter() { return f(); } };
#endif
