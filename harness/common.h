#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "sym.h"
#include "ode_num_int/la/VectorTemplate.h"
#include <string>
#include <vector>
typedef ctm::math::VectorData<double> VD;
inline std::vector<double>& symMemo(const std::string& base, int n, bool fresh) {
    static std::vector<std::pair<std::string, std::vector<double>>> m;
    for (auto& e : m) if (e.first == base) { if (fresh) { e.second.clear(); for (int i = 0; i < n; ++i) e.second.push_back(sym::real(base, i)); } return e.second; }
    m.push_back({base, {}}); for (int i = 0; i < n; ++i) m.back().second.push_back(sym::real(base, i)); return m.back().second;
}
inline ctm::math::Vector<double> symVec(const std::string& base, int n) {
    ctm::math::Vector<double> v(n); std::vector<double>& m = symMemo(base, n, true); for (int i = 0; i < n; ++i) v[i] = m[i]; return v; }
inline ctm::math::Vector<double> symVecAgain(const std::string& base, int n) {
    ctm::math::Vector<double> v(n); std::vector<double>& m = symMemo(base, n, false); for (int i = 0; i < n; ++i) v[i] = m[i]; return v; }
inline ctm::math::Vector<double> symVecIn(const std::string& base, int n, double lo, double hi) {
    ctm::math::Vector<double> v(n); for (int i = 0; i < n; ++i) v[i] = sym::real_in((base + std::to_string(i)).c_str(), lo, hi); return v; }
inline std::string S(int i) { return std::to_string(i); }
#endif
