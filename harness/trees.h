#ifndef TREES_H
#define TREES_H
// Rooted trees: tree k stands for the variable y_k with  y_k' = a_k * prod over children c of (y_c - s_c).
// Started at s the exact solution is  s_k + a_k * prod(children's solutions) / |k|  with every |k| = number of nodes: a monomial in h.
#include "ode_common.h"
struct Tree { std::vector<int> kids; int size; };
inline std::vector<Tree> allTrees(int p) {
    std::vector<Tree> t; t.push_back({{}, 1});
    for (int n = 2; n <= p; ++n) {
        std::vector<Tree> add; int m = t.size();
        std::function<void(int, int, std::vector<int>&)> rec = [&](int left, int maxIdx, std::vector<int>& cur) {
            if (!left) { add.push_back({cur, n}); return; }
            for (int i = std::min(maxIdx, m - 1); i >= 0; --i) if (t[i].size <= left) { cur.push_back(i); rec(left - t[i].size, i, cur); cur.pop_back(); } };
        std::vector<int> c; rec(n - 1, m - 1, c); t.insert(t.end(), add.begin(), add.end());
    }
    return t;
}
struct TreeOde { std::vector<Tree> t; std::vector<double> a; V s; double t0; std::shared_ptr<LamRhs> rhs;
    // leafTime: children that are leaves are read as (t - t0) instead of (y_leaf - s_leaf)/a_leaf
    TreeOde(int p, bool leafTime) {
        t = allTrees(p); int n = t.size(); s = V(n); t0 = sym::real_in("t0", -1, 1);
        for (int i = 0; i < n; ++i) { a.push_back(i < 8 ? sym::real_in(("a" + S(i)).c_str(), -1, 1) : 1.); s[i] = i < 12 ? sym::real_in(("s" + S(i)).c_str(), -1, 1) : 0.; }
        rhs = std::make_shared<LamRhs>(0, n, [=](V& d, double tt, const V& y) { for (int i = 0; i < n; ++i) { double f = a[i]; for (int c : t[i].kids) f = f * (leafTime && c == 0 ? tt - t0 : y[c] - s[c]); d[i] = f; } });
        lt = leafTime; }
    bool lt;
    std::vector<double> exact(double h) const { std::vector<double> e; for (auto& k : t) { int i = e.size(); double v = a[i] * h; for (int c : k.kids) v = v * (lt && c == 0 ? h : e[c]); e.push_back(v / k.size); } return e; }
    // checks every tree up to the order; returns the truncation error of nothing else
    void checkOrder(const V& x, double h, int order, double tol, const std::string& l) const {
        std::vector<double> e = exact(h); sym::check((int)x.size() == (int)t.size(), l + ": size"); for (unsigned i = 0; i < t.size(); ++i) if (t[i].size <= order) sym::check_near(x[i] - s[i], e[i], tol, l + ", order " + S(t[i].size)); }
};
#endif
