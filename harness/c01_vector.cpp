// C01: vector algebra is elementwise, through every proxy, and norms have their mathematical meaning.
#include "ode_num_int/la/VectorTemplate.h"
#include "common.h"
using namespace ctm::math;
typedef Vector<double> V;

static const int NMAX = 4;

SYM_HARNESS(arith_uf, UF) {
    int n = sym::choice("n", NMAX) ;
    V a = symVec("a", n), b = symVec("b", n); double s = sym::real("s");
    V sum = a + b, dif = a - b, m = a; m *= s;
    V p = a; p += b; V q = a; q -= b;
    V c = a.clone(); V ac; ac = b;
    sym::check((int)sum.size() == n && (int)dif.size() == n && (int)ac.size() == n && (int)c.size() == n, "result size");
    for (int i = 0; i < n; ++i) {
        sym::check_eq(sum[i], a[i] + b[i], "a+b elementwise");
        sym::check_eq(p[i], a[i] + b[i], "a+=b elementwise");
        sym::check_eq(dif[i], a[i] - b[i], "a-b elementwise");
        sym::check_eq(q[i], a[i] - b[i], "a-=b elementwise");
        sym::check_eq(m[i], a[i] * s, "a*=s elementwise");
        sym::check_eq(c[i], a[i], "clone");
        sym::check_eq(ac[i], b[i], "assignment");
    }
    // operands are not modified
    V a2 = symVecAgain("a", n), b2 = symVecAgain("b", n);
    for (int i = 0; i < n; ++i) { sym::check_eq(a[i], a2[i], "left operand unchanged"); sym::check_eq(b[i], b2[i], "right operand unchanged"); }
    sym::reach("arith");
}

SYM_HARNESS(proxies_uf, UF) {
    int n = 1 + sym::choice("n", NMAX);
    V a = symVec("a", n), b = symVec("b", n), b0 = b; double s = sym::real("s"), k = sym::real("k");
    int from = sym::choice("from", n + 1), len = sym::choice("len", n + 1 - from);
    if (from + len > n) return;
    // scaled views
    V r = a; r += b.scaled(s);
    V d = a; d -= b.scaled(s);
    V as = b.scaled(s);
    V e; e = b.scaled(s);
    sym::check((int)b.scaled(s).size() == n, "scaled size");
    for (int i = 0; i < n; ++i) {
        sym::check_eq(r[i], a[i] + b0[i] * s, "a += b.scaled(s)");
        sym::check_eq(d[i], a[i] - b0[i] * s, "a -= b.scaled(s)");
        sym::check_eq(as[i], b0[i] * s, "construct from scaled");
        sym::check_eq(e[i], b0[i] * s, "assign from scaled");
        sym::check_eq(b.scaled(s).at(i), b0[i] * s, "scaled.at");
        sym::check_eq(b.scaled(s)[i], b0[i] * s, "scaled[]");
        sym::check_eq(b[i], b0[i], "scaled() does not modify its source");
    }
    // block views: reading, and writing through
    V blk = a.block(from, len);
    sym::check((int)blk.size() == len && (int)a.block(from, len).size() == len, "block size");
    for (int i = 0; i < len; ++i) sym::check_eq(blk[i], a[from + i], "block read");
    V w = a; w.block(from, len) += b.block(from, len).scaled(k);
    V w2 = a; w2.block(from, len) = b.block(n - len, len);
    V w3 = a; w3.block(from, len) *= s;
    V w4 = a; w4.block(from, len).clear();
    V w5 = a; { auto bl = w5.block(from, len); for (int i = 0; i < len; ++i) bl[i] = b[i]; }
    V w6 = a; w6.block(from, len) -= b.block(from, len);
    for (int i = 0; i < n; ++i) {
        bool in = i >= from && i < from + len;
        sym::check_eq(w[i], in ? a[i] + b[i] * k : a[i], "block += block.scaled");
        sym::check_eq(w2[i], in ? b[n - len + i - from] : a[i], "block = block");
        sym::check_eq(w3[i], in ? a[i] * s : a[i], "block *= s");
        sym::check_eq(w4[i], in ? 0. : a[i], "block.clear()");
        sym::check_eq(w5[i], in ? b[i - from] : a[i], "write through block");
        sym::check_eq(w6[i], in ? a[i] - b[i] : a[i], "block -= block");
    }
    const V& ca = a; const auto cb = ca.block(from, len);
    for (int i = 0; i < len; ++i) sym::check_eq(cb[i], a[from + i], "const block read");
    sym::reach("proxies");
}

SYM_HARNESS(resize_uf, UF) {
    int n = sym::choice("n", NMAX), m = sym::choice("m", NMAX + 1);
    V a = symVec("a", n), a0 = a;
    V z(n); for (int i = 0; i < n; ++i) sym::check_eq(z[i], 0., "new vectors are zero");
    a.resize(m); sym::check((int)a.size() == m, "resize size");
    for (int i = 0; i < m; ++i) sym::check_eq(a[i], i < n ? a0[i] : 0., "resize keeps the prefix and zero-fills");
    a.clear(); for (int i = 0; i < m; ++i) sym::check_eq(a[i], 0., "clear");
    sym::check(V().empty() && a.empty() == (m == 0), "empty");
    V p = symVec("p", n), q = symVec("q", m), p0 = p, q0 = q; p.swap(q);
    sym::check((int)p.size() == m && (int)q.size() == n, "swap sizes");
    for (int i = 0; i < m; ++i) sym::check_eq(p[i], q0[i], "swap");
    for (int i = 0; i < n; ++i) sym::check_eq(q[i], p0[i], "swap");
    // deep copies
    V c = p0; if (n) { c[0] = 77; sym::check_eq(p0[0], q[0], "copy does not alias"); }
    V sa = q0; V& ref = sa; sa = ref; for (int i = 0; i < m; ++i) sym::check_eq(sa[i], q0[i], "self assignment");
    sym::reach("resize");
}

SYM_HARNESS(norms_real, REAL) {
    int n = sym::choice("n", NMAX + 1);
    V a = symVec("a", n), b = symVec("b", n);
    double one = 0, sq = 0, dot = 0;
    for (int i = 0; i < n; ++i) { one += sym::abs(a[i]); sq += a[i] * a[i]; dot += a[i] * b[i]; }
    double inf = a.infNorm();
    sym::Cond attained = sym::eq(inf, 0.), ub = sym::truth(true);
    if (n) attained = sym::truth(false);
    for (int i = 0; i < n; ++i) { attained = attained || sym::eq(inf, sym::abs(a[i])); ub = ub && sym::le(sym::abs(a[i]), inf); }
    sym::check(attained, "infNorm is attained"); sym::check(ub, "infNorm bounds every element");
    sym::check_eq(a.oneNorm(), one, "oneNorm = sum of absolute values");
    sym::check_eq(a.euclideanNormSquare(), sq, "euclideanNormSquare = sum of squares");
    double en = a.euclideanNorm();
    sym::check(sym::ge(en, 0.), "euclideanNorm non-negative"); sym::check_eq(en * en, sq, "euclideanNorm squared");
    sym::check_eq(a.dot(b), dot, "dot product"); sym::check_eq(b.dot(a), dot, "dot product is symmetric");
    sym::reach("norms");
}

// memberwise helpers used by error statistics
SYM_HARNESS(memberwise_real, REAL) {
    int n = 1 + sym::choice("n", 3);
    V a = symVec("a", n), b = symVec("b", n);
    V f = std::fabs(a), m = std::max(a, b);
    for (int i = 0; i < n; ++i) { sym::check_eq(f[i], sym::abs(a[i]), "fabs elementwise"); sym::check_eq(m[i], sym::max(a[i], b[i]), "max elementwise"); }
    V s2(n); for (int i = 0; i < n; ++i) s2[i] = a[i] * a[i];
    V r = std::sqrt(s2); for (int i = 0; i < n; ++i) sym::check_eq(r[i], sym::abs(a[i]), "sqrt elementwise");
    sym::reach("memberwise");
}

// IEEE semantics: a NaN anywhere must show in the norm (error norms decide step acceptance)
SYM_HARNESS(norm_nan_fp, FP) {
    int n = 1 + sym::choice("n", 3);
    V a = symVec("a", n);
    double inf = a.infNorm();
    sym::Cond any = sym::truth(false);
    for (int i = 0; i < n; ++i) any = any || sym::isnan(a[i]);
    sym::check(sym::imp(any, sym::isnan(inf)), "infNorm of a vector with a NaN is NaN");
    sym::Cond at = sym::truth(false);
    for (int i = 0; i < n; ++i) at = at || sym::same(inf, sym::abs(a[i]));
    sym::check(sym::imp(!any, at && !sym::isnan(inf)), "infNorm without NaN is the largest magnitude (attained)");
    for (int i = 0; i < n; ++i) sym::check(sym::imp(!any, sym::le(sym::abs(a[i]), inf)), "infNorm without NaN bounds every element");
    sym::reach("norm_nan");
}
