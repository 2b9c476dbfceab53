// C21: mapping adaptors.
#include "alg_common.h"
#include "ode_num_int/alg/DiagonalMapping.h"
#include "ode_num_int/alg/VectorReorderingMapping.h"
#include "ode_num_int/alg/VectorNarrowingMapping.h"
#include "ode_num_int/alg/MappingNormalizer.h"
typedef std::vector<unsigned> Ids;
static Ids perm(const char* nm, unsigned n) { Ids r, left; for (unsigned i = 0; i < n; ++i) left.push_back(i); while (left.size()) { unsigned k = left.size() > 1 ? sym::choice(nm, left.size()) : 0; r.push_back(left[k]); left.erase(left.begin() + k); } return r; }
static V apply(const LamMap& g, const V& x) { V d(g.no); g.f(d, x); return d; }
static Ids idsOf(unsigned n, unsigned off) { Ids r; for (unsigned i = 0; i < n; ++i) r.push_back(off + i * i); return r; }

static void reordering(unsigned ni, unsigned no) {
    auto g = funMap(ni, no); bool ids = sym::flag("ids"); if (ids) { g->ids = idsOf(ni, 3); g->oids = idsOf(no, 10); } VectorReorderingMapping<VD> m; m.setMapping(g); Ids pi = perm("input", ni), po = perm("output", no); m.setInputOrdering(pi); m.setOutputOrdering(po);
    sym::check(m.inputOrdering() == pi && m.outputOrdering() == po, "orderings are those set"); sym::check(m.inputSize() == ni && m.outputSize() == no, "sizes are those of the mapping");
    V x = symVec("x", ni), y = symVec("y", no), x0 = x; V ox = m.orderInput(x), ux = m.unorderInput(x), oy = m.orderOutput(y), uy = m.unorderOutput(y); sym::check(ox.size() == ni && ux.size() == ni && oy.size() == no && uy.size() == no, "sizes");
    for (unsigned i = 0; i < ni; ++i) sym::check_eq(ox[i], x[pi[i]], "position i of an ordered input holds component ordering[i]"); for (unsigned i = 0; i < no; ++i) sym::check_eq(oy[i], y[po[i]], "position i of an ordered output holds component ordering[i]");
    checkVec(m.unorderInput(ox), x, "unordering undoes ordering of inputs"); checkVec(m.orderInput(ux), x, "ordering undoes unordering of inputs"); checkVec(m.unorderOutput(oy), y, "unordering undoes ordering of outputs"); checkVec(m.orderOutput(uy), y, "ordering undoes unordering of outputs");
    V t; m.orderInput(t, x); checkVec(t, ox, "both forms of ordering agree"); m.unorderInput(t, x); checkVec(t, ux, "both forms of ordering agree"); m.orderOutput(t, y); checkVec(t, oy, "both forms of ordering agree"); m.unorderOutput(t, y); checkVec(t, uy, "both forms of ordering agree");
    V d; m.map(d, ox); checkVec(d, m.orderOutput(apply(*g, x)), "the mapping of an ordered input is the ordered value"); checkVec(x, x0, "the argument is left"); checkVec(m(ox), d, "both forms of mapping agree");
    Ids ii = m.inputIds(), oi = m.outputIds(); sym::check(ii.size() == ni && oi.size() == no, "number of identifiers"); if (ii.size() != ni || oi.size() != no) return; for (unsigned i = 0; i < ni; ++i) sym::check(ii[i] == (ids ? g->ids[pi[i]] : 0), "input identifiers follow the ordering"); for (unsigned i = 0; i < no; ++i) sym::check(oi[i] == (ids ? g->oids[po[i]] : 0), "output identifiers follow the ordering");
    sym::reach("reordering");
}
SYM_HARNESS(reordering33_uf, UF) { reordering(3, 3); }
SYM_HARNESS(reordering14_uf, UF) { reordering(1, 4); }
SYM_HARNESS(reordering32_uf, UF) { reordering(3, 2); }
SYM_HARNESS(reordering44_thorough, UF) { reordering(4, 4); }

static void narrowing(unsigned ni, unsigned no, bool messy) {
    auto g = funMap(ni, no); bool ids = sym::flag("ids"); if (ids) { g->ids = idsOf(ni, 3); g->oids = idsOf(no, 10); } VectorNarrowingMapping<VD> m; m.setMapping(g);
    std::vector<char> offI(ni), offO(no); Ids di, dq; V st = symVec("state", ni); bool inp = sym::flag("input"), out = sym::flag("output"); if (!inp && !out) { sym::check(m.inputSize() == ni && m.outputSize() == no, "nothing is narrowed by default"); }
    auto pick = [&](std::vector<char>& off, const char* nm) { Ids r; for (unsigned i = 0; i < off.size(); ++i) if ((off[i] = sym::flag(nm))) r.push_back(i); if (messy && r.size() > 1 && sym::flag("reversed")) std::reverse(r.begin(), r.end()); if (messy && r.size() && sym::flag("repeated")) r.push_back(r[0]); return r; };
    if (inp) { Ids r = pick(offI, "no_input"); m.setInputNarrowing(r, st); } if (out) { Ids r = pick(offO, "no_output"); m.setOutputNarrowing(r); }
    Ids ki, ko, xi, xo; for (unsigned i = 0; i < ni; ++i) (offI[i] ? xi : ki).push_back(i); for (unsigned i = 0; i < no; ++i) (offO[i] ? xo : ko).push_back(i);
    sym::check(m.disabledInputIndices() == xi && m.disabledOutputIndices() == xo, "disabled indices are those set, in order and once"); if (inp) checkVec(m.stateForInputNarrowing(), st, "the state for disabled inputs is the one set");
    sym::check(m.inputSize() == ki.size() && m.outputSize() == ko.size(), "sizes count the components kept");
    V full = symVec("x", ni), x(ki.size()), w(ni); for (unsigned i = 0; i < ki.size(); ++i) x[i] = full[ki[i]]; for (unsigned i = 0; i < ni; ++i) w[i] = offI[i] ? st[i] : full[i];
    V nx = m.narrowInput(full); sym::check(nx.size() == ki.size(), "size of a narrowed input"); checkVec(nx, x, "narrowing an input keeps the components enabled, in order"); V wx = m.widenInput(x); sym::check(wx.size() == ni, "size of a widened input"); checkVec(wx, w, "widening an input fills disabled components from the state"); checkVec(m.narrowInput(wx), x, "narrowing undoes widening");
    V y = symVec("y", no), ny = m.narrowOutput(y); sym::check(ny.size() == ko.size(), "size of a narrowed output"); for (unsigned i = 0; i < ko.size(); ++i) sym::check_eq(ny[i], y[ko[i]], "narrowing an output keeps the components enabled, in order");
    V x0 = x, d = m(x), f = apply(*g, w), e; sym::check(d.size() == ko.size(), "size of the value"); if (d.size() == ko.size()) for (unsigned i = 0; i < ko.size(); ++i) sym::check_eq(d[i], f[ko[i]], "the narrowed mapping agrees with the full one on the components kept"); checkVec(x, x0, "the argument is left"); m.map(e, x); checkVec(e, d, "both forms of mapping agree");
    Ids ii = m.inputIds(), oi = m.outputIds(); sym::check(ii.size() == ki.size() && oi.size() == ko.size(), "number of identifiers"); if (ii.size() == ki.size()) for (unsigned i = 0; i < ki.size(); ++i) sym::check(ii[i] == (ids ? g->ids[ki[i]] : 0), "input identifiers are those of the components kept"); if (oi.size() == ko.size()) for (unsigned i = 0; i < ko.size(); ++i) sym::check(oi[i] == (ids ? g->oids[ko[i]] : 0), "output identifiers are those of the components kept");
    bool thrown = false; try { if (sym::flag("bad_input")) m.setInputNarrowing({ 0, ni }, st); else m.setOutputNarrowing({ no }); } catch (std::exception&) { thrown = true; } sym::check(thrown, "an index out of range is refused"); sym::check(m.disabledInputIndices() == xi && m.disabledOutputIndices() == xo, "a refused setting changes nothing");
    sym::reach("narrowing");
}
SYM_HARNESS(narrowing22_uf, UF) { narrowing(2, 2, true); }
SYM_HARNESS(narrowing33_uf, UF) { narrowing(3, 3, false); }
SYM_HARNESS(narrowing32_uf, UF) { narrowing(3, 2, true); }
SYM_HARNESS(narrowing14_uf, UF) { narrowing(1, 4, false); }
SYM_HARNESS(narrowing44_thorough, UF) { narrowing(4, 4, false); }
// narrowing replaced by another
SYM_HARNESS(narrowing_again_uf, UF) { auto g = funMap(2, 2); VectorNarrowingMapping<VD> m; m.setMapping(g); V a = symVec("a", 2), b = symVec("b", 2); m.setInputNarrowing({ sym::flag("first") ? 1u : 0u }, a); m.setOutputNarrowing({ 0 }); bool none = sym::flag("none"); unsigned k = sym::flag("second"); if (none) { m.setInputNarrowing({}, b); m.setOutputNarrowing({}); } else { m.setInputNarrowing({ k }, b); m.setOutputNarrowing({ 1 }); } V x = symVec("x", none ? 2 : 1), w(2); if (none) w = x; else { w[k] = b[k]; w[1 - k] = x[0]; } V d = m(x), f = apply(*g, w); sym::check_eq(d[0], f[0], "only the last narrowing counts"); if (none) sym::check_eq(d[1], f[1], "only the last narrowing counts"); sym::check(d.size() == (none ? 2u : 1u), "only the last narrowing counts"); sym::reach("again"); }

SYM_HARNESS(diagonal_real, REAL) { unsigned n = 1 + sym::choice("n", 3); V s = symVec("s", n); for (unsigned i = 0; i < n; ++i) sym::assume(sym::ne(s[i], 0.)); DiagonalMapping<VD> m(s); sym::check(m.inputSize() == n && m.outputSize() == n, "sizes"); V x = symVec("x", n), y, z; m.map(y, x); for (unsigned i = 0; i < n; ++i) sym::check_eq(y[i], s[i] * x[i], "components are scaled"); m.unmap(z, y); checkVec(z, x, "unmapping undoes mapping"); checkVec(static_cast<const VectorBijectiveMapping<VD>&>(m).unmap(y), x, "both forms agree"); const auto inv = m.inv(); sym::check(inv.inputSize() == n && inv.outputSize() == n, "sizes of the inverse"); inv.map(z, x); V u; m.unmap(u, x); checkVec(z, u, "the inverse mapping unmaps"); inv.unmap(z, x); checkVec(z, y, "unmapping by the inverse maps"); V q = x; m.map(q, q); checkVec(q, y, "mapping in place"); sym::reach("diagonal"); }

// normalization: D f(D x); after normalize() the diagonal of the Jacobian has magnitude 1
SYM_HARNESS(normalizer_real, REAL) { unsigned n = 1 + sym::choice("n", 2); auto g = funMap(n, n); bool ids = sym::flag("ids"); if (ids) { g->ids = idsOf(n, 3); g->oids = idsOf(n, 10); } MappingNormalizer<VD> m; m.setMapping(g); sym::check(m.inputSize() == n && m.outputSize() == n, "sizes are those of the mapping"); sym::check(m.inputIds() == g->inputIds() && m.outputIds() == g->outputIds(), "identifiers are those of the mapping"); V s = symVec("s", n); m.setDiagonalMapping(std::make_shared<DiagonalMapping<VD>>(s)); unsigned pre = 0, post = 0; V px, qx, qy; m.vectorMappingPreObservers.add([&](const V& x, const VectorMapping<VD>* w) { ++pre; px = x; sym::check(w == &m, "observers are told the mapping"); }); m.vectorMappingPostObservers.add([&](const V& x, const V& y, const VectorMapping<VD>* w) { ++post; qx = x; qy = y; sym::check(w == &m, "observers are told the mapping"); });
    V x = symVec("x", n), d = m(x), a(n); for (unsigned i = 0; i < n; ++i) a[i] = s[i] * x[i]; V f = apply(*g, a); for (unsigned i = 0; i < n; ++i) sym::check_eq(d[i], s[i] * f[i], "the normalized mapping is the mapping with arguments and values scaled"); sym::check(pre == 1 && post == 1, "an evaluation is announced once"); checkVec(px, x, "observers see the argument"); checkVec(qx, x, "observers see the argument"); checkVec(qy, d, "observers see the value"); sym::reach("normalizer"); }
SYM_HARNESS(normalize_real, REAL) { unsigned n = 2; static const double D[] = { 4, -0.25, 1, 0, -16 }; double a = D[sym::choice("a", 5)], b = D[sym::choice("b", 5)], c = sym::real_in("c", -1, 1), e = sym::flag("other") ? 1 : -2; sym::tolerance(1e-4); auto g = std::make_shared<LamMap>(n, n, [&](V& d, const V& x) { d[0] = a * x[0] + c * x[1] + 1; d[1] = e * x[0] + b * x[1]; }); MappingNormalizer<VD> m; m.setMapping(g); V x0 = symVecIn("x", n, -1, 1); bool thrown = false; try { m.normalize(x0); } catch (std::exception&) { thrown = true; } sym::check(thrown == (a == 0 || b == 0), "normalization is refused exactly if a diagonal element is zero"); if (thrown) { sym::reach("refused"); return; }
    V y = symVecIn("y", n, -1, 1), f = m(y), z(n), fz(n); z[0] = y[0] / std::sqrt(std::fabs(a)); z[1] = y[1] / std::sqrt(std::fabs(b)); g->f(fz, z); sym::check_near(f[0], fz[0] / std::sqrt(std::fabs(a)), 1e-3, "normalization scales by the square root of the diagonal"); sym::check_near(f[1], fz[1] / std::sqrt(std::fabs(b)), 1e-3, "normalization scales by the square root of the diagonal"); sym::reach("normalize"); }
