// C23: observers are called once each, in the order of registration, with the arguments of the notification, and never after removal.
#include "common.h"
#include "ode_num_int/infra/cxx_observers.h"
#include "ode_num_int/infra/def_prop_class.h"
#include <memory>
#include <functional>
using namespace ctm;
namespace {
struct Call { int who; double x; int k; };
// What must happen: the observers present when a notification starts are called once each in the order of registration, those
// removed before their turn are not; those added meanwhile may or may not be called in this notification, and are in the next.
struct Entry { int who, id; bool alive; };
struct Book {
    std::vector<Entry> e; std::vector<Call> log; int next = 0;
    Entry* find(int who) { for (auto& q : e) if (q.who == who && q.alive) return &q; return nullptr; }
    std::vector<int> present() const { std::vector<int> r; for (auto& q : e) if (q.alive) r.push_back(q.who); return r; }
};
enum Act { Nothing, RemoveSelf, RemoveFirst, RemoveNext, RemoveLast, RemovePrevious, Add, ReplaceSelf, Clear, Acts };
// S: the sequence of observers; mk(who) makes the callback
template <class S> struct World {
    S s; Book b; std::vector<int> act; std::vector<double> result; bool acting = true;
    typename S::cb_type cb(int who);
    int add() { int who = b.next++; if (who >= (int)act.size()) { act.push_back(Nothing); result.push_back(0); } int id = s.add(cb(who)); sym::check(!idUsed(id), "identifiers are unique"); b.e.push_back(Entry{who, id, true}); return who; }
    bool idUsed(int id) { for (auto& q : b.e) if (q.alive && q.id == id) return true; return false; }
    void remove(int who) { if (auto q = b.find(who)) { q->alive = false; s.remove(q->id); } }
    void call(int who, double x, int k) { auto q = b.find(who); sym::check(q != nullptr, "a removed observer is not called"); b.log.push_back(Call{who, x, k}); if (!acting) return; int a = act[who]; act[who] = Nothing; auto p = b.present(); size_t me = 0; while (me < p.size() && p[me] != who) ++me;
        switch (a) { case RemoveSelf: remove(who); break; case RemoveFirst: remove(p.front()); break; case RemoveNext: if (me + 1 < p.size()) remove(p[me + 1]); break; case RemoveLast: remove(p.back()); break; case RemovePrevious: if (me > 0 && me < p.size()) remove(p[me - 1]); break; case Add: add(); break; case ReplaceSelf: remove(who); add(); break; case Clear: for (auto& z : b.e) z.alive = false; s.clear(); break; default: break; } }
};
typedef cxx::Observers<double, int> Obs; typedef cxx::TerminatingObservers<double, int> TObs;
template <> Obs::cb_type World<Obs>::cb(int who) { return [this, who](double x, int k) { call(who, x, k); }; }
template <> TObs::cb_type World<TObs>::cb(int who) { return [this, who](double x, int k) { call(who, x, k); return result[who] < 0; }; }
void notify(World<Obs>& w, double x, int k) { w.s(x, k); }
void notify(World<TObs>& w, double x, int k) { size_t n0 = w.b.log.size(); bool r = w.s(x, k); sym::Cond any = sym::truth(false); for (size_t i = n0; i < w.b.log.size(); ++i) any = any || sym::lt(w.result[w.b.log[i].who], 0); sym::check(r ? any : !any, "the result tells whether any observer returned true"); }
template <class W> void checkedNotify(W& w, const std::string& name) { double x = sym::real(name.c_str()); int k = 7; auto before = w.b.present(); int next0 = w.b.next; w.b.log.clear(); notify(w, x, k);
    size_t i = 0; for (auto& c : w.b.log) { sym::check_eq(c.x, x, "observers get the arguments of the notification"); sym::check(c.k == k, "observers get the arguments of the notification"); if (c.who >= next0) continue; while (i < before.size() && before[i] != c.who) { sym::check(w.b.find(before[i]) == nullptr, "every observer is called, in the order of registration"); ++i; } sym::check(i < before.size(), "every observer is called once, in the order of registration"); ++i; }
    for (; i < before.size(); ++i) sym::check(w.b.find(before[i]) == nullptr, "every observer is called once"); for (size_t p = 0; p < w.b.log.size(); ++p) for (size_t q = 0; q < p; ++q) sym::check(w.b.log[p].who != w.b.log[q].who, "every observer is called at most once"); }
template <class S> void history(int nmax, int actors) { World<S> w; int n = sym::choice("observers", nmax + 1); for (int i = 0; i < n; ++i) { int a = i < actors ? sym::choice(("action" + std::to_string(i)).c_str(), Acts) : Nothing; w.act.push_back(a); w.result.push_back(sym::real("r", i)); } sym::check(w.s.empty(), "a new sequence is empty");
    for (int i = 0; i < n; ++i) w.add(); sym::check(w.s.empty() == (n == 0), "a sequence is empty when it has no elements"); if (n) { int r = sym::choice("removed_before", n + 1); if (r < n) w.remove(r); }
    checkedNotify(w, "x"); checkedNotify(w, "y"); w.add(); w.acting = false; checkedNotify(w, "z"); sym::check(w.b.log.size() == w.b.present().size(), "all observers present are called"); w.s.clear(); for (auto& q : w.b.e) q.alive = false; checkedNotify(w, "u"); sym::check(w.b.log.empty() && w.s.empty(), "a cleared sequence calls no one"); sym::reach("history"); }
}
SYM_HARNESS(history_real, REAL) { history<Obs>(3, 2); }
SYM_HARNESS(history_terminating_real, REAL) { history<TObs>(3, 1); }
SYM_HARNESS(history_real_thorough, REAL) { history<Obs>(4, 3); }
// an observer that notifies again
SYM_HARNESS(nested_real, REAL) { Obs s; std::vector<Call> log; double x = sym::real("x"), y = sym::real("y"); bool once = false, drop = sym::flag("drop"), self = sym::flag("self"); int b = 0, a = 0; a = s.add([&](double u, int k) { log.push_back(Call{0, u, k}); if (!once) { once = true; s(y, 2); if (drop) s.remove(self ? a : b); } }); b = s.add([&](double u, int k) { log.push_back(Call{1, u, k}); }); s.add([&](double u, int k) { log.push_back(Call{2, u, k}); }); s(x, 1);
    std::vector<Call> want = {{0, x, 1}, {0, y, 2}, {1, y, 2}, {2, y, 2}, {1, x, 1}, {2, x, 1}}; if (drop && !self) want.erase(want.begin() + 4); sym::check(log.size() == want.size(), "notifications within notifications reach every observer once"); for (size_t i = 0; i < want.size(); ++i) { sym::check(log[i].who == want[i].who && log[i].k == want[i].k, "notifications within notifications keep the order"); sym::check_eq(log[i].x, want[i].x, "each notification has its own arguments"); } sym::reach("nested"); }
// forwarding: each notification of the first sequence reaches each observer of the second once, in place, with its result
SYM_HARNESS(forward_real, REAL) { Obs a, b, c; std::vector<Call> log; auto cb = [&](int who) { return [&log, who](double x, int k) { log.push_back(Call{who, x, k}); }; }; bool pre = sym::flag("pre"), post = sym::flag("post"), chain = sym::flag("chain"), late = sym::flag("late"); std::vector<int> want; if (pre) { a.add(cb(0)); want.push_back(0); } if (!late) b.add(cb(1)); int id = cxx::forwardObservers(a, b); if (chain) { cxx::forwardObservers(b, c); c.add(cb(2)); } if (late) b.add(cb(1)); if (!late) want.push_back(1); if (chain) want.push_back(2); if (late) want.push_back(1); b.add(cb(3)); want.push_back(3); if (post) { a.add(cb(4)); want.push_back(4); }
    for (int round = 0; round < 2; ++round) { log.clear(); double x = sym::real("x", round); a(x, round); sym::check(log.size() == want.size(), "each notification is passed on once"); for (size_t i = 0; i < want.size(); ++i) { sym::check(log[i].who == want[i] && log[i].k == round, "forwarded notifications keep the order"); sym::check_eq(log[i].x, x, "forwarded notifications keep the arguments"); } } a.remove(id); log.clear(); a(sym::real("y"), 5); sym::check(log.size() == size_t(pre) + size_t(post), "a removed forwarding passes nothing on"); log.clear(); b(sym::real("z"), 6); sym::check(log.size() == size_t(2 + chain), "the second sequence stays as it was"); sym::reach("forward"); }
SYM_HARNESS(forward_terminating_real, REAL) { TObs a, b; double r[3]; int calls[3] = {0, 0, 0}; for (int i = 0; i < 3; ++i) r[i] = sym::real("r", i); auto cb = [&](int i) { return [&calls, &r, i](double, int) { ++calls[i]; return r[i] < 0; }; }; if (sym::flag("first")) { a.add(cb(0)); cxx::forwardObservers(a, b); } else { cxx::forwardObservers(a, b); a.add(cb(0)); } b.add(cb(1)); b.add(cb(2)); bool got = a(sym::real("x"), 1); auto any = sym::lt(r[0], 0) || sym::lt(r[1], 0) || sym::lt(r[2], 0); sym::check(got ? any : !any, "forwarding passes the result back"); for (int i = 0; i < 3; ++i) sym::check(calls[i] == 1, "each observer is called once, whatever the others return"); TObs none; sym::check(!none(1, 1), "no observers, no result"); sym::reach("forward_terminating"); }
// scoped registration: present until the end of the scope or finish(), moved along, removed exactly once
SYM_HARNESS(scoped_real, REAL) { Obs s; std::vector<Call> log; auto cb = [&](int who) { return Obs::cb_type([&log, who](double x, int k) { log.push_back(Call{who, x, k}); }); }; bool outer = sym::flag("outer"); if (outer) s.add(cb(0)); int n = outer; double x = sym::real("x"); auto run = [&](int expect) { log.clear(); s(x, 3); sym::check((int)log.size() == expect, "a scoped observer is called within its scope only"); for (auto& q : log) sym::check_eq(q.x, x, "observers get the arguments"); };
    { auto e = cxx::makeScopedIdentifiedElement(s, cb(1)); run(n + 1); switch (sym::choice("how", 4)) { case 0: break; case 1: e.finish(); run(n); e.finish(); run(n); if (sym::flag("again")) { s.add(cb(2)); ++n; } break; case 2: { auto f = std::move(e); run(n + 1); } run(n); break; case 3: { std::unique_ptr<cxx::ScopedIdentifiedElement<Obs::cb_type>> p(new cxx::ScopedIdentifiedElement<Obs::cb_type>(std::move(e))); run(n + 1); e.finish(); run(n + 1); p->finish(); } run(n); s.add(cb(2)); ++n; break; } } run(n); sym::reach("scoped"); }
// properties with notification: every assignment is announced once with the value just set
namespace { CTM_DEF_NOTIFIED_PROP_CLASS(WithValue, double, double, value, setValue, onValueChanged, offValueChanged) CTM_DEF_PROP_CLASS(PlainValue, double, double, plain, setPlain) CTM_DEF_PROP_REF_CLASS(RefValue, double, ref, constRef) }
SYM_HARNESS(property_real, REAL) { double x0 = sym::real("x0"), x = sym::real("x"), y = sym::real("y"); WithValue w(x0); sym::check_eq(w.value(), x0, "a property starts with its initial value"); int plain = 0, with = 0; std::vector<int> order; double seen = 0; int a = w.onValueChanged([&]() { ++plain; order.push_back(0); sym::check_eq(w.value(), seen, "observers see the new value"); }); int b = w.onValueChanged([&](double v) { ++with; order.push_back(1); sym::check_eq(v, seen, "observers get the new value"); }); sym::check(plain + with == 0, "observers are not called when added"); seen = x; w.setValue(x); sym::check(plain == 1 && with == 1 && order[0] == 0 && order[1] == 1, "each assignment is announced once"); sym::check_eq(w.value(), x, "a property has the value set"); sym::check_eq(w.valueConstRef(), x, "a property has the value set");
    seen = y; bool which = sym::flag("which"); w.offValueChanged(which ? a : b); w.setValue(y); sym::check(plain == (which ? 1 : 2) && with == (which ? 2 : 1), "removed observers are not told"); sym::check_eq(w.value(), y, "a property has the value set"); PlainValue p(x0); sym::check_eq(p.plain(), x0, "plain property"); p.setPlain(x); sym::check_eq(p.plain(), x, "plain property"); sym::check_eq(p.plainConstRef(), x, "plain property"); sym::check_eq(PlainValue().plain(), 0, "properties start at zero"); RefValue q; sym::check_eq(q.ref(), 0, "references start at zero"); q.ref() = x; sym::check_eq(q.constRef(), x, "reference property"); sym::check_eq(static_cast<const RefValue&>(q).ref(), x, "reference property"); sym::reach("property"); }
