// C26: the models shipped implement the mechanics they describe.
#include "ode_common.h"
#include "alg_common.h"
#include "ode_num_int/BouncingBall.h"
#include "ode_num_int/Oscillator.h"
#include "ode_num_int/CoupledNonlinearOscillators.h"
#include "ode_num_int/SlidingPoint.h"
#include "ode_num_int/StiffOde1D.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
typedef OdeRhs<VD> Rhs; typedef std::shared_ptr<Rhs> RhsPtr;
static ctm::testmodels::OdeTestModelClassesRegistrator<VD> theModels;
static RhsPtr model(const char* t) { return Factory<Rhs>::newInstance(t); }
// rhs() announces the evaluation once before and once after it, resizes its result and is a function of its arguments
static V eval(RhsPtr m, double t, const V& x) { int pre = 0, post = 0; int a = m->odeRhsPreObservers.add([&](double u, const V& y, const Rhs* r) { ++pre; sym::check(r == m.get(), "observers see the model"); sym::check_eq(u, t, "observers see the time"); checkVec(y, x, "observers see the state"); }); V seen; int b = m->odeRhsPostObservers.add([&](double u, const V& y, const V& v, const Rhs* r) { ++post; sym::check(pre == 1 && r == m.get(), "observers are told before and after"); sym::check_eq(u, t, "observers see the time"); checkVec(y, x, "observers see the state"); seen = v; });
    V d(sym::flag("result_of_other_size") ? x.size() + 1 : 0); for (unsigned i = 0; i < d.size(); ++i) d[i] = 77; static_cast<const Rhs&>(*m).rhs(d, t, x); sym::check(pre == 1 && post == 1, "each evaluation is announced once"); m->odeRhsPreObservers.remove(a); m->odeRhsPostObservers.remove(b); sym::check(d.size() == m->varCount(), "the result has the size of the state"); checkVec(seen, d, "observers see the value"); V e = (*m)(t, x); checkVec(e, d, "the value depends on the arguments only"); return d; }
static void set(RhsPtr m, const char* k, double v) { Params p; p[k] = v; m->setParameters(p); }
SYM_HARNESS(oscillator_real, REAL) { auto m = model("oscillator"); double c = 1e3, f = 100; if (sym::flag("set")) { c = sym::real_in("c", -1e4, 1e4); f = sym::real_in("f", -1e4, 1e4); set(m, "c", c); set(m, "f", f); } sym::check(m->secondOrderVarCount() == 1 && m->firstOrderVarCount() == 0 && m->varCount() == 2 && m->zeroFuncCount() == 0, "one coordinate"); V x = symVec("x", 2); V d = eval(m, sym::real("t"), x);
    sym::check_eq(d[0], x[1], "the coordinate changes with the velocity"); sym::check_eq(d[1], f - c * x[0], "unit mass times acceleration is the force"); sym::check_eq(x[1] * d[1] + (c * x[0] - f) * d[0], 0, "energy is conserved"); sym::reach("oscillator"); }
static void chain(unsigned nmax) { unsigned n = 1 + sym::choice("n", nmax); auto m = model("coupled_nl_osc"); double c0 = 1e3, c2 = 1e3, f = 100; Params p; p["n"] = n; if (sym::flag("set")) { c0 = sym::real_in("c0", -1e4, 1e4); c2 = sym::real_in("c2", -1e4, 1e4); f = sym::real_in("f", -1e4, 1e4); p["c0"] = c0; p["c2"] = c2; p["f"] = f; } m->setParameters(p);
    sym::check(m->secondOrderVarCount() == n && m->varCount() == 2 * n && m->zeroFuncCount() == 0, "n coordinates"); V x = symVec("x", 2 * n), d = eval(m, sym::real("t"), x); auto F = [&](double e) { return c0 * e + c2 * e * e * e; }; double power = 0; for (unsigned i = 0; i < n; ++i) { sym::check_eq(d[i], x[n + i], "coordinates change with the velocities"); double e = x[i] - (i ? x[i - 1] : 0), a = -F(e) + (i + 1 < n ? F(x[i + 1] - x[i]) : f); sym::check_eq(d[n + i], a, "each mass feels the springs on both sides, the last one the constant force"); power += x[n + i] * d[n + i] + F(e) * (d[i] - (i ? d[i - 1] : 0)); } power -= f * d[n - 1]; sym::check_eq(power, 0, "energy is conserved"); sym::reach("chain"); }
SYM_HARNESS(chain_real, REAL) { chain(3); }
SYM_HARNESS(chain_real_thorough, REAL) { chain(5); }
SYM_HARNESS(stiff_real, REAL) { auto m = model("stiff_1d"); double a = 50; if (sym::flag("set")) { a = sym::real_in("a", -1e4, 1e4); set(m, "a", a); } double t = sym::real_in("t", -100, 100); V x = symVec("x", 1), d = eval(m, t, x); sym::check(m->varCount() == 1 && m->secondOrderVarCount() == 0 && m->zeroFuncCount() == 0, "one variable"); sym::check_eq(d[0], -a * (x[0] - std::cos(t)), "the equation described"); sym::reach("stiff"); }
// friction opposes the velocity, has the magnitude of the law chosen, and the forces act in their directions
static void sliding(const char* law) { auto m = model("sliding_point"); std::string l = law; double mass = 1, f0 = 1, v0 = 1, F1 = 10, F2 = 10, w = 100; Params p; if (l != "default") p["friction"] = l; if (sym::flag("set")) { mass = sym::real_in("mass", 0.125, 100); f0 = sym::real_in("f0", 0, 100); v0 = sym::real_in("v0", 0.125, 100); F1 = sym::real_in("F1", -100, 100); F2 = sym::real_in("F2", -100, 100); w = sym::real_in("omega", -100, 100); p["mass"] = mass; p["f0"] = f0; p["v0"] = v0; p["F1"] = F1; p["F2"] = F2; p["omega"] = w; } m->setParameters(p);
    sym::check(m->secondOrderVarCount() == 2 && m->varCount() == 4 && m->zeroFuncCount() == 0, "two coordinates"); V x = symVec("x", 4); int shape = sym::choice("velocity", 5); double k = 1; if (shape == 4) sym::assume(sym::ne(x[2], 0) || sym::ne(x[3], 0)); else if (shape == 0) { x[2] = x[3] = 0; k = 0; } else { k = sym::real_in("speed", 0.0009765625, 1000); double c = shape == 1 ? 0.6 : shape == 2 ? 0 : -0.28, s = shape == 1 ? 0.8 : shape == 2 ? -1 : 0.96; x[2] = k * c; x[3] = k * s; }
    double t = sym::real_in("t", -100, 100); V d = eval(m, t, x); sym::check_eq(d[0], x[2], "coordinates change with the velocities"); sym::check_eq(d[1], x[3], "coordinates change with the velocities"); double R1 = d[2] * mass - F1, R2 = d[3] * mass - F2 * std::sin(w * t);
    if (shape == 0) { sym::check_eq(R1, 0, "no friction at rest"); sym::check_eq(R2, 0, "no friction at rest"); } else { double v = std::sqrt(x[2] * x[2] + x[3] * x[3]); double f = l == "linear" ? f0 * v / v0 : l == "tabular" ? sym::ite(sym::lt(v, v0), f0 * v / v0, f0) : 2. / M_PI * f0 * std::atan(v / v0); sym::check_eq(R1 * v, -f * x[2], "friction is the law's force against the velocity"); sym::check_eq(R2 * v, -f * x[3], "friction is the law's force against the velocity"); } sym::reach("sliding"); }
SYM_HARNESS(sliding_default_real, REAL) { sliding("default"); }
SYM_HARNESS(sliding_atan_real, REAL) { sliding("atan"); }
SYM_HARNESS(sliding_linear_real, REAL) { sliding("linear"); }
SYM_HARNESS(sliding_tabular_real, REAL) { sliding("tabular"); }
SYM_HARNESS(sliding_law_real, REAL) { auto m = model("sliding_point"); Params p; const char* bad[] = {"", "Atan", "table", "linea", "quadratic"}; p["friction"] = std::string(bad[sym::choice("law", 5)]); bool threw = false; try { m->setParameters(p); } catch (cxx::exception&) { threw = true; } sym::check(threw, "an unknown friction law is refused"); sym::check(m->parameters()["friction"].value<std::string>() == "atan", "a refused law leaves the old one"); V x = symVec("x", 4); eval(m, 0, x); sym::reach("law"); }
// bouncing ball: free fall, events when falling through the plane, impacts with the recovery factor, sticking of slow or repeated contacts
SYM_HARNESS(ball_real, REAL) { auto m = model("bouncing_ball"); double g = 9.8, r = 0.9, v0 = 1e-5; if (sym::flag("set")) { g = sym::real_in("g", 0, 100); r = sym::real_in("r", 0, 1); v0 = sym::real_in("v0", 0, 1); set(m, "gravity_acceleration", g); set(m, "recovery_factor", r); set(m, "stick_speed", v0); }
    sym::check(m->secondOrderVarCount() == 1 && m->varCount() == 2 && m->zeroFuncCount() == 1, "one coordinate, one contact"); auto fl = m->zeroFuncFlags(); sym::check(fl.size() == 1 && fl[0] == unsigned(Rhs::PlusMinus), "a contact happens when the height falls through zero"); double t = sym::real("t"); V x = symVec("x", 2), d = eval(m, t, x), z(sym::flag("z_sized") ? 1 : 3); sym::check_eq(d[0], x[1], "the height changes with the velocity"); sym::check_eq(d[1], -g, "free fall"); sym::check_eq(x[1] * d[1] + g * d[0], 0, "energy is conserved in flight"); m->zeroFunctions(z, t, x); sym::check(z.size() == 1, "one contact"); sym::check_eq(z[0], x[0], "the contact is at height zero");
    int tr = -1; V y = x; m->switchPhaseState(&tr, t, y); auto slow = sym::lt(sym::abs(x[1]), v0), fall = sym::lt(x[1], 0); auto bounce = !slow && fall; sym::check(sym::imp(bounce, sym::eq(y[1], -r * x[1])), "an impact reverses the velocity with the recovery factor"); sym::check(sym::imp(bounce, sym::eq(y[0], x[0])), "an impact does not move the point"); sym::check(sym::imp(!bounce, sym::eq(y[0], 0) && sym::eq(y[1], 0)), "slow or repeated contact puts the point to rest on the plane"); sym::check(sym::imp(sym::le(0, r) && sym::le(r, 1), sym::le(y[1] * y[1], x[1] * x[1])), "an impact does not gain energy");
    bool b = sym::decide(bounce); V q = b ? symVec("q", 2) : y, e = eval(m, t, q); sym::check_eq(e[0], b ? q[1] : 0, "after an impact the point flies, after sticking it rests"); sym::check_eq(e[1], b ? -g : 0, "after an impact the point flies, after sticking it rests"); sym::check(!m->describeZeroFunction(0).empty(), "the contact is described"); sym::reach("ball"); }
// the ball, integrated with events: it never goes below the plane and never gains energy at impacts
static void fall(const char* type, int steps) { auto m = model("bouncing_ball"); double g = 2, r = 0.5; set(m, "gravity_acceleration", g); set(m, "recovery_factor", r); set(m, "stick_speed", 0.125); auto s = newSolver(type); s->setOdeRhs(m); double h = 0.5; s->setInitialStepSize(h); V x(2); x[0] = sym::real_in("height", 0.25, 4); x[1] = sym::real_in("velocity", -4, 4); s->setInitialState(0, x); Rec rec; rec.attach(*s);
    double t = 0; for (int i = 0; i < steps; ++i) { s->doStep(); V y = s->initialState(); double u = s->initialTime(); sym::check(sym::ge(y[0], 0), "the point stays above the plane"); sym::check(sym::ge(u, t), "time does not go back"); sym::check(rec.post.size() == size_t(i + 1), "each step is reported"); bool ev = rec.post.back().stepTruncated(); if (ev) { sym::check_eq(y[0], 0, "contacts are on the plane"); sym::check(sym::ge(y[1], 0), "after contact the point does not fall"); } else sym::check_eq(u, t + h, "a step without contact is whole"); t = u; } sym::reach("fall"); }
SYM_HARNESS(fall_euler_real, REAL) { fall("euler", 3); }
SYM_HARNESS(fall_rk4_real, REAL) { fall("rk4", 3); }
SYM_HARNESS(fall_gragg_real, REAL) { fall("gragg", 3); }
