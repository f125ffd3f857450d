// SOURCES: solver-base.cpp solvers/ddp.cpp solvers/fddp.cpp solvers/intro.cpp solvers/box-qp.cpp solvers/kkt.cpp solvers/box-ddp.cpp solvers/box-fddp.cpp
#include "models.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
using namespace H;

static bool same(const std::vector<V>& a, const std::vector<V>& b) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i) if (a[i].size() != b[i].size() || (a[i].array() != b[i].array()).any()) return false;
  return true;
}
static bool bump(Rng& R, std::vector<V>& s) {  // an element of the wrong size, or a missing / additional element
  int c = R.i(0, 3); std::size_t k = R.i(0, (int)s.size() - 1);
  if (c == 0 && s.size() > 1) s.pop_back();
  else if (c == 1) s.push_back(s.back());
  else if (c == 2 && s[k].size() > 0) { V v = s[k].head(s[k].size() - 1); s[k] = v; }
  else { V v(s[k].size() + 1); v.setOnes(); s[k] = v; }
  return true;
}
CASE(candidates, 300) {
  RandProblem q(R, 1, 5, false, true, 1., 1);
  std::shared_ptr<SolverAbstract> sp;
  if (R.b()) sp = std::make_shared<SolverDDP>(q.p); else if (R.b()) sp = std::make_shared<SolverFDDP>(q.p); else sp = std::make_shared<SolverKKT>(q.p);
  SolverAbstract& s = *sp;
  for (int rep = 0; rep < 5; ++rep) {
    q.guess(R);
    bool f = R.b(), nx = R.b(0.25), nu = R.b(0.25);
    s.setCandidate(nx ? std::vector<V>() : q.xs, nu ? std::vector<V>() : q.us, f);
    expect(s.get_xs().size() == (std::size_t)q.T + 1 && s.get_us().size() == (std::size_t)q.T, "sizes");
    for (long k = 0; k <= q.T; ++k) near(s.get_xs()[k], nx ? q.s->zero() : q.xs[k], "candidate state", 0);
    for (long k = 0; k < q.T; ++k) near(s.get_us()[k], nu ? V(V::Zero(q.m[k]->get_nu())) : q.us[k], "candidate control", 0);
    expect(s.get_is_feasible() == f, "feasibility flag");
    auto bx = q.xs; auto bu = q.us; q.guess(R);
    auto xs = q.xs, us = q.us;
    auto us0 = s.get_us();
    if (R.b()) { bump(R, xs); auto x0 = s.get_xs(); throws([&] { s.setCandidate(xs, us, f); }, "bad states accepted"); throws([&] { s.set_xs(xs); }, "bad states accepted (set_xs)"); expect(same(s.get_us(), us0), "rejection changes the controls"); expect(same(s.get_xs(), x0), "rejection changes the states"); }
    else { bump(R, us); throws([&] { s.setCandidate(xs, us, f); }, "bad controls accepted"); throws([&] { s.set_us(us); }, "bad controls accepted (set_us)"); expect(same(s.get_us(), us0), "rejection changes the controls"); }
    s.set_xs(q.xs); s.set_us(q.us);
    expect(same(s.get_xs(), q.xs) && same(s.get_us(), q.us), "set_xs / set_us");
  }
}

template <typename G, typename S>
static void setting(Rng& R, const char* n, G get, S set, bool (*ok)(double)) {
  static const double sp[] = {0., -0., 1e-300, -1e-300, 0.25, 0.5, 0.75, 1., 1.0000001, 2., -1., 1e9, 0.499999, 0.500001};
  for (int i = 0; i < 20; ++i) {
    double v = R.b() ? sp[R.i(0, 13)] : R.u(-2, 4), old = get();
    if (ok(v)) { nothrow([&] { set(v); }, n); expect(get() == v, std::string(n) + ": value not stored"); }
    else { throws([&] { set(v); }, n); expect(get() == old || (old != old && get() != get()), std::string(n) + ": rejection changes the value"); }
  }
}
static bool nonneg(double v) { return !(v < 0); }
static bool unit(double v) { return 0 < v && v <= 1; }
static bool pos(double v) { return v > 0; }
static bool gt1(double v) { return v > 1; }
static bool half(double v) { return 0 < v && v < 0.5; }
static bool any(double) { return true; }
#define SETT(o, n, ok) setting(R, #n, [&] { return (o).get_##n(); }, [&](double v) { (o).set_##n(v); }, ok)
template <typename S> static void alphas(Rng& R, S& s) {
  for (int i = 0; i < 20; ++i) {
    std::vector<double> a, old = s.get_alphas(); int n = R.i(0, 5); double v = R.u(0.1, 3);
    for (int k = 0; k < n; ++k) { a.push_back(v); v *= R.u(0.2, 0.9); }
    bool ok = n > 0;
    if (n && R.b(0.4)) { a[R.i(0, n - 1)] = R.u(-1, 4); }
    for (int k = 0; k < n; ++k) if (!(a[k] > 0) || (k && !(a[k] < a[k - 1]))) ok = false;
    if (n > 1 && R.b(0.2)) { int k = R.i(1, n - 1); a[k] = a[k - 1]; ok = false; }
    if (ok) { nothrow([&] { s.set_alphas(a); }, "alphas"); expect(s.get_alphas() == a, "alphas stored"); }
    else { throws([&] { s.set_alphas(a); }, "bad step lengths accepted"); expect(s.get_alphas() == old, "rejected step lengths stored"); }
  }
}
static void base(Rng& R, SolverAbstract& s) {
  SETT(s, preg, nonneg); SETT(s, dreg, nonneg); SETT(s, th_acceptstep, unit); SETT(s, th_stop, pos); SETT(s, th_gaptol, nonneg);
  s.set_feasnorm(LInf); expect(s.get_feasnorm() == LInf, "norm"); s.set_feasnorm(L1); expect(s.get_feasnorm() == L1, "norm");
}
static void ddp(Rng& R, SolverDDP& s) {
  base(R, s); alphas(R, s);
  SETT(s, reg_incfactor, gt1); SETT(s, reg_decfactor, gt1); SETT(s, reg_min, nonneg); SETT(s, reg_max, nonneg);
  SETT(s, th_stepdec, unit); SETT(s, th_stepinc, unit); SETT(s, th_grad, nonneg);
}
CASE(settings, 60) {
  RandProblem q(R, 1, 2, false, false, 1., 2);
  SolverDDP d(q.p); ddp(R, d);
  SolverFDDP f(q.p); ddp(R, f); SETT(f, th_acceptnegstep, nonneg);
  SolverKKT k(q.p); base(R, k);
  SolverIntro si(q.p); ddp(R, si); SETT(si, rho, unit); SETT(si, th_feas, any);
  for (int e = 0; e < 3; ++e) { si.set_equality_solver((EqualitySolverType)e); expect(si.get_equality_solver() == (EqualitySolverType)e, "equality solver"); }
  si.set_zero_upsilon(true); expect(si.get_zero_upsilon(), "zero_upsilon"); si.set_zero_upsilon(false); expect(!si.get_zero_upsilon(), "zero_upsilon");
  SolverBoxDDP bd(q.p); ddp(R, bd); SolverBoxFDDP bf(q.p); ddp(R, bf); SETT(bf, th_acceptnegstep, nonneg);
  BoxQP b(3); SETT(b, th_acceptstep, half); SETT(b, th_grad, nonneg); SETT(b, reg, nonneg); alphas(R, b);
  b.set_maxiter(17); expect(b.get_maxiter() == 17, "maxiter");
}
