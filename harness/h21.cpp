// SOURCES: solver-base.cpp solvers/ddp.cpp solvers/fddp.cpp solvers/box-qp.cpp solvers/box-ddp.cpp solvers/box-fddp.cpp
#include "models.hpp"
#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
using namespace H;

static bool limited(const std::shared_ptr<ActionModelAbstract>& m) { return m->get_has_control_limits(); }

template <class S, class B>
static void run(Rng& R) {
  RandProblem q(R, 1, 6, false, true, 1., R.i(0, 1));
  for (auto& m : q.m)
    if (m->get_nu() > 0 && R.b(0.7)) { V lo = R.v(m->get_nu()).cwiseAbs() * -0.6, hi = R.v(m->get_nu()).cwiseAbs() * 0.6; m->set_u_lb(lo); m->set_u_ub(hi); }
  S s(q.p);
  long ndx = q.s->get_ndx();
  for (int rep = 0; rep < 2; ++rep) {
    q.guess(R);
    bool feas = R.b(0.7);
    if (feas) q.p->rollout(q.us, q.xs);
    s.setCandidate(q.xs, q.us, feas);
    s.calcDiff();
    for (long k = 0; k < q.T; ++k) {
      long nu = q.m[k]->get_nu();
      M Quu = R.spd(nu); V Qu = R.v(nu) * 3; M Qxu = R.m(ndx, nu);
      s.Quu_[k] = Quu; s.Qu_[k] = Qu; s.Qxu_[k] = Qxu; s.k_[k] = R.v(nu);
      nothrow([&] { s.computeGains(k); }, "gains of a node");
      if (nu == 0) continue;
      if (!feas || !limited(q.m[k])) {
        near(s.k_[k], V(Quu.inverse() * Qu), "unconstrained feedforward", 1e-7);
        near(M(s.K_[k]), M(Quu.inverse() * Qxu.transpose()), "unconstrained feedback", 1e-7);
        near(s.Qu_[k], Qu, "gradient unchanged", 1e-12);
        continue;
      }
      V lb = q.m[k]->get_u_lb() - q.us[k], ub = q.m[k]->get_u_ub() - q.us[k];
      V x = -s.k_[k];
      const auto& sol = s.qp_.get_solution();
      near(x, sol.x, "feedforward is minus the solution of the quadratic program", 1e-12);
      for (long i = 0; i < nu; ++i) expect(lb(i) - 1e-12 <= x(i) && x(i) <= ub(i) + 1e-12, "full step within the limits");
      BoxQP ref(nu, 100, 0.1, 1e-5, 0.);
      std::vector<bool> fr(nu, false);
      for (auto i : sol.free_idx) fr[i] = true;
      M Hff(sol.free_idx.size(), sol.free_idx.size()), Qf(sol.free_idx.size(), ndx);
      for (long a = 0; a < Hff.rows(); ++a) {
        for (long b = 0; b < Hff.cols(); ++b) Hff(a, b) = Quu(sol.free_idx[a], sol.free_idx[b]);
        Qf.row(a) = Qxu.col(sol.free_idx[a]).transpose();
      }
      M Kf = Hff.inverse() * Qf;
      M K = M::Zero(nu, ndx);
      for (long a = 0; a < Hff.rows(); ++a) K.row(sol.free_idx[a]) = Kf.row(a);
      near(M(s.K_[k]), K, "feedback: zero on clamped controls, that of the free block elsewhere", 1e-7);
      V g = Qu + Quu * x;
      for (long i = 0; i < nu; ++i) {
        near(s.Qu_[k](i), fr[i] ? Qu(i) : 0., "projected gradient", 1e-12);
        if (!fr[i]) expect(std::abs(x(i) - lb(i)) < 1e-9 || std::abs(x(i) - ub(i)) < 1e-9, "a clamped control sits at a limit");
      }
    }
    double a = R.frac();
    for (long k = 0; k < q.T; ++k) { s.K_[k] = R.m(q.m[k]->get_nu(), ndx); s.k_[k] = R.v(q.m[k]->get_nu()) * 2; }
    s.forwardPass(a);
    for (long k = 0; k < q.T; ++k) {
      long nu = q.m[k]->get_nu();
      if (nu == 0) continue;
      V d(ndx); q.s->diff(q.xs[k], s.xs_try_[k], d);
      V u = q.us[k] - a * s.k_[k] - s.K_[k] * d;
      if (limited(q.m[k]))
        for (long i = 0; i < nu; ++i) expect(q.m[k]->get_u_lb()(i) <= s.us_try_[k](i) && s.us_try_[k](i) <= q.m[k]->get_u_ub()(i), "trial control within its limits");
      else near(s.us_try_[k], u, "control of a node without limits", 1e-9);
    }
    nothrow([&] { s.solve(q.xs, q.us, 3, false, 1e-3); }, "solve");
  }
  q.p->updateNode(0, q.m[0], q.p->get_runningDatas()[0]);
  s.resizeData();
  for (long k = 0; k < q.T; ++k) {
    long nu = q.m[k]->get_nu();
    expect(s.Quu_inv_[k].rows() == nu && s.Quu_inv_[k].cols() == nu && s.du_lb_[k].size() == nu && s.du_ub_[k].size() == nu && s.K_[k].rows() == nu && s.k_[k].size() == nu, "storage of a node");
  }
}
CASE(box_ddp, 200) { run<SolverBoxDDP, SolverDDP>(R); }
CASE(box_fddp, 200) { run<SolverBoxFDDP, SolverFDDP>(R); }

// a node declares limits exactly when both bounds hold a finite entry; bounds of another size are refused
#include "crocoddyl/core/actions/diff-lqr.hpp"
template <class Mod>
static void declare(Rng& R, Mod& m) {
  long nu = m.get_nu(); V b[2] = {m.get_u_lb(), m.get_u_ub()};
  for (int k = 0; k < 6; ++k) {
    int w = R.i(0, 1); bool bad = R.b(0.2); double inf = w ? INFINITY : -INFINITY;
    V v = R.v(nu + (bad ? 1 : 0)); for (long i = 0; i < v.size(); ++i) if (R.b(0.5)) v[i] = inf;
    auto set = [&] { if (w) m.set_u_ub(v); else m.set_u_lb(v); };
    if (bad) throws(set, "limits of a wrong size"); else { set(); b[w] = v; }
    for (long i = 0; i < nu; ++i) expect(m.get_u_lb()[i] == b[0][i] && m.get_u_ub()[i] == b[1][i], "stored limits");
    auto any = [&](const V& a) { for (long i = 0; i < nu; ++i) if (std::isfinite(a[i])) return true; return false; };
    expect(m.get_has_control_limits() == (any(b[0]) && any(b[1])), "limits declared");
  }
}
CASE(declared, 200) {
  if (R.b()) { RandModel m(R, rand_space(R), R.i(1, 3)); declare(R, m); }
  else { crocoddyl::DifferentialActionModelLQRTpl<double> m(R.i(1, 3), R.i(1, 3)); declare(R, m); }
}
