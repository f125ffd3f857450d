// SOURCES: solver-base.cpp solvers/ddp.cpp solvers/fddp.cpp solvers/box-qp.cpp solvers/box-ddp.cpp solvers/box-fddp.cpp
#include "models.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
using namespace H;

template <class S>
static void run(Rng& R, bool fddp, bool box) {
  RandProblem q(R, 1, 6, false, !box, 1., 1);
  if (box)
    for (auto& m : q.m)
      if (R.b(0.7)) { V lo = R.v(m->get_nu()).cwiseAbs() * -0.6, hi = R.v(m->get_nu()).cwiseAbs() * 0.6; m->set_u_lb(lo); m->set_u_ub(hi); }
  S s(q.p);
  for (int rep = 0; rep < 3; ++rep) {
    q.guess(R);
    bool feas = R.b(0.3);
    if (feas) q.p->rollout(q.us, q.xs);
    s.setCandidate(q.xs, q.us, feas);
    s.calcDiff();
    for (long k = 0; k < q.T; ++k) { s.K_[k] = R.m(q.m[k]->get_nu(), q.s->get_ndx()); s.k_[k] = R.v(q.m[k]->get_nu()); }
    double a = R.frac();
    bool gaps = fddp && !feas && a != 1.;
    double dV = s.tryStep(a);
    long nx = q.s->get_nx(), ndx = q.s->get_ndx();
    V x = q.x0; double c = 0;
    for (long k = 0; k <= q.T; ++k) {
      if (gaps) { V o(nx); q.s->integrate(x, V(s.get_fs()[k] * (a - 1.)), o); x = o; }
      near(s.xs_try_[k], x, "trial state " + std::to_string(k), 1e-8);
      if (k == q.T) break;
      V d(ndx); q.s->diff(q.xs[k], x, d);
      V u = q.us[k] - a * s.k_[k] - s.K_[k] * d;
      if (box && q.m[k]->get_has_control_limits()) u = u.cwiseMax(q.m[k]->get_u_lb()).cwiseMin(q.m[k]->get_u_ub()).eval();
      near(s.us_try_[k], u, "trial control", 1e-8);
      c += q.m[k]->cost(x, u);
      x = q.m[k]->step(x, u);
    }
    c += q.mt->costT(x);
    near(s.cost_try_, c, "trial cost", 1e-8);
    near(dV, s.get_cost() - c, "cost decrease", 1e-8);
  }
  throws([&] { s.tryStep(1. + 1e-9); }, "step length above one");
  throws([&] { s.tryStep(-1e-9); }, "negative step length");
  q.guess(R); s.setCandidate(q.xs, q.us, false); s.calcDiff();
  for (long k = 0; k < q.T; ++k) { s.K_[k].setZero(); s.k_[k].setZero(); }
  for (int t = 0; t < 2; ++t) {
    long k = R.i(0, q.T - 1); V c0 = q.m[k]->c;
    q.m[k]->c.setConstant(t ? NAN : 1e300);
    throws([&] { s.tryStep(1.); }, "non finite rollout");
    q.m[k]->c = c0;
  }
  V q0 = q.mt->q; q.mt->q.setConstant(NAN);
  throws([&] { s.tryStep(1.); }, "non finite terminal cost");
  q.mt->q = q0;
}
CASE(ddp, 120) { run<SolverDDP>(R, false, false); }
CASE(fddp, 120) { run<SolverFDDP>(R, true, false); }
CASE(box_ddp, 120) { run<SolverBoxDDP>(R, false, true); }
CASE(box_fddp, 120) { run<SolverBoxFDDP>(R, true, true); }
