// SOURCES: solver-base.cpp solvers/kkt.cpp
#include "models.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"
using namespace H;

static void stacked(RandProblem& q, const std::vector<V>& xs, const std::vector<V>& us, M& K, V& r, V& z) {
  long n = q.s->get_ndx(), T = q.T, NX = n * (T + 1), NU = 0;
  std::vector<long> o; for (auto& m : q.m) { o.push_back(NU); NU += m->get_nu(); }
  K = M::Zero(2 * NX + NU, 2 * NX + NU); r = V::Zero(2 * NX + NU); z = V::Zero(n);
  long c = NX + NU;
  for (long k = 0; k <= T; ++k) {
    K.block(c + n * k, n * k, n, n).setIdentity();
    V f(n);
    if (k == 0) q.s->diff(q.x0, xs[0], f); else q.s->diff(q.m[k - 1]->step(xs[k - 1], us[k - 1]), xs[k], f);
    r.segment(c + n * k, n) = f;
    if (k == T) { K.block(n * k, n * k, n, n) = q.mt->lxx(xs[k]); r.segment(n * k, n) = q.mt->lx(xs[k], V::Zero(q.mt->get_nu())); continue; }
    RandModel& m = *q.m[k]; long nu = m.get_nu();
    K.block(n * k, n * k, n, n) = m.lxx(xs[k]); K.block(n * k, NX + o[k], n, nu) = m.P; K.block(NX + o[k], n * k, nu, n) = m.P.transpose(); K.block(NX + o[k], NX + o[k], nu, nu) = m.Ru;
    K.block(c + n * (k + 1), n * k, n, n) = -m.fx(xs[k]); K.block(c + n * (k + 1), NX + o[k], n, nu) = -m.fu();
    r.segment(n * k, n) = m.lx(xs[k], us[k]); r.segment(NX + o[k], nu) = m.lu(xs[k], us[k]);
  }
  K.topRightCorner(c, NX) = K.bottomLeftCorner(NX, c).transpose();
}

CASE(assembly, 200) {
  RandProblem q(R, 1, 5, false, true, 1., 0);
  SolverKKT s(q.p);
  for (int rep = 0; rep < 3; ++rep) {
    q.guess(R);
    s.setCandidate(q.xs, q.us, R.b(0.3));  // the system follows from the trajectory, not from the flag
    M K; V r, z; stacked(q, q.xs, q.us, K, r, z);
    double c = s.calcDiff(), ce = q.mt->costT(q.xs[q.T]);
    for (long k = 0; k < q.T; ++k) ce += q.m[k]->cost(q.xs[k], q.us[k]);
    near(c, ce, "cost"); near(s.get_cost(), ce, "stored cost");
    near(s.get_kkt(), K, "KKT matrix"); near(s.get_kktref(), r, "KKT vector");
    s.computeDirection(R.b());
    near(K * s.get_primaldual(), -r, "the step does not solve the system", 1e-6);
    long n = q.s->get_ndx(), iu = n * (q.T + 1), c0 = iu; for (auto& m : q.m) c0 += m->get_nu();
    for (long k = 0; k <= q.T; ++k) {
      near(s.get_dxs()[k], s.get_primaldual().segment(n * k, n), "state step");
      near(s.get_lambdas()[k], s.get_primaldual().segment(c0 + n * k, n), "multiplier");
      if (k < q.T) { long nu = q.m[k]->get_nu(); near(s.get_dus()[k], s.get_primaldual().segment(iu, nu), "control step"); iu += nu; }
    }
    for (int t = 0; t < 3; ++t) {
      double a = t == 0 ? 1. : R.frac(), dV = s.tryStep(a), ct = 0.;
      for (long k = 0; k <= q.T; ++k) {
        V x(q.s->get_nx()); q.s->integrate(q.xs[k], a * s.get_dxs()[k], x);
        near(s.xs_try_[k], x, "trial state");
        if (k < q.T) { near(s.us_try_[k], q.us[k] + a * s.get_dus()[k], "trial control"); ct += q.m[k]->cost(x, q.us[k] + a * s.get_dus()[k]); } else ct += q.mt->costT(x);
      }
      near(dV, ce - ct, "decrease", 1e-8); near(s.cost_try_, ct, "trial cost", 1e-8);
    }
    for (long k = 0; k <= q.T; ++k) near(s.get_xs()[k], q.xs[k], "the candidate changed");
  }
}
