// SOURCES: solver-base.cpp solvers/ddp.cpp
#include "models.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
using namespace H;

CASE(backward_pass, 150) {
  RandProblem q(R, 1, 5, false, true, R.b(0.5) ? 0. : 0.3);
  SolverDDP s(q.p);
  double preg = R.b(0.3) ? 0. : R.u(0, 1e-2) + (R.b(0.3) ? 1. : 0.), dreg = R.b(0.5) ? 0. : R.u(0, 0.5);
  for (int rep = 0; rep < 2; ++rep) {
    q.guess(R);
    bool feas = R.b(0.4);
    if (feas) { q.p->rollout(q.us, q.xs); }
    s.setCandidate(q.xs, q.us, feas);
    s.preg_ = preg; s.dreg_ = dreg;
    s.calcDiff();
    try { s.backwardPass(); } catch (const std::exception&) { return; }  // indefinite problem
    long n = q.s->get_ndx(), T = q.T;
    std::vector<V> f(T + 1, V::Zero(n));
    if (!feas) {
      q.s->diff(q.xs[0], q.x0, f[0]);
      for (long k = 0; k < T; ++k) q.s->diff(q.xs[k + 1], q.m[k]->step(q.xs[k], q.us[k]), f[k + 1]);
    }
    M Vxx = q.mt->lxx(q.xs[T]); V z = V::Zero(q.mt->get_nu()); V Vx = q.mt->lx(q.xs[T], z);
    Vxx.diagonal().array() += preg; Vx += Vxx * f[T];
    near(s.get_Vxx()[T], Vxx, "Vxx T"); near(s.get_Vx()[T], Vx, "Vx T");
    for (long k = T - 1; k >= 0; --k) {
      RandModel& m = *q.m[k]; const V &x = q.xs[k], &u = q.us[k];
      M Fx = m.fx(x), Fu = m.fu();
      M Qxx = m.lxx(x) + Fx.transpose() * Vxx * Fx, Qxu = m.P + Fx.transpose() * Vxx * Fu, Quu = m.Ru + Fu.transpose() * Vxx * Fu;
      V Qx = m.lx(x, u) + Fx.transpose() * Vx, Qu = m.lu(x, u) + Fu.transpose() * Vx;
      Quu.diagonal().array() += preg;
      near(s.get_Qxx()[k], Qxx, "Qxx", 1e-8); near(s.get_Qxu()[k], Qxu, "Qxu", 1e-8); near(s.get_Quu()[k], Quu, "Quu", 1e-8);
      near(s.get_Qx()[k], Qx, "Qx", 1e-8); near(s.get_Qu()[k], Qu, "Qu", 1e-8);
      M Qi = Quu.fullPivLu().inverse();
      M K = Qi * Qxu.transpose(); V kk = Qi * Qu;
      double sc = 1e-7 * (1 + Qi.norm());
      near(s.get_K()[k], K, "K", sc); near(s.get_k()[k], kk, "k", sc);
      Vx = Qx - K.transpose() * Qu; Vxx = Qxx - Qxu * K; Vxx = (0.5 * (Vxx + Vxx.transpose())).eval();
      if (preg != 0) Vxx.diagonal().array() += preg;
      Vx += Vxx * f[k];
      near(s.get_Vxx()[k], Vxx, "Vxx", sc); near(s.get_Vx()[k], Vx, "Vx", sc);
    }
  }
}

CASE(indefinite, 150) {
  RandProblem q(R, 1, 4, false, true, 0.);
  SolverDDP s(q.p);
  q.guess(R); s.setCandidate(q.xs, q.us, false); s.calcDiff();
  s.preg_ = s.dreg_ = 0.;
  long k = R.i(0, q.T - 1);
  auto& L = q.p->get_runningDatas()[k]->Luu;
  if (L.rows() == 0) return;
  L(0, 0) = -1e6 * (1 + L.norm());
  for (auto& d : q.p->get_runningDatas()) { d->Fu *= 1e-2; }
  bool thrown = false;
  try { s.backwardPass(); } catch (const std::exception&) { thrown = true; }
  if (!thrown) expect(s.get_Quu()[k](0, 0) > 0, "gains of an indefinite control Hessian");
}
