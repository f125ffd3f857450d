// SOURCES: solver-base.cpp solvers/ddp.cpp solvers/fddp.cpp solvers/intro.cpp
#include "models.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
using namespace H;

struct Con {
  StateP s; std::vector<RandP> m; RandP mt; std::shared_ptr<ShootingProblemTpl<double>> p; long T; V x0; std::vector<V> xs, us;
  Con(Rng& R) {
    s = rand_space(R); T = R.i(1, 4);
    std::vector<ModelP> ms;
    for (long k = 0; k < T; ++k) {
      long nu = R.i(0, 4), nh = R.b(0.25) ? nu : R.i(0, nu);
      m.push_back(std::make_shared<RandModel>(R, s, nu, R.i(0, 2), nh, 0, 0, R.b() ? 0. : 1.));
      // well-conditioned full-row-rank control Jacobian
      M& Hu = m.back()->Hu;
      if (nh > 0) { M W = R.m(nu, nu); Eigen::HouseholderQR<M> qr(W); M Q = qr.householderQ(); Hu = Q.topRows(nh) + 0.05 * R.m(nh, nu); }
      ms.push_back(m.back());
    }
    mt = std::make_shared<RandModel>(R, s, R.i(0, 2), 0, 0, 0, 0, 1.);
    x0 = rand_state(R, *s);
    p = std::make_shared<ShootingProblemTpl<double>>(x0, ms, mt);
    guess(R);
  }
  void guess(Rng& R) {
    xs.clear(); us.clear();
    for (long k = 0; k <= T; ++k) xs.push_back(rand_state(R, *s));
    for (long k = 0; k < T; ++k) us.push_back(R.v(m[k]->get_nu()));
  }
};

static void run(Rng& R, EqualitySolverType mode) {
  Con q(R);
  SolverIntro s(q.p);
  s.set_equality_solver(mode);
  long n = q.s->get_ndx();
  auto& D = q.p->get_runningDatas();
  for (int rep = 0; rep < 3; ++rep) {
    q.guess(R);
    bool feas = R.b();
    s.setCandidate(q.xs, q.us, feas);
    s.calcDiff();
    std::vector<V> h; std::vector<M> Hx, Hu;
    for (long k = 0; k < q.T; ++k) { long nh = q.m[k]->get_nh(); h.push_back(D[k]->h.head(nh)); Hx.push_back(D[k]->Hx.topRows(nh)); Hu.push_back(D[k]->Hu.topRows(nh)); }
    int passes = int(R.i(1, 2));
    for (int pass = 0; pass < passes; ++pass) {
      if (pass) {  // a rejected trial step between two directions computed at the same candidate
        try { s.forwardPass(R.u(0.01, 1)); } catch (const std::exception&) {}
      }
      s.preg_ = s.dreg_ = R.b() ? 0. : R.u(0, 1);
      for (long k = 0; k < q.T; ++k) {
        long nu = q.m[k]->get_nu(), nh = q.m[k]->get_nh();
        M Quu = R.spd(nu); V Qu = R.v(nu); M Qxu = R.m(n, nu);
        s.Quu_[k] = Quu; s.Qu_[k] = Qu; s.Qxu_[k] = Qxu; s.Qx_[k] = R.v(n); s.Qxx_[k] = R.spd(n);
        nothrow([&] { s.computeGains(k); }, "gains of a node");
        if (nu > 0) {
          V kk = s.k_[k]; M K = s.K_[k];
          expect(kk.size() == nu && K.rows() == nu && K.cols() == n, "shape of the gains");
          V gr = Qu - Quu * kk; M gx = Qxu.transpose() - Quu * K;
          if (nh == 0) {
            near(gr, V(V::Zero(nu)), "unconstrained feedforward", 1e-7);
            near(gx, M(M::Zero(nu, n)), "unconstrained feedback", 1e-7);
          } else {
            near(V(Hu[k] * kk), h[k], "the feedforward satisfies the linearised constraints", 1e-7);
            near(M(Hu[k] * K), Hx[k], "the feedback satisfies the linearised constraints", 1e-7);
            M Pm = M::Identity(nu, nu) - Hu[k].transpose() * (Hu[k] * Hu[k].transpose()).inverse() * Hu[k];
            near(V(Pm * gr), V(V::Zero(nu)), "the feedforward minimises the model over the constraints", 1e-6);
            near(M(Pm * gx), M(M::Zero(nu, n)), "the feedback minimises the model over the constraints", 1e-6);
            if (mode != Schur && nh < nu) near(M(Hu[k] * s.YZ_[k].rightCols(nu - nh)), M(M::Zero(nh, nu - nh)), "nullspace basis", 1e-7);
          }
        }
        s.fs_[k] = R.v(n);
        s.computeValueFunction(k, q.m[k]);
        V kk = s.k_[k]; M K = s.K_[k];
        M raw = s.Qxx_[k]; V vx = s.Qx_[k];
        if (nu > 0) {
          raw += K.transpose() * Quu * K - 2 * Qxu * K;
          vx -= Qxu * kk + K.transpose() * (Qu - Quu * kk);
        }
        M Vxx = 0.5 * (raw + raw.transpose()) + (std::isnan(s.preg_) ? 0. : s.preg_) * M::Identity(n, n);
        if (!feas) vx += Vxx * s.fs_[k];
        near(M(s.Vxx_[k]), Vxx, "Hessian of the value of the policy", 1e-6);
        near(V(s.Vx_[k]), vx, "gradient of the value of the policy", 1e-6);
        near(s.Qu_[k], Qu, "gradient unchanged", 1e-9);
      }
    }
  }
}
CASE(intro_lu, 250) { run(R, LuNull); }
CASE(intro_qr, 250) { run(R, QrNull); }
CASE(intro_schur, 250) { run(R, Schur); }
CASE(intro_solve, 60) {
  Con q(R);
  SolverIntro s(q.p);
  s.set_equality_solver(R.b() ? LuNull : (R.b() ? QrNull : Schur));
  nothrow([&] { s.solve(q.xs, q.us, 5, false, 1e-3); }, "solve");
  for (long k = 0; k < q.T; ++k) {
    long nu = q.m[k]->get_nu(), nh = q.m[k]->get_nh();
    expect(s.K_[k].rows() == nu && s.k_[k].size() == nu, "shape of the gains");
    (void)nh;
  }
}
