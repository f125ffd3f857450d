// SOURCES: solver-base.cpp solvers/ddp.cpp solvers/fddp.cpp solvers/intro.cpp solvers/kkt.cpp
#include "models.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"
using namespace H;

struct LQ : RandProblem {
  LQ(Rng& R) : RandProblem(R, 1, 6, false, true, 0., 1) {
    while (dynamic_cast<CircleState*>(s.get())) { RandProblem z(R, 1, 6, false, true, 0., 1); *(RandProblem*)this = z; }
  }
};
// the model is exact on linear-quadratic problems: predicted = actual for every step length
template <class S>
static void exact(Rng& R, bool keepfeas) {
  LQ q(R);
  S s(q.p);
  for (int rep = 0; rep < 3; ++rep) {
    q.guess(R);
    bool feas = keepfeas || R.b(0.3);
    if (feas) q.p->rollout(q.us, q.xs);
    s.setCandidate(q.xs, q.us, feas);
    s.set_preg(0.); s.set_dreg(0.);
    s.computeDirection(true);
    if (SolverFDDP* f = dynamic_cast<SolverFDDP*>(&s)) f->updateExpectedImprovement();
    for (int t = 0; t < 4; ++t) {
      double a = t == 0 || !s.get_is_feasible() ? 1. : R.frac();  // with gaps the documented terms are exact for the full step only
      double dV = s.tryStep(a);
      const Eigen::Vector2d d = s.expectedImprovement();
      near(dV, a * (d[0] + 0.5 * a * d[1]), "predicted against actual decrease at step " + std::to_string(a), 1e-6);
    }
  }
}
CASE(exact_ddp, 150) { exact<SolverDDP>(R, true); }
CASE(exact_fddp, 150) { exact<SolverFDDP>(R, false); }
CASE(exact_kkt, 100) {
  LQ q(R);
  SolverKKT s(q.p);
  for (int rep = 0; rep < 3; ++rep) {
    q.guess(R);
    s.setCandidate(q.xs, q.us, false);
    s.set_preg(0.); s.set_dreg(0.); s.preg_ = 0.; s.dreg_ = 0.;
    s.computeDirection(true);
    const Eigen::Vector2d d = s.expectedImprovement();
    for (int t = 0; t < 4; ++t) {
      double a = t == 0 ? 1. : R.frac();
      near(s.tryStep(a), a * (d[0] + 0.5 * a * d[1]), "predicted against actual decrease", 1e-6);
    }
    // the multipliers of the full Newton step make the linearised Lagrangian gradient vanish: stopping measure = gradient and gaps at the candidate
    double w = 0.; long n = q.s->get_ndx(); V lam0;
    for (long k = 0; k <= q.T; ++k) {
      V g = k < q.T ? q.m[k]->lx(q.xs[k], q.us[k]) : V(q.mt->lx(q.xs[k], V::Zero(q.mt->get_nu())));
      g += s.lambdas_[k];
      if (k < q.T) {
        g -= q.m[k]->fx(q.xs[k]).transpose() * s.lambdas_[k + 1];
        V gu = q.m[k]->lu(q.xs[k], q.us[k]) - q.m[k]->fu().transpose() * s.lambdas_[k + 1];
        w += gu.squaredNorm();
      }
      w += g.squaredNorm();
      V f(n); V prev = k ? V(q.m[k - 1]->step(q.xs[k - 1], q.us[k - 1])) : q.x0;
      q.s->diff(q.xs[k], prev, f); w += f.squaredNorm();
    }
    near(s.stoppingCriteria(), w, "stopping measure", 1e-7);
    near(s.get_stop(), w, "stored stopping measure", 1e-7);
  }
}
template <class S>
static void formulas(Rng& R, bool fd) {
  RandProblem q(R, 1, 6, false, true, 1., 1);
  S s(q.p);
  for (int rep = 0; rep < 3; ++rep) {
    q.guess(R);
    bool feas = R.b(0.3);
    if (feas) q.p->rollout(q.us, q.xs);
    s.setCandidate(q.xs, q.us, feas);
    s.calcDiff();
    double g = 0, h = 0, v = 0;
    for (long k = 0; k <= q.T; ++k) {
      long n = q.s->get_ndx();
      s.Vx_[k] = R.v(n); s.Vxx_[k] = R.sym(n); s.xs_try_[k] = rand_state(R, *q.s);
      if (k < q.T) {
        long nu = q.m[k]->get_nu();
        s.Qu_[k] = R.v(nu); s.k_[k] = R.v(nu); s.Quuk_[k] = R.v(nu);
        g += s.Qu_[k].dot(s.k_[k]); h -= s.k_[k].dot(s.Quuk_[k]);
      }
      if (fd && !feas) {
        V f = s.get_fs()[k], dx(n); q.s->diff(s.xs_try_[k], q.xs[k], dx);
        g -= s.Vx_[k].dot(f); h += f.dot(s.Vxx_[k] * f); v -= f.dot(s.Vxx_[k] * dx);
      }
    }
    if (SolverFDDP* f = dynamic_cast<SolverFDDP*>(&s)) f->updateExpectedImprovement();
    for (int t = 0; t < 2; ++t) {
      const Eigen::Vector2d d = s.expectedImprovement();
      near(d[0], g + v, "first-order term", 1e-8); near(d[1], h - 2 * v, "second-order term", 1e-8);
    }
    s.d_ << R.u(), R.u();
    near(s.SolverDDP::stoppingCriteria(), std::fabs(s.d_[0] + 0.5 * s.d_[1]), "stopping measure");
    near(s.get_stop(), std::fabs(s.d_[0] + 0.5 * s.d_[1]), "stored stopping measure");
  }
}
CASE(formulas_ddp, 100) { formulas<SolverDDP>(R, false); }
CASE(formulas_fddp, 150) { formulas<SolverFDDP>(R, true); }
CASE(formulas_intro, 60) {
  formulas<SolverIntro>(R, true);
  RandProblem q(R); SolverIntro s(q.p);
  for (int t = 0; t < 10; ++t) {
    s.d_ << R.u(), R.u(); s.hfeas_ = R.u(0, 1);
    near(s.stoppingCriteria(), std::max(s.hfeas_, std::fabs(s.d_[0] + 0.5 * s.d_[1])), "stopping measure");
    near(s.get_stop(), std::max(s.hfeas_, std::fabs(s.d_[0] + 0.5 * s.d_[1])), "stored stopping measure");
  }
}
