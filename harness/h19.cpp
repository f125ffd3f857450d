// SOURCES: solver-base.cpp solvers/ddp.cpp solvers/fddp.cpp solvers/intro.cpp solvers/kkt.cpp
#include "models.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"
using namespace H;

struct Stop { std::string w; };  // not a std::exception: the solve loops must not swallow the verdict
static void must(bool c, const std::string& w) { if (!c) throw Stop{w}; }

struct Ghost {
  Rng* R; double pfail, psteps; int mode;
  long ndir = 0, nacc = 0, calls = 0, maxiter = 0; bool failed = false, stale = true, tok = false, dirfeas = false, fresh = false, dset = false, sset = false, inr = false, ranged = true;
  double fp = 0, ccost = 0, chf = 0, tcost = 0, alpha = 0, thf = 0, stop = 0, d0 = 0, d1 = 0; std::vector<V> cx, cu, tx, tu; bool tfeas = false, cfeas = false;
  bool easy = false;
};

enum Kind { DDP, FDDP, INTRO, KKT };
template <class S> struct KindOf;
template <> struct KindOf<SolverDDP> { static const Kind k = DDP; };
template <> struct KindOf<SolverFDDP> { static const Kind k = FDDP; };
template <> struct KindOf<SolverIntro> { static const Kind k = INTRO; };
template <> struct KindOf<SolverKKT> { static const Kind k = KKT; };

template <class S> double& hf(S& s) { return s.hfeas_; }
// the real solve loop over a direction, trial, improvement and stopping measure whose outcomes are drawn at random
template <class S>
struct Mon : public S {
  Ghost G;
  explicit Mon(std::shared_ptr<ShootingProblem> p) : S(p) {}
  static const Kind k = KindOf<S>::k;
  bool same(const std::vector<V>& a, const std::vector<V>& b) const {
    if (a.size() != b.size()) return false;
    for (std::size_t t = 0; t < a.size(); ++t) if (a[t] != b[t]) return false;
    return true;
  }
  void settle() {  // has the last trial become the candidate?
    if (same(this->xs_, G.cx) && same(this->us_, G.cu)) {
      must(this->is_feasible_ == G.cfeas, "feasibility flag changed without a new candidate");
      return;
    }
    must(G.tok, "the candidate changed without a completed trial");
    must(same(this->xs_, G.tx) && same(this->us_, G.tu), "the new candidate is not the last trial");
    must(!G.stale, "accepted with the expected improvement of an earlier direction");
    double a = G.alpha, dV = G.ccost - G.tcost, dex = a * (G.d0 + 0.5 * a * G.d1), th = this->th_acceptstep_; bool feas = G.cfeas, ok, want = true;
    double thn = neg(), tg = this->th_grad_; bool flat = std::fabs(G.d0) < tg;
    if (k == DDP) ok = dex >= 0 && (flat || !feas || dV > th * dex);
    else if (k == KKT) ok = G.d0 < tg || !feas || dV > th * dex;
    else if (k == FDDP) { ok = dex >= 0 ? (flat || dV > th * dex) : (!feas && dV > thn * dex); want = feas || a == 1.; }
    else {
      double ups = upsilon(), df = G.chf - G.thf, phi = dV + ups * df, pex = dex + a * ups * df;
      ok = pex >= 0 ? (flat || phi > th * pex) : (dV > thn * dex); want = feas || a == 1.;
    }
    must(ok, "a trial that fails the acceptance test became the candidate");
    must(this->is_feasible_ == want, "feasibility flag of the accepted candidate");
    ++G.nacc;
    G.cx = G.tx; G.cu = G.tu; G.cfeas = want; G.ccost = G.tcost; G.chf = G.thf; G.fresh = false; G.tok = false;
  }
  double neg() const { return neg_(*this); }
  template <class Q> static auto neg_(const Q& q) -> decltype(q.th_acceptnegstep_) { return q.th_acceptnegstep_; }
  static double neg_(...) { return 0; }
  double upsilon() const { return ups_(*this); }
  template <class Q> static auto ups_(const Q& q) -> decltype(q.upsilon_) { return q.upsilon_; }
  static double ups_(...) { return 0; }
  template <class Q> static auto setf_(Q& q, double v) -> decltype((void)q.hfeas_try_) { q.hfeas_try_ = v; }
  static void setf_(...) {}

  void computeDirection(const bool recalc) {
    if (++G.calls == 1) { G.cx = this->xs_; G.cu = this->us_; G.cfeas = this->is_feasible_; }
    must(G.calls < 20000, "the solve does not end");
    settle();
    if (G.failed) {
      must(this->preg_ > 0 && this->preg_ >= this->reg_incfactor_ * G.fp * (1 - 1e-12), "retried without a larger regularisation");
      must(this->preg_ < this->reg_max_, "retried at the maximum regularisation");
    }
    if (G.inr) must(this->preg_ >= this->reg_min_ && this->preg_ <= this->reg_max_, "regularisation outside its range");
    if (recalc) { G.fresh = true; G.ccost = this->cost_ = G.R->u(); this->hfeas_ = G.chf = G.R->b() ? 0. : G.R->u(0, 1); }
    if (G.R->b(G.pfail)) {
      if (k == KKT && G.R->b()) G.fresh = false;  // here the derivatives themselves may be what failed
      G.failed = true; G.fp = this->preg_; throw std::runtime_error("direction");
    }
    must(G.fresh, "direction from derivatives of another candidate");
    G.failed = false; G.stale = true; G.tok = false; G.dirfeas = this->is_feasible_; G.sset = false;
    must(++G.ndir <= G.maxiter, "more iterations than requested");
  }
  const Eigen::Vector2d& expectedImprovement() {
    settle();
    if (k == DDP || k == KKT || G.R->b(0.9)) {
      double s = G.R->b(0.1) ? 1e-14 : 1.;
      this->d_ << s * G.R->u(-0.5, 1.), s * G.R->u();
      if (G.R->b(0.2)) this->d_ *= 1e-2;
    }
    G.d0 = this->d_[0]; G.d1 = this->d_[1]; G.stale = false;
    return this->d_;
  }
  double tryStep(const double a) {
    settle();
    G.tok = false;
    if (k == FDDP || k == INTRO) G.stale = true;
    this->xs_try_ = this->xs_;
    for (auto& x : this->xs_try_) x[x.size() - 1] += 1. + G.R->u(0, 1);
    if (G.R->b(0.2)) throw std::runtime_error("trial");
    for (auto& u : this->us_try_) u = G.R->v(u.size());
    this->cost_try_ = G.ccost - (G.R->b(0.3) ? 3. * G.R->u() : a * (this->d_[0] + 0.5 * a * this->d_[1]) * G.R->u(-1., 2.));
    G.tcost = this->cost_try_; G.alpha = a; G.tok = true; G.tx = this->xs_try_; G.tu = this->us_try_;
    if (k == INTRO) { G.thf = G.R->b() ? 0. : G.R->u(0, 1); setf_(*this, G.thf); }
    return this->cost_ - this->cost_try_;
  }
  double stoppingCriteria() {
    settle();
    if (k == INTRO) must(this->hfeas_ == G.chf, "the stopping measure takes the feasibility of another candidate");
    this->stop_ = G.stop = this->th_stop_ * (G.R->b(0.2) ? G.R->u(0, 1) : G.R->u(1., 5.)); G.sset = true;
    return this->stop_;
  }
};

template <class S>
static void run(Rng& R) {
  RandProblem q(R, 1, 3);
  Mon<S> s(q.p);
  if (R.b()) {
    int n = R.i(1, 5); std::vector<double> al; double a = 1.;
    for (int k = 0; k < n; ++k) { al.push_back(a); a *= R.u(0.1, 0.9); }
    s.alphas_ = al;
  }
  s.th_stop_ = R.u(0.1, 1.); s.th_acceptstep_ = R.u(0.05, 0.9);
  Kind k = KindOf<S>::k;
  s.reg_min_ = R.b(0.3) ? 0. : std::pow(10., R.u(-9, -1)); s.reg_max_ = std::pow(10., R.u(0, 9));
  s.reg_incfactor_ = R.u(1.1, 20.); s.reg_decfactor_ = R.u(1.1, 20.);
  for (int rep = 0; rep < 3; ++rep) {
    q.guess(R);
    double pf[] = {0., 0.2, 0.7, 1.};
    s.G = Ghost(); s.G.R = &R; s.G.pfail = pf[R.i(0, 3)]; s.G.maxiter = R.i(0, 30);
    double ir = NAN; s.G.inr = k != KKT;
    if (R.b()) { if (R.b(0.4)) { ir = 0.; s.G.inr = s.G.inr && s.reg_min_ == 0.; } else ir = s.reg_min_ + R.u(0, 1) * (s.reg_max_ - s.reg_min_) * std::pow(10., R.u(-9, 0)); }
    if (k == KKT) s.preg_ = R.b(0.5) ? 0. : 1e-3 * R.u(0, 1);
    bool feas = R.b(0.3), ok = false;
    try {
      ok = s.solve(q.xs, q.us, s.G.maxiter, feas, ir);
      if (s.G.calls) s.settle();
    } catch (const Stop& e) { throw Fail(e.w); }
    expect((long)s.get_iter() <= s.G.maxiter, "iteration counter beyond the limit");
    expect(s.G.nacc <= s.G.maxiter, "more accepted candidates than iterations");
    if (s.G.inr) expect(s.preg_ >= s.reg_min_ && s.preg_ <= s.reg_max_, "final regularisation outside its range");
    if (ok) {
      expect(s.G.sset && s.G.stop < s.th_stop_, "success although the stopping measure of the last direction is not below the tolerance");
      expect(s.is_feasible_, "success at an infeasible candidate");
      if (k != INTRO) expect(s.G.dirfeas, "success although the direction was not computed at a feasible candidate");
    }
  }
}
CASE(loop_ddp, 1200) { run<SolverDDP>(R); }
CASE(loop_fddp, 1200) { run<SolverFDDP>(R); }
CASE(loop_intro, 1200) { run<SolverIntro>(R); }
CASE(loop_kkt, 1200) { run<SolverKKT>(R); }

template <class S>
static void regs(Rng& R) {
  RandProblem q(R, 1, 2);
  S s(q.p);
  s.reg_min_ = R.b(0.2) ? 0. : R.u(0, 1); s.reg_max_ = s.reg_min_ + R.u(0, 100); s.reg_incfactor_ = R.u(1.01, 20); s.reg_decfactor_ = R.u(1.01, 20);
  double p = R.b(0.1) ? 0. : s.reg_min_ + R.u(0, 1) * (s.reg_max_ - s.reg_min_), lo = s.reg_min_, hi = s.reg_max_, up = s.reg_incfactor_, dn = s.reg_decfactor_;
  for (int t = 0; t < 12; ++t) {
    if (R.b()) {
      s.preg_ = p; s.dreg_ = R.u(); s.increaseRegularization();
      double w = std::min(p * up, hi);
      if (w >= lo && w > 1e-14) near(s.preg_, w, "increased regularisation");
      expect(s.preg_ > 0 && s.preg_ >= lo && s.preg_ <= hi, "increased regularisation out of range");
    } else {
      s.preg_ = p; s.dreg_ = R.u(); s.decreaseRegularization();
      near(s.preg_, std::max(p / dn, lo), "decreased regularisation");
    }
    near(s.dreg_, s.preg_, "dynamics regularisation");
    p = s.preg_;
  }
  expect(s.reg_min_ == lo && s.reg_max_ == hi && s.reg_incfactor_ == up && s.reg_decfactor_ == dn, "settings changed");
}
CASE(reg_ddp, 300) { regs<SolverDDP>(R); }
CASE(reg_kkt, 300) { regs<SolverKKT>(R); }

// whole solves on real problems
template <class S>
static void solve(Rng& R) {
  RandProblem q(R, 1, 5, false, true, R.b() ? 0. : 1.);
  S s(q.p);
  s.set_th_stop(1e-9);
  for (int rep = 0; rep < 2; ++rep) {
    q.guess(R);
    bool feas = R.b(0.3);
    if (feas) q.p->rollout(q.us, q.xs);
    std::size_t n = R.i(0, 40);
    bool ok = s.solve(q.xs, q.us, n, feas, R.b() ? NAN : R.b() ? 0. : 1e-9);
    expect(s.get_iter() <= n, "iterations");
    if (ok) { expect(s.get_stop() < 1e-9 && s.get_is_feasible(), "success not backed by the reported measures"); }
  }
}
CASE(solve_ddp, 60) { solve<SolverDDP>(R); }
CASE(solve_fddp, 60) { solve<SolverFDDP>(R); }
CASE(solve_intro, 60) { solve<SolverIntro>(R); }
CASE(solve_kkt, 40) { solve<SolverKKT>(R); }
