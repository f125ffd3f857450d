#include "models.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
using namespace H; using namespace crocoddyl;
typedef ConstraintModelResidualTpl<double> KM;
typedef ResidualModelAbstractTpl<double> RM;
typedef ResidualDataAbstractTpl<double> RDt;
struct Res : RM {
  M A, B, AT; V a, aT;
  Res(Rng& R, StateP s, long nr, long nu, bool q, bool v, bool u) : RM(s, (size_t)nr, (size_t)nu, q, v, u), A(R.m(nr, s->get_ndx())), B(R.m(nr, nu)), AT(R.m(nr, s->get_ndx())), a(R.v(nr)), aT(R.v(nr)) {
    long n = s->get_nv();
    for (M* m : {&A, &AT}) { if (!q) m->leftCols(n).setZero(); if (!v) m->rightCols(n).setZero(); }
    if (!q && !v) { A.setZero(); AT.setZero(); }
    if (!u) B.setZero();
  }
  using RM::calc; using RM::calcDiff;
  void calc(const std::shared_ptr<RDt>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { d->r = A * tangent(*state_, x) + B * u + a; }
  void calc(const std::shared_ptr<RDt>& d, const Eigen::Ref<const V>& x) override { d->r = AT * tangent(*state_, x) + aT; }
  void calcDiff(const std::shared_ptr<RDt>& d, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override { d->Rx = A; d->Ru = B; }
  void calcDiff(const std::shared_ptr<RDt>& d, const Eigen::Ref<const V>&) override { d->Rx = AT; }
  std::shared_ptr<ResidualModelBase> cloneAsDouble() const override { return std::shared_ptr<ResidualModelBase>(); }
  std::shared_ptr<ResidualModelBase> cloneAsFloat() const override { return std::shared_ptr<ResidualModelBase>(); }
};
static const double INF_ = std::numeric_limits<double>::infinity(), NAN_ = std::numeric_limits<double>::quiet_NaN(), MAX_ = std::numeric_limits<double>::max();
static double entry(Rng& R, bool up) { int k = R.i(0, 19); double g = up ? INF_ : -INF_; return k < 3 ? g : k == 3 ? NAN_ : k == 4 ? -g : k == 5 ? MAX_ : k == 6 ? -MAX_ : R.u(-1., 1.); }
static void bounds(Rng& R, long n, V& l, V& u) {
  l = R.v(n); u = l + R.v(n).cwiseAbs();
  int k = R.i(0, 5);
  if (n && k == 1) u = l;
  if (n && k == 2) { int e = R.i(0, (int)n - 1); l(e) = entry(R, false); }
  if (n && k == 3) { int e = R.i(0, (int)n - 1); u(e) = entry(R, true); }
  if (n && k == 4) { int e = R.i(0, (int)n - 1); l(e) = entry(R, false); u(e) = entry(R, true); }
  if (k == 5) { if (R.b()) l = R.v(n + R.i(0, 1) * 2 - (n ? 1 : 0)); else u = V(2 + R.v(n + 1 - (n ? R.i(0, 2) : 0)).array()); }
}
static bool good(const V& l, const V& u, long n) {
  if (l.size() != n || u.size() != n) return false;
  for (long k = 0; k < n; ++k) if (!(l(k) <= u(k)) || l(k) == INF_ || l(k) == MAX_ || u(k) == -INF_ || u(k) == -MAX_) return false;
  return true;
}
CASE(residual_constraint, 1500) {
  auto s = rand_space(R, 1, 4); long nu = R.i(0, 3), ndx = s->get_ndx(), nr = R.i(1, 4);
  bool q = R.b(), v = R.b(), c = R.b(); if (ndx % 2 || s->get_nv() * 2 != (size_t)ndx) v = q;
  auto res = std::make_shared<Res>(R, s, nr, nu, q, v, c);
  DataCollectorAbstractTpl<double> dc;
  V l, u; bool ineq = R.b(), act = R.b();
  std::shared_ptr<KM> m;
  if (ineq) {
    bounds(R, nr, l, u);
    if (!good(l, u, nr)) { throws([&] { KM(s, res, l, u, act); }, "ill-formed bounds at construction"); return; }
    nothrow([&] { m = std::make_shared<KM>(s, res, l, u, act); }, "well-formed bounds at construction");
  } else m = std::make_shared<KM>(s, res, act);
  long ngi = ineq ? nr : 0; V cl = ineq ? l : V(0), cu = ineq ? u : V(0); bool now = ineq;
  expect(m->get_T_constraint() == (act && (q || v)), "terminal flag");
  for (int e = 0; e < 4; ++e) {
    int k = R.i(0, 2);
    if (e && k == 0) {
      bounds(R, ngi, l, u);
      if (good(l, u, ngi)) { nothrow([&] { m->update_bounds(l, u); }, "well-formed bounds"); cl = l; cu = u; now = ineq; }
      else throws([&] { m->update_bounds(l, u); }, "ill-formed bounds");
    } else if (e && k == 1) { m->remove_bounds(); cl.setConstant(-INF_); cu.setConstant(INF_); now = false; }
    expect(m->get_lb() == cl && m->get_ub() == cu, "bounds");
    expect(m->get_ng() == (size_t)(now ? nr : 0) && m->get_nh() == (size_t)(now ? 0 : nr), "dimensions");
    expect(m->get_type() == (now ? ConstraintType::Inequality : ConstraintType::Equality), "kind");
    auto d = m->createData(&dc);
    for (int z = 0; z < 3; ++z) {
      bool run = z == 0 || R.b(); V x = rand_state(R, *s), w = R.v(nu), r = run ? V(res->A * tangent(*s, x) + res->B * w + res->a) : V(res->AT * tangent(*s, x) + res->aT);
      if (run) { m->calc(d, x, w); m->calcDiff(d, x, w); } else { m->calc(d, x); m->calcDiff(d, x); }
      near(V(now ? d->g : d->h), r, "values"); near(M(now ? d->Gx : d->Hx), run ? res->A : res->AT, "state Jacobian"); if (run) near(M(now ? d->Gu : d->Hu), res->B, "control Jacobian");
      expect((now ? d->h : d->g).size() == 0 && (now ? d->Hx : d->Gx).rows() == 0 && (now ? d->Hu : d->Gu).rows() == 0, "the other kind is not written");
    }
    // inside a collection
    ConstraintModelManagerTpl<double> mm(s, nu); mm.addConstraint("c", m); auto dm = mm.createData(&dc); V x = rand_state(R, *s), w = R.v(nu);
    mm.calc(dm, x, w); near(V(now ? dm->g : dm->h), V(res->A * tangent(*s, x) + res->B * w + res->a), "values in a collection");
  }
}
