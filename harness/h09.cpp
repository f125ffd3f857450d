#include "models.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/data/joint.hpp"
using namespace H; using namespace crocoddyl;
typedef ResidualModelAbstractTpl<double> RMA;
typedef ResidualDataAbstractTpl<double> RDA;
typedef ActuationModelAbstractTpl<double> AMA;
typedef ActuationDataAbstractTpl<double> ADA;
typedef std::shared_ptr<ActivationModelAbstractTpl<double>> ActP;
struct Act : AMA {
  Act(StateP s, long n) : AMA(s, n) {}
  using AMA::calc; using AMA::calcDiff;
  void calc(const std::shared_ptr<ADA>&, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override {}
  void calcDiff(const std::shared_ptr<ADA>&, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override {}
  void commands(const std::shared_ptr<ADA>&, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override {}
  std::shared_ptr<ActuationModelBase> cloneAsDouble() const override { return std::shared_ptr<ActuationModelBase>(); }
  std::shared_ptr<ActuationModelBase> cloneAsFloat() const override { return std::shared_ptr<ActuationModelBase>(); }
};
// r = Aq (sin q + q^2) + Av (...) + Au (...) + b on the blocks it depends on
struct Res : RMA {
  M A, B; V b;
  Res(Rng& R, StateP s, long nr, long nu, bool q, bool v, bool u) : RMA(s, nr, nu, q, v, u), A(R.m(nr, s->get_ndx())), B(R.m(nr, nu)), b(R.v(nr)) {
    long nv = s->get_nv();
    if (!q) A.leftCols(nv).setZero();
    if (!v) A.rightCols(nv).setZero();
    if (!u) B.setZero();
  }
  static V f(const V& z) { return z.array().sin() + z.array().square(); }
  static V df(const V& z) { return z.array().cos() + 2 * z.array(); }
  V r(const V& x, const V& u) const { return A * f(tangent(*state_, x)) + B * f(u) + b; }
  V rT(const V& x) const { return A * f(tangent(*state_, x)) + b; }
  M Rx(const V& x) const { return A * df(tangent(*state_, x)).asDiagonal(); }
  M Ru(const V& u) const { return B * df(u).asDiagonal(); }
  void calc(const std::shared_ptr<RDA>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { d->r = r(x, u); }
  void calc(const std::shared_ptr<RDA>& d, const Eigen::Ref<const V>& x) override { d->r = rT(x); }
  void calcDiff(const std::shared_ptr<RDA>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { d->Rx = Rx(x); if (u_dependent_) d->Ru = Ru(u); }
  void calcDiff(const std::shared_ptr<RDA>& d, const Eigen::Ref<const V>& x) override { d->Rx = Rx(x); }
  std::shared_ptr<ResidualModelBase> cloneAsDouble() const override { return std::shared_ptr<ResidualModelBase>(); }
  std::shared_ptr<ResidualModelBase> cloneAsFloat() const override { return std::shared_ptr<ResidualModelBase>(); }
};
static StateP space(Rng& R) { long m = R.i(1, 3); if (R.b(0.4)) return std::make_shared<CircleState>(m); return std::make_shared<StateVectorTpl<double>>(2 * m); }
CASE(gauss_newton, 700) {
  auto s = space(R); long nr = R.i(1, 5), nu = R.i(0, 3), ndx = s->get_ndx();
  bool q = R.b(), v = R.b(), u = R.b();
  auto r = std::make_shared<Res>(R, s, nr, nu, q, v, u);
  int k = R.i(0, 3); V w = R.v(nr); double e = R.u(0.1, 2.);
  ActP a;
  if (k == 0) a = std::make_shared<ActivationModelQuadTpl<double>>(nr);
  if (k == 1) a = std::make_shared<ActivationModelWeightedQuadTpl<double>>(w);
  if (k == 2) a = std::make_shared<ActivationModelSmooth1NormTpl<double>>(nr, e);
  auto c = k == 3 ? std::make_shared<CostModelResidualTpl<double>>(s, r) : std::make_shared<CostModelResidualTpl<double>>(s, a, r);
  DataCollectorAbstractTpl<double> dc;
  auto d = c->createData(&dc), d2 = c->createData(&dc);
  auto check = [&](const std::shared_ptr<CostDataAbstractTpl<double>>& D, const V& rr, const M& Rx, const M& Ru, bool term) {
    V g(nr), h(nr); double val = 0;
    for (long i = 0; i < nr; ++i) {
      if (k == 0 || k == 3) { val += 0.5 * rr[i] * rr[i]; g[i] = rr[i]; h[i] = 1; }
      if (k == 1) { val += 0.5 * w[i] * rr[i] * rr[i]; g[i] = w[i] * rr[i]; h[i] = w[i]; }
      if (k == 2) { double z = std::sqrt(rr[i] * rr[i] + e); val += z; g[i] = rr[i] / z; h[i] = e / (z * z * z); }
    }
    near(D->cost, val, "cost"); near(D->Lx, V(Rx.transpose() * g), "Lx"); near(D->Lxx, M(Rx.transpose() * h.asDiagonal() * Rx), "Lxx");
    if (term) return;
    near(D->Lu, V(Ru.transpose() * g), "Lu"); near(D->Luu, M(Ru.transpose() * h.asDiagonal() * Ru), "Luu"); near(D->Lxu, M(Rx.transpose() * h.asDiagonal() * Ru), "Lxu");
  };
  for (int rep = 0; rep < 5; ++rep) {
    V x = rand_state(R, *s), z = R.v(nu); auto D = R.b() ? d : d2;
    if (R.b(0.6)) { c->calc(D, x, z); c->calcDiff(D, x, z); check(D, r->r(x, z), r->Rx(x), r->Ru(z), false); }
    else {
      V lu = D->Lu; M luu = D->Luu, lxu = D->Lxu;
      c->calc(D, x); c->calcDiff(D, x);
      if (q || v) check(D, r->rT(x), r->Rx(x), M::Zero(nr, nu), true);
      else { near(D->cost, 0., "terminal cost"); near(D->Lx, V(V::Zero(ndx)), "Lx"); near(D->Lxx, M(M::Zero(ndx, ndx)), "Lxx"); }
      near(D->Lu, lu, "terminal Lu"); near(D->Luu, luu, "terminal Luu"); near(D->Lxu, lxu, "terminal Lxu");
    }
  }
}
CASE(library, 300) {
  auto s = space(R); long nv = s->get_nv(), ndx = s->get_ndx(), na = R.i(1, 4), nu = R.i(1, 4);
  auto am = std::make_shared<Act>(s, na);
  { // control
    V ref = R.v(nu); auto r = std::make_shared<ResidualModelControlTpl<double>>(s, ref);
    expect(r->get_nr() == (size_t)nu && r->get_nu() == (size_t)nu && !r->get_q_dependent() && !r->get_v_dependent() && r->get_u_dependent(), "control residual dependencies");
    expect(ResidualModelControlTpl<double>(s).get_nu() == (size_t)nv, "default controls");
    near(ResidualModelControlTpl<double>(s, (size_t)nu).get_reference(), V(V::Zero(nu)), "default reference");
    CostModelResidualTpl<double> c(s, r); DataCollectorAbstractTpl<double> dc; auto d = c.createData(&dc);
    if (R.b()) { ref = R.v(nu); r->set_reference(ref); }
    throws([&] { r->set_reference(V::Zero(nu + 1)); }, "reference size"); near(r->get_reference(), ref, "reference");
    V x = rand_state(R, *s), u = R.v(nu);
    c.calc(d, x, u); c.calcDiff(d, x, u);
    near(d->residual->r, V(u - ref), "control residual"); near(d->cost, 0.5 * (u - ref).squaredNorm(), "control cost"); near(d->Lu, V(u - ref), "control Lu"); near(d->Luu, M(M::Identity(nu, nu)), "control Luu");
    near(d->Lx, V(V::Zero(ndx)), "control Lx"); near(d->Lxx, M(M::Zero(ndx, ndx)), "control Lxx"); near(d->Lxu, M(M::Zero(ndx, nu)), "control Lxu");
    c.calc(d, x); c.calcDiff(d, x); near(d->cost, 0., "terminal cost"); near(d->Lx, V(V::Zero(ndx)), "terminal Lx"); near(d->Lxx, M(M::Zero(ndx, ndx)), "terminal Lxx");
  }
  auto jd = std::make_shared<JointDataAbstractTpl<double>>(s, am, nu);
  jd->tau = R.v(na); jd->a = R.v(nv); jd->dtau_dx = R.m(na, ndx); jd->dtau_du = R.m(na, nu); jd->da_dx = R.m(nv, ndx); jd->da_du = R.m(nv, nu);
  DataCollectorJointTpl<double> dj(jd);
  V x = rand_state(R, *s), u = R.v(nu);
  for (int fw = 0; fw < 2; ++fw) {
    V ref = R.v(na); auto r = std::make_shared<ResidualModelJointEffortTpl<double>>(s, am, ref, nu, fw == 1);
    expect(r->get_q_dependent() == !fw && r->get_v_dependent() == !fw && r->get_u_dependent() && r->get_nr() == (size_t)na, "effort dependencies");
    CostModelResidualTpl<double> c(s, r); auto d = c.createData(&dj);
    c.calc(d, x, u); c.calcDiff(d, x, u); V e = jd->tau - ref; M Rx = fw ? M(M::Zero(na, ndx)) : jd->dtau_dx;
    near(d->residual->r, e, "effort residual"); near(d->Lx, V(Rx.transpose() * e), "effort Lx"); near(d->Lu, V(jd->dtau_du.transpose() * e), "effort Lu"); near(d->Lxx, M(Rx.transpose() * Rx), "effort Lxx");
    c.calc(d, x); c.calcDiff(d, x); near(d->cost, fw ? 0. : 0.5 * e.squaredNorm(), "effort terminal"); near(d->Lx, V(Rx.transpose() * e), "effort terminal Lx");
    throws([&] { r->set_reference(V::Zero(na + 1)); }, "reference size");
  }
  {
    alignas(64) static char mem[sizeof(ResidualModelJointEffortTpl<double>)]; std::memset(mem, 1, sizeof mem);
    auto* r = new (mem) ResidualModelJointEffortTpl<double>(s, am); expect(!r->fwddyn_, "dynamics flag"); r->~ResidualModelJointEffortTpl();
  }
  V ref = R.v(nv); auto r = std::make_shared<ResidualModelJointAccelerationTpl<double>>(s, ref, nu);
  auto d = r->createData(&dj); r->calc(d, x, u); r->calcDiff(d, x, u);
  near(d->r, V(jd->a - ref), "acceleration"); near(d->Rx, jd->da_dx, "acceleration Rx"); near(d->Ru, jd->da_du, "acceleration Ru");
  r->calc(d, x); near(d->r, V(V::Zero(nv)), "terminal acceleration");
  throws([&] { r->set_reference(V::Zero(nv + 1)); }, "reference size"); throws([&] { ResidualModelJointAccelerationTpl<double> q(s, V(V::Zero(nv + 1)), nu); }, "reference size");
}
