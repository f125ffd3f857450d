#include "h.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
using namespace H; using namespace crocoddyl;
typedef SquashingModelSmoothSatTpl<double> SQ;
typedef ActuationModelAbstractTpl<double> AM;
typedef ActuationDataAbstractTpl<double> AD;
// tau = (A + |x|^2 B) f(u) + C x, an actuation that depends on the state and is non-linear in the control
struct Act : AM {
  M A, B, C;
  Act(std::shared_ptr<StateAbstractTpl<double>> s, const M& a, const M& b, const M& c) : AM(s, a.cols()), A(a), B(b), C(c) {}
  using AM::calc; using AM::calcDiff;
  void calc(const std::shared_ptr<AD>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { d->tau = (A + x.squaredNorm() * B) * u.array().cube().matrix() + C * x; for (size_t k = 0; k < d->tau_set.size(); ++k) d->tau_set[k] = k % 2 == 0; }
  void calcDiff(const std::shared_ptr<AD>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override {
    d->dtau_du = (A + x.squaredNorm() * B) * (3 * u.array().square()).matrix().asDiagonal();
    d->dtau_dx = C + B * u.array().cube().matrix() * 2 * x.transpose();
  }
  void commands(const std::shared_ptr<AD>&, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override {}
  std::shared_ptr<ActuationModelBase> cloneAsDouble() const override { return std::shared_ptr<ActuationModelBase>(); }
  std::shared_ptr<ActuationModelBase> cloneAsFloat() const override { return std::shared_ptr<ActuationModelBase>(); }
};
static double sat(double s, double l, double u, double sm) { double a = std::pow(sm * (u - l), 2); return 0.5 * (l + u + std::sqrt(a + (s - l) * (s - l)) - std::sqrt(a + (s - u) * (s - u))); }
CASE(saturation, 600) {
  long n = R.i(1, 5); V l = R.v(n, 2.), w = R.v(n), u(n); double sm = 0.1;
  for (long i = 0; i < n; ++i) u[i] = l[i] + 0.1 + 3 * std::fabs(w[i]);
  SQ m(l, u, n);
  near(m.get_s_lb(), l, "input lower bound"); near(m.get_s_ub(), u, "input upper bound"); near(m.get_smooth(), 0.1, "default smoothness");
  auto d = m.createData(), d2 = m.createData();
  for (int rep = 0; rep < 5; ++rep) {
    if (R.b()) { sm = R.u(0.01, 0.5); m.set_smooth(sm); near(m.get_smooth(), sm, "smoothness"); near(m.get_d(), V(sm * (u - l)), "width"); near(m.get_s_lb(), l, "lower"); near(m.get_s_ub(), u, "upper"); }
    if (R.b()) { V a = R.v(n), b = R.v(n); m.set_s_lb(a); m.set_s_ub(b); near(m.get_s_lb(), a, "lower"); near(m.get_s_ub(), b, "upper"); }
    if (R.b(0.2)) { throws([&] { m.set_smooth(-R.u(0.1, 1.)); }, "negative smoothness"); near(m.get_smooth(), sm, "smoothness after rejection"); }
    V s = R.v(n, R.b() ? 1. : 20.);
    auto q = R.b() ? d : d2;
    m.calc(q, s); m.calcDiff(q, s);
    M J = M::Zero(n, n); V e(n);
    for (long i = 0; i < n; ++i) {
      double a = std::pow(sm * (u[i] - l[i]), 2), x = s[i] - l[i], y = s[i] - u[i];
      e[i] = sat(s[i], l[i], u[i], sm); J(i, i) = 0.5 * (x / std::sqrt(a + x * x) - y / std::sqrt(a + y * y));
      expect(q->u[i] > l[i] && q->u[i] < u[i], "leaves the limits");
    }
    near(q->u, e, "saturation"); near(q->du_ds, J, "derivative");
  }
  throws([&] { SQ x(V(0), V(0), 0); }, "no inputs");
}
CASE(composition, 400) {
  long n = R.i(1, 4), nv = R.i(1, 4), nx = 2 * nv;
  auto st = std::make_shared<StateVectorTpl<double>>(nx);
  V l = R.v(n, 2.), u = l + V::Constant(n, R.u(0.5, 3.));
  auto sq = std::make_shared<SQ>(l, u, n);
  auto ac = std::make_shared<Act>(st, R.m(nv, n), R.m(nv, n), R.m(nv, nx));
  ActuationSquashingModelTpl<double> m(ac, sq, n);
  auto d = m.createData(); auto da = ac->createData();
  expect(m.get_nu() == (size_t)n, "controls");
  for (int rep = 0; rep < 3; ++rep) {
    V x = R.v(nx), s = R.v(n, 3.), c(n); V J(n);
    for (long i = 0; i < n; ++i) {
      double a = std::pow(0.1 * (u[i] - l[i]), 2), p = s[i] - l[i], q = s[i] - u[i];
      c[i] = sat(s[i], l[i], u[i], 0.1); J[i] = 0.5 * (p / std::sqrt(a + p * p) - q / std::sqrt(a + q * q));
    }
    ac->calc(da, x, c); ac->calcDiff(da, x, c);
    m.calc(d, x, s); near(d->tau, da->tau, "torques"); expect(d->tau_set == da->tau_set, "actuated joints");
    m.calcDiff(d, x, s); near(d->dtau_du, M(da->dtau_du * J.asDiagonal()), "control Jacobian"); near(d->dtau_dx, da->dtau_dx, "state Jacobian"); near(d->tau, da->tau, "torques kept");
  }
}
