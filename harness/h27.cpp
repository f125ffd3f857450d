#include "integ.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
using namespace H; using namespace crocoddyl;
struct Bytes { std::vector<double> a; template <class D> void put(const Eigen::MatrixBase<D>& m) { M z = m; a.insert(a.end(), z.data(), z.data() + z.size()); } void put(double x) { a.push_back(x); } };
static bool same(const Bytes& p, const Bytes& q) { return p.a.size() == q.a.size() && (p.a.empty() || !std::memcmp(p.a.data(), q.a.data(), 8 * p.a.size())); }
template <class D> static void core(Bytes& b, const D& d) { b.put(d.cost); b.put(d.Lx); b.put(d.Lu); b.put(d.Lxx); b.put(d.Lxu); b.put(d.Luu); }
template <class D> static void cons(Bytes& b, const D& d) { b.put(d.g); b.put(d.h); b.put(d.Gx); b.put(d.Gu); b.put(d.Hx); b.put(d.Hu); }
static Bytes snap(const ActionDataAbstractTpl<double>& d) { Bytes b; core(b, d); cons(b, d); b.put(d.xnext); b.put(d.Fx); b.put(d.Fu); b.put(d.r); return b; }
static Bytes snap(const DifferentialActionDataAbstractTpl<double>& d) { Bytes b; core(b, d); cons(b, d); b.put(d.xout); b.put(d.Fx); b.put(d.Fu); b.put(d.r); return b; }
static Bytes snap(const CostDataSumTpl<double>& d) { Bytes b; core(b, d); return b; }
static Bytes snap(const ConstraintDataManagerTpl<double>& d) { Bytes b; cons(b, d); return b; }
static Bytes snap(const ActivationDataAbstractTpl<double>& d) { Bytes b; b.put(d.a_value); b.put(d.Ar); b.put(M(d.Arr)); return b; }
static Bytes snap(const ActuationDataAbstractTpl<double>& d) { Bytes b; b.put(d.tau); b.put(d.u); b.put(d.dtau_dx); b.put(d.dtau_du); b.put(d.Mtau); return b; }
static Bytes snap(const ControlParametrizationDataAbstractTpl<double>& d) { Bytes b; b.put(d.w); b.put(d.u); b.put(d.dw_du); return b; }
static long other(Rng& R, long n) { long k = n + (n > 0 && R.b() ? -(long)R.i(1, (int)n) : R.i(1, 3)); return k; }
/// evaluations of (x, u) with every combination of right and wrong sizes
template <class Mo, class Da> static void evals(Rng& R, Mo& m, const std::shared_ptr<Da>& d, long nx, long nu, const V& x, const V& u, bool run = true, bool term = true) {
  for (int rep = 0; rep < 3; ++rep) {
    if (run) { nothrow([&] { m.calc(d, x, u); m.calcDiff(d, x, u); }, "correct sizes"); }
    for (int k = 1; k < 4; ++k) {
      V a = k & 1 ? V(R.v(other(R, nx))) : x, b = k & 2 ? V(R.v(other(R, nu))) : u; Bytes s = snap(*d);
      if (run) {
        throws([&] { m.calc(d, a, b); }, "calc with wrong sizes"); expect(same(s, snap(*d)), "calc rejected after writing");
        throws([&] { m.calcDiff(d, a, b); }, "calcDiff with wrong sizes"); expect(same(s, snap(*d)), "calcDiff rejected after writing");
      }
      if (term && k == 1) {
        throws([&] { m.calc(d, a); }, "terminal calc with wrong sizes"); expect(same(s, snap(*d)), "terminal calc rejected after writing");
        throws([&] { m.calcDiff(d, a); }, "terminal calcDiff with wrong sizes"); expect(same(s, snap(*d)), "terminal calcDiff rejected after writing");
      }
    }
    if (term) nothrow([&] { m.calc(d, x); m.calcDiff(d, x); }, "correct terminal sizes");
  }
}
template <class Mo, class Da> static void quasi(Rng& R, Mo& m, const std::shared_ptr<Da>& d, long nx, long nu, const V& x) {
  for (int k = 1; k < 4; ++k) {
    V a = k & 1 ? V(R.v(other(R, nx))) : x, b = V(R.v(k & 2 ? other(R, nu) : nu)), b0 = b; Bytes s = snap(*d);
    throws([&] { m.quasiStatic(d, b, a); }, "quasiStatic with wrong sizes"); expect(same(s, snap(*d)) && b == b0, "quasiStatic rejected after writing");
  }
  V b = V(R.v(nu)); nothrow([&] { m.quasiStatic(d, b, x); }, "quasiStatic with correct sizes");
}
CASE(actions, 500) {
  int k = it % 7;
  if (k == 0) { long nx = R.i(1, 4), nu = R.i(1, 3); auto m = ActionModelLQRTpl<double>::Random(nx, nu, R.i(0, 2), R.i(0, 2)); auto d = m.createData(); evals(R, m, d, nx, nu, R.v(nx), R.v(nu)); quasi(R, m, d, nx, nu, V::Zero(nx)); }
  if (k == 1) { long nq = R.i(1, 3), nu = R.i(1, 3); auto m = DifferentialActionModelLQRTpl<double>::Random(nq, nu, R.i(0, 2), R.i(0, 2)); auto d = m.createData(); evals(R, m, d, 2 * nq, nu, R.v(2 * nq), R.v(nu)); quasi(R, m, d, 2 * nq, nu, V::Zero(2 * nq)); }
  if (k == 2) { ActionModelUnicycleTpl<double> m; auto d = m.createData(); evals(R, m, d, 3, 2, R.v(3), R.v(2)); }
  if (k == 3 || k == 4) {
    auto c = rand_cont(R); int kind = 0; auto ctl = rand_ctrl(R, c->nw, kind); long n = c->get_state()->get_nx(); V x = R.v(n), x0 = x; x0.tail(c->get_state()->get_nv()).setZero();
    if (k == 3) { IntegratedActionModelEulerTpl<double> m(c, ctl, 0.1, R.b()); auto d = m.createData(); evals(R, m, d, n, m.get_nu(), x, R.v(m.get_nu())); quasi(R, m, d, n, m.get_nu(), x0); }
    else { int ns = R.i(2, 4); RKType ty = ns == 2 ? two : ns == 3 ? three : four; IntegratedActionModelRKTpl<double> m(c, ctl, ty, 0.1, R.b()); auto d = m.createData(); evals(R, m, d, n, m.get_nu(), x, R.v(m.get_nu())); quasi(R, m, d, n, m.get_nu(), x0); }
  }
  if (k == 5) { long nx = R.i(1, 3), nu = R.i(1, 3); auto a = std::make_shared<ActionModelLQRTpl<double>>(ActionModelLQRTpl<double>::Random(nx, nu, 1, 1)); ActionModelNumDiffTpl<double> m(a, R.b()); auto d = m.createData(); evals(R, m, d, nx, nu, R.v(nx), R.v(nu)); }
  if (k == 6) { long nq = R.i(1, 3), nu = R.i(1, 3); auto a = std::make_shared<DifferentialActionModelLQRTpl<double>>(DifferentialActionModelLQRTpl<double>::Random(nq, nu, 1, 1)); DifferentialActionModelNumDiffTpl<double> m(a, false); auto d = m.createData(); evals(R, m, d, 2 * nq, nu, R.v(2 * nq), R.v(nu)); }
}
struct Cost : CostModelAbstractTpl<double> {
  typedef CostDataAbstractTpl<double> CDt; typedef CostModelAbstractTpl<double> CM;
  Cost(StateP s, long nu) : CM(s, std::make_shared<ActivationModelQuadTpl<double>>(1), nu) {}
  using CM::calc; using CM::calcDiff;
  void calc(const std::shared_ptr<CDt>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { d->cost = x.sum() + u.sum(); }
  void calc(const std::shared_ptr<CDt>& d, const Eigen::Ref<const V>& x) override { d->cost = x.sum(); }
  void calcDiff(const std::shared_ptr<CDt>& d, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override { d->Lx.setOnes(); d->Lu.setOnes(); d->Lxx.setOnes(); d->Lxu.setOnes(); d->Luu.setOnes(); }
  void calcDiff(const std::shared_ptr<CDt>& d, const Eigen::Ref<const V>&) override { d->Lx.setOnes(); d->Lxx.setOnes(); }
  std::shared_ptr<CostModelBase> cloneAsDouble() const override { return std::shared_ptr<CostModelBase>(); }
  std::shared_ptr<CostModelBase> cloneAsFloat() const override { return std::shared_ptr<CostModelBase>(); }
};
struct Con : ConstraintModelAbstractTpl<double> {
  typedef ConstraintModelAbstractTpl<double> KM; typedef ConstraintDataAbstractTpl<double> KD;
  Con(StateP s, long nu, long ng, long nh) : KM(s, (size_t)nu, (size_t)ng, (size_t)nh, true) { lb_ = -V::Ones(ng); ub_ = V::Ones(ng); }
  using KM::calc; using KM::calcDiff;
  void put(const std::shared_ptr<KD>& d) { d->g.setOnes(); d->h.setOnes(); }
  void calc(const std::shared_ptr<KD>& d, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override { put(d); }
  void calc(const std::shared_ptr<KD>& d, const Eigen::Ref<const V>&) override { put(d); }
  void calcDiff(const std::shared_ptr<KD>& d, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override { d->Gx.setOnes(); d->Hx.setOnes(); d->Gu.setOnes(); d->Hu.setOnes(); }
  void calcDiff(const std::shared_ptr<KD>& d, const Eigen::Ref<const V>&) override { d->Gx.setOnes(); d->Hx.setOnes(); }
  std::shared_ptr<ConstraintModelBase> cloneAsDouble() const override { return std::shared_ptr<ConstraintModelBase>(); }
  std::shared_ptr<ConstraintModelBase> cloneAsFloat() const override { return std::shared_ptr<ConstraintModelBase>(); }
};
struct Act : ActuationModelAbstractTpl<double> {
  typedef ActuationModelAbstractTpl<double> AM; typedef ActuationDataAbstractTpl<double> AD;
  Act(StateP s, long nu) : AM(s, nu) {}
  void calc(const std::shared_ptr<AD>& d, const Eigen::Ref<const V>&, const Eigen::Ref<const V>& u) override { d->tau.setConstant(u.sum()); }
  void calcDiff(const std::shared_ptr<AD>& d, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override { d->dtau_du.setOnes(); d->dtau_dx.setOnes(); }
  void commands(const std::shared_ptr<AD>&, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override {}
  std::shared_ptr<ActuationModelBase> cloneAsDouble() const override { return std::shared_ptr<ActuationModelBase>(); }
  std::shared_ptr<ActuationModelBase> cloneAsFloat() const override { return std::shared_ptr<ActuationModelBase>(); }
};
CASE(collections, 400) {
  auto s = rand_space(R, 1, 4, true); long nu = R.i(1, 3), nx = s->get_nx(); V x = rand_state(R, *s), u = R.v(nu);
  DataCollectorAbstractTpl<double> dc;
  CostModelSumTpl<double> m(s, nu); ConstraintModelManagerTpl<double> q(s, nu);
  for (int k = R.i(0, 3); k > 0; --k) m.addCost("c" + std::to_string(k), std::make_shared<Cost>(s, nu), R.u(0., 2.), R.b());
  for (int k = R.i(0, 3); k > 0; --k) q.addConstraint("k" + std::to_string(k), std::make_shared<Con>(s, nu, R.i(0, 2), R.i(1, 2)), R.b());
  auto d = m.createData(&dc); auto e = q.createData(&dc);
  e->resize(&q);
  evals(R, m, d, nx, nu, x, u); evals(R, q, e, nx, nu, x, u);
  // data of another collection
  m.addCost("extra", std::make_shared<Cost>(s, nu), 1.); auto b = snap(*d);
  throws([&] { m.calc(d, x, u); }, "cost data of another collection"); throws([&] { m.calcDiff(d, x, u); }, "cost data of another collection"); throws([&] { m.calc(d, x); }, "cost data of another collection"); throws([&] { m.calcDiff(d, x); }, "cost data of another collection");
  expect(same(b, snap(*d)), "other data written");
  q.addConstraint("extra", std::make_shared<Con>(s, nu, 1, 1)); auto c = snap(*e);
  throws([&] { q.calc(e, x, u); }, "constraint data of another collection"); throws([&] { q.calcDiff(e, x, u); }, "constraint data of another collection"); throws([&] { q.calc(e, x); }, "constraint data of another collection"); throws([&] { q.calcDiff(e, x); }, "constraint data of another collection");
  expect(same(c, snap(*e)), "other data written");
  Act a(s, nu); auto ad = a.createData();
  for (int k = 1; k < 4; ++k) {
    V xx = k & 1 ? V(R.v(other(R, nx))) : x, uu = k & 2 ? V(R.v(other(R, nu))) : u; auto s0 = snap(*ad);
    throws([&] { a.torqueTransform(ad, xx, uu); }, "torque transform with wrong sizes"); expect(same(s0, snap(*ad)), "torque transform rejected after writing");
  }
  nothrow([&] { a.torqueTransform(ad, x, u); }, "torque transform with correct sizes");
}
CASE(activations, 500) {
  long n = R.i(1, 5); V w = R.v(n).cwiseAbs(), lb = R.v(n), ub = lb + V::Ones(n); std::shared_ptr<ActivationModelAbstractTpl<double>> m; ActivationBoundsTpl<double> bd(lb, ub);
  switch (it % 9) {
    case 0: m = std::make_shared<ActivationModelQuadTpl<double>>(n); break;
    case 1: m = std::make_shared<ActivationModelWeightedQuadTpl<double>>(w); break;
    case 2: m = std::make_shared<ActivationModelQuadFlatLogTpl<double>>(n, 0.5); break;
    case 3: m = std::make_shared<ActivationModelQuadFlatExpTpl<double>>(n, 0.5); break;
    case 4: m = std::make_shared<ActivationModelSmooth1NormTpl<double>>(n, 0.5); break;
    case 5: m = std::make_shared<ActivationModelSmooth2NormTpl<double>>(n, 0.5); break;
    case 6: m = std::make_shared<ActivationModel2NormBarrierTpl<double>>(n, 0.5, R.b()); break;
    case 7: m = std::make_shared<ActivationModelQuadraticBarrierTpl<double>>(bd); break;
    default: m = std::make_shared<ActivationModelWeightedQuadraticBarrierTpl<double>>(bd, w); break;
  }
  auto d = m->createData();
  for (int rep = 0; rep < 3; ++rep) {
    V r = R.v(n); nothrow([&] { m->calc(d, r); m->calcDiff(d, r); }, "correct size"); V q = R.v(other(R, n)); auto s = snap(*d);
    throws([&] { m->calc(d, q); }, "calc of another size"); throws([&] { m->calcDiff(d, q); }, "calcDiff of another size"); expect(same(s, snap(*d)), "rejected after writing");
  }
}
CASE(parametrisations, 400) {
  int kind = 0; long nw = R.i(1, 4); auto m = rand_ctrl(R, nw, kind); long nu = m->get_nu(); auto d = m->createData(); double t = R.u(0., 1.);
  nothrow([&] { m->calc(d, t, R.v(nu)); m->calcDiff(d, t, R.v(nu)); m->params(d, t, R.v(nw)); m->calc(d, t, R.v(nu)); }, "correct sizes");
  auto s = snap(*d);
  throws([&] { m->calc(d, t, R.v(other(R, nu))); }, "parameters of another size"); throws([&] { m->params(d, t, R.v(other(R, nw))); }, "control of another size");
  for (int k = 0; k < 16; ++k) {
    V a = R.v(k & 1 ? other(R, nw) : nw), b = R.v(k & 2 ? other(R, nw) : nw), e = R.v(k & 4 ? other(R, nu) : nu), f = R.v(k & 8 ? other(R, nu) : nu), e0 = e, f0 = f;
    if (k) { throws([&] { m->convertBounds(a, b, e, f); }, "bounds of another size"); expect(e == e0 && f == f0, "bounds written"); } else nothrow([&] { m->convertBounds(a, b, e, f); }, "correct bounds");
  }
  AssignmentOp op = R.b() ? setto : R.b() ? addto : rmfrom; long r = R.i(1, 3);
  for (int k = 0; k < 8; ++k) {
    M A = R.m(r, k & 1 ? other(R, nw) : nw), O = R.m(k & 2 ? other(R, r) : r, k & 4 ? other(R, nu) : nu), O0 = O;
    if (k) { throws([&] { m->multiplyByJacobian(d, A, O, op); }, "product of another size"); expect(O == O0, "product written"); } else nothrow([&] { m->multiplyByJacobian(d, A, O, op); }, "correct product");
    M B = R.m(k & 1 ? other(R, nw) : nw, r), Q = R.m(k & 4 ? other(R, nu) : nu, k & 2 ? other(R, r) : r), Q0 = Q;
    if (k) { throws([&] { m->multiplyJacobianTransposeBy(d, B, Q, op); }, "transposed product of another size"); expect(Q == Q0, "transposed product written"); } else nothrow([&] { m->multiplyJacobianTransposeBy(d, B, Q, op); }, "correct transposed product");
  }
  expect(same(s, snap(*d)), "data written");
}
CASE(vector_state, 400) {
  long n = R.i(1, 6); StateVectorTpl<double> s(n);
  for (int k = 0; k < 8; ++k) {
    V a = R.v(k & 1 ? other(R, n) : n), b = R.v(k & 2 ? other(R, n) : n), o = R.v(k & 4 ? other(R, n) : n), o0 = o;
    if (k) { throws([&] { s.integrate(a, b, o); }, "integrate"); expect(o == o0, "integrate wrote"); throws([&] { s.diff(a, b, o); }, "diff"); expect(o == o0, "diff wrote"); }
    else nothrow([&] { s.integrate(a, b, o); s.diff(a, b, o); }, "correct sizes");
  }
  V x = R.v(n), y = R.v(n);
  for (int c = 0; c < 3; ++c) for (int k = 0; k < 16; ++k) {
    Jcomponent jc = c == 0 ? both : c == 1 ? first : second; M J = R.m(k & 1 ? other(R, n) : n, k & 2 ? other(R, n) : n), K = R.m(k & 4 ? other(R, n) : n, k & 8 ? other(R, n) : n);
    bool bad = (c != 2 && (k & 3)) || (c != 1 && (k & 12));
    if (bad) { throws([&] { s.Jdiff(x, y, J, K, jc); }, "Jdiff"); throws([&] { s.Jintegrate(x, y, J, K, jc, setto); }, "Jintegrate"); }
    else nothrow([&] { s.Jdiff(x, y, J, K, jc); s.Jintegrate(x, y, J, K, jc, setto); }, "correct sizes");
  }
}
