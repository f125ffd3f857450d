#include "models.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#ifndef NDEBUG
#define NDEBUG 1   // as in the release configuration: the second-difference blocks are compiled (assertions of Eigen stay on)
#endif
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
using namespace H; using namespace crocoddyl;
#define CLONES(B) std::shared_ptr<B> cloneAsDouble() const override { return std::shared_ptr<B>(); } std::shared_ptr<B> cloneAsFloat() const override { return std::shared_ptr<B>(); }
typedef const Eigen::Ref<const V>& CV;
// a random nonlinear map of the state (through its tangent coordinates) and the control
struct Fun {
  M A, B, C; V a; StateP s; double k;
  Fun(Rng& R, StateP s_, long n, long nu) : A(R.m(n, s_->get_ndx())), B(R.m(n, nu)), C(R.m(n, s_->get_ndx())), a(R.v(n)), s(s_), k(R.u(0.3, 1.)) {}
  V at(const V& x, const V& u) const { V d = tangent(*s, x), z = A * d + B * u; return z + a + k * (C * d).array().sin().matrix() + 0.5 * z.array().square().matrix(); }
  V at(const V& x) const { V d = tangent(*s, x); return 2 * A * d - a + k * (C * d).array().cos().matrix(); }
};
static V unit(long n, long k, double h) { V e = V::Zero(n); e[k] = h; return e; }
struct Nd {   // the oracle: forward differences with the documented disturbances
  StateP s; V x, u; double e, hx, hu;
  Nd(StateP s_, const V& x_, const V& u_, double e_) : s(s_), x(x_), u(u_), e(e_) { hx = e * std::max(1., tangent(*s, x).norm()); hu = e * std::max(1., u.norm()); }
  V move(const V& d) const { V o(s->get_nx()); s->integrate(x, d, o); return o; }
  template <class F> M jx(F f, long n) const { V f0 = f(x, u); M o(n, s->get_ndx()); for (long k = 0; k < o.cols(); ++k) o.col(k) = (f(move(unit(o.cols(), k, hx)), u) - f0) / hx; return o; }
  template <class F> M ju(F f, long n) const { V f0 = f(x, u); M o(n, u.size()); for (long k = 0; k < o.cols(); ++k) o.col(k) = (f(x, V(u + unit(u.size(), k, hu))) - f0) / hu; return o; }
};
static double E(Rng& R) { return R.u(0.01, 0.3); }
template <class N> void disturb(Rng& R, N& n, double& e) {
  near(n.get_disturbance(), std::sqrt(2 * std::numeric_limits<double>::epsilon()), "default disturbance");
  e = E(R); n.set_disturbance(e); near(n.get_disturbance(), e, "disturbance");
  throws([&] { n.set_disturbance(-R.u(1e-3, 1.)); }, "negative disturbance"); near(n.get_disturbance(), e, "disturbance after rejection");
}
// second differences of a scalar map
template <class F> void hess(F f, const Nd& o, double e, M& xx, M& xu, M& uu) {
  double eh = std::sqrt(2 * e), hx = eh * std::max(1., tangent(*o.s, o.x).norm()), hu = eh * std::max(1., o.u.norm());
  long n = o.s->get_ndx(), m = o.u.size(); xx = M(n, n); xu = M(n, m); uu = M(m, m); double c = f(o.x, o.u);
  auto X = [&](long i, double a, long j, double b) { return o.move(V(unit(n, i, a) + unit(n, j, b))); };
  auto U = [&](long i, double a, long j, double b) { return V(o.u + unit(m, i, a) + unit(m, j, b)); };
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) xx(i, j) = i == j ? (f(X(i, hx, i, 0), o.u) - 2 * c + f(X(i, -hx, i, 0), o.u)) / (hx * hx) : (f(X(i, hx, j, hx), o.u) - f(X(i, hx, j, 0), o.u) - f(X(i, 0, j, hx), o.u) + c) / (hx * hx);
  for (long i = 0; i < m; ++i) for (long j = 0; j < m; ++j) uu(i, j) = i == j ? (f(o.x, U(i, hu, i, 0)) - 2 * c + f(o.x, U(i, -hu, i, 0))) / (hu * hu) : (f(o.x, U(i, hu, j, hu)) - f(o.x, U(i, hu, j, 0)) - f(o.x, U(i, 0, j, hu)) + c) / (hu * hu);
  for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) xu(i, j) = (f(X(i, hx, i, 0), U(j, hu, j, 0)) - f(X(i, hx, i, 0), U(j, -hu, j, 0)) - f(X(i, -hx, i, 0), U(j, hu, j, 0)) + f(X(i, -hx, i, 0), U(j, -hu, j, 0))) / (4 * hx * hu);
}
static const double TOL = 1e-7;

typedef ActionDataAbstractTpl<double> AD;
struct Act : RandModel {
  Fun r;
  Act(Rng& R, StateP s, long nu, long ng, long nh, long gT, long hT) : RandModel(R, s, nu, ng, nh, gT, hT), r(R, s, 1, nu) {}
  void calc(const std::shared_ptr<AD>& d, CV x, CV u) override { d->g.resize(ng_); d->h.resize(nh_); RandModel::calc(d, x, u); d->r = r.at(x, u); }
  void calc(const std::shared_ptr<AD>& d, CV x) override { d->g.resize(ng_T_); d->h.resize(nh_T_); RandModel::calc(d, x); d->r = r.at(x); }
};
CASE(action, 300) {
  auto s = rand_space(R, 1, 4); long nu = R.i(1, 3), ng = R.i(0, 2), nh = R.i(0, 2), gT = R.i(0, 2), hT = R.i(0, 2), ndx = s->get_ndx(); bool gn = R.b(); double e;
  auto m = std::make_shared<Act>(R, s, nu, ng, nh, gT, hT);
  ActionModelNumDiffTpl<double> n(m, gn); disturb(R, n, e);
  auto d = n.createData();
  for (int rep = 0; rep < 3; ++rep) {
    V x = rand_state(R, *s), u = R.v(nu, 2.); Nd o(s, x, u, e);
    if (rep == 1) {
      n.calc(d, x); n.calcDiff(d, x);
      V z = V::Zero(nu); near(d->cost, m->costT(x), "terminal cost"); near(d->xnext, x, "terminal xnext");
      near(V(d->Lx), V(o.jx([&](const V& a, const V&) { return V::Constant(1, m->costT(a)); }, 1).transpose()), "terminal Lx", TOL);
      near(d->g, V(m->gv(tangent(*s, x), z).head(gT)), "terminal g"); near(d->h, V(m->hv(tangent(*s, x), z).head(hT)), "terminal h");
      near(M(d->Gx), o.jx([&](const V& a, const V&) { return V(m->gv(tangent(*s, a), z).head(gT)); }, gT), "terminal Gx", TOL);
      near(M(d->Hx), o.jx([&](const V& a, const V&) { return V(m->hv(tangent(*s, a), z).head(hT)); }, hT), "terminal Hx", TOL);
      M xx, xu, uu; hess([&](const V& a, const V&) { return m->costT(a); }, o, e, xx, xu, uu);
      if (gn) { M J = o.jx([&](const V& a, const V&) { return m->r.at(a); }, 1); xx = J.transpose() * J; }
      near(M(d->Lxx), xx, "terminal Lxx", TOL); continue;
    }
    n.calc(d, x, u); n.calcDiff(d, x, u);
    near(d->cost, m->cost(x, u), "cost"); near(d->xnext, m->step(x, u), "xnext"); near(d->g, V(m->g_at(x, u).head(ng)), "g"); near(d->h, V(m->h_at(x, u).head(nh)), "h");
    auto F = [&](const V& a, const V& b) { V q(ndx); s->diff(m->step(x, u), m->step(a, b), q); return q; };
    near(M(d->Fx), o.jx(F, ndx), "Fx", TOL); near(M(d->Fu), o.ju(F, ndx), "Fu", TOL);
    auto C = [&](const V& a, const V& b) { return V::Constant(1, m->cost(a, b)); };
    near(V(d->Lx), V(o.jx(C, 1).transpose()), "Lx", TOL); near(V(d->Lu), V(o.ju(C, 1).transpose()), "Lu", TOL);
    auto G = [&](const V& a, const V& b) { return V(m->g_at(a, b).head(ng)); }; auto Hh = [&](const V& a, const V& b) { return V(m->h_at(a, b).head(nh)); };
    near(M(d->Gx), o.jx(G, ng), "Gx", TOL); near(M(d->Gu), o.ju(G, ng), "Gu", TOL); near(M(d->Hx), o.jx(Hh, nh), "Hx", TOL); near(M(d->Hu), o.ju(Hh, nh), "Hu", TOL);
    M xx, xu, uu; hess([&](const V& a, const V& b) { return m->cost(a, b); }, o, e, xx, xu, uu);
    if (gn) { auto Q = [&](const V& a, const V& b) { return m->r.at(a, b); }; M J = o.jx(Q, 1), K = o.ju(Q, 1); xx = J.transpose() * J; xu = J.transpose() * K; uu = K.transpose() * K; }
    near(M(d->Lxx), xx, "Lxx", TOL); near(M(d->Lxu), xu, "Lxu", TOL); near(M(d->Luu), uu, "Luu", TOL);
  }
}
typedef DifferentialActionModelAbstractTpl<double> DM; typedef DifferentialActionDataAbstractTpl<double> DD;
struct Dif : DM {
  Fun f, l, q, g, h;
  Dif(Rng& R, StateP s, long nu, long ng, long nh, long gT, long hT) : DM(s, nu, 2, ng, nh, gT, hT), f(R, s, (long)s->get_nv(), nu), l(R, s, 1, nu), q(R, s, 2, nu), g(R, s, 3, nu), h(R, s, 3, nu) {}
  void calc(const std::shared_ptr<DD>& d, CV x, CV u) override { d->xout = f.at(x, u); d->cost = l.at(x, u)[0]; d->r = q.at(x, u); d->g = g.at(x, u).head(ng_); d->h = h.at(x, u).head(nh_); }
  void calc(const std::shared_ptr<DD>& d, CV x) override { d->xout = f.at(x); d->cost = l.at(x)[0]; d->r = q.at(x); d->g = g.at(x).head(ng_T_); d->h = h.at(x).head(nh_T_); }
  void calcDiff(const std::shared_ptr<DD>&, CV, CV) override {}
  void calcDiff(const std::shared_ptr<DD>&, CV) override {}
  std::shared_ptr<DD> createData() override { return std::allocate_shared<DD>(Eigen::aligned_allocator<DD>(), this); }
  CLONES(DifferentialActionModelBase)
};
CASE(differential_action, 300) {
  auto s = rand_space(R, 2, 6, true); long nu = R.i(1, 3), ng = R.i(0, 3), nh = R.i(0, 3), gT = R.i(0, 3), hT = R.i(0, 3), nv = s->get_nv(); bool gn = R.b(); double e;
  auto m = std::make_shared<Dif>(R, s, nu, ng, nh, gT, hT);
  DifferentialActionModelNumDiffTpl<double> n(m, gn); disturb(R, n, e);
  auto d = n.createData();
  for (int rep = 0; rep < 3; ++rep) {
    V x = rand_state(R, *s), u = R.v(nu, 2.); Nd o(s, x, u, e); bool t = rep == 1; M xx, xu, uu;
    auto at = [&](Fun& f, long k) { return [&f, k, t](const V& a, const V& b) { return V((t ? f.at(a) : f.at(a, b)).head(k)); }; };
    if (t) { n.calc(d, x); n.calcDiff(d, x); } else { n.calc(d, x, u); n.calcDiff(d, x, u); }
    long Ng = t ? gT : ng, Nh = t ? hT : nh; std::string w = t ? "terminal " : "";
    near(d->cost, at(m->l, 1)(x, u)[0], w + "cost"); near(d->xout, at(m->f, nv)(x, u), w + "xout"); near(d->g, at(m->g, Ng)(x, u), w + "g"); near(d->h, at(m->h, Nh)(x, u), w + "h");
    near(V(d->Lx), V(o.jx(at(m->l, 1), 1).transpose()), w + "Lx", TOL); near(M(d->Gx), o.jx(at(m->g, Ng), Ng), w + "Gx", TOL); near(M(d->Hx), o.jx(at(m->h, Nh), Nh), w + "Hx", TOL);
    hess([&](const V& a, const V& b) { return at(m->l, 1)(a, b)[0]; }, o, e, xx, xu, uu);
    if (gn) { M J = o.jx(at(m->q, 2), 2), K = o.ju(at(m->q, 2), 2); xx = J.transpose() * J; xu = J.transpose() * K; uu = K.transpose() * K; }
    near(M(d->Lxx), xx, w + "Lxx", TOL);
    if (t) continue;
    near(M(d->Fx), o.jx(at(m->f, nv), nv), "Fx", TOL); near(M(d->Fu), o.ju(at(m->f, nv), nv), "Fu", TOL); near(V(d->Lu), V(o.ju(at(m->l, 1), 1).transpose()), "Lu", TOL);
    near(M(d->Gu), o.ju(at(m->g, ng), ng), "Gu", TOL); near(M(d->Hu), o.ju(at(m->h, nh), nh), "Hu", TOL); near(M(d->Lxu), xu, "Lxu", TOL); near(M(d->Luu), uu, "Luu", TOL);
  }
}
typedef ResidualModelAbstractTpl<double> RM; typedef ResidualDataAbstractTpl<double> RD;
typedef DataCollectorAbstractTpl<double> DC;
struct Res : RM {
  Fun f;
  Res(Rng& R, StateP s, long nr, long nu) : RM(s, (size_t)nr, (size_t)nu), f(R, s, nr, nu) {}
  void calc(const std::shared_ptr<RD>& d, CV x, CV u) override { d->r = f.at(x, u); }
  void calc(const std::shared_ptr<RD>& d, CV x) override { d->r = f.at(x); }
  CLONES(ResidualModelBase)
};
typedef ConstraintModelAbstractTpl<double> KM; typedef ConstraintDataAbstractTpl<double> KD;
struct Con : KM {
  Fun f, k;
  Con(Rng& R, StateP s, std::shared_ptr<RM> r, long ng, long nh, long nu) : KM(s, r, (size_t)ng, (size_t)nh), f(R, s, ng, nu), k(R, s, nh, nu) {}
  void calc(const std::shared_ptr<KD>& d, CV x, CV u) override { d->g = f.at(x, u); d->h = k.at(x, u); }
  void calc(const std::shared_ptr<KD>& d, CV x) override { d->g = f.at(x); d->h = k.at(x); }
  void calcDiff(const std::shared_ptr<KD>&, CV, CV) override {}
  void calcDiff(const std::shared_ptr<KD>&, CV) override {}
  CLONES(ConstraintModelBase)
};
CASE(residual_and_constraint, 400) {
  auto s = rand_space(R, 1, 4); long nu = R.i(1, 3), nr = R.i(1, 4), ng = R.i(0, 3), nh = R.i(ng ? 0 : 1, 3); double e, e2; DC dc;
  auto r = std::make_shared<Res>(R, s, nr, nu); auto k = std::make_shared<Con>(R, s, std::make_shared<Res>(R, s, ng + nh, nu), ng, nh, nu);
  ResidualModelNumDiffTpl<double> n(r); disturb(R, n, e); ConstraintModelNumDiffTpl<double> c(k); disturb(R, c, e2);
  V px, pu; long calls = 0;
  if (R.b()) { std::vector<ResidualModelNumDiffTpl<double>::ReevaluationFunction> v; v.push_back([&](const V& a, const V& b) { px = a; pu = b; ++calls; }); n.set_reevals(v); }
  auto d = n.createData(&dc); auto q = c.createData(&dc);
  for (int rep = 0; rep < 3; ++rep) {
    V x = rand_state(R, *s), u = R.v(nu, 2.); bool t = rep == 1; Nd o(s, x, u, e), o2(s, x, u, e2); std::string w = t ? "terminal " : "";
    auto at = [&](Fun& f) { return [&f, t](const V& a, const V& b) { return t ? f.at(a) : f.at(a, b); }; };
    if (t) { n.calc(d, x); n.calcDiff(d, x); c.calc(q, x); c.calcDiff(q, x); } else { n.calc(d, x, u); n.calcDiff(d, x, u); c.calc(q, x, u); c.calcDiff(q, x, u); }
    near(V(d->r), at(r->f)(x, u), w + "residual"); near(V(q->g), at(k->f)(x, u), w + "g"); near(V(q->h), at(k->k)(x, u), w + "h");
    near(M(d->Rx), o.jx(at(r->f), nr), w + "Rx", TOL); near(M(q->Gx), o2.jx(at(k->f), ng), w + "Gx", TOL); near(M(q->Hx), o2.jx(at(k->k), nh), w + "Hx", TOL);
    if (!t) { near(M(d->Ru), o.ju(at(r->f), nr), "Ru", TOL); near(M(q->Gu), o2.ju(at(k->f), ng), "Gu", TOL); near(M(q->Hu), o2.ju(at(k->k), nh), "Hu", TOL); }
  }
}
typedef CostModelAbstractTpl<double> CM; typedef CostDataAbstractTpl<double> CD;
struct Cost : CM {
  Fun l; std::shared_ptr<Res> r;
  Cost(Rng& R, StateP s, std::shared_ptr<ActivationModelAbstractTpl<double>> a, std::shared_ptr<Res> r_, long nu) : CM(s, a, r_), l(R, s, 1, nu), r(r_) {}
  void calc(const std::shared_ptr<CD>& d, CV x, CV u) override { r->calc(d->residual, x, u); d->cost = l.at(x, u)[0]; }
  void calc(const std::shared_ptr<CD>& d, CV x) override { r->calc(d->residual, x); d->cost = l.at(x)[0]; }
  void calcDiff(const std::shared_ptr<CD>&, CV, CV) override {}
  void calcDiff(const std::shared_ptr<CD>&, CV) override {}
  CLONES(CostModelBase)
};
CASE(cost, 300) {
  auto s = rand_space(R, 1, 4); long nu = R.i(1, 3), nr = R.i(1, 3); double e; DC dc;
  auto r = std::make_shared<Res>(R, s, nr, nu); auto a = std::make_shared<ActivationModelQuadTpl<double>>(nr);
  auto m = std::make_shared<Cost>(R, s, a, r, nu); CostModelNumDiffTpl<double> n(m); disturb(R, n, e); auto d = n.createData(&dc);
  for (int rep = 0; rep < 3; ++rep) {
    V x = rand_state(R, *s), u = R.v(nu, 2.); bool t = rep == 1; Nd o(s, x, u, e); std::string w = t ? "terminal " : "";
    if (t) o.hx = e * std::max(1., x.norm());
    auto at = [&](Fun& f) { return [&f, t](const V& p, const V& b) { return t ? f.at(p) : f.at(p, b); }; };
    if (t) { n.calc(d, x); n.calcDiff(d, x); } else { n.calc(d, x, u); n.calcDiff(d, x, u); }
    near(d->cost, at(m->l)(x, u)[0], w + "cost"); near(V(d->Lx), V(o.jx(at(m->l), 1).transpose()), w + "Lx", TOL); M J = o.jx(at(r->f), nr), K = o.ju(at(r->f), nr);
    near(M(d->Lxx), M(J.transpose() * J), w + "Lxx", TOL);
    if (!t) { near(V(d->Lu), V(o.ju(at(m->l), 1).transpose()), "Lu", TOL); near(M(d->Lxu), M(J.transpose() * K), "Lxu", TOL); near(M(d->Luu), M(K.transpose() * K), "Luu", TOL); }
  }
}
typedef ActuationModelAbstractTpl<double> UM; typedef ActuationDataAbstractTpl<double> UD;
struct Actu : UM {
  Fun f;
  Actu(Rng& R, StateP s, long nu) : UM(s, (size_t)nu), f(R, s, (long)s->get_nv(), nu) {}
  void calc(const std::shared_ptr<UD>& d, CV x, CV u) override { d->tau = f.at(x, u); }
  using UM::calc; using UM::calcDiff;
  void calcDiff(const std::shared_ptr<UD>&, CV, CV) override {}
  void commands(const std::shared_ptr<UD>&, CV, CV) override {}
  CLONES(ActuationModelBase)
};
typedef ActivationModelAbstractTpl<double> VM; typedef ActivationDataAbstractTpl<double> VD;
struct Acti : VM {
  V w; explicit Acti(Rng& R, long nr) : VM((size_t)nr), w(R.v(nr)) {}
  double f(const V& r) const { return std::sin(w.dot(r)) + r.array().cube().sum(); }
  void calc(const std::shared_ptr<VD>& d, CV r) override { d->a_value = f(r); }
  void calcDiff(const std::shared_ptr<VD>&, CV) override {}
  CLONES(ActivationModelBase)
};
typedef ControlParametrizationModelAbstractTpl<double> PM; typedef ControlParametrizationDataAbstractTpl<double> PD;
struct Ctl : PM {
  M A; explicit Ctl(Rng& R, long nw, long nu) : PM((size_t)nw, (size_t)nu), A(R.m(nw, nu)) {}
  V f(double t, const V& u) const { V z = A * u; return z + (1 + t) * z.array().sin().matrix(); }
  void calc(const std::shared_ptr<PD>& d, const double t, CV u) const override { d->w = f(t, u); }
  void calcDiff(const std::shared_ptr<PD>&, const double, CV) const override {}
  void params(const std::shared_ptr<PD>&, const double, CV) const override {}
  void convertBounds(CV, CV, Eigen::Ref<V>, Eigen::Ref<V>) const override {}
  void multiplyByJacobian(const std::shared_ptr<PD>&, const Eigen::Ref<const M>&, Eigen::Ref<M>, const AssignmentOp) const override {}
  void multiplyJacobianTransposeBy(const std::shared_ptr<PD>&, const Eigen::Ref<const M>&, Eigen::Ref<M>, const AssignmentOp) const override {}
  CLONES(ControlParametrizationModelBase)
};
CASE(actuation_activation_control, 400) {
  auto s = rand_space(R, 2, 6, true); long nu = R.i(1, 4), nv = s->get_nv(), nr = R.i(1, 4), nw = R.i(1, 4); double e, f, g;
  auto m = std::make_shared<Actu>(R, s, nu); ActuationModelNumDiffTpl<double> n(m); disturb(R, n, e); auto d = n.createData();
  auto am = std::make_shared<Acti>(R, nr); ActivationModelNumDiffTpl<double> an(am); disturb(R, an, f); auto ad = an.createData();
  auto cm = std::make_shared<Ctl>(R, nw, nu); ControlParametrizationModelNumDiffTpl<double> cn(cm); disturb(R, cn, g); auto cd = cn.createData();
  for (int rep = 0; rep < 3; ++rep) {
    V x = rand_state(R, *s), u = R.v(nu, 2.); Nd o(s, x, u, e);
    auto at = [&](const V& a, const V& b) { return m->f.at(a, b); };
    n.calc(d, x, u); n.calcDiff(d, x, u); near(M(d->dtau_du), o.ju(at, nv), "dtau_du", TOL);
    near(d->tau, at(x, u), "tau"); near(M(d->dtau_dx), o.jx(at, nv), "dtau_dx", TOL);
    V r = R.v(nr, 2.), Ar(nr); double h = f * std::max(1., r.norm()); for (long k = 0; k < nr; ++k) Ar[k] = (am->f(r + unit(nr, k, h)) - am->f(r)) / h;
    an.calc(ad, r); an.calcDiff(ad, r); near(ad->a_value, am->f(r), "activation"); near(ad->Ar, Ar, "Ar", TOL);
    double tm = R.u(0., 1.), hc = g * std::max(1., u.norm()); M J(nw, nu); for (long k = 0; k < nu; ++k) J.col(k) = (cm->f(tm, u + unit(nu, k, hc)) - cm->f(tm, u)) / hc;
    cn.calc(cd, tm, u); cn.calcDiff(cd, tm, u); near(cd->w, cm->f(tm, u), "control"); near(M(cd->dw_du), J, "dw_du", TOL);
    M A = R.m(3, nw), B = R.m(nw, 3), oa = R.m(3, nu), ob = R.m(nu, 3), a0 = oa, b0 = ob; AssignmentOp op = (AssignmentOp)R.i(0, 2);
    cn.multiplyByJacobian(cd, A, oa, op); cn.multiplyJacobianTransposeBy(cd, B, ob, op);
    near(oa, M(op == setto ? M(A * J) : op == addto ? M(a0 + A * J) : M(a0 - A * J)), "multiplyByJacobian", TOL); near(ob, M(op == setto ? M(J.transpose() * B) : op == addto ? M(b0 + J.transpose() * B) : M(b0 - J.transpose() * B)), "multiplyJacobianTransposeBy", TOL);
  }
}
CASE(state, 400) {
  auto s = rand_space(R, 1, 4); long nx = s->get_nx(), n = s->get_ndx(); double e;
  StateNumDiffTpl<double> m(s); disturb(R, m, e);
  V x = rand_state(R, *s), y = rand_state(R, *s), v = R.v(n, 2.); M A(n, n), B(n, n), a(n, n), b(n, n); V d0(n);
  auto df = [&](const V& p, const V& q) { V o(n); s->diff(p, q, o); return o; }; auto in = [&](const V& p, const V& q) { V o(nx); s->integrate(p, q, o); return o; };
  double hx = e * std::max(1., x.norm()), hy = e * std::max(1., y.norm()), hv = e * std::max(1., v.norm());
  near(m.diff_dx(x, y), df(x, y), "diff"); near(m.integrate_x(x, v), in(x, v), "integrate"); near(m.zero(), s->zero(), "zero");
  Jcomponent c = (Jcomponent)R.i(0, 2); M k1 = R.m(n, n), k2 = R.m(n, n); A = k1; B = k2;
  for (long k = 0; k < n; ++k) { a.col(k) = (df(in(x, unit(n, k, hx)), y) - df(x, y)) / hx; b.col(k) = (df(x, in(y, unit(n, k, hy))) - df(x, y)) / hy; }
  m.Jdiff(x, y, A, B, c); near(A, c == second ? k1 : a, "Jdiff first", TOL); near(B, c == first ? k2 : b, "Jdiff second", TOL);
  V z = in(x, v); A = k1; B = k2;
  for (long k = 0; k < n; ++k) { a.col(k) = df(z, in(in(x, unit(n, k, hx)), v)) / hx; b.col(k) = df(z, in(x, V(v + unit(n, k, hv)))) / hv; }
  m.Jintegrate(x, v, A, B, c); near(A, c == second ? k1 : a, "Jintegrate first", TOL); near(B, c == first ? k2 : b, "Jintegrate second", TOL);
  M bad(n + 1, n); throws([&] { m.Jdiff(x, y, bad, B, first); }, "Jacobian size"); throws([&] { m.Jdiff(V::Zero(nx + 1), y, A, B, both); }, "state size"); throws([&] { m.Jintegrate(x, V::Zero(n + 1), A, B, both); }, "tangent size");
}
