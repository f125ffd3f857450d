#include "h.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
using namespace H; using namespace crocoddyl;
typedef ActivationModelAbstractTpl<double> AM;
typedef ActivationDataAbstractTpl<double> AD;
struct W { double v; V g, h; bool exact; };
static W want(int k, const V& r, double a, const V& w, bool th) {
  double s = r.squaredNorm(), n = std::sqrt(s); long m = r.size(); V o = V::Ones(m), q = r.cwiseProduct(r);
  switch (k) {
    case 0: return {0.5 * s, r, o, true};
    case 1: return {0.5 * w.dot(q), w.cwiseProduct(r), w, true};
    case 2: { double f = 1 / (a + s); return {std::log(1 + s / a), 2 * f * r, 2 * f * o - 4 * f * f * q, true}; }
    case 3: { double e = std::exp(-s / a) / a; return {1 - std::exp(-s / a), 2 * e * r, 2 * e * o - 4 * e / a * q, true}; }
    case 4: { V c = (q.array() + a).sqrt().matrix(); return {c.sum(), r.cwiseQuotient(c), a * (c.array().pow(-3)).matrix(), true}; }
    case 5: { double c = std::sqrt(s + a); return {c, r / c, o, false}; }
    default: {
      if (n >= a) return {0., 0 * r, 0 * r, true};
      V h = th ? V((a / (s * n)) * q + (1 - a / n) * o) : V(q / s);
      return {0.5 * (n - a) * (n - a), (1 - a / n) * r, h, true};
    }
  }
}
CASE(activation, 1200) {
  int k = it % 7;
  R.z = k == 6 ? 0. : 0.1;  // (no residual at a point where an activation is not differentiable)
  long n = R.i(1, 6); double a = R.u(0.05, 3.); bool th = R.b(); V w = R.v(n);
  std::shared_ptr<AM> m; std::function<void(double)> set;
  if (k == 0) m = std::make_shared<ActivationModelQuadTpl<double>>(n);
  else if (k == 1) m = std::make_shared<ActivationModelWeightedQuadTpl<double>>(w);
  else if (k == 2) { auto p = std::make_shared<ActivationModelQuadFlatLogTpl<double>>(n, a); m = p; set = [p](double x) { p->set_alpha(x); }; }
  else if (k == 3) { auto p = std::make_shared<ActivationModelQuadFlatExpTpl<double>>(n, a); m = p; set = [p](double x) { p->set_alpha(x); }; }
  else if (k == 4) m = std::make_shared<ActivationModelSmooth1NormTpl<double>>(n, a);
  else if (k == 5) m = std::make_shared<ActivationModelSmooth2NormTpl<double>>(n, a);
  else { auto p = std::make_shared<ActivationModel2NormBarrierTpl<double>>(n, a, th); m = p; set = [p](double x) { p->set_alpha(x); }; }
  std::vector<std::shared_ptr<AD>> ds = {m->createData(), m->createData(), m->createData()};
  for (auto& d : ds) near(M(d->Arr), k == 0 ? M(M::Identity(n, n)) : k == 1 ? M(w.asDiagonal()) : M(M::Zero(n, n)), "new data");
  for (int rep = 0; rep < 8; ++rep) {
    if (set && R.b(0.4)) { a = R.u(0.05, 3.); set(a); }
    if (k == 1 && R.b(0.4)) {
      w = R.v(n); auto p = static_cast<ActivationModelWeightedQuadTpl<double>*>(m.get()); p->set_weights(w); near(p->get_weights(), w, "weights");
      throws([&] { p->set_weights(R.v(n + 1)); }, "weights of another size"); near(p->get_weights(), w, "weights after rejection");
    }
    auto d = ds[R.i(0, 2)];
    V r = R.v(n, R.b() ? 1. : 0.1); W e = want(k, r, a, w, th);
    m->calc(d, r); near(d->a_value, e.v, "value"); m->calcDiff(d, r); near(d->Ar, e.g, "gradient"); near(d->a_value, e.v, "value kept");
    M A = d->Arr;
    if (e.exact) near(A, M(e.h.asDiagonal()), "curvature");
    if (k == 0 || k == 4 || k == 5 || (k == 6 && !th)) expect(A.diagonal().minCoeff() >= 0, "negative curvature");
    V b = R.v(n + (R.b() ? 1 : -1)); V g0 = d->Ar; double v0 = d->a_value;
    throws([&] { m->calc(d, b); }, "residual of another size"); throws([&] { m->calcDiff(d, b); }, "residual of another size");
    near(d->Ar, g0, "gradient after rejection"); near(d->a_value, v0, "value after rejection"); near(M(d->Arr), A, "curvature after rejection");
  }
  if (k == 2) throws([&] { ActivationModelQuadFlatLogTpl<double> x(n, -a); }, "negative width");
  if (k == 3) throws([&] { ActivationModelQuadFlatExpTpl<double> x(n, -a); }, "negative width");
  if (k == 4) throws([&] { ActivationModelSmooth1NormTpl<double> x(n, -a); }, "negative smoothing");
  if (k == 5) throws([&] { ActivationModelSmooth2NormTpl<double> x(n, -a); }, "negative smoothing");
  if (k == 6) throws([&] { ActivationModel2NormBarrierTpl<double> x(n, -a); }, "negative threshold");
}
CASE(barrier, 600) {
  R.z = 0.;
  bool wt = R.b(); long n = R.i(1, 5); V lb = R.v(n), ub = lb + R.v(n).cwiseAbs(), w = wt ? R.v(n, 2.) : V(V::Ones(n)); ActivationBoundsTpl<double> bd(lb, ub); std::shared_ptr<AM> m;
  if (wt) m = std::make_shared<ActivationModelWeightedQuadraticBarrierTpl<double>>(bd, w); else m = std::make_shared<ActivationModelQuadraticBarrierTpl<double>>(bd);
  std::vector<std::shared_ptr<AD>> ds = {m->createData(), m->createData()};
  for (int rep = 0; rep < 6; ++rep) {
    if (wt && R.b(0.4)) { w = R.v(n, 2.); auto p = static_cast<ActivationModelWeightedQuadraticBarrierTpl<double>*>(m.get()); p->set_weights(w); throws([&] { p->set_weights(R.v(n + 1)); }, "weights of another size"); near(p->get_weights(), w, "weights"); }
    if (R.b(0.3)) { lb = R.v(n); ub = lb + R.v(n).cwiseAbs(); bd = ActivationBoundsTpl<double>(lb, ub); if (wt) static_cast<ActivationModelWeightedQuadraticBarrierTpl<double>*>(m.get())->set_bounds(bd); else static_cast<ActivationModelQuadraticBarrierTpl<double>*>(m.get())->set_bounds(bd); }
    auto d = ds[R.i(0, 1)]; V r = R.v(n, 2.), g(n), h(n); double v = 0;
    for (long i = 0; i < n; ++i) { double e = r[i] < bd.lb[i] ? r[i] - bd.lb[i] : r[i] > bd.ub[i] ? r[i] - bd.ub[i] : 0.; v += 0.5 * w[i] * w[i] * e * e; g[i] = w[i] * w[i] * e; h[i] = e != 0. ? w[i] * w[i] : 0.; }
    m->calc(d, r); near(d->a_value, v, "barrier value"); m->calcDiff(d, r); near(d->Ar, g, "barrier gradient"); near(M(d->Arr), M(h.asDiagonal()), "barrier curvature"); near(d->a_value, v, "barrier value kept");
  }
}
CASE(limits, 600) {
  double big = std::numeric_limits<double>::max(), inf = std::numeric_limits<double>::infinity(), beta = R.b(0.3) ? 1. : R.b(0.3) ? 0. : R.u(0., 1.);
  long n = R.i(0, 5); V l = R.v(n), u = l + R.v(n).cwiseAbs(), wl(n), wu(n);
  for (long i = 0; i < n; ++i) { if (R.b(0.3)) l[i] = R.b(0.8) ? -inf : -big; if (R.b(0.3)) u[i] = R.b(0.8) ? inf : big; }
  for (long i = 0; i < n; ++i) {
    bool two = l[i] > -big && u[i] < big; double mid = 0.5 * (l[i] + u[i]), half = 0.5 * (u[i] - l[i]);
    wl[i] = two ? mid - beta * half : -big; wu[i] = two ? mid + beta * half : big;
    if (!two) { if (l[i] > -big) wl[i] = l[i]; if (u[i] < big) wu[i] = u[i]; }
  }
  ActivationBoundsTpl<double> b(l, u, beta);
  near(b.beta, beta, "width factor");
  for (long i = 0; i < n; ++i) { expect(wl[i] == -big ? b.lb[i] == -big : std::fabs(b.lb[i] - wl[i]) < 1e-9, "lower limit"); expect(wu[i] == big ? b.ub[i] == big : std::fabs(b.ub[i] - wu[i]) < 1e-9, "upper limit"); }
  throws([&] { ActivationBoundsTpl<double> x(l, R.v(n + 1), beta); }, "limits of different sizes");
  throws([&] { ActivationBoundsTpl<double> x(l, u, R.b() ? -0.1 : 1.1); }, "width factor outside [0,1]");
  if (n) { V a = l, c = u; long i = R.i(0, n - 1); a[i] = 0.5; c[i] = 0.2; throws([&] { ActivationBoundsTpl<double> x(a, c, beta); }, "badly ordered limits"); }
}
