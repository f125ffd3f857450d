// Random but exactly differentiable ingredients for the harnesses (independent of the library's own models).
#pragma once
#include "h.hpp"
#include "crocoddyl/core/action-base.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"

namespace H {
using namespace crocoddyl;
typedef std::shared_ptr<StateAbstractTpl<double>> StateP;
typedef std::shared_ptr<ActionModelAbstractTpl<double>> ModelP;
typedef std::shared_ptr<ActionDataAbstractTpl<double>> DataP;
typedef StateAbstractTpl<double> StateA;

// configuration = unit circle (cos, sin) x R^(m-1), velocity R^m : nx = 2m+1, ndx = 2m
struct CircleState : public StateA {
  long m;
  explicit CircleState(long m_) : StateA(2 * m_ + 1, 2 * m_), m(m_) { nv_ = m_; nq_ = m_ + 1; }
  V zero() const { V x = V::Zero(nx_); x[0] = 1.; return x; }
  V rand() const { V x = V::Random(nx_); double a = x[0]; x[0] = std::cos(a); x[1] = std::sin(a); return x; }
  void diff(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& b, Eigen::Ref<V> o) const {
    o[0] = std::atan2(b[1] * a[0] - b[0] * a[1], b[0] * a[0] + b[1] * a[1]);
    o.tail(2 * m - 1) = b.tail(2 * m - 1) - a.tail(2 * m - 1);
  }
  void integrate(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& d, Eigen::Ref<V> o) const {
    double c = std::cos(d[0]), s = std::sin(d[0]), a0 = a[0], a1 = a[1];
    V t = a.tail(2 * m - 1) + d.tail(2 * m - 1);
    o[0] = a0 * c - a1 * s; o[1] = a1 * c + a0 * s; o.tail(2 * m - 1) = t;
  }
  void Jdiff(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M> a, Eigen::Ref<M> b, const Jcomponent c = both) const {
    if (c != second) { a.setZero(); a.diagonal().setConstant(-1.); }
    if (c != first) { b.setZero(); b.diagonal().setConstant(1.); }
  }
  void Jintegrate(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M> a, Eigen::Ref<M> b, const Jcomponent c = both, const AssignmentOp op = setto) const {
    if (c != second) one(a, op);
    if (c != first) one(b, op);
  }
  void one(Eigen::Ref<M> a, AssignmentOp op) const {
    if (op == setto) a.setZero();
    if (op == rmfrom) a.diagonal().array() -= 1.; else a.diagonal().array() += 1.;
  }
  void JintegrateTransport(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M>, const Jcomponent) const {}
  std::shared_ptr<StateBase> cloneAsDouble() const { return std::shared_ptr<StateBase>(); }
  std::shared_ptr<StateBase> cloneAsFloat() const { return std::shared_ptr<StateBase>(); }
};

inline V rand_state(Rng& R, const StateA& s) {
  const CircleState* c = dynamic_cast<const CircleState*>(&s);
  V x = R.v(s.get_nx());
  if (c) { double a = 3. * x[0]; x[0] = std::cos(a); x[1] = std::sin(a); }
  return x;
}
inline V tangent(const StateA& s, const V& x) { V d(s.get_ndx()); s.diff(s.zero(), x, d); return d; }
inline StateP rand_space(Rng& R, int lo = 1, int hi = 4, bool even = false) {
  int n = R.i(lo, hi);
  if (even && n % 2) ++n;
  if (R.b(0.35)) return std::make_shared<CircleState>(std::max(1, (n + 1) / 2));
  return std::make_shared<StateVectorTpl<double>>(n);
}

struct RandModel : public ActionModelAbstractTpl<double> {
  typedef ActionModelAbstractTpl<double> B;
  typedef ActionDataAbstractTpl<double> D;
  M A, Bu, C, Q, P, Ru, Gx, Gu, Hx, Hu; V c, q, r, g0, h0; double dt, nl;
  mutable long ncalc = 0, ndiff = 0;
  RandModel(Rng& R, StateP s, long nu, long ng = 0, long nh = 0, long ngT = 0, long nhT = 0, double nonlin = 1.)
      : B(s, nu, 1, ng, nh, ngT, nhT), dt(0.3), nl(nonlin) {
    long n = s->get_ndx(); long G = std::max(ng, ngT), Hn = std::max(nh, nhT);
    A = R.m(n, n); Bu = R.m(n, nu); C = R.m(n, n); c = R.v(n);
    M W = R.m(n + nu, n + nu); W = (W * W.transpose() + 0.5 * M::Identity(n + nu, n + nu)).eval();
    Q = W.topLeftCorner(n, n); P = W.topRightCorner(n, nu); Ru = W.bottomRightCorner(nu, nu);
    q = R.v(n); r = R.v(nu);
    Gx = R.m(G, n); Gu = R.m(G, nu); g0 = R.v(G); Hx = R.m(Hn, n); Hu = R.m(Hn, nu); h0 = R.v(Hn);
  }
  V flow(const V& d, const V& u) const { V z = C * d; return dt * (A * d + Bu * u + nl * 0.3 * z.array().sin().matrix() + c); }
  double l(const V& d, const V& u) const {
    return 0.5 * d.dot(Q * d) + d.dot(P * u) + 0.5 * u.dot(Ru * u) + q.dot(d) + r.dot(u) + nl * 0.1 * d.array().cos().sum();
  }
  double lT(const V& d) const { return 0.5 * d.dot(Q * d) + q.dot(d) + nl * 0.1 * d.array().cos().sum(); }
  V gv(const V& d, const V& u) const { return Gx * d + Gu * u + g0 + nl * 0.2 * (Gx * d).array().sin().matrix(); }
  V hv(const V& d, const V& u) const { return Hx * d + Hu * u + h0 + nl * 0.2 * (Hx * d).array().sin().matrix(); }
  // oracles
  V step(const V& x, const V& u) const { V o(state_->get_nx()); state_->integrate(x, flow(tangent(*state_, x), u), o); return o; }
  double cost(const V& x, const V& u) const { return l(tangent(*state_, x), u); }
  double costT(const V& x) const { return lT(tangent(*state_, x)); }
  V lx(const V& x, const V& u) const { V d = tangent(*state_, x); return Q * d + P * u + q - nl * 0.1 * d.array().sin().matrix(); }
  V lu(const V& x, const V& u) const { V d = tangent(*state_, x); return P.transpose() * d + Ru * u + r; }
  M lxx(const V& x) const { V d = tangent(*state_, x); M o = Q; o.diagonal() -= nl * 0.1 * d.array().cos().matrix(); return o; }
  M fx(const V& x) const { V d = tangent(*state_, x); V z = C * d; return M::Identity(d.size(), d.size()) + dt * (A + nl * 0.3 * z.array().cos().matrix().asDiagonal() * C); }
  M fu() const { return dt * Bu; }
  V g_at(const V& x, const V& u) const { return gv(tangent(*state_, x), u); }
  V h_at(const V& x, const V& u) const { return hv(tangent(*state_, x), u); }
  M gx(const V& x) const { V z = Gx * tangent(*state_, x); return Gx + nl * 0.2 * M(z.array().cos().matrix().asDiagonal() * Gx); }
  M hx(const V& x) const { V z = Hx * tangent(*state_, x); return Hx + nl * 0.2 * M(z.array().cos().matrix().asDiagonal() * Hx); }

  void calc(const std::shared_ptr<D>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) {
#pragma omp atomic
    ++ncalc;
    V t = tangent(*state_, x);
    d->xnext = step(x, u); d->cost = l(t, u);
    if (ng_) d->g.head(ng_) = gv(t, u).head(ng_);
    if (nh_) d->h.head(nh_) = hv(t, u).head(nh_);
  }
  void calc(const std::shared_ptr<D>& d, const Eigen::Ref<const V>& x) {
    V t = tangent(*state_, x);
    d->xnext = x; d->cost = lT(t);
    V z = V::Zero(nu_);
    if (ng_T_) d->g.head(ng_T_) = gv(t, z).head(ng_T_);
    if (nh_T_) d->h.head(nh_T_) = hv(t, z).head(nh_T_);
  }
  void calcDiff(const std::shared_ptr<D>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) {
#pragma omp atomic
    ++ndiff;
    d->Fx = fx(x); d->Fu = fu(); d->Lx = lx(x, u); d->Lu = lu(x, u); d->Lxx = lxx(x); d->Lxu = P; d->Luu = Ru;
    if (ng_) { d->Gx.topRows(ng_) = gx(x).topRows(ng_); d->Gu.topRows(ng_) = Gu.topRows(ng_); }
    if (nh_) { d->Hx.topRows(nh_) = hx(x).topRows(nh_); d->Hu.topRows(nh_) = Hu.topRows(nh_); }
  }
  void calcDiff(const std::shared_ptr<D>& d, const Eigen::Ref<const V>& x) {
    V z = V::Zero(nu_);
    d->Lx = lx(x, z); d->Lxx = lxx(x);
    if (ng_T_) d->Gx.topRows(ng_T_) = gx(x).topRows(ng_T_);
    if (nh_T_) d->Hx.topRows(nh_T_) = hx(x).topRows(nh_T_);
  }
  std::shared_ptr<D> createData() { return std::allocate_shared<D>(Eigen::aligned_allocator<D>(), this); }
  bool checkData(const std::shared_ptr<D>&) { return true; }
  // a control that is a recognisable function of its inputs
  void quasiStatic(const std::shared_ptr<D>&, Eigen::Ref<V> u, const Eigen::Ref<const V>& x, const std::size_t = 100, const double = 1e-9) { u = qs(x); }
  V qs(const V& x) const { return P.transpose() * tangent(*state_, x) + r; }
  std::shared_ptr<ActionModelBase> cloneAsDouble() const { return std::shared_ptr<ActionModelBase>(); }
  std::shared_ptr<ActionModelBase> cloneAsFloat() const { return std::shared_ptr<ActionModelBase>(); }
};
typedef std::shared_ptr<RandModel> RandP;

struct RandProblem {
  StateP s; std::vector<RandP> m; RandP mt; std::shared_ptr<ShootingProblemTpl<double>> p; V x0; long T;
  std::vector<V> xs, us;
  RandProblem(Rng& R, int Tmin = 1, int Tmax = 5, bool cons = false, bool hetero = true, double nl = 1., int numin = 1) {
    s = rand_space(R);
    T = R.i(Tmin, Tmax);
    std::vector<ModelP> ms;
    long nu0 = R.i(1, 3);
    for (long k = 0; k < T; ++k) {
      long ng = cons ? R.i(0, 2) : 0, nh = cons ? R.i(0, 2) : 0;
      m.push_back(std::make_shared<RandModel>(R, s, hetero ? R.i(numin, 3) : nu0, ng, nh, R.b() ? 0 : ng, R.b() ? 0 : nh, nl));
      ms.push_back(m.back());
    }
    mt = std::make_shared<RandModel>(R, s, R.i(0, 2), 0, 0, cons ? R.i(0, 2) : 0, cons ? R.i(0, 2) : 0, nl);
    x0 = rand_state(R, *s);
    p = std::make_shared<ShootingProblemTpl<double>>(x0, ms, mt);
    guess(R);
  }
  void guess(Rng& R) {
    xs.clear(); us.clear();
    for (long k = 0; k <= T; ++k) xs.push_back(rand_state(R, *s));
    for (long k = 0; k < T; ++k) us.push_back(R.v(m[k]->get_nu()));
  }
};
}  // namespace H
using namespace crocoddyl;
