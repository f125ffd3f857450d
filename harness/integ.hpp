// Ingredients of integrated actions: a curved state manifold and a random continuous-time model with exact derivatives.
#pragma once
#include "models.hpp"
#include "crocoddyl/core/diff-action-base.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
namespace H {
// x (+) d = x + e(q) * d with a position-dependent frame e on the configuration part
struct WarpState : public StateA {
  explicit WarpState(long nv) : StateA(2 * nv, 2 * nv) { nv_ = nv; nq_ = nv; }
  V e(const V& x) const { V r = V::Ones(ndx_); for (size_t k = 0; k < nv_; ++k) r[k] = 1. + 0.3 * std::sin(x[(k + 1) % nv_]); return r; }
  M de(const V& x) const { M r = M::Zero(ndx_, ndx_); for (size_t k = 0; k < nv_; ++k) r(k, (k + 1) % nv_) = 0.3 * std::cos(x[(k + 1) % nv_]); return r; }
  V zero() const { return V::Zero(nx_); }
  V rand() const { return V::Random(nx_); }
  void diff(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& b, Eigen::Ref<V> o) const { o = (b - a).cwiseQuotient(e(a)); }
  void integrate(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& d, Eigen::Ref<V> o) const { V r = a + e(a).cwiseProduct(d); o = r; }
  void Jdiff(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M>, Eigen::Ref<M>, const Jcomponent = both) const { throw Fail("Jdiff called"); }
  M J1(const V& x, const V& d) const {
    V y(nx_); integrate(x, d, y);
    M r = de(x); for (size_t k = 0; k < ndx_; ++k) r.row(k) *= d[k];
    r.diagonal().array() += 1.;
    return M(e(y).cwiseInverse().asDiagonal() * r * e(x).asDiagonal());
  }
  M J2(const V& x, const V& d) const { V y(nx_); integrate(x, d, y); return M((e(x).cwiseQuotient(e(y))).asDiagonal()); }
  static void put(Eigen::Ref<M> o, const M& v, AssignmentOp op) { if (op == setto) o = v; else if (op == addto) o += v; else o -= v; }
  void Jintegrate(const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& d, Eigen::Ref<M> a, Eigen::Ref<M> b, const Jcomponent c = both, const AssignmentOp op = setto) const {
    M j1 = J1(x, d), j2 = J2(x, d);
    if (c != second) put(a, j1, op);
    if (c != first) put(b, j2, op);
  }
  void JintegrateTransport(const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& d, Eigen::Ref<M> A, const Jcomponent c) const { A = ((c == first ? J1(x, d) : J2(x, d)) * A).eval(); }
  std::shared_ptr<StateBase> cloneAsDouble() const { return std::shared_ptr<StateBase>(); }
  std::shared_ptr<StateBase> cloneAsFloat() const { return std::shared_ptr<StateBase>(); }
};
typedef DifferentialActionModelAbstractTpl<double> DAM; typedef DifferentialActionDataAbstractTpl<double> DAD;
typedef Eigen::Ref<const V> CRV;
struct Cont : DAM {
  WarpState* w; M A, B, C, W, G, Hm; V q, g0, h0, r0; long nw;
  Cont(Rng& R, std::shared_ptr<WarpState> s, long nw_, long ng, long nh, long gT, long hT) : DAM(s, nw_, 2, ng, nh, gT, hT), w(s.get()), nw(nw_) {
    long n = s->get_ndx(), m = s->get_nv();
    A = R.m(m, n); B = R.m(m, nw); C = R.m(m, n); W = R.sym(n + nw); q = R.v(n + nw); G = R.m(3, n + nw); Hm = R.m(3, n + nw); g0 = R.v(3); h0 = R.v(3); r0 = R.v(2);
    u_lb_ = R.v(nw); u_ub_ = u_lb_ + V::Constant(nw, 1.); has_control_limits_ = true;
  }
  V z(const V& x, const V& u) const { V r(x.size() + nw); r << x, u; return r; }
  V acc(const V& x, const V& u) const { return A * x + B * u + 0.3 * (C * x).array().sin().matrix() + 0.2 * (B * u).array().sin().matrix(); }
  double l(const V& x, const V& u) const { V k = z(x, u); return 0.5 * k.dot(W * k) + q.dot(k) + 0.1 * k.array().cos().sum(); }
  V gv(const V& x, const V& u) const { V k = G * z(x, u); return k + g0 + 0.2 * k.array().sin().matrix(); }
  V hv(const V& x, const V& u) const { V k = Hm * z(x, u); return k + h0 + 0.2 * k.array().sin().matrix(); }
  V no() const { return V::Zero(nw); }
  M E(const V& x) const { return M(w->e(x).asDiagonal()); }
  M fx(const V& x) const { return M((A + 0.3 * M((C * x).array().cos().matrix().asDiagonal() * C)) * E(x)); }
  M fu(const V& u) const { return M(B + 0.2 * M((B * u).array().cos().matrix().asDiagonal() * B)); }
  V lz(const V& x, const V& u) const { V k = z(x, u); return W * k + q - 0.1 * k.array().sin().matrix(); }
  V lx(const V& x, const V& u) const { return E(x) * lz(x, u).head(x.size()); }
  V lu(const V& x, const V& u) const { return lz(x, u).tail(nw); }
  M lzz(const V& x, const V& u) const { M k = W; k.diagonal() -= 0.1 * z(x, u).array().cos().matrix(); M e = M::Identity(k.rows(), k.rows()); e.topLeftCorner(x.size(), x.size()) = E(x); return M(e * k * e); }
  M jz(const M& G_, const V& x, const V& u) const { V k = G_ * z(x, u); M e = M::Identity(x.size() + nw, x.size() + nw); e.topLeftCorner(x.size(), x.size()) = E(x); return M((G_ + 0.2 * M(k.array().cos().matrix().asDiagonal() * G_)) * e); }
  V qsv(const V& x) const { return B.transpose() * x.head(B.rows()) + no(); }
  void val(const std::shared_ptr<DAD>& d, const V& x, const V& u, size_t ng, size_t nh, double s) {
    d->cost = s * l(x, u); d->r = r0 * x[0]; d->g = gv(x, u).head(ng); d->h = hv(x, u).head(nh);
  }
  void calc(const std::shared_ptr<DAD>& d, const CRV& x, const CRV& u) override { d->xout = acc(x, u); val(d, x, u, ng_, nh_, 1.); }
  void calc(const std::shared_ptr<DAD>& d, const CRV& x) override { val(d, x, no(), ng_T_, nh_T_, 2.); }
  void calcDiff(const std::shared_ptr<DAD>& d, const CRV& x, const CRV& u) override {
    long n = x.size(); M h = lzz(x, u), g = jz(G, x, u).topRows(ng_), k = jz(Hm, x, u).topRows(nh_);
    d->Fx = fx(x); d->Fu = fu(u); d->Lx = lx(x, u); d->Lu = lu(x, u); d->Lxx = h.topLeftCorner(n, n); d->Lxu = h.topRightCorner(n, nw); d->Luu = h.bottomRightCorner(nw, nw);
    d->Gx = g.leftCols(n); d->Gu = g.rightCols(nw); d->Hx = k.leftCols(n); d->Hu = k.rightCols(nw);
  }
  void calcDiff(const std::shared_ptr<DAD>& d, const CRV& x) override {
    long n = x.size();
    d->Lx = 2. * lx(x, no()); d->Lxx = 2. * lzz(x, no()).topLeftCorner(n, n); d->Gx = jz(G, x, no()).topRows(ng_T_).leftCols(n); d->Hx = jz(Hm, x, no()).topRows(nh_T_).leftCols(n);
  }
  void quasiStatic(const std::shared_ptr<DAD>&, Eigen::Ref<V> u, const CRV& x, const std::size_t = 100, const double = 1e-9) override { u = qsv(x); }
  std::shared_ptr<DAD> createData() override { return std::allocate_shared<DAD>(Eigen::aligned_allocator<DAD>(), this); }
  std::shared_ptr<DifferentialActionModelBase> cloneAsDouble() const override { return std::shared_ptr<DifferentialActionModelBase>(); }
  std::shared_ptr<DifferentialActionModelBase> cloneAsFloat() const override { return std::shared_ptr<DifferentialActionModelBase>(); }
};
inline std::shared_ptr<Cont> rand_cont(Rng& R) {
  long nv = R.i(1, 3);
  return std::make_shared<Cont>(R, std::make_shared<WarpState>(nv), R.i(1, 3), R.i(0, 3), R.i(0, 3), R.i(0, 3), R.i(0, 3));
}
inline std::shared_ptr<ControlParametrizationModelAbstractTpl<double>> rand_ctrl(Rng& R, long nw, int& kind) {
  kind = R.i(0, 3);
  if (kind == 0) return std::make_shared<ControlParametrizationModelPolyZeroTpl<double>>(nw);
  if (kind == 1) return std::make_shared<ControlParametrizationModelPolyOneTpl<double>>(nw);
  return std::make_shared<ControlParametrizationModelPolyTwoRKTpl<double>>(nw, kind == 2 ? three : four);
}
// control basis of that parametrisation at time fraction t: w = J u
inline M basis(int kind, long nw, double t) {
  std::vector<double> nd = kind == 0 ? std::vector<double>{0.} : kind == 1 ? std::vector<double>{0., .5} : kind == 2 ? std::vector<double>{0., 1. / 3, 2. / 3} : std::vector<double>{0., .5, 1.};
  M J = M::Zero(nw, nw * (long)nd.size());
  for (size_t a = 0; a < nd.size(); ++a) {
    double c = 1.;
    for (size_t b = 0; b < nd.size(); ++b) if (b != a) c *= (t - nd[b]) / (nd[a] - nd[b]);
    J.middleCols((long)a * nw, nw) = c * M::Identity(nw, nw);
  }
  return J;
}
}  // namespace H
