// SOURCES: solver-base.cpp solvers/ipopt/ipopt-iface.cpp solvers/ipopt.cpp
// LIBS: ipopt
#include "models.hpp"
#include "crocoddyl/core/solvers/ipopt.hpp"
using namespace H;

// x (+) d = x + phi(d), phi(d) = d + d^3/10: a vector space whose displacement Jacobians are not the identity
struct WarpState : public StateA {
  explicit WarpState(long n) : StateA(n, n) {}
  static double phi(double d) { return d + 0.1 * d * d * d; }
  static double dphi(double d) { return 1. + 0.3 * d * d; }
  static double inv(double y) { double d = y; for (int i = 0; i < 60; ++i) d -= (phi(d) - y) / dphi(d); return d; }
  V zero() const { return V::Zero(nx_); }
  V rand() const { return V::Random(nx_); }
  void diff(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& b, Eigen::Ref<V> o) const { for (std::size_t i = 0; i < ndx_; ++i) o[i] = inv(b[i] - a[i]); }
  void integrate(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& d, Eigen::Ref<V> o) const { for (std::size_t i = 0; i < ndx_; ++i) o[i] = a[i] + phi(d[i]); }
  void Jdiff(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& b, Eigen::Ref<M> A, Eigen::Ref<M> B, const Jcomponent c = both) const {
    if (c != second) A.setZero();
    if (c != first) B.setZero();
    for (std::size_t i = 0; i < ndx_; ++i) { double w = 1. / dphi(inv(b[i] - a[i])); if (c != second) A(i, i) = -w; if (c != first) B(i, i) = w; }
  }
  void Jintegrate(const Eigen::Ref<const V>&, const Eigen::Ref<const V>& d, Eigen::Ref<M> A, Eigen::Ref<M> B, const Jcomponent c = both, const AssignmentOp op = setto) const {
    for (int k = 0; k < 2; ++k) {
      if (c == (k ? first : second)) continue;
      Eigen::Ref<M>& X = k ? B : A;
      if (op == setto) X.setZero();
      for (std::size_t i = 0; i < ndx_; ++i) X(i, i) += (op == rmfrom ? -1. : 1.) * (k ? dphi(d[i]) : 1.);
    }
  }
  void JintegrateTransport(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M>, const Jcomponent) const {}
  std::shared_ptr<StateBase> cloneAsDouble() const { return std::shared_ptr<StateBase>(); }
  std::shared_ptr<StateBase> cloneAsFloat() const { return std::shared_ptr<StateBase>(); }
};

// derivatives are those of the point of the last evaluation, as for real models
struct Seq : public RandModel {
  Seq(Rng& R, StateP s, long nu) : RandModel(R, s, nu) {}
  std::map<const void*, std::pair<V, V>> last;
  using RandModel::calc; using RandModel::calcDiff;
  void calc(const std::shared_ptr<D>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) { last[d.get()] = {x, u}; RandModel::calc(d, x, u); }
  void calc(const std::shared_ptr<D>& d, const Eigen::Ref<const V>& x) { last[d.get()] = {x, V()}; RandModel::calc(d, x); }
  void calcDiff(const std::shared_ptr<D>& d, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) { auto& l = last[d.get()]; if (l.first.size() == 0) { d->Fx.setConstant(NAN); return; } RandModel::calcDiff(d, l.first, l.second); }
  void calcDiff(const std::shared_ptr<D>& d, const Eigen::Ref<const V>&) { auto& l = last[d.get()]; if (l.first.size() == 0) { d->Lx.setConstant(NAN); return; } RandModel::calcDiff(d, l.first); }
};

struct Nlp {
  StateP s; long T, n; std::vector<std::shared_ptr<Seq>> m; std::shared_ptr<Seq> mt; V x0; std::shared_ptr<ShootingProblemTpl<double>> p; std::vector<V> xs, us;
  std::vector<long> o; long nv, nc;
  V lo(long k) { return m[k]->get_u_lb(); }
  std::shared_ptr<Seq> node(Rng& R) {
    auto a = std::make_shared<Seq>(R, s, R.i(0, 3));
    if (R.b()) { V l = R.v(a->get_nu()); a->set_u_lb(l); a->set_u_ub(l + R.v(a->get_nu()).cwiseAbs()); }
    return a;
  }
  explicit Nlp(Rng& R) {
    T = R.i(1, 4); s = R.b() ? StateP(std::make_shared<WarpState>(R.i(1, 3))) : rand_space(R, 1, 4); n = s->get_ndx();
    std::vector<ModelP> ms;
    for (long k = 0; k < T; ++k) { m.push_back(node(R)); ms.push_back(m.back()); }
    mt = std::make_shared<Seq>(R, s, R.i(0, 2)); x0 = rand_state(R, *s);
    p = std::make_shared<ShootingProblemTpl<double>>(x0, ms, mt);
  }
  void layout() { o.clear(); nv = 0; for (long k = 0; k < T; ++k) { o.push_back(nv); nv += n + m[k]->get_nu(); } o.push_back(nv); nv += n; nc = n * (T + 1); }
  void guess(Rng& R) { xs.clear(); us.clear(); for (long k = 0; k <= T; ++k) { xs.push_back(rand_state(R, *s)); if (k < T) us.push_back(R.v(m[k]->get_nu())); } }
  V at(long k, const V& z) { V x(s->get_nx()); s->integrate(xs[k], z.segment(o[k], n), x); return x; }
  V ctl(long k, const V& z) { return z.segment(o[k] + n, m[k]->get_nu()); }
  M jint(long k, const V& z) { M J = M::Zero(n, n); s->Jintegrate(xs[k], z.segment(o[k], n), J, J, second, setto); return J; }
  double cost(const V& z) { double c = mt->costT(at(T, z)); for (long k = 0; k < T; ++k) c += m[k]->cost(at(k, z), ctl(k, z)); return c; }
  V grad(const V& z) {
    V g = V::Zero(nv);
    for (long k = 0; k < T; ++k) { g.segment(o[k], n) = jint(k, z).transpose() * m[k]->lx(at(k, z), ctl(k, z)); g.segment(o[k] + n, m[k]->get_nu()) = m[k]->lu(at(k, z), ctl(k, z)); }
    g.tail(n) = jint(T, z).transpose() * mt->lx(at(T, z), V::Zero(mt->get_nu()));
    return g;
  }
  V con(const V& z) {
    V g(nc), d(n);
    for (long k = 0; k < T; ++k) { s->diff(m[k]->step(at(k, z), ctl(k, z)), at(k + 1, z), d); g.segment(k * n, n) = d; }
    s->diff(at(0, z), x0, d); g.tail(n) = d;
    return g;
  }
  M jac(const V& z) {
    M J = M::Zero(nc, nv), a = M::Zero(n, n), b = M::Zero(n, n);
    for (long k = 0; k < T; ++k) {
      V x = at(k, z); s->Jdiff(m[k]->step(x, ctl(k, z)), at(k + 1, z), a, b, both);
      J.block(k * n, o[k], n, n) = a * m[k]->fx(x) * jint(k, z); J.block(k * n, o[k] + n, n, m[k]->get_nu()) = a * m[k]->fu(); J.block(k * n, o[k + 1], n, n) = b * jint(k + 1, z);
    }
    s->Jdiff(at(0, z), x0, a, a, first); J.block(T * n, 0, n, n) = a * jint(0, z);
    return J;
  }
  M hess(const V& z, double w) {
    M Q = M::Zero(nv, nv);
    for (long k = 0; k < T; ++k) {
      M j = jint(k, z); long nu = m[k]->get_nu();
      Q.block(o[k], o[k], n, n) = j.transpose() * m[k]->lxx(at(k, z)) * j; Q.block(o[k], o[k] + n, n, nu) = j.transpose() * m[k]->P; Q.block(o[k] + n, o[k], nu, n) = Q.block(o[k], o[k] + n, n, nu).transpose(); Q.block(o[k] + n, o[k] + n, nu, nu) = m[k]->Ru;
    }
    M j = jint(T, z); Q.bottomRightCorner(n, n) = j.transpose() * mt->lxx(at(T, z)) * j;
    return w * Q;
  }
};

static void dims(Nlp& q, IpoptInterface& f, int& nj, int& nh) {
  Ipopt::Index a, b; Ipopt::TNLP::IndexStyleEnum st;
  expect(f.get_nlp_info(a, b, nj, nh, st), "info"); expect(a == q.nv && b == q.nc, "number of variables or constraints"); expect(st == Ipopt::TNLP::C_STYLE, "index style");
  expect(f.get_nvar() == (std::size_t)q.nv && f.get_nconst() == (std::size_t)q.nc, "getters");
  long j = q.n * q.n, h = q.n * (q.n + 1) / 2;
  for (long k = 0; k < q.T; ++k) { long w = q.n + q.m[k]->get_nu(); j += q.n * (w + q.n); h += w * (w + 1) / 2; }
  expect(nj == j && nh == h, "number of nonzeros");
}

static V guard(long n) { return V::Constant(n + 4, 123.25); }
static void untouched(const V& v, long n) { expect((v.tail(4).array() == 123.25).all(), "written past the end"); (void)n; }

CASE(nlp, 400) {
  R.z = 0.02;
  Nlp q(R); q.layout(); q.guess(R);
  IpoptInterface f(q.p);
  f.set_xs(q.xs); f.set_us(q.us);
  int nj, nh; dims(q, f, nj, nh);
  V z = R.v(q.nv);
  std::vector<int> ri(nj + 1), ci(nj + 1), rh(nh + 1), ch(nh + 1);
  auto structure = [&] {
    ri.assign(nj + 1, -7); ci = ri; rh.assign(nh + 1, -7); ch = rh;
    expect(f.eval_jac_g(q.nv, nullptr, true, q.nc, nj, ri.data(), ci.data(), nullptr), "Jacobian structure");
    expect(f.eval_h(q.nv, nullptr, true, 1., q.nc, nullptr, true, nh, rh.data(), ch.data(), nullptr), "Hessian structure");
    expect(ri[nj] == -7 && rh[nh] == -7, "structure past the end");
    M c = M::Zero(q.nc, q.nv); for (int e = 0; e < nj; ++e) { expect(ri[e] >= 0 && ri[e] < q.nc && ci[e] >= 0 && ci[e] < q.nv, "Jacobian position"); c(ri[e], ci[e]) += 1; } expect(c.maxCoeff() <= 1., "Jacobian entry listed twice");
    c = M::Zero(q.nv, q.nv); for (int e = 0; e < nh; ++e) { expect(rh[e] >= 0 && rh[e] < q.nv && ch[e] >= 0 && ch[e] <= rh[e], "Hessian position"); c(rh[e], ch[e]) += 1; } expect(c.maxCoeff() <= 1., "Hessian entry listed twice");
  };
  structure();
  for (int rep = 0; rep < 12; ++rep) {
    if (R.b(0.6)) z = R.v(q.nv);
    if (R.b(0.1)) { q.guess(R); f.set_xs(q.xs); f.set_us(q.us); }
    if (R.b(0.1)) {  // a node is replaced
      long k = R.i(0, q.T - 1); q.m[k] = q.node(R); q.p->updateModel(k, q.m[k]); q.layout(); f.resizeData(); q.guess(R); f.set_xs(q.xs); f.set_us(q.us);
      dims(q, f, nj, nh); structure(); z = R.v(q.nv);
    }
    switch (R.i(0, 6)) {
      case 0: { double c = R.u(); expect(f.eval_f(q.nv, z.data(), R.b(), c), "cost"); near(c, q.cost(z), "cost"); break; }
      case 1: { V g = guard(q.nv); f.eval_grad_f(q.nv, z.data(), R.b(), g.data()); untouched(g, q.nv); near(V(g.head(q.nv)), q.grad(z), "cost gradient"); break; }
      case 2: { V g = guard(q.nc); f.eval_g(q.nv, z.data(), R.b(), q.nc, g.data()); untouched(g, q.nc); near(V(g.head(q.nc)), q.con(z), "constraint values"); break; }
      case 3: {
        V v = guard(nj); f.eval_jac_g(q.nv, z.data(), R.b(), q.nc, nj, nullptr, nullptr, v.data()); untouched(v, nj);
        M J = M::Zero(q.nc, q.nv); for (int e = 0; e < nj; ++e) J(ri[e], ci[e]) += v[e];
        near(J, q.jac(z), "constraint Jacobian"); break;
      }
      case 4: {
        double w = R.b(0.2) ? 0. : R.u(-2., 2.); V v = guard(nh), lam = R.v(q.nc); f.eval_h(q.nv, z.data(), R.b(), w, q.nc, lam.data(), R.b(), nh, nullptr, nullptr, v.data()); untouched(v, nh);
        M Q = M::Zero(q.nv, q.nv); for (int e = 0; e < nh; ++e) { Q(rh[e], ch[e]) += v[e]; if (rh[e] != ch[e]) Q(ch[e], rh[e]) += v[e]; }
        near(Q, q.hess(z, w), "Hessian"); break;
      }
      case 5: {
        V l = guard(q.nv), u = guard(q.nv), gl = guard(q.nc), gu = guard(q.nc); f.get_bounds_info(q.nv, l.data(), u.data(), q.nc, gl.data(), gu.data());
        untouched(l, q.nv); untouched(u, q.nv); untouched(gl, q.nc); untouched(gu, q.nc);
        near(V(gl.head(q.nc)), V(V::Zero(q.nc)), "gaps"); near(V(gu.head(q.nc)), V(V::Zero(q.nc)), "gaps");
        double big = std::numeric_limits<double>::max();
        for (long k = 0; k <= q.T; ++k) {
          for (long j = 0; j < q.n; ++j) expect(l[q.o[k] + j] == -big && u[q.o[k] + j] == big, "a state increment is bounded");
          if (k < q.T) for (long j = 0; j < (long)q.m[k]->get_nu(); ++j) {
            bool c = q.m[k]->get_has_control_limits(); long e = q.o[k] + q.n + j;
            expect(l[e] == (c ? q.m[k]->get_u_lb()[j] : -big) && u[e] == (c ? q.m[k]->get_u_ub()[j] : big), "control limits");
          }
        }
        break;
      }
      default: {
        V x = guard(q.nv); f.get_starting_point(q.nv, true, x.data(), false, nullptr, nullptr, q.nc, false, nullptr); untouched(x, q.nv);
        for (long k = 0; k <= q.T; ++k) { near(V(x.segment(q.o[k], q.n)), V(V::Zero(q.n)), "starting increment"); if (k < q.T) near(V(x.segment(q.o[k] + q.n, q.m[k]->get_nu())), q.us[k], "starting control"); }
      }
    }
    for (long k = 0; k <= q.T; ++k) { near(f.get_xs()[k], q.xs[k], "reference states"); if (k < q.T) near(f.get_us()[k], q.us[k], "reference controls"); }
    if (R.b(0.1)) {
      double c = R.u(); f.finalize_solution(Ipopt::SUCCESS, q.nv, z.data(), nullptr, nullptr, q.nc, nullptr, nullptr, c, nullptr, nullptr);
      for (long k = 0; k <= q.T; ++k) { V x = q.at(k, z); if (k < q.T) q.us[k] = q.ctl(k, z); q.xs[k] = x; near(f.get_xs()[k], q.xs[k], "solution states"); if (k < q.T) near(f.get_us()[k], q.us[k], "solution controls"); }
      near(f.get_cost(), c, "solution cost");
    }
  }
}
