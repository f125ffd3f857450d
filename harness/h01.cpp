#include "h.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
using namespace H; using namespace crocoddyl;
typedef ActionModelLQRTpl<double> L;
typedef DifferentialActionModelLQRTpl<double> DL;
struct Par { M A, B, C, Q, R_, N, G, Hm; V f, q, r, g, h; };
static Par par(H::Rng& R, long n, long nu, long ng, long nh) {
  Par p; p.A = R.m(n, n); p.B = R.m(n, nu); p.f = R.v(n); p.q = R.v(n); p.r = R.v(nu);
  M W = R.m(n + nu, n + nu); W = (W * W.transpose()).eval();
  p.Q = W.topLeftCorner(n, n); p.R_ = W.bottomRightCorner(nu, nu); p.N = W.topRightCorner(n, nu);
  p.G = R.m(ng, n + nu); p.Hm = R.m(nh, n + nu); p.g = R.v(ng); p.h = R.v(nh); return p;
}
CASE(lqr, 150) {
  long n = R.i(1, 5), nu = R.i(1, 3), ng = R.i(0, 3), nh = R.i(0, 3);
  Par p = par(R, n, nu, ng, nh);
  std::shared_ptr<L> m;
  int kind = R.i(0, 2);
  if (kind == 0) { m = std::make_shared<L>(p.A, p.B, p.Q, p.R_, p.N, p.f, p.q, p.r); ng = nh = 0; p.G = M(0, n + nu); p.Hm = p.G; p.g = V(0); p.h = p.g; }
  else m = std::make_shared<L>(p.A, p.B, p.Q, p.R_, p.N, p.G, p.Hm, p.f, p.q, p.r, p.g, p.h);
  if (kind == 2) { p = par(R, n, nu, ng, nh); m->set_LQR(p.A, p.B, p.Q, p.R_, p.N, p.G, p.Hm, p.f, p.q, p.r, p.g, p.h); }
  std::vector<std::shared_ptr<ActionDataAbstractTpl<double>>> ds = {m->createData(), m->createData()};
  for (int rep = 0; rep < 6; ++rep) {
    if (rep == 3 && kind) { p = par(R, n, nu, ng, nh); m->set_LQR(p.A, p.B, p.Q, p.R_, p.N, p.G, p.Hm, p.f, p.q, p.r, p.g, p.h); }
    auto d = ds[R.i(0, 1)];
    V x = R.v(n), u = R.v(nu);
    bool term = R.b(0.4);
    if (term) { m->calc(d, x); m->calcDiff(d, x); u.setZero(); near(d->xnext, x, "terminal next state"); near(d->cost, 0.5 * x.dot(p.Q * x) + p.q.dot(x), "terminal cost"); }
    else {
      m->calc(d, x, u); m->calcDiff(d, x, u);
      near(d->xnext, p.A * x + p.B * u + p.f, "next state");
      near(d->cost, 0.5 * x.dot(p.Q * x) + 0.5 * u.dot(p.R_ * u) + x.dot(p.N * u) + p.q.dot(x) + p.r.dot(u), "cost");
      near(d->Fx, p.A, "Fx"); near(d->Fu, p.B, "Fu"); near(d->Lu, p.r + p.R_ * u + p.N.transpose() * x, "Lu"); near(d->Luu, p.R_, "Luu"); near(d->Lxu, p.N, "Lxu");
      if (ng) near(d->Gu.topRows(ng), p.G.rightCols(nu), "Gu"); if (nh) near(d->Hu.topRows(nh), p.Hm.rightCols(nu), "Hu");
    }
    near(d->Lx, p.q + p.Q * x + (term ? V(V::Zero(n)) : V(p.N * u)), "Lx"); near(d->Lxx, p.Q, "Lxx");
    if (ng) { near(d->g.head(ng), p.G.leftCols(n) * x + p.G.rightCols(nu) * u + p.g, "g"); near(d->Gx.topRows(ng), p.G.leftCols(n), "Gx"); }
    if (nh) { near(d->h.head(nh), p.Hm.leftCols(n) * x + p.Hm.rightCols(nu) * u + p.h, "h"); near(d->Hx.topRows(nh), p.Hm.leftCols(n), "Hx"); }
  }
}
CASE(diff_lqr, 150) {
  long nq = R.i(1, 4), nu = R.i(1, 3), ng = R.i(0, 3), nh = R.i(0, 3), n = 2 * nq;
  Par p = par(R, n, nu, ng, nh);
  M Kq = R.m(nq, nq), Kv = R.m(nq, nq), B = R.m(nq, nu); V f = R.v(nq);
  auto m = std::make_shared<DL>(Kq, Kv, B, p.Q, p.R_, p.N, p.G, p.Hm, f, p.q, p.r, p.g, p.h);
  std::vector<std::shared_ptr<DifferentialActionDataAbstractTpl<double>>> ds = {m->createData(), m->createData()};
  for (int rep = 0; rep < 6; ++rep) {
    if (rep == 3) { p = par(R, n, nu, ng, nh); Kq = R.m(nq, nq); Kv = R.m(nq, nq); B = R.m(nq, nu); f = R.v(nq); m->set_LQR(Kq, Kv, B, p.Q, p.R_, p.N, p.G, p.Hm, f, p.q, p.r, p.g, p.h); }
    auto d = ds[R.i(0, 1)];
    V x = R.v(n), u = R.v(nu);
    bool term = R.b(0.4);
    if (term) { m->calc(d, x); m->calcDiff(d, x); u.setZero(); near(d->cost, 0.5 * x.dot(p.Q * x) + p.q.dot(x), "terminal cost"); }
    else {
      m->calc(d, x, u); m->calcDiff(d, x, u);
      near(d->xout, Kq * x.head(nq) + Kv * x.tail(nq) + B * u + f, "acceleration");
      near(d->cost, 0.5 * x.dot(p.Q * x) + 0.5 * u.dot(p.R_ * u) + x.dot(p.N * u) + p.q.dot(x) + p.r.dot(u), "cost");
      M Fx(nq, n); Fx << Kq, Kv;
      near(d->Fx, Fx, "Fx"); near(d->Fu, B, "Fu"); near(d->Lu, p.r + p.R_ * u + p.N.transpose() * x, "Lu"); near(d->Luu, p.R_, "Luu"); near(d->Lxu, p.N, "Lxu");
      if (ng) near(d->Gu.topRows(ng), p.G.rightCols(nu), "Gu"); if (nh) near(d->Hu.topRows(nh), p.Hm.rightCols(nu), "Hu");
    }
    near(d->Lx, p.q + p.Q * x + (term ? V(V::Zero(n)) : V(p.N * u)), "Lx"); near(d->Lxx, p.Q, "Lxx");
    if (ng) { near(d->g.head(ng), p.G.leftCols(n) * x + p.G.rightCols(nu) * u + p.g, "g"); near(d->Gx.topRows(ng), p.G.leftCols(n), "Gx"); }
    if (nh) { near(d->h.head(nh), p.Hm.leftCols(n) * x + p.Hm.rightCols(nu) * u + p.h, "h"); near(d->Hx.topRows(nh), p.Hm.leftCols(n), "Hx"); }
  }
}
CASE(random_models, 40) {
  long n = R.i(1, 4), nu = R.i(1, 3), ng = R.i(0, 2), nh = R.i(0, 2);
  L m = L::Random(n, nu, ng, nh);
  auto d = m.createData(); V x = R.v(n), u = R.v(nu); m.calc(d, x, u); m.calcDiff(d, x, u);
  near(d->xnext, m.get_A() * x + m.get_B() * u + m.get_f(), "random next state");
}

// parameters of a wrong size or with indefinite weights are refused and leave the model as it was
static bool bend(H::Rng& R, Par& p, M& A2, bool two, std::string& what) {
  struct E { const char* n; M* m; V* v; };
  std::vector<E> es = {{"A", &p.A, nullptr}, {"B", &p.B, nullptr}, {"Q", &p.Q, nullptr}, {"R", &p.R_, nullptr}, {"N", &p.N, nullptr}, {"G", &p.G, nullptr}, {"H", &p.Hm, nullptr},
                       {"f", nullptr, &p.f}, {"q", nullptr, &p.q}, {"r", nullptr, &p.r}, {"g", nullptr, &p.g}, {"h", nullptr, &p.h}};
  if (two) es.push_back({"Av", &A2, nullptr});
  if (R.b(0.1)) { p.R_ = -M::Identity(p.R_.rows(), p.R_.cols()); what = "indefinite weights"; return true; }
  E e = es[R.i(0, (int)es.size() - 1)]; what = std::string(e.n) + " of a wrong size";
  if (e.v) *e.v = R.v(e.v->size() + 1);
  else { long r = e.m->rows(), c = e.m->cols(); if (R.b()) r += 1; else c += R.b() || c < 2 ? 1 : -1; *e.m = R.m(r, c); }
  return true;
}
CASE(refused_parameters, 300) {
  bool two = R.b(); long nq = R.i(1, 4), n = two ? 2 * nq : nq, nd = two ? nq : n, nu = R.i(1, 3), ng = R.i(0, 2), nh = R.i(0, 2);
  auto draw = [&](M& A2) { Par p = par(R, n, nu, ng, nh); p.A = R.m(nd, nd); A2 = R.m(nd, nd); p.B = R.m(nd, nu); p.f = R.v(nd); return p; };
  M A2, A3; std::string what; Par p = draw(A2), w = draw(A3); bend(R, w, A3, two, what);
  auto kept = [&](auto& m) {
    near(m->get_B(), p.B, what + ": B"); near(m->get_Q(), p.Q, what + ": Q"); near(m->get_R(), p.R_, what + ": R"); near(m->get_N(), p.N, what + ": N");
    near(m->get_G(), p.G, what + ": G"); near(m->get_H(), p.Hm, what + ": H"); near(m->get_f(), p.f, what + ": f"); near(m->get_q(), p.q, what + ": q");
    near(m->get_r(), p.r, what + ": r"); near(m->get_g(), p.g, what + ": g"); near(m->get_h(), p.h, what + ": h");
  };
  if (two) {
    auto m = std::make_shared<DL>(p.A, A2, p.B, p.Q, p.R_, p.N, p.G, p.Hm, p.f, p.q, p.r, p.g, p.h);
    throws([&] { m->set_LQR(w.A, A3, w.B, w.Q, w.R_, w.N, w.G, w.Hm, w.f, w.q, w.r, w.g, w.h); }, what);
    kept(m); near(m->get_Aq(), p.A, what + ": Aq"); near(m->get_Av(), A2, what + ": Av");
  } else {
    auto m = std::make_shared<L>(p.A, p.B, p.Q, p.R_, p.N, p.G, p.Hm, p.f, p.q, p.r, p.g, p.h);
    throws([&] { m->set_LQR(w.A, w.B, w.Q, w.R_, w.N, w.G, w.Hm, w.f, w.q, w.r, w.g, w.h); }, what);
    kept(m); near(m->get_A(), p.A, what + ": A");
  }
}
