#include "integ.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
using namespace H;
typedef IntegratedActionModelRKTpl<double> RK;
CASE(runge_kutta, 500) {
  auto c = rand_cont(R); WarpState& s = *c->w; long nv = s.get_nv(), n = 2 * nv, nw = c->nw; int kind = 0;
  auto ctl = rand_ctrl(R, nw, kind); if (R.b(0.2)) { kind = 0; ctl.reset(); }
  double dt = R.b(0.1) ? 0. : R.u(0.01, 0.5); bool wr = R.b(); int ns = R.i(2, 4);
  RKType ty = ns == 2 ? two : ns == 3 ? three : four;
  RK m = ctl ? RK(c, ctl, ty, dt, wr) : RK(c, ty, dt, wr);
  std::vector<double> cs = ns == 2 ? std::vector<double>{0., .5} : ns == 3 ? std::vector<double>{0., 1. / 3, 2. / 3} : std::vector<double>{0., .5, .5, 1.};
  std::vector<double> bs = ns == 2 ? std::vector<double>{0., 1.} : ns == 3 ? std::vector<double>{.25, 0., .75} : std::vector<double>{1. / 6, 1. / 3, 1. / 3, 1. / 6};
  expect((int)m.get_ni() == ns, "stages"); near(m.get_dt(), dt, "dt");
  long nu = basis(kind, nw, 0.).cols(); expect((long)m.get_nu() == nu && m.get_nr() == 2, "dimensions");
  std::vector<DataP> ds = {m.createData(), m.createData()};
  for (int rep = 0; rep < 4; ++rep) {
    auto d = ds[R.i(0, 1)]; V x = R.v(n), u = R.v(nu);
    if (R.b(0.25)) {
      m.calc(d, x); m.calcDiff(d, x);
      near(d->xnext, x, "terminal state"); near(d->cost, 2. * c->l(x, c->no()), "terminal cost"); near(V(d->g), V(c->gv(x, c->no()).head(c->get_ng_T())), "terminal g"); near(V(d->h), V(c->hv(x, c->no()).head(c->get_nh_T())), "terminal h");
      near(V(d->Lx), V(2. * c->lx(x, c->no())), "terminal Lx"); near(M(d->Lxx), M(2. * c->lzz(x, c->no()).topLeftCorner(n, n)), "terminal Lxx");
      near(M(d->Gx), M(c->jz(c->G, x, c->no()).topRows(c->get_ng_T()).leftCols(n)), "terminal Gx"); near(M(d->Hx), M(c->jz(c->Hm, x, c->no()).topRows(c->get_nh_T()).leftCols(n)), "terminal Hx");
      continue;
    }
    // oracle
    V kp = V::Zero(n), dx = V::Zero(n), Lx = V::Zero(n), Lu = V::Zero(nu); M Kx = M::Zero(n, n), Ku = M::Zero(n, nu), Dx = M::Zero(n, n), Du = M::Zero(n, nu), Lxx = M::Zero(n, n), Lxu = M::Zero(n, nu), Luu = M::Zero(nu, nu); double cost = 0.;
    V w0;
    for (int k = 0; k < ns; ++k) {
      M J = basis(kind, nw, cs[k]); V w = J * u, del = dt * cs[k] * kp, y(n); s.integrate(x, del, y);
      if (!k) w0 = w;
      M Yx = s.J1(x, del) + s.J2(x, del) * (dt * cs[k] * Kx), Yu = s.J2(x, del) * (dt * cs[k] * Ku);
      kp.resize(n); kp << y.tail(nv), c->acc(y, w);
      M A = c->fx(y), B = c->fu(w); Kx << Yx.bottomRows(nv), A * Yx; Ku << Yu.bottomRows(nv), A * Yu + B * J;
      dx += dt * bs[k] * kp; Dx += dt * bs[k] * Kx; Du += dt * bs[k] * Ku; cost += dt * bs[k] * c->l(y, w);
      M h = c->lzz(y, w), xx = h.topLeftCorner(n, n), xu = h.topRightCorner(n, nw) * J, uu = J.transpose() * h.bottomRightCorner(nw, nw) * J;
      Lx += dt * bs[k] * Yx.transpose() * c->lx(y, w); Lu += dt * bs[k] * (Yu.transpose() * c->lx(y, w) + J.transpose() * c->lu(y, w));
      Lxx += dt * bs[k] * Yx.transpose() * xx * Yx; Lxu += dt * bs[k] * Yx.transpose() * (xu + xx * Yu); Luu += dt * bs[k] * (uu + xu.transpose() * Yu + Yu.transpose() * xu + Yu.transpose() * xx * Yu);
    }
    V y(n); s.integrate(x, dx, y); M J0 = basis(kind, nw, 0.);
    m.calc(d, x, u);
    auto vals = [&](const std::string& t) { near(d->xnext, y, "next state" + t); near(d->cost, cost, "cost" + t); near(V(d->g), V(c->gv(x, w0).head(c->get_ng())), "g" + t); near(V(d->h), V(c->hv(x, w0).head(c->get_nh())), "h" + t); if (wr) near(V(d->r), V(c->r0 * x[0]), "residual" + t); };
    vals("");
    if (R.b(0.2)) continue;
    m.calcDiff(d, x, u); vals(" kept"); if (R.b(0.2)) m.calcDiff(d, x, u);
    near(M(d->Fx), M(s.J1(x, dx) + s.J2(x, dx) * Dx), "Fx"); near(M(d->Fu), M(s.J2(x, dx) * Du), "Fu");
    near(V(d->Lx), Lx, "Lx"); near(V(d->Lu), Lu, "Lu"); near(M(d->Lxx), Lxx, "Lxx"); near(M(d->Lxu), Lxu, "Lxu"); near(M(d->Luu), Luu, "Luu");
    M G = c->jz(c->G, x, w0).topRows(c->get_ng()), K = c->jz(c->Hm, x, w0).topRows(c->get_nh());
    near(M(d->Gx), M(G.leftCols(n)), "Gx"); near(M(d->Gu), M(G.rightCols(nw) * J0), "Gu"); near(M(d->Hx), M(K.leftCols(n)), "Hx"); near(M(d->Hu), M(K.rightCols(nw) * J0), "Hu");
    V q = V::Constant(nu, 7.); m.quasiStatic(d, q, x, 10, 1e-9);
    for (long b = 0; b < nu / nw; ++b) near(V(q.segment(b * nw, nw)), c->qsv(x), "quasi-static parameters");
  }
}
