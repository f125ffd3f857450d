#include "integ.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
using namespace H;
typedef IntegratedActionModelEulerTpl<double> EM;
CASE(euler, 400) {
  auto c = rand_cont(R); WarpState& s = *c->w; long nv = s.get_nv(), n = 2 * nv, nw = c->nw; int kind = 0;
  auto ctl = rand_ctrl(R, nw, kind); if (R.b(0.2)) { kind = 0; ctl.reset(); }
  double dt = R.b(0.2) ? 0. : R.u(0.01, 0.5), neg = R.b(0.15) ? -1. : 1.; bool wr = R.b();
  EM m = ctl ? EM(c, ctl, neg * dt, wr) : EM(c, neg * dt, wr);
  if (neg < 0. && dt > 0.) dt = 1e-3;
  near(m.get_dt(), dt, "dt"); near(m.time_step2_, dt * dt, "squared step");
  if (R.b(0.3)) { dt = R.b(0.3) ? 0. : R.u(0., 0.4); m.set_dt(dt); near(m.get_dt(), dt, "dt"); }
  throws([&] { m.set_dt(-0.1); }, "negative step"); near(m.get_dt(), dt, "dt kept");
  M J = basis(kind, nw, 0.); long nu = J.cols();
  expect((long)m.get_nu() == nu && m.get_nr() == 2, "dimensions"); expect(m.get_ng() == c->get_ng() && m.get_nh() == c->get_nh() && m.get_ng_T() == c->get_ng_T() && m.get_nh_T() == c->get_nh_T(), "constraint dimensions");
  auto bounds = [&](Cont& k) { for (long b = 0; b < nu / nw; ++b) { near(m.get_u_lb().segment(b * nw, nw), k.u_lb_, "lower limits"); near(m.get_u_ub().segment(b * nw, nw), k.u_ub_, "upper limits"); } };
  bounds(*c);
  auto d = m.createData(); auto dd = std::static_pointer_cast<IntegratedActionDataEulerTpl<double>>(d);
  for (int rep = 0; rep < 4; ++rep) {
    V x = R.v(n), u = R.v(nu), w = J * u;
    if (rep == 2 && R.b()) {
      if (R.b(0.5)) { auto c2 = std::make_shared<Cont>(R, std::static_pointer_cast<WarpState>(c->get_state()), nw, c->get_ng(), c->get_nh(), c->get_ng_T(), c->get_nh_T()); m.set_differential(c2); c = c2; bounds(*c); d = m.createData(); dd = std::static_pointer_cast<IntegratedActionDataEulerTpl<double>>(d); }
      auto bad = std::make_shared<Cont>(R, std::static_pointer_cast<WarpState>(c->get_state()), nw + 1, 0, 0, 0, 0);
      throws([&] { m.set_differential(bad); }, "wrong control dimension"); expect(m.get_differential().get() == c.get(), "model kept");
    }
    if (R.b(0.3)) {
      m.calc(d, x); m.calcDiff(d, x);
      near(d->xnext, x, "terminal state"); near(d->cost, 2. * c->l(x, c->no()), "terminal cost"); near(V(d->g), V(c->gv(x, c->no()).head(c->get_ng_T())), "terminal g"); near(V(d->h), V(c->hv(x, c->no()).head(c->get_nh_T())), "terminal h");
      near(V(d->Lx), V(2. * c->lx(x, c->no())), "terminal Lx"); near(M(d->Lxx), M(2. * c->lzz(x, c->no()).topLeftCorner(n, n)), "terminal Lxx");
      near(M(d->Fx), M(M::Identity(n, n)), "terminal Fx");
      near(M(d->Gx), M(c->jz(c->G, x, c->no()).topRows(c->get_ng_T()).leftCols(n)), "terminal Gx"); near(M(d->Hx), M(c->jz(c->Hm, x, c->no()).topRows(c->get_nh_T()).leftCols(n)), "terminal Hx");
      continue;
    }
    V a = c->acc(x, w), dx(n), y(n); dx << dt * x.tail(nv) + dt * dt * a, dt * a; s.integrate(x, dx, y);
    m.calc(d, x, u);
    auto vals = [&](const std::string& t) { near(d->xnext, y, "next state" + t); near(d->cost, dt * c->l(x, w), "cost" + t); near(V(d->g), V(c->gv(x, w).head(c->get_ng())), "g" + t); near(V(d->h), V(c->hv(x, w).head(c->get_nh())), "h" + t); if (wr) near(V(d->r), V(c->r0 * x[0]), "residual" + t); };
    vals(""); if (dt == 0.) near(d->xnext, x, "null step");
    m.calcDiff(d, x, u); vals(" kept");
    M fx(n, n), fu(n, nu), A = c->fx(x), B = c->fu(w) * J; fx << dt * dt * A, dt * A; fx.topRightCorner(nv, nv) += dt * M::Identity(nv, nv); fu << dt * dt * B, dt * B;
    near(M(d->Fx), M(s.J1(x, dx) + s.J2(x, dx) * fx), "Fx"); near(M(d->Fu), M(s.J2(x, dx) * fu), "Fu");
    M h = c->lzz(x, w), G = c->jz(c->G, x, w).topRows(c->get_ng()), K = c->jz(c->Hm, x, w).topRows(c->get_nh());
    near(V(d->Lx), V(dt * c->lx(x, w)), "Lx"); near(V(d->Lu), V(dt * J.transpose() * c->lu(x, w)), "Lu");
    near(M(d->Lxx), M(dt * h.topLeftCorner(n, n)), "Lxx"); near(M(d->Lxu), M(dt * h.topRightCorner(n, nw) * J), "Lxu"); near(M(d->Luu), M(dt * J.transpose() * h.bottomRightCorner(nw, nw) * J), "Luu");
    near(M(d->Gx), M(G.leftCols(n)), "Gx"); near(M(d->Gu), M(G.rightCols(nw) * J), "Gu"); near(M(d->Hx), M(K.leftCols(n)), "Hx"); near(M(d->Hu), M(K.rightCols(nw) * J), "Hu");
    V q = V::Constant(nu, 7.); m.quasiStatic(d, q, x, 10, 1e-9);
    for (long b = 0; b < nu / nw; ++b) near(V(q.segment(b * nw, nw)), c->qsv(x), "quasi-static parameters");
  }
}
