// SOURCES:
#include "h.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
using namespace H; using namespace crocoddyl;
typedef ActionModelUnicycleTpl<double> UM;
CASE(unicycle, 300) {
  UM m;
  double dt = 0.1, wx = 10., wu = 1.;
  std::vector<std::shared_ptr<ActionDataAbstractTpl<double>>> ds = {m.createData(), m.createData()};
  for (int rep = 0; rep < 8; ++rep) {
    if (R.b(0.4)) { dt = R.u(0.01, 3.); m.set_dt(dt); }
    if (R.b(0.4)) { wx = R.b(0.2) ? 0. : R.u(-5, 5); wu = R.b(0.2) ? 0. : R.u(-5, 5); Eigen::Vector2d w(wx, wu); m.set_cost_weights(w); }
    if (R.b(0.2)) { throws([&] { m.set_dt(R.b() ? 0. : -R.u(0, 1)); }, "non-positive dt"); near(m.get_dt(), dt, "dt kept"); }
    auto d = ds[R.i(0, 1)];
    V x = R.v(3, R.b() ? 1. : 100.), u = R.v(2, R.b() ? 1. : 50.);
    if (R.b(0.1)) u.setZero();
    if (R.b(0.1)) x.setZero();
    bool term = R.b(0.4);
    if (term) m.calc(d, x); else m.calc(d, x, u);
    V f = x; double c = 0.5 * wx * wx * x.squaredNorm();
    if (!term) { f[0] += std::cos(x[2]) * u[0] * dt; f[1] += std::sin(x[2]) * u[0] * dt; f[2] += u[1] * dt; c += 0.5 * wu * wu * u.squaredNorm(); }
    near(d->xnext, f, "next state"); near(d->cost, c, "cost");
    if (term) m.calcDiff(d, x); else m.calcDiff(d, x, u);
    M Fx = M::Identity(3, 3), Fu = M::Zero(3, 2);
    Fx(0, 2) = -std::sin(x[2]) * u[0] * dt; Fx(1, 2) = std::cos(x[2]) * u[0] * dt;
    Fu(0, 0) = std::cos(x[2]) * dt; Fu(1, 0) = std::sin(x[2]) * dt; Fu(2, 1) = dt;
    near(d->Lx, wx * wx * x, "Lx"); near(d->Lxx, wx * wx * M::Identity(3, 3), "Lxx");
    near(d->xnext, f, "next state kept"); near(d->cost, c, "cost kept");
    if (!term) {
      near(d->Fx, Fx, "Fx"); near(d->Fu, Fu, "Fu"); near(d->Lu, wu * wu * u, "Lu"); near(d->Luu, wu * wu * M::Identity(2, 2), "Luu"); near(d->Lxu, M::Zero(3, 2), "Lxu");
    }
    if (R.b(0.3)) {
      V xb = R.v(R.b() ? 2 : 4), ub = R.v(R.b() ? 1 : 3);
      throws([&] { m.calc(d, xb, u); }, "wrong x"); throws([&] { m.calc(d, x, ub); }, "wrong u"); throws([&] { m.calc(d, xb); }, "wrong terminal x");
      throws([&] { m.calcDiff(d, xb, u); }, "wrong x in calcDiff"); throws([&] { m.calcDiff(d, x, ub); }, "wrong u in calcDiff"); throws([&] { m.calcDiff(d, xb); }, "wrong terminal x in calcDiff");
      near(d->xnext, f, "next state kept after rejection"); near(d->cost, c, "cost kept after rejection"); near(d->Lx, wx * wx * x, "Lx kept after rejection");
    }
  }
}
