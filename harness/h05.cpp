#include "h.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
using namespace H; using namespace crocoddyl;
typedef ControlParametrizationModelAbstractTpl<double> CM;
static V lag(int kind, double t) {
  std::vector<double> nd = kind == 0 ? std::vector<double>{0.} : kind == 1 ? std::vector<double>{0., .5} : kind == 2 ? std::vector<double>{0., 1. / 3, 2. / 3} : std::vector<double>{0., .5, 1.};
  V c(nd.size());
  for (size_t a = 0; a < nd.size(); ++a) { c[a] = 1; for (size_t b = 0; b < nd.size(); ++b) if (b != a) c[a] *= (t - nd[b]) / (nd[a] - nd[b]); }
  return c;
}
CASE(control, 500) {
  long nw = R.i(1, 5); int kind = R.i(0, 3);
  std::shared_ptr<CM> m;
  if (kind == 0) m = std::make_shared<ControlParametrizationModelPolyZeroTpl<double>>(nw);
  else if (kind == 1) m = std::make_shared<ControlParametrizationModelPolyOneTpl<double>>(nw);
  else m = std::make_shared<ControlParametrizationModelPolyTwoRKTpl<double>>(nw, kind == 2 ? three : four);
  int q = kind == 0 ? 1 : kind == 1 ? 2 : 3; long nu = q * nw;
  expect((long)m->get_nw() == nw && (long)m->get_nu() == nu, "dimensions");
  std::vector<std::shared_ptr<ControlParametrizationDataAbstractTpl<double>>> ds = {m->createData(), m->createData()};
  for (int rep = 0; rep < 4; ++rep) {
    auto d = ds[R.i(0, 1)];
    double t = R.b(0.3) ? 0.5 * R.i(0, 2) : R.u(0, 1);
    V u = R.v(nu), c = lag(kind, t);
    M J = M::Zero(nw, nu);
    for (int k = 0; k < q; ++k) J.middleCols(k * nw, nw) = c[k] * M::Identity(nw, nw);
    m->calc(d, t, u); near(d->w, J * u, "control");
    m->calcDiff(d, t, u); near(d->dw_du, J, "Jacobian"); near(d->w, J * u, "control kept");
    long r = R.i(1, 4);
    M A = R.m(r, nw), B = R.m(nw, r), O = R.m(r, nu), P = R.m(nu, r), O0 = O, P0 = P;
    AssignmentOp op = (AssignmentOp)R.i(0, 2); double s = op == setto ? 0. : 1., g = op == rmfrom ? -1. : 1.;
    m->multiplyByJacobian(d, A, O, op); near(O, s * O0 + g * A * J, "right product");
    m->multiplyJacobianTransposeBy(d, B, P, op); near(P, s * P0 + g * J.transpose() * B, "left product");
    near(m->multiplyByJacobian_J(d, A, op), g * A * J, "right product value"); near(m->multiplyJacobianTransposeBy_J(d, B, op), g * J.transpose() * B, "left product value");
    M Ab = R.m(r, nw + 1), Bb = R.m(nw + 1, r); O0 = O; P0 = P;
    throws([&] { m->multiplyByJacobian(d, Ab, O, op); }, "wrong A"); throws([&] { m->multiplyJacobianTransposeBy(d, Bb, P, op); }, "wrong A transposed");
    near(O, O0, "output after rejection"); near(P, P0, "output after rejection");
    V w = R.v(nw), lo = R.v(nw), hi = R.v(nw), ul = R.v(nu), uh = R.v(nu);
    m->params(d, R.u(0, 1), w);
    for (int k = 0; k < q; ++k) near(d->u.segment(k * nw, nw), w, "parameters");
    V p = d->u; m->calc(d, R.u(0, 1), p); near(d->w, w, "reproduced control");
    m->convertBounds(lo, hi, ul, uh);
    for (int k = 0; k < q; ++k) { near(ul.segment(k * nw, nw), lo, "lower bounds"); near(uh.segment(k * nw, nw), hi, "upper bounds"); }
    V b = R.v(nw + 1), bu = R.v(nu + 1), w0 = d->w, u0 = d->u;
    throws([&] { m->calc(d, t, bu); }, "wrong u"); throws([&] { m->params(d, t, b); }, "wrong w"); throws([&] { m->convertBounds(b, hi, ul, uh); }, "wrong w_lb");
    throws([&] { m->convertBounds(lo, b, ul, uh); }, "wrong w_ub"); throws([&] { m->convertBounds(lo, hi, bu, uh); }, "wrong u_lb"); throws([&] { m->convertBounds(lo, hi, ul, bu); }, "wrong u_ub");
    near(d->w, w0, "control after rejection"); near(d->u, u0, "parameters after rejection");
  }
}
