#include "h.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
using namespace H; using namespace crocoddyl;
typedef StateVectorTpl<double> SV;
static const Jcomponent COMP[] = {both, first, second};
static const AssignmentOp OPS[] = {setto, addto, rmfrom};
CASE(maps, 400) {
  long n = R.i(1, 7);
  SV s(n);
  V x = R.v(n), y = R.v(n), dx = R.v(n), d(n), z(n);
  near(s.zero(), V::Zero(n), "zero");
  s.diff(x, y, d); near(d, y - x, "diff"); s.integrate(x, d, z); near(z, y, "integrate(x, diff(x, y))");
  s.integrate(x, dx, z); near(z, x + dx, "integrate"); s.diff(x, z, d); near(d, dx, "diff(x, integrate(x, dx))");
  near(s.diff_dx(x, y), y - x, "diff_dx"); near(s.integrate_x(x, dx), x + dx, "integrate_x");
  V w = x; s.integrate(w, dx, w); near(w, x + dx, "integrate in place");
  long q = R.b() ? n + 1 : n - 1;
  V b = R.v(q), o = R.v(n), o0 = o, ob(q);
  throws([&] { s.diff(b, y, o); }, "wrong x0"); throws([&] { s.diff(x, b, o); }, "wrong x1"); throws([&] { s.diff(x, y, ob); }, "wrong dxout");
  throws([&] { s.integrate(b, dx, o); }, "wrong x"); throws([&] { s.integrate(x, b, o); }, "wrong dx"); throws([&] { s.integrate(x, dx, ob); }, "wrong xout");
  near(o, o0, "output after rejection");
}
CASE(jacobians, 400) {
  long n = R.i(1, 6);
  SV s(n);
  V x = R.v(n), y = R.v(n);
  M I = M::Identity(n, n);
  Jcomponent c = COMP[R.i(0, 2)];
  AssignmentOp op = OPS[R.i(0, 2)];
  M J1 = R.m(n, n), J2 = R.m(n, n), A1 = J1, A2 = J2;
  s.Jdiff(x, y, J1, J2, c);
  near(J1, c == second ? A1 : M(-I), "Jdiff first"); near(J2, c == first ? A2 : I, "Jdiff second");
  J1 = A1; J2 = A2;
  s.Jintegrate(x, y, J1, J2, c, op);
  M e1 = op == setto ? I : op == addto ? M(A1 + I) : M(A1 - I), e2 = op == setto ? I : op == addto ? M(A2 + I) : M(A2 - I);
  near(J1, c == second ? A1 : e1, "Jintegrate first"); near(J2, c == first ? A2 : e2, "Jintegrate second");
  M one = R.m(n, n); s.Jintegrate(x, y, one, one); near(one, I, "Jintegrate into one matrix");
  M T = R.m(n, R.i(1, 5)), T0 = T;
  s.JintegrateTransport(x, y, T, R.b() ? first : second); near(T, T0, "transport");
  throws([&] { s.JintegrateTransport(x, y, T, both); }, "transport of both"); near(T, T0, "transport after rejection");
  std::vector<M> js = s.Jdiff_Js(x, y, c); size_t k = 0;
  expect(js.size() == (c == both ? 2u : 1u), "number of Jacobians");
  if (c != second) near(js[k++], M(-I), "Jdiff_Js first");
  if (c != first) near(js[k++], I, "Jdiff_Js second");
  js = s.Jintegrate_Js(x, y, c);
  for (size_t q = 0; q < js.size(); ++q) near(js[q], I, "Jintegrate_Js");
  M bad = R.m(n, n + 1), ok = R.m(n, n);
  throws([&] { s.Jdiff(x, y, bad, ok, first); }, "Jdiff size"); throws([&] { s.Jdiff(x, y, ok, bad, second); }, "Jdiff size");
  throws([&] { s.Jintegrate(x, y, bad, ok, first); }, "Jintegrate size"); throws([&] { s.Jintegrate(x, y, ok, bad, second); }, "Jintegrate size");
}
