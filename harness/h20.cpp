// SOURCES: solvers/box-qp.cpp
#include "h.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
using namespace H;
using crocoddyl::BoxQP;
using crocoddyl::BoxQPSolution;

namespace {
struct Prob {
  long n; M Hs; V q, lb, ub, x0;
  explicit Prob(Rng& R) {
    n = R.i(1, 7);
    Hs = R.spd(n, 0.2); q = R.v(n, 3.);
    lb.resize(n); ub.resize(n); x0.resize(n);
    double w = R.b(0.3) ? 0.05 : 1.;
    for (long i = 0; i < n; ++i) {
      double a = R.u(-2, 2) * w, b = R.u(-2, 2) * w;
      lb(i) = std::min(a, b); ub(i) = std::max(a, b);
      if (R.b(0.15)) ub(i) = lb(i);
      if (R.b(0.15)) ub(i) = 1e6;
      if (R.b(0.15)) lb(i) = -1e6;
      x0(i) = R.b(0.2) ? lb(i) : R.b(0.2) ? ub(i) : R.u(-3, 3);
    }
  }
};
bool same(const BoxQPSolution& a, const BoxQPSolution& b) {
  return a.x == b.x && a.free_idx == b.free_idx && a.clamped_idx == b.clamped_idx;
}
void check(const BoxQPSolution& s, const Prob& p, const V& xc, double reg) {
  const long n = p.n;
  expect(s.x.size() == n, "size of the solution");
  for (long i = 0; i < n; ++i) expect(p.lb(i) <= s.x(i) && s.x(i) <= p.ub(i), "solution outside the bounds");
  V g = p.q + p.Hs * xc;
  std::vector<int> seen(n, 0);
  for (std::size_t k = 0; k < s.free_idx.size(); ++k) {
    std::size_t i = s.free_idx[k];
    expect(i < (std::size_t)n, "free index out of range"); seen[i]++;
    expect(k == 0 || s.free_idx[k - 1] < i, "free indices not increasing");
    bool h = (xc(i) == p.lb(i) && g(i) > 1e-9) || (xc(i) == p.ub(i) && g(i) < -1e-9);
    expect(!h, "a variable held by its bound is listed as free");
  }
  for (std::size_t k = 0; k < s.clamped_idx.size(); ++k) {
    std::size_t i = s.clamped_idx[k];
    expect(i < (std::size_t)n, "clamped index out of range"); seen[i]++;
    expect(k == 0 || s.clamped_idx[k - 1] < i, "clamped indices not increasing");
    bool h = (s.x(i) == p.lb(i) && g(i) > -1e-9) || (s.x(i) == p.ub(i) && g(i) < 1e-9);
    expect(h, "a clamped variable is not held by its bound");
  }
  for (long i = 0; i < n; ++i) expect(seen[i] == 1, "a variable is not listed exactly once");
  const long nf = (long)s.free_idx.size();
  M Hff(nf, nf);
  for (long a = 0; a < nf; ++a) for (long b = 0; b < nf; ++b) Hff(a, b) = p.Hs(s.free_idx[a], s.free_idx[b]) + (a == b ? reg : 0.);
  near(M(Hff * s.Hff_inv), M(M::Identity(nf, nf)), "inverse of the free block", 1e-7);
}
}  // namespace

CASE(solve, 400) {
  std::unique_ptr<BoxQP> keep;
  for (int rep = 0; rep < 2; ++rep) {
    Prob p(R);
    double reg = R.b(0.3) ? 0. : R.b() ? 1e-9 : R.u(0, 1);
    V x = p.x0.cwiseMin(p.ub).cwiseMax(p.lb);
    BoxQPSolution last;
    const int J = R.i(1, 8);
    for (int j = 1; j <= J; ++j) {
      BoxQP s(p.n, j, R.b() ? 0.1 : 0.4, R.b() ? 1e-9 : 1e-3, reg);
      // (the settings other than maxiter are those of the first iteration)
      if (keep && (long)keep->get_nx() == p.n) { s.set_th_acceptstep(keep->get_th_acceptstep()); s.set_th_grad(keep->get_th_grad()); }
      else keep.reset(new BoxQP(p.n, j, s.get_th_acceptstep(), s.get_th_grad(), reg));
      if (R.b(0.3)) { V o = R.v(p.n); s.solve(p.Hs, o, p.lb, p.ub, o); }   // a repeated call does not depend on the previous one
      const BoxQPSolution& sol = s.solve(p.Hs, p.q, p.lb, p.ub, p.x0);
      if (j > 1 && same(sol, last)) continue;
      check(sol, p, x, reg);
      x = sol.x; last = sol;
    }
    // bounds inactive: the unconstrained minimiser after one iteration
    BoxQP u(p.n, 1, 0.1, 1e-9, 0.);
    V big = V::Constant(p.n, 1e8);
    near(u.solve(p.Hs, p.q, -big, big, p.x0).x, V(-p.Hs.inverse() * p.q), "unconstrained minimiser", 1e-6);
    keep.reset();
  }
}

CASE(sizes, 200) {
  Prob p(R);
  BoxQP s(p.n, 10);
  s.solve(p.Hs, p.q, p.lb, p.ub, p.x0);
  BoxQPSolution a = s.get_solution();
  int c = R.i(0, 6); long d = R.b() ? 1 : (p.n > 1 ? -1 : 1);
  M Hb = p.Hs; V q = p.q, lb = p.lb, ub = p.ub, x0 = p.x0;
  V v = V::Ones(p.n + d);
  if (c == 0) Hb = M::Identity(p.n + d, p.n); else if (c == 1) Hb = M::Identity(p.n, p.n + d); else if (c == 2) q = v; else if (c == 3) lb = v; else if (c == 4) ub = v; else if (c == 5) x0 = v; else Hb = M::Identity(p.n + d, p.n + d);
  throws([&] { s.solve(Hb, q, lb, ub, x0); }, "mismatched sizes accepted");
  expect(same(a, s.get_solution()), "a rejected call changes the solution");
  s.set_nx(p.n + d);
  M I = M::Identity(p.n + d, p.n + d);
  V w = R.v(p.n + d, 2.);
  Prob r(p); r.n = p.n + d; r.Hs = I; r.q = w; r.lb = -v; r.ub = v; r.x0 = V::Zero(p.n + d);
  near(s.solve(I, w, -v, v, r.x0).x, V((-w).cwiseMin(v).cwiseMax(-v)), "separable problem after set_nx", 1e-6);
  M N = -I;
  if (R.b()) throws([&] { s.solve(N, V::Zero(p.n + d), -v, v, V::Zero(p.n + d)); }, "indefinite Hessian accepted");
}

CASE(settings, 100) {
  BoxQP s(3);
  double t = R.b(0.3) ? (R.b() ? 0. : 0.5) : R.u(-0.5, 1.);
  double o = s.get_th_acceptstep();
  if (t > 0 && t < 0.5) { s.set_th_acceptstep(t); expect(s.get_th_acceptstep() == t, "th_acceptstep"); }
  else { throws([&] { s.set_th_acceptstep(t); }, "th_acceptstep range"); expect(s.get_th_acceptstep() == o, "th_acceptstep changed"); }
  double g = R.b(0.2) ? 0. : R.u(-1, 1);
  o = s.get_th_grad();
  if (g >= 0) { s.set_th_grad(g); expect(s.get_th_grad() == g, "th_grad"); } else { throws([&] { s.set_th_grad(g); }, "th_grad range"); expect(s.get_th_grad() == o, "th_grad changed"); }
  o = s.get_reg();
  if (g >= 0) { s.set_reg(g); expect(s.get_reg() == g, "reg"); } else { throws([&] { s.set_reg(g); }, "reg range"); expect(s.get_reg() == o, "reg changed"); }
  std::vector<double> al(R.i(0, 6));
  double x = 1.;
  for (auto& a : al) { a = x; x *= R.u(0.2, 0.9); }
  bool ok = !al.empty();
  if (!al.empty() && R.b()) { std::size_t k = R.i(0, (int)al.size() - 1); al[k] = R.b() ? -al[k] : R.b() ? 0. : al[k] * 20; }
  for (std::size_t i = 0; i < al.size(); ++i) ok = ok && al[i] > 0 && (i == 0 || al[i] < al[i - 1]);
  auto before = s.get_alphas();
  if (ok) { s.set_alphas(al); expect(s.get_alphas() == al, "alphas"); } else { throws([&] { s.set_alphas(al); }, "bad step lengths accepted"); expect(s.get_alphas() == before, "alphas changed"); }
}
