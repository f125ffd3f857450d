// SOURCES: solver-base.cpp solvers/ddp.cpp
#include "models.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
using namespace H;

static double nrm(const V& v, FeasibilityNorm n) { double s = 0; for (long i = 0; i < v.size(); ++i) s = n == LInf ? std::max(s, std::fabs(v[i])) : s + std::fabs(v[i]); return s; }
static double viol(const V& g, const V& lb, const V& ub, FeasibilityNorm n) {
  V v(g.size());
  for (long i = 0; i < g.size(); ++i) v[i] = g[i] < lb[i] ? lb[i] - g[i] : g[i] > ub[i] ? g[i] - ub[i] : 0.;
  return nrm(v, n);
}
static double comb(double a, double b, FeasibilityNorm n) { return n == LInf ? std::max(a, b) : a + b; }
CASE(measures, 300) {
  RandProblem q(R, 1, 6, true, true, 1., 1);
  auto bounds = [&](RandP m, long g) {
    if (!g) return;
    V lb(g), ub(g);
    for (long i = 0; i < g; ++i) {
      lb[i] = R.b(0.2) ? -INFINITY : R.u(-1, 0); ub[i] = R.b(0.2) ? INFINITY : lb[i] == -INFINITY ? R.u(-1, 1) : lb[i] + R.u(0, 0.5);
      if (R.b(0.1) && std::isfinite(lb[i])) ub[i] = lb[i];
    }
    m->set_g_lb(lb); m->set_g_ub(ub);
  };
  for (auto& m : q.m) bounds(m, m->get_ng());
  bounds(q.mt, q.mt->get_ng_T());
  SolverDDP s(q.p);
  for (int rep = 0; rep < 4; ++rep) {
    FeasibilityNorm n = R.b() ? LInf : L1;
    s.set_feasnorm(n);
    q.guess(R);
    if (R.b(0.2)) q.p->rollout(q.us, q.xs);
    s.setCandidate(q.xs, q.us, R.b(0.3));
    s.iter_ = 0;
    s.calcDiff();
    double f = 0, g = 0, h = 0; long nd = q.s->get_ndx();
    for (long k = 0; k <= q.T; ++k) {
      V e(nd); V prev = k ? V(q.m[k - 1]->step(q.xs[k - 1], q.us[k - 1])) : q.x0;
      q.s->diff(q.xs[k], prev, e);
      near(s.get_fs()[k], e, "gap");
      f = comb(f, nrm(e, n), n);
      if (k == q.T) break;
      long ng = q.m[k]->get_ng(), nh = q.m[k]->get_nh();
      if (ng) g = comb(g, viol(q.m[k]->g_at(q.xs[k], q.us[k]).head(ng), q.m[k]->get_g_lb().head(ng), q.m[k]->get_g_ub().head(ng), n), n);
      if (nh) h = comb(h, nrm(q.m[k]->h_at(q.xs[k], q.us[k]).head(nh), n), n);
    }
    V z = V::Zero(q.mt->get_nu());
    long ng = q.mt->get_ng_T(), nh = q.mt->get_nh_T();
    if (ng) g = comb(g, viol(q.mt->g_at(q.xs.back(), z).head(ng), q.mt->get_g_lb().head(ng), q.mt->get_g_ub().head(ng), n), n);
    if (nh) h = comb(h, nrm(q.mt->h_at(q.xs.back(), z).head(nh), n), n);
    near(s.get_ffeas(), f, "dynamic feasibility"); near(s.get_gfeas(), g, "inequality feasibility"); near(s.get_hfeas(), h, "equality feasibility");
    near(s.computeDynamicFeasibility(), f, "dynamic feasibility again"); near(s.computeInequalityFeasibility(), g, "inequality feasibility again");
    near(s.computeEqualityFeasibility(), h, "equality feasibility again");
  }
}

// inequality bounds are stored as given and refused in another size
#include "crocoddyl/core/actions/diff-lqr.hpp"
template <class Mod>
static void replace(Rng& R, Mod& m, long n) {
  V b[2] = {m.get_g_lb(), m.get_g_ub()};
  for (int k = 0; k < 5; ++k) {
    int w = R.i(0, 1); bool bad = R.b(0.3); V v = R.v(n + (bad ? R.b() && n ? -1 : 1 : 0));
    auto set = [&] { if (w) m.set_g_ub(v); else m.set_g_lb(v); };
    if (bad) throws(set, "bounds of a wrong size"); else { set(); b[w] = v; }
    expect(m.get_g_lb().size() == n && m.get_g_ub().size() == n, "size of the bounds");
    for (long i = 0; i < n; ++i) expect(m.get_g_lb()[i] == b[0][i] && m.get_g_ub()[i] == b[1][i], "stored bounds");
  }
}
CASE(stored_bounds, 200) {
  if (R.b()) { int g = R.i(0, 3), gT = R.i(0, 3); RandModel m(R, rand_space(R), 2, g, 0, gT, 0); replace(R, m, std::max(g, gT)); }
  else {
    long n = 2, nu = 1, g = R.i(0, 3); M W = M::Identity(2, 2), U = M::Identity(1, 1), Z = M::Zero(2, 1);
    crocoddyl::DifferentialActionModelLQRTpl<double> m(M(M::Identity(1, 1)), M(M::Identity(1, 1)), M(M::Identity(1, 1)), W, U, Z, R.m(g, n + nu), M(M::Zero(0, n + nu)), R.v(1), R.v(2), R.v(1), R.v(g), V(0));
    replace(R, m, g);
  }
}
