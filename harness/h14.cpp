#include "models.hpp"
using namespace H;

static void check_running(RandProblem& q, const std::vector<V>& xs, const std::vector<V>& us, const char* w) {
  for (long k = 0; k < q.T; ++k) {
    DataP d = q.p->get_runningDatas()[k]; RandModel& m = *q.m[k];
    near(d->cost, m.cost(xs[k], us[k]), std::string(w) + " node cost");
    near(d->xnext, m.step(xs[k], us[k]), std::string(w) + " node next state");
    if (m.get_ng()) near(d->g.head(m.get_ng()), m.g_at(xs[k], us[k]).head(m.get_ng()), "g");
    if (m.get_nh()) near(d->h.head(m.get_nh()), m.h_at(xs[k], us[k]).head(m.get_nh()), "h");
  }
}
static double total(RandProblem& q, const std::vector<V>& xs, const std::vector<V>& us) {
  double c = 0; for (long k = 0; k < q.T; ++k) c += q.m[k]->cost(xs[k], us[k]);
  return c + q.mt->costT(xs[q.T]);
}

CASE(calc_calcDiff, 120) {
  RandProblem q(R, 1, 6, true);
  for (int rep = 0; rep < 3; ++rep) {
    q.guess(R);
    double c = q.p->calc(q.xs, q.us);
    near(c, total(q, q.xs, q.us), "calc cost");
    check_running(q, q.xs, q.us, "calc");
    near(q.p->get_terminalData()->cost, q.mt->costT(q.xs[q.T]), "terminal cost");
    double cd = q.p->calcDiff(q.xs, q.us);
    near(cd, c, "calcDiff cost");
    check_running(q, q.xs, q.us, "calcDiff");
    for (long k = 0; k < q.T; ++k) {
      DataP d = q.p->get_runningDatas()[k]; RandModel& m = *q.m[k];
      near(d->Fx, m.fx(q.xs[k]), "Fx"); near(d->Fu, m.fu(), "Fu"); near(d->Lx, m.lx(q.xs[k], q.us[k]), "Lx");
      near(d->Lu, m.lu(q.xs[k], q.us[k]), "Lu"); near(d->Lxx, m.lxx(q.xs[k]), "Lxx"); near(d->Lxu, m.P, "Lxu"); near(d->Luu, m.Ru, "Luu");
    }
    V z = V::Zero(q.mt->get_nu());
    near(q.p->get_terminalData()->Lx, q.mt->lx(q.xs[q.T], z), "terminal Lx");
    near(q.p->get_terminalData()->Lxx, q.mt->lxx(q.xs[q.T]), "terminal Lxx");
    long nt = q.mt->get_ng_T();
    if (nt) { near(q.p->get_terminalData()->g.head(nt), q.mt->g_at(q.xs[q.T], z).head(nt), "terminal g"); near(q.p->get_terminalData()->Gx.topRows(nt), q.mt->gx(q.xs[q.T]).topRows(nt), "terminal Gx"); }
  }
}
CASE(rollout, 120) {
  RandProblem q(R, 1, 7, true);
  std::vector<V> xs(q.T + 1); for (long k = 0; k <= q.T; ++k) xs[k] = rand_state(R, *q.s);
  q.p->rollout(q.us, xs);
  std::vector<V> e; e.push_back(q.x0); for (long k = 0; k < q.T; ++k) e.push_back(q.m[k]->step(e[k], q.us[k]));
  for (long k = 0; k <= q.T; ++k) near(xs[k], e[k], "rollout state");
  check_running(q, e, q.us, "rollout");
  near(q.p->get_terminalData()->cost, q.mt->costT(e[q.T]), "rollout terminal cost");
  std::vector<V> ys = q.p->rollout_us(q.us);
  expect(ys.size() == xs.size(), "rollout_us length");
  for (long k = 0; k <= q.T; ++k) near(ys[k], e[k], "rollout_us state");
  near(q.p->get_x0(), q.x0, "x0 kept");
}
CASE(quasiStatic, 80) {
  RandProblem q(R, 1, 6);
  std::vector<V> xs(q.xs.begin(), q.xs.end() - 1), us(q.us);
  q.p->quasiStatic(us, xs);
  for (long k = 0; k < q.T; ++k) near(us[k], q.m[k]->qs(xs[k]), "quasiStatic");
  std::vector<V> vs = q.p->quasiStatic_xs(xs);
  expect((long)vs.size() == q.T, "quasiStatic_xs length");
  for (long k = 0; k < q.T; ++k) near(vs[k], q.m[k]->qs(xs[k]), "quasiStatic_xs");
}
CASE(lengths, 60) {
  RandProblem q(R, 1, 4);
  std::vector<V> xl(q.xs), xsh(q.xs.begin(), q.xs.end() - 1), ul(q.us), ush(q.us.begin(), q.us.end() - 1);
  xl.push_back(q.xs[0]); ul.push_back(q.us[0]);
  std::vector<V>* bx[2] = {&xl, &xsh}; std::vector<V>* bu[2] = {&ul, &ush};
  for (int k = 0; k < 2; ++k) {
    throws([&] { q.p->calc(*bx[k], q.us); }, "calc with a wrong number of states");
    throws([&] { q.p->calc(q.xs, *bu[k]); }, "calc with a wrong number of controls");
    throws([&] { q.p->calcDiff(*bx[k], q.us); }, "calcDiff with a wrong number of states");
    throws([&] { q.p->calcDiff(q.xs, *bu[k]); }, "calcDiff with a wrong number of controls");
    throws([&] { std::vector<V> y(*bx[k]); q.p->rollout(q.us, y); }, "rollout with a wrong number of states");
    throws([&] { std::vector<V> y(q.xs); q.p->rollout(*bu[k], y); }, "rollout with a wrong number of controls");
  }
  throws([&] { std::vector<V> u(q.us); q.p->quasiStatic(u, q.xs); }, "quasiStatic with T+1 states");
  throws([&] { std::vector<V> u(ul); q.p->quasiStatic(u, xsh); }, "quasiStatic with T+1 controls");
}
