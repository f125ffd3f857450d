#include "models.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/residual-base.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
using namespace H; using namespace crocoddyl;
typedef CostModelAbstractTpl<double> CM;
typedef CostDataAbstractTpl<double> CDt;
struct Cost : CM {
  M A, B, C; V a, b;
  Cost(Rng& R, StateP s, long nu, long nr) : CM(s, std::make_shared<ActivationModelQuadTpl<double>>(nr), nu), A(R.m(s->get_ndx(), s->get_ndx())), B(R.m(s->get_ndx(), nu)), C(R.m(nu, nu)), a(R.v(s->get_ndx())), b(R.v(nu)) {}
  double l(const V& x, const V& u) const { V d = tangent(*state_, x); return d.dot(A * d) + d.dot(B * u) + u.dot(C * u) + a.dot(d) + b.dot(u); }
  double lT(const V& x) const { V d = tangent(*state_, x); return d.dot(A * d) - a.dot(d); }
  using CM::calc; using CM::calcDiff;
  void calc(const std::shared_ptr<CDt>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { d->cost = l(x, u); }
  void calc(const std::shared_ptr<CDt>& d, const Eigen::Ref<const V>& x) override { d->cost = lT(x); }
  V lx(const V& x, const V& u) const { V d = tangent(*state_, x); return (A + A.transpose()) * d + B * u + a; }
  V lu(const V& x, const V& u) const { return B.transpose() * tangent(*state_, x) + (C + C.transpose()) * u + b; }
  V lxT(const V& x) const { return (A + A.transpose()) * tangent(*state_, x) - a; }
  void calcDiff(const std::shared_ptr<CDt>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { d->Lx = lx(x, u); d->Lu = lu(x, u); d->Lxx = A + A.transpose(); d->Lxu = B; d->Luu = C + C.transpose(); }
  void calcDiff(const std::shared_ptr<CDt>& d, const Eigen::Ref<const V>& x) override { d->Lx = lxT(x); d->Lxx = -A; }
  std::shared_ptr<CostModelBase> cloneAsDouble() const override { return std::shared_ptr<CostModelBase>(); }
  std::shared_ptr<CostModelBase> cloneAsFloat() const override { return std::shared_ptr<CostModelBase>(); }
};
struct Want { std::shared_ptr<Cost> c; double w; bool a; };
CASE(cost_sum, 600) {
  auto s = rand_space(R, 1, 4); long nu = R.i(1, 3), ndx = s->get_ndx();
  CostModelSumTpl<double> m(s, nu); std::map<std::string, Want> W;
  expect(m.get_nr() == 0 && m.get_nr_total() == 0 && m.get_active_set().empty() && m.get_inactive_set().empty() && m.get_costs().empty() && m.get_nu() == (size_t)nu, "new collection");
  DataCollectorAbstractTpl<double> dc;
  std::streambuf* eb = std::cerr.rdbuf(nullptr);
  struct Rst { std::streambuf* b; ~Rst() { std::cerr.rdbuf(b); } } rst{eb};
  auto check = [&]() {
    size_t nr = 0, nt = 0; std::set<std::string> A, I;
    for (auto& p : W) { size_t k = p.second.c->get_activation()->get_nr(); nt += k; if (p.second.a) nr += k; (p.second.a ? A : I).insert(p.first); }
    expect(m.get_nr() == nr, "active dimension"); expect(m.get_nr_total() == nt, "total dimension");
    expect(m.get_active_set() == A, "active names"); expect(m.get_inactive_set() == I, "inactive names");
    expect(m.get_costs().size() == W.size(), "items");
    for (auto& p : W) { expect(m.getCostStatus(p.first) == p.second.a, "status"); auto i = m.get_costs().find(p.first); expect(i != m.get_costs().end() && i->second->cost == p.second.c && i->second->weight == p.second.w && i->second->active == p.second.a, "item"); }
  };
  for (int e = 0; e < 14; ++e) {
    std::string n = "c" + std::to_string(R.i(0, 4)); int k = R.i(0, 4);
    if (k <= 1) {
      auto c = std::make_shared<Cost>(R, s, nu, R.i(1, 4)); double w = R.b(0.2) ? 0. : R.b(0.2) ? 1. : R.u(-1., 2.); bool a = R.b();
      if (W.size() && R.b(0.15)) c = W.begin()->second.c;  // one cost under several names
      if (k == 0) m.addCost(n, c, w, a); else m.addCost(std::make_shared<CostItemTpl<double>>(n, c, w, a));
      if (!W.count(n)) W[n] = {c, w, a};
    } else if (k == 2) { m.removeCost(n); W.erase(n); }
    else if (k == 3) { bool a = R.b(); m.changeCostStatus(n, a); if (W.count(n)) W[n].a = a; }
    else { auto c = std::make_shared<Cost>(R, s, nu + 1, 1); throws([&] { m.addCost(n, c, 1.); }, "control size"); throws([&] { m.addCost(std::make_shared<CostItemTpl<double>>(n, c, 1., true)); }, "control size"); }
    check();
  }
  auto d = m.createData(&dc);
  near(V(d->Lx), V(V::Zero(ndx)), "new Lx");
  for (int rep = 0; rep < 4; ++rep) {
    if (R.b(0.15)) { for (auto& p : W) { m.changeCostStatus(p.first, false); p.second.a = false; } check(); }
    if (R.b() && W.size()) { auto p = W.begin(); std::advance(p, R.i(0, (int)W.size() - 1)); bool a = R.b(); m.changeCostStatus(p->first, a); p->second.a = a; check(); }
    V x = rand_state(R, *s), u = R.v(nu);
    double c = 0, cT = 0; V lx = V::Zero(ndx), lu = V::Zero(nu), lxT = lx; M xx = M::Zero(ndx, ndx), xxT = xx, xu = M::Zero(ndx, nu), uu = M::Zero(nu, nu);
    for (auto& p : W) if (p.second.a) { auto& q = *p.second.c; double w = p.second.w; c += w * q.l(x, u); cT += w * q.lT(x); lx += w * q.lx(x, u); lu += w * q.lu(x, u); lxT += w * q.lxT(x); xx += w * (q.A + q.A.transpose()); xxT -= w * q.A; xu += w * q.B; uu += w * (q.C + q.C.transpose()); }
    bool run = R.b(0.75);
    if (run) {
    m.calc(d, x, u); near(d->cost, c, "cost");
    m.calcDiff(d, x, u); near(d->cost, c, "cost kept"); near(V(d->Lx), lx, "Lx"); near(V(d->Lu), lu, "Lu"); near(M(d->Lxx), xx, "Lxx"); near(M(d->Lxu), xu, "Lxu"); near(M(d->Luu), uu, "Luu");
    }
    if (!run || R.b()) { m.calc(d, x); near(d->cost, cT, "terminal cost"); m.calcDiff(d, x); near(V(d->Lx), lxT, "terminal Lx"); near(M(d->Lxx), xxT, "terminal Lxx"); if (run) near(V(d->Lu), lu, "terminal Lu"); }
    throws([&] { m.calc(d, V::Zero(s->get_nx() + 1), u); }, "x size"); throws([&] { m.calc(d, x, V::Zero(nu + 1)); }, "u size");
  }
}
