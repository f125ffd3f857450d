#include "models.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
using namespace H; using namespace crocoddyl;
typedef ConstraintModelAbstractTpl<double> KM;
typedef ConstraintDataAbstractTpl<double> KD;
struct Con : KM {
  M A, B, AT; V a, aT;
  Con(Rng& R, StateP s, long nu, long ng, long nh, bool term) : KM(s, (size_t)nu, (size_t)ng, (size_t)nh, term), A(R.m(ng + nh, s->get_ndx())), B(R.m(ng + nh, nu)), AT(R.m(ng + nh, s->get_ndx())), a(R.v(ng + nh)), aT(R.v(ng + nh)) {
    lb_ = R.v(ng); ub_ = lb_ + V::Ones(ng);
  }
  V r(const V& x, const V& u) const { return A * tangent(*state_, x) + B * u + a; }
  V rT(const V& x) const { return AT * tangent(*state_, x) + aT; }
  using KM::calc; using KM::calcDiff;
  void calc(const std::shared_ptr<KD>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { V q = r(x, u); d->g = q.head(ng_); d->h = q.tail(nh_); }
  void calc(const std::shared_ptr<KD>& d, const Eigen::Ref<const V>& x) override { V q = rT(x); d->g = q.head(ng_); d->h = q.tail(nh_); }
  void calcDiff(const std::shared_ptr<KD>& d, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override { d->Gx = A.topRows(ng_); d->Hx = A.bottomRows(nh_); d->Gu = B.topRows(ng_); d->Hu = B.bottomRows(nh_); }
  void calcDiff(const std::shared_ptr<KD>& d, const Eigen::Ref<const V>&) override { d->Gx = AT.topRows(ng_); d->Hx = AT.bottomRows(nh_); }
  std::shared_ptr<ConstraintModelBase> cloneAsDouble() const override { return std::shared_ptr<ConstraintModelBase>(); }
  std::shared_ptr<ConstraintModelBase> cloneAsFloat() const override { return std::shared_ptr<ConstraintModelBase>(); }
};
struct Want { std::shared_ptr<Con> c; bool a; };
static void put(V& w, const V& q) { V z(w.size() + q.size()); z << w, q; w = z; }
static void put(M& w, const M& q) { M z(w.rows() + q.rows(), q.cols()); z.topRows(w.rows()) = w; z.bottomRows(q.rows()) = q; w = z; }
CASE(constraint_manager, 500) {
  auto s = rand_space(R, 1, 4); long nu = R.i(1, 3), ndx = s->get_ndx();
  ConstraintModelManagerTpl<double> m(s, nu); std::map<std::string, Want> W;
  expect(m.get_ng() == 0 && m.get_nh() == 0 && m.get_ng_T() == 0 && m.get_nh_T() == 0 && m.get_active_set().empty() && m.get_inactive_set().empty() && m.get_constraints().empty() && m.get_nu() == (size_t)nu, "new collection");
  DataCollectorAbstractTpl<double> dc;
  std::streambuf* eb = std::cout.rdbuf(nullptr);
  struct Rst { std::streambuf* b; ~Rst() { std::cout.rdbuf(b); } } rst{eb};
  auto check = [&]() {
    size_t ng = 0, nh = 0, gT = 0, hT = 0; std::set<std::string> A, I;
    for (auto& p : W) { auto& q = *p.second.c; if (p.second.a) { ng += q.get_ng(); nh += q.get_nh(); if (q.get_T_constraint()) { gT += q.get_ng(); hT += q.get_nh(); } } (p.second.a ? A : I).insert(p.first); }
    expect(m.get_ng() == ng, "inequality dimension"); expect(m.get_nh() == nh, "equality dimension"); expect(m.get_ng_T() == gT, "terminal inequality dimension"); expect(m.get_nh_T() == hT, "terminal equality dimension");
    expect(m.get_lb().size() == (long)ng && m.get_ub().size() == (long)ng, "bounds dimension");
    expect(m.get_active_set() == A, "active names"); expect(m.get_inactive_set() == I, "inactive names");
    expect(m.get_constraints().size() == W.size(), "items");
    for (auto& p : W) { expect(m.getConstraintStatus(p.first) == p.second.a, "status"); auto i = m.get_constraints().find(p.first); expect(i != m.get_constraints().end() && i->second->constraint == p.second.c && i->second->active == p.second.a && i->second->name == p.first, "item"); }
  };
  for (int e = 0; e < 14; ++e) {
    std::string n = "c" + std::to_string(R.i(0, 4)); int k = R.i(0, 4);
    if (k <= 1) {
      long cg = R.i(0, 3), ch = R.i(cg ? 0 : 1, 3); auto c = std::make_shared<Con>(R, s, nu, cg, ch, R.b()); bool a = R.i(0, 3) > 0;
      m.addConstraint(n, c, a);
      if (!W.count(n)) W[n] = {c, a};
    } else if (k == 2) { m.removeConstraint(n); W.erase(n); }
    else if (k == 3) { bool a = R.b(); m.changeConstraintStatus(n, a); if (W.count(n)) W[n].a = a; }
    else { auto c = std::make_shared<Con>(R, s, nu + 1, 1, 1, true); throws([&] { m.addConstraint(n, c); }, "control size"); }
    check();
  }
  for (int rep = 0; rep < 4; ++rep) {
    if (R.b() && W.size()) { auto p = W.begin(); std::advance(p, R.i(0, (int)W.size() - 1)); bool a = R.b(); m.changeConstraintStatus(p->first, a); p->second.a = a; check(); }
    auto d = m.createData(&dc);
    near(M(d->Gu), M(M::Zero(m.get_ng(), nu)), "new Gu"); near(M(d->Hu), M(M::Zero(m.get_nh(), nu)), "new Hu"); near(V(d->g), V(V::Zero(m.get_ng())), "new g");
    V x = rand_state(R, *s), u = R.v(nu);
    for (int z = 0; z < 3; ++z) {
      bool run = R.b();
      V g(0), h(0), lb(0), ub(0); M Gx(0, ndx), Hx(0, ndx), Gu(0, nu), Hu(0, nu);
      for (auto& p : W) { auto& q = *p.second.c; if (!p.second.a || (!run && !q.get_T_constraint())) continue;
        long ng = q.get_ng(), nh = q.get_nh(); V r = run ? q.r(x, u) : q.rT(x); const M& A = run ? q.A : q.AT;
        put(g, V(r.head(ng))); put(h, V(r.tail(nh))); put(lb, q.get_lb()); put(ub, q.get_ub()); put(Gx, M(A.topRows(ng))); put(Hx, M(A.bottomRows(nh))); put(Gu, M(q.B.topRows(ng))); put(Hu, M(q.B.bottomRows(nh))); }
      d->resize(&m, run);
      if (run) { m.calc(d, x, u); m.calcDiff(d, x, u); } else { m.calc(d, x); m.calcDiff(d, x); }
      near(V(d->g), g, "g"); near(V(d->h), h, "h"); near(M(d->Gx), Gx, "Gx"); near(M(d->Hx), Hx, "Hx");
      if (run) { near(M(d->Gu), Gu, "Gu"); near(M(d->Hu), Hu, "Hu"); }
      near(V(m.get_lb().head(lb.size())), lb, "lb"); near(V(m.get_ub().head(ub.size())), ub, "ub");
      if (run) expect(m.get_lb().size() == lb.size(), "lb size");
    }
    d->resize(&m, true);
    throws([&] { m.calc(d, V::Zero(s->get_nx() + 1), u); }, "x size"); throws([&] { m.calc(d, x, V::Zero(nu + 1)); }, "u size");
    throws([&] { m.calcDiff(d, V::Zero(s->get_nx() + 1), u); }, "x size"); throws([&] { m.calcDiff(d, x, V::Zero(nu + 1)); }, "u size"); throws([&] { m.calc(d, V::Zero(s->get_nx() + 1)); }, "x size"); throws([&] { m.calcDiff(d, V::Zero(s->get_nx() + 1)); }, "x size");
  }
}
