#include "models.hpp"
using namespace H;

struct Picky : public RandModel {  // accepts only data it created itself
  Picky(Rng& R, StateP s, long nu) : RandModel(R, s, nu) {}
  std::vector<DataP> mine;
  std::shared_ptr<D> createData() { DataP d = RandModel::createData(); mine.push_back(d); return d; }
  bool checkData(const std::shared_ptr<D>& d) { for (auto& q : mine) if (q == d) return true; return false; }
};
typedef std::shared_ptr<Picky> PP;
static PP mk(Rng& R, StateP s) { return std::make_shared<Picky>(R, s, R.i(0, 3)); }
struct Ref { std::vector<ModelP> m; std::vector<DataP> d; ModelP mT; DataP dT; V x0; };
static void same(ShootingProblemTpl<double>& p, Ref& r, const std::string& w) {
  expect(p.get_T() == r.m.size() && p.get_runningModels().size() == r.m.size() && p.get_runningDatas().size() == r.m.size(), w + ": horizon or number of nodes");
  for (std::size_t k = 0; k < r.m.size(); ++k) {
    expect(p.get_runningModels()[k] == r.m[k], w + ": model of node " + std::to_string(k));
    if (r.d[k]) expect(p.get_runningDatas()[k] == r.d[k], w + ": data of node " + std::to_string(k));
    else { expect(p.get_runningDatas()[k] && r.m[k]->checkData(p.get_runningDatas()[k]), w + ": data not created by the model of node " + std::to_string(k));
      for (std::size_t q = 0; q < r.m.size(); ++q) expect(q == k || p.get_runningDatas()[q] != p.get_runningDatas()[k], w + ": nodes share the data created for one of them");
      r.d[k] = p.get_runningDatas()[k]; }
  }
  expect(p.get_terminalModel() == r.mT, w + ": terminal model");
  if (r.dT) expect(p.get_terminalData() == r.dT, w + ": terminal data");
  else { expect(p.get_terminalData() && r.mT->checkData(p.get_terminalData()), w + ": terminal data not created by its model"); r.dT = p.get_terminalData(); }
  near(p.get_x0(), r.x0, w + ": initial state");
}

CASE(histories, 400) {
  int n = R.i(1, 4);
  bool circ = R.b(0.3);
  StateP s = circ ? StateP(std::make_shared<CircleState>(n)) : StateP(std::make_shared<StateVectorTpl<double>>(n));
  StateP bad[3] = {std::make_shared<StateVectorTpl<double>>((int)s->get_nx() + R.i(1, 2)), std::make_shared<StateVectorTpl<double>>((int)s->get_nx() + 1),
                   circ ? StateP(std::make_shared<StateVectorTpl<double>>((int)s->get_nx())) : StateP(std::make_shared<StateVectorTpl<double>>((int)s->get_nx() + 3))};
  auto badm = [&] { return mk(R, bad[R.i(0, 2)]); };
  int T = R.i(1, 7);
  Ref r; r.x0 = rand_state(R, *s);
  for (int k = 0; k < T; ++k) { r.m.push_back(mk(R, s)); r.d.push_back(nullptr); }
  r.mT = mk(R, s);
  std::unique_ptr<ShootingProblemTpl<double>> p;
  bool withd = R.b();
  if (withd) {
    for (int k = 0; k < T; ++k) r.d[k] = r.m[k]->createData();
    r.dT = r.mT->createData();
    { auto m2 = r.m; m2[R.i(0, T - 1)] = mk(R, s); throws([&] { ShootingProblemTpl<double> q(r.x0, m2, r.mT, r.d, r.dT); }, "data of another model"); }
    { auto d2 = r.d; d2.push_back(r.m[0]->createData()); throws([&] { ShootingProblemTpl<double> q(r.x0, r.m, r.mT, d2, r.dT); }, "more data than models"); }
    throws([&] { ShootingProblemTpl<double> q(r.x0, r.m, r.mT, r.d, r.d[0]); }, "terminal data of another model");
    { PP b = badm(); throws([&] { ShootingProblemTpl<double> q(r.x0, r.m, b, r.d, b->createData()); }, "terminal node of another dimension"); }
    if (T > 1) { auto m2 = r.m; auto d2 = r.d; int k = R.i(1, T - 1); m2[k] = badm(); d2[k] = m2[k]->createData(); throws([&] { ShootingProblemTpl<double> q(r.x0, m2, r.mT, d2, r.dT); }, "node of another dimension"); }
    p.reset(new ShootingProblemTpl<double>(r.x0, r.m, r.mT, r.d, r.dT));
  } else {
    if (T > 1) { auto m2 = r.m; m2[R.i(1, T - 1)] = badm(); throws([&] { ShootingProblemTpl<double> q(r.x0, m2, r.mT); }, "node of another dimension"); }
    throws([&] { ShootingProblemTpl<double> q(r.x0, r.m, badm()); }, "terminal node of another dimension");
    throws([&] { V z = V::Zero(s->get_nx() + 1); ShootingProblemTpl<double> q(z, r.m, r.mT); }, "initial state size");
    p.reset(new ShootingProblemTpl<double>(r.x0, r.m, r.mT));
  }
  same(*p, r, "constructor");
  expect(!p->is_updated(), "fresh problem flagged as updated");
  for (int step = 0; step < 12; ++step) {
    int T0 = (int)r.m.size(), op = R.i(0, 13), i = R.b(0.3) ? T0 : R.i(0, T0); bool upd = true;
    PP m = R.b(0.4) ? std::static_pointer_cast<Picky>(r.m[R.b() ? 0 : R.i(0, T0 - 1)]) : R.b(0.1) ? std::static_pointer_cast<Picky>(r.mT) : mk(R, s);  // one model may serve several nodes
    DataP d = m->createData(), other = mk(R, s)->createData(); PP b = badm();
    std::string w = "operation " + std::to_string(op);
    const DataP was = i == T0 ? p->get_terminalData() : p->get_runningDatas()[i];
    switch (op) {
      case 0: p->circularAppend(m, d); r.m.erase(r.m.begin()); r.d.erase(r.d.begin()); r.m.push_back(m); r.d.push_back(d); break;
      case 1: p->circularAppend(m); r.m.erase(r.m.begin()); r.d.erase(r.d.begin()); r.m.push_back(m); r.d.push_back(nullptr); break;
      case 2: p->updateNode(i, m, d); if (i == T0) { r.mT = m; r.dT = d; } else { r.m[i] = m; r.d[i] = d; } break;
      case 3: p->updateModel(i, m); expect((i == T0 ? p->get_terminalData() : p->get_runningDatas()[i]) != was, "no new data for the new model"); if (i == T0) { r.mT = m; r.dT = nullptr; } else { r.m[i] = m; r.d[i] = nullptr; } break;
      case 4: p->set_terminalModel(m); r.mT = m; r.dT = nullptr; break;
      case 5: {
        int n2 = R.i(1, 7); r.m.clear(); r.d.assign(n2, nullptr);
        for (int k = 0; k < n2; ++k) r.m.push_back(mk(R, s));
        p->set_runningModels(r.m); break;
      }
      case 6: { V y = rand_state(R, *s); p->set_x0(y); r.x0 = y; upd = false; break; }
      case 7: throws([&] { p->circularAppend(m, other); }, "append with data of another model"); throws([&] { p->updateNode(i, m, other); }, "node with data of another model"); upd = false; break;
      case 8: throws([&] { p->circularAppend(b, b->createData()); }, "append of another dimension"); throws([&] { p->circularAppend(b); }, "append of another dimension"); upd = false; break;
      case 9: throws([&] { p->updateNode(i, b, b->createData()); }, "node of another dimension"); throws([&] { p->updateModel(i, b); }, "model of another dimension"); throws([&] { p->set_terminalModel(b); }, "terminal model of another dimension"); upd = false; break;
      case 10: throws([&] { p->updateNode(T0 + R.i(1, 3), m, d); }, "index beyond the horizon"); throws([&] { p->updateModel(T0 + R.i(1, 3), m); }, "index beyond the horizon"); upd = false; break;
      case 11: { auto m2 = r.m; for (int k = 0; k < 2; ++k) m2.push_back(mk(R, s)); m2[R.i(0, (int)m2.size() - 1)] = b; throws([&] { p->set_runningModels(m2); }, "running model of another dimension"); upd = false; break; }
      case 12: throws([&] { p->set_x0(V::Zero(s->get_nx() + 1)); }, "initial state size"); upd = false; break;
      case 13: { ShootingProblemTpl<double> q(*p); same(q, r, "copy"); expect(!q.is_updated(), "copy flagged as updated"); upd = false; break; }
    }
    same(*p, r, w);
    expect(p->is_updated() == upd, w + ": update flag");
    expect(!p->is_updated(), w + ": update flag not cleared by the query");
    std::vector<V> xs, us; for (std::size_t k = 0; k <= r.m.size(); ++k) xs.push_back(rand_state(R, *s));
    for (auto& q : r.m) us.push_back(R.v(q->get_nu()));
    double c = 0; for (std::size_t k = 0; k < r.m.size(); ++k) c += ((RandModel*)r.m[k].get())->cost(xs[k], us[k]);
    c += ((RandModel*)r.mT.get())->costT(xs.back());
    near(p->calc(xs, us), c, w + ": cost of the edited problem");
  }
}

// data of another kind, or none, offered to an edit of a problem with built-in actions
#include "integ.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
CASE(foreign_data, 60) {
  auto st = std::make_shared<StateVectorTpl<double>>(4);
  std::vector<ModelP> ms;
  ms.push_back(std::make_shared<ActionModelLQRTpl<double>>(4, 2));
  auto dl = std::make_shared<DifferentialActionModelLQRTpl<double>>(2, 1);
  ms.push_back(std::make_shared<IntegratedActionModelEulerTpl<double>>(dl, 0.1));
  ms.push_back(std::make_shared<IntegratedActionModelRKTpl<double>>(dl, R.b() ? RKType::two : RKType::four, 0.1));
  ms.push_back(std::make_shared<RandModel>(R, st, 2));
  int n = (int)ms.size();
  for (int k = 0; k < n; ++k) expect(k == 3 || ms[k]->checkData(ms[k]->createData()), "data of the model itself refused");
  ShootingProblemTpl<double> p(R.v(4), {ms[0], ms[1], ms[2]}, ms[0]);
  auto before = p.get_runningDatas();
  int i = R.i(0, 2), j = R.i(0, n - 1);
  if (i != j) {
    auto d = ms[j]->createData();
    throws([&] { p.updateNode(R.i(0, 2), ms[i], d); }, "data of another kind");
    throws([&] { p.circularAppend(ms[i], d); }, "data of another kind");
  }
  throws([&] { p.updateNode(R.i(0, 2), ms[i], nullptr); }, "no data");
  expect(p.get_runningDatas() == before, "data after a rejected edit");
  auto un = std::make_shared<ActionModelUnicycleTpl<double>>();
  expect(un->checkData(un->createData()) && !un->checkData(ms[3]->createData()), "unicycle data");
}
