// Sum of weighted costs under every history of add / remove / activate / deactivate.
// BOUNDS: every sequence of 3 operations over 2 names from an empty or one-item sum (quick), 3 operations over 3 names (thorough); every weight and every value of the individual costs; state dimension 2, one or two controls
// OUTSIDE: data objects created for a different set of costs of the same size; floating-point rounding
#include "sym/harness.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/cost-base.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
using namespace vf;
using namespace crocoddyl;
typedef CostModelAbstractTpl<double> CostBase;
typedef CostDataAbstractTpl<double> CostData;
typedef Eigen::Ref<const Vec> VR;
typedef CostModelSumTpl<double> Sum;

struct Values { double cost; Vec Lx, Lu; Mat Lxx, Lxu, Luu; };
static Values any(const std::string &p, long nx, long nu) {
  return Values{in(p + "cost"), in_vec(p + "Lx", nx), in_vec(p + "Lu", nu), in_mat(p + "Lxx", nx, nx), in_mat(p + "Lxu", nx, nu), in_mat(p + "Luu", nu, nu)};
}
// a cost that returns arbitrary values, different ones for running and terminal nodes
struct Stub : CostBase {
  Values run, term;
  Stub(std::shared_ptr<StateAbstractTpl<double>> s, long nr, long nu, const std::string &p)
      : CostBase(s, nr, nu), run(any(p + "_", s->get_nx(), nu)), term(any(p + "_t_", s->get_nx(), nu)) {}
  void calc(const std::shared_ptr<CostData> &d, const VR &, const VR &) override { d->cost = run.cost; }
  void calc(const std::shared_ptr<CostData> &d, const VR &) override { d->cost = term.cost; }
  void calcDiff(const std::shared_ptr<CostData> &d, const VR &, const VR &) override { d->Lx = run.Lx; d->Lu = run.Lu; d->Lxx = run.Lxx; d->Lxu = run.Lxu; d->Luu = run.Luu; }
  void calcDiff(const std::shared_ptr<CostData> &d, const VR &) override { d->Lx = term.Lx; d->Lxx = term.Lxx; }
};
struct Item { bool present = false, active = false; double w = 0; long nr = 0; std::shared_ptr<Stub> cost; };
typedef std::map<std::string, Item> Shadow;

static void bookkeeping(const Sum &s, const Shadow &sh, const std::string &when) {
  long nr = 0, total = 0, n = 0;
  std::set<std::string> on, off;
  for (auto &kv : sh) if (kv.second.present) {
    ++n;
    total += kv.second.nr;
    if (kv.second.active) { nr += kv.second.nr; on.insert(kv.first); } else off.insert(kv.first);
  }
  check_true("number of costs " + when, (long)s.get_costs().size() == n);
  check_true("dimension of the active residuals " + when, (long)s.get_nr() == nr);
  check_true("dimension of all residuals " + when, (long)s.get_nr_total() == total);
  check_true("active set " + when, s.get_active_set() == on);
  check_true("inactive set " + when, s.get_inactive_set() == off);
  for (auto &kv : sh) check_true("status " + when, s.getCostStatus(kv.first) == (kv.second.present && kv.second.active));
}
static void values(Sum &s, const Shadow &sh, const std::shared_ptr<CostDataSumTpl<double>> &d, const Vec &x, const Vec &u, bool terminal) {
  const long nx = x.size(), nu = u.size();
  double cost = 0;
  Vec Lx = Vec::Zero(nx), Lu = Vec::Zero(nu);
  Mat Lxx = Mat::Zero(nx, nx), Lxu = Mat::Zero(nx, nu), Luu = Mat::Zero(nu, nu);
  for (auto &kv : sh) if (kv.second.present && kv.second.active) {
    const Values &v = terminal ? kv.second.cost->term : kv.second.cost->run;
    cost += kv.second.w * v.cost;
    Lx += kv.second.w * v.Lx;
    Lu += kv.second.w * v.Lu;
    Lxx += kv.second.w * v.Lxx;
    Lxu += kv.second.w * v.Lxu;
    Luu += kv.second.w * v.Luu;
  }
  if (terminal) {
    s.calc(d, x);
    check_eq("terminal cost is the weighted sum of the active costs", d->cost, cost);
    s.calcDiff(d, x);
    check_eqm("terminal gradient is the weighted sum", Vec(d->Lx), Lx);
    check_eqm("terminal curvature is the weighted sum", Mat(d->Lxx), Lxx);
  } else {
    s.calc(d, x, u);
    check_eq("cost is the weighted sum of the active costs", d->cost, cost);
    s.calcDiff(d, x, u);
    check_eqm("Lx is the weighted sum", Vec(d->Lx), Lx);
    check_eqm("Lu is the weighted sum", Vec(d->Lu), Lu);
    check_eqm("Lxx is the weighted sum", Mat(d->Lxx), Lxx);
    check_eqm("Lxu is the weighted sum", Mat(d->Lxu), Lxu);
    check_eqm("Luu is the weighted sum", Mat(d->Luu), Luu);
    observe("cost", d->cost);
  }
}
struct World {
  long nx, nu;
  std::shared_ptr<StateVectorTpl<double>> state;
  std::shared_ptr<Sum> sum;
  Shadow sh;
  std::vector<std::string> names;
  std::vector<std::shared_ptr<Stub>> pool;
  int made = 0;
};
static World world(const Case &c) {
  World w;
  w.nx = 2;
  w.nu = c("nu");
  w.state = std::make_shared<StateVectorTpl<double>>(w.nx);
  w.sum = std::make_shared<Sum>(w.state, w.nu);
  const char *all[] = {"b", "a", "c"};  // insertion order differs from the map order
  for (long i = 0; i < c("names"); ++i) { w.names.push_back(all[i]); w.sh[all[i]]; }
  return w;
}
static std::shared_ptr<Stub> fresh(World &w, long nr) {
  auto s = std::make_shared<Stub>(w.state, nr, w.nu, "c" + std::to_string(w.made++));
  w.pool.push_back(s);
  return s;
}
static void add(World &w, const std::string &name, bool active, bool item) {
  const long nr = 1 + w.made;  // all different
  auto st = fresh(w, nr);
  const double weight = in("w" + std::to_string(w.made));
  if (item) w.sum->addCost(std::make_shared<CostItemTpl<double>>(name, st, weight, active));
  else w.sum->addCost(name, st, weight, active);
  Item &i = w.sh[name];
  if (!i.present) { i.present = true; i.active = active; i.w = weight; i.nr = nr; i.cost = st; }
}
static void step(World &w, long t) {
  const std::string k = std::to_string(t);
  const long op = choose("op" + k, 6);
  const std::string name = w.names[choose("name" + k, (long)w.names.size())];
  Item &i = w.sh[name];
  if (op == 0) add(w, name, true, false);
  if (op == 1) add(w, name, false, false);
  if (op == 2) add(w, name, flag("item_active" + k), true);
  if (op == 3) { w.sum->removeCost(name); i.present = i.active = false; }
  if (op == 4) { w.sum->changeCostStatus(name, true); if (i.present) i.active = true; }
  if (op == 5) { w.sum->changeCostStatus(name, false); i.active = false; }
  bookkeeping(*w.sum, w.sh, "after an operation");
}
static void history(const Case &c) {
  set_option("max_paths", 20000);
  World w = world(c);
  bookkeeping(*w.sum, w.sh, "initially");
  if (c("start")) { add(w, w.names[0], c("start") == 1, false); }
  for (long t = 0; t < c("len"); ++t) step(w, t);
  DataCollectorAbstractTpl<double> coll;
  auto d = w.sum->createData(&coll);
  Vec x = in_vec("x", w.nx), u = in_vec("u", w.nu);
  values(*w.sum, w.sh, d, x, u, false);
  values(*w.sum, w.sh, d, x, u, true);
}
// status and weight changes after the data was created; reuse of the data
static void reuse(const Case &c) {
  World w = world(c);
  for (auto &n : w.names) add(w, n, flag("active_" + n), flag("item_" + n));
  DataCollectorAbstractTpl<double> coll;
  auto d = w.sum->createData(&coll);
  Vec x = in_vec("x", w.nx), u = in_vec("u", w.nu);
  values(*w.sum, w.sh, d, x, u, flag("first_terminal"));
  for (auto &n : w.names) {
    const bool on = flag("then_" + n);
    w.sum->changeCostStatus(n, on);
    w.sh[n].active = on;
  }
  const std::string k = w.names[0];
  const double nw = in("new_weight");
  w.sum->get_costs().find(k)->second->weight = nw;
  w.sh[k].w = nw;
  bookkeeping(*w.sum, w.sh, "after changes");
  values(*w.sum, w.sh, d, x, u, flag("then_terminal"));
  values(*w.sum, w.sh, d, x, u, false);
}
struct Shared {
  Vec Lx, Lu;
  Mat Lxx, Lxu, Luu;
};
static void shared(const Case &c) {
  World w = world(c);
  for (auto &n : w.names) add(w, n, true, false);
  DataCollectorAbstractTpl<double> coll;
  auto d = w.sum->createData(&coll);
  Shared s{Vec::Zero(w.nx), Vec::Zero(w.nu), Mat::Zero(w.nx, w.nx), Mat::Zero(w.nx, w.nu), Mat::Zero(w.nu, w.nu)};
  d->shareMemory(&s);
  Vec x = in_vec("x", w.nx), u = in_vec("u", w.nu);
  values(*w.sum, w.sh, d, x, u, false);
  check_eqm("shared Lx", s.Lx, Vec(d->Lx));
  check_eqm("shared Lu", s.Lu, Vec(d->Lu));
  check_eqm("shared Lxx", s.Lxx, Mat(d->Lxx));
  check_eqm("shared Lxu", s.Lxu, Mat(d->Lxu));
  check_eqm("shared Luu", s.Luu, Mat(d->Luu));
}
static void rejects(const Case &c) {
  World w = world(c);
  add(w, "b", true, false);
  auto bad = std::make_shared<Stub>(w.state, 1, w.nu + 1, "bad");
  check_true("cost with another control dimension rejected", throws([&]() { w.sum->addCost("bad", bad, 1.); }) && throws([&]() { w.sum->addCost(std::make_shared<CostItemTpl<double>>("bad", bad, 1.)); }));
  bookkeeping(*w.sum, w.sh, "after a rejected cost");
  DataCollectorAbstractTpl<double> coll;
  auto d = w.sum->createData(&coll);
  Vec x = Vec::Zero(w.nx), u = Vec::Zero(w.nu), xb = Vec::Zero(w.nx + 1), ub = Vec::Zero(w.nu + 1);
  check_true("wrong state dimension rejected", throws([&]() { w.sum->calc(d, xb, u); }) && throws([&]() { w.sum->calc(d, xb); }) && throws([&]() { w.sum->calcDiff(d, xb, u); }) && throws([&]() { w.sum->calcDiff(d, xb); }));
  check_true("wrong control dimension rejected", throws([&]() { w.sum->calc(d, x, ub); }) && throws([&]() { w.sum->calcDiff(d, x, ub); }));
  add(w, "a", true, false);
  check_true("data of a smaller sum rejected", throws([&]() { w.sum->calc(d, x, u); }) && throws([&]() { w.sum->calc(d, x); }) && throws([&]() { w.sum->calcDiff(d, x, u); }) && throws([&]() { w.sum->calcDiff(d, x); }));
  check_true("setters reject wrong dimensions", throws([&]() { d->set_Lx(xb); }) && throws([&]() { d->set_Lu(ub); }) && throws([&]() { d->set_Lxx(Mat::Zero(3, 3)); }) && throws([&]() { d->set_Lxu(Mat::Zero(3, 3)); }) && throws([&]() { d->set_Luu(Mat::Zero(3, 3)); }));
}
REGISTER(
  add_case("history", history, {{"nu", 1}, {"names", 2}, {"len", 2}, {"start", 0}});
  add_case("history", history, {{"nu", 1}, {"names", 2}, {"len", 2}, {"start", 1}});
  add_case("history", history, {{"nu", 2}, {"names", 2}, {"len", 2}, {"start", 2}});
  add_case("history", history, {{"nu", 1}, {"names", 2}, {"len", 3}, {"start", 1}});
  add_case("history", history, {{"nu", 1}, {"names", 2}, {"len", 3}, {"start", 2}});
  add_case("history", history, {{"nu", 1}, {"names", 3}, {"len", 3}, {"start", 0}}, 1);
  add_case("reuse", reuse, {{"nu", 1}, {"names", 2}});
  add_case("reuse", reuse, {{"nu", 1}, {"names", 3}}, 1);
  add_case("shared", shared, {{"nu", 2}, {"names", 3}});
  add_case("rejects", rejects, {{"nu", 1}, {"names", 2}});)
