// Constraint manager under every history of add / remove / activate / deactivate.
// BOUNDS: every sequence of 2 operations over 2 names from an empty or one-item manager plus 3 operations (quick), 3 operations over 3 names (thorough); inequality, equality, mixed and bound-removed constraints, imposed at terminal nodes or not; every constraint value, Jacobian and bound; state dimension 2, one or two controls
// OUTSIDE: one manager shared by a running and the terminal node between their evaluations; data objects made for a different set of constraints of the same size; floating-point rounding
#include "sym/harness.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/constraint-base.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
using namespace vf;
using namespace crocoddyl;
typedef ConstraintModelAbstractTpl<double> ConBase;
typedef ConstraintDataAbstractTpl<double> ConData;
typedef Eigen::Ref<const Vec> VR;
typedef ConstraintModelManagerTpl<double> Man;
typedef ConstraintDataManagerTpl<double> ManData;

struct Values { Vec g, h; Mat Gx, Gu, Hx, Hu; };
static Values any(const std::string &p, long ng, long nh, long nx, long nu) {
  return Values{in_vec(p + "g", ng), in_vec(p + "h", nh), in_mat(p + "Gx", ng, nx), in_mat(p + "Gu", ng, nu), in_mat(p + "Hx", nh, nx), in_mat(p + "Hu", nh, nu)};
}
struct Stub : ConBase {
  Values run, term;
  Stub(std::shared_ptr<StateAbstractTpl<double>> s, long nu, long ng, long nh, bool T) : ConBase(s, nu, ng, nh, T) {}
  void fill(const std::string &p) {
    run = any(p + "_", get_ng(), get_nh(), get_state()->get_nx(), get_nu());
    term = any(p + "_t_", get_ng(), get_nh(), get_state()->get_nx(), get_nu());
  }
  void set(const std::shared_ptr<ConData> &d, const Values &v) { d->g = v.g; d->h = v.h; }
  void calc(const std::shared_ptr<ConData> &d, const VR &, const VR &) override { set(d, run); }
  void calc(const std::shared_ptr<ConData> &d, const VR &) override { set(d, term); }
  void calcDiff(const std::shared_ptr<ConData> &d, const VR &, const VR &) override { d->Gx = run.Gx; d->Gu = run.Gu; d->Hx = run.Hx; d->Hu = run.Hu; }
  void calcDiff(const std::shared_ptr<ConData> &d, const VR &) override { d->Gx = term.Gx; d->Hx = term.Hx; }
};
struct Item { bool present = false, active = false, T = false; long ng = 0, nh = 0; Vec lb, ub; std::shared_ptr<Stub> c; };
typedef std::map<std::string, Item> Shadow;
struct World {
  long nx, nu;
  std::shared_ptr<StateVectorTpl<double>> state;
  std::shared_ptr<Man> man;
  Shadow sh;
  std::vector<std::string> names;
  std::vector<std::shared_ptr<Stub>> pool;
  long made = 0;
};
static World world(const Case &c) {
  set_option("max_paths", 30000);
  World w;
  w.nx = 2;
  w.nu = c("nu");
  w.state = std::make_shared<StateVectorTpl<double>>(w.nx);
  w.man = std::make_shared<Man>(w.state, w.nu);
  const char *all[] = {"b", "a", "c"};
  for (long i = 0; i < c("names"); ++i) { w.names.push_back(all[i]); w.sh[all[i]]; }
  w.made = c("kind");
  return w;
}
static void bookkeeping(const World &w, const std::string &when) {
  long ng = 0, nh = 0, ngT = 0, nhT = 0, n = 0;
  std::set<std::string> on, off;
  for (auto &kv : w.sh) if (kv.second.present) {
    const Item &i = kv.second;
    ++n;
    if (i.active) {
      ng += i.ng; nh += i.nh;
      if (i.T) { ngT += i.ng; nhT += i.nh; }
      on.insert(kv.first);
    } else off.insert(kv.first);
  }
  const Man &m = *w.man;
  check_true("number of constraints " + when, (long)m.get_constraints().size() == n);
  check_true("number of inequalities " + when, (long)m.get_ng() == ng);
  check_true("number of equalities " + when, (long)m.get_nh() == nh);
  check_true("number of terminal inequalities " + when, (long)m.get_ng_T() == ngT);
  check_true("number of terminal equalities " + when, (long)m.get_nh_T() == nhT);
  check_true("active set " + when, m.get_active_set() == on);
  check_true("inactive set " + when, m.get_inactive_set() == off);
  check_true("dimension of the bounds " + when, (long)m.get_lb().size() == ng && (long)m.get_ub().size() == ng);
  for (auto &kv : w.sh) check_true("status " + when, m.getConstraintStatus(kv.first) == (kv.second.present && kv.second.active));
}
static std::shared_ptr<Stub> fresh(World &w, Item &i, bool T) {
  // inequality, mixed, equality, inequality without its bounds
  static const long NG[] = {1, 2, 0, 2}, NH[] = {0, 1, 1, 0};
  const long kind = w.made % 4;
  const std::string id = "c" + std::to_string(w.made);
  auto s = std::make_shared<Stub>(w.state, w.nu, NG[kind], NH[kind], T);
  i.lb = i.ub = Vec::Zero(0);
  if (kind < 2) {
    i.lb = in_vec(id + "lb", NG[kind]);
    i.ub = in_vec(id + "ub", NG[kind]);
    for (long k = 0; k < NG[kind]; ++k) assume(lt(i.lb(k), i.ub(k)) & lt(i.lb(k), 1e300) & gt(i.ub(k), -1e300));
    s->update_bounds(i.lb, i.ub);
  }
  if (kind == 3) s->remove_bounds();
  i.ng = kind == 3 ? 0 : NG[kind];
  i.nh = kind == 3 ? 2 : NH[kind];
  i.T = T;
  check_true("dimensions of one constraint", (long)s->get_ng() == i.ng && (long)s->get_nh() == i.nh && s->get_T_constraint() == T);
  s->fill(id);
  ++w.made;
  w.pool.push_back(s);
  return s;
}
static void add(World &w, const std::string &name, bool active, bool T) {
  Item n;
  n.c = fresh(w, n, T);
  w.man->addConstraint(name, n.c, active);
  Item &i = w.sh[name];
  if (!i.present) { n.present = true; n.active = active; i = n; }
}
static void step(World &w, long t) {
  const std::string k = std::to_string(t);
  const long op = choose("op" + k, 5);
  const std::string name = w.names[choose("name" + k, (long)w.names.size())];
  Item &i = w.sh[name];
  if (op == 0) add(w, name, true, flag("T" + k));
  if (op == 1) add(w, name, false, flag("T" + k));
  if (op == 2) { w.man->removeConstraint(name); i.present = i.active = false; }
  if (op == 3) { w.man->changeConstraintStatus(name, true); if (i.present) i.active = true; }
  if (op == 4) { w.man->changeConstraintStatus(name, false); i.active = false; }
  bookkeeping(w, "after an operation");
}
struct Out { std::vector<double> v; void add(const Vec &x) { for (long i = 0; i < x.size(); ++i) v.push_back(x(i)); } void add(const Mat &x) { for (long i = 0; i < x.rows(); ++i) for (long j = 0; j < x.cols(); ++j) v.push_back(x(i, j)); } };
static Mat rows(const Out &o, long c) {
  const long r = c ? (long)o.v.size() / c : 0;
  Mat m(r, c);
  for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) m(i, j) = o.v[i * c + j];
  return m;
}
static void values(World &w, const std::shared_ptr<ManData> &d, const Vec &x, const Vec &u, bool terminal) {
  Out g, h, Gx, Gu, Hx, Hu, lb, ub;
  for (auto &kv : w.sh) {
    const Item &i = kv.second;
    if (!i.present || !i.active || (terminal && !i.T)) continue;
    const Values &v = terminal ? i.c->term : i.c->run;
    g.add(v.g); h.add(v.h); Gx.add(v.Gx); Gu.add(v.Gu); Hx.add(v.Hx); Hu.add(v.Hu); lb.add(i.lb); ub.add(i.ub);
  }
  const std::string t = terminal ? "terminal " : "";
  Man &m = *w.man;
  if (terminal) { m.calc(d, x); m.calcDiff(d, x); } else { m.calc(d, x, u); m.calcDiff(d, x, u); }
  check_eqm(t + "inequalities are the active ones stacked by name", Mat(Vec(d->g)), rows(g, 1));
  check_eqm(t + "equalities are the active ones stacked by name", Mat(Vec(d->h)), rows(h, 1));
  check_eqm(t + "Gx stacked", Mat(d->Gx), rows(Gx, w.nx));
  check_eqm(t + "Hx stacked", Mat(d->Hx), rows(Hx, w.nx));
  if (!terminal) {
    check_eqm("Gu stacked", Mat(d->Gu), rows(Gu, w.nu));
    check_eqm("Hu stacked", Mat(d->Hu), rows(Hu, w.nu));
  }
  const long n = (long)lb.v.size();
  check_true("bounds have room for the inequalities", (long)m.get_lb().size() >= n && (long)m.get_ub().size() >= n);
  check_eqm(t + "lower bounds stacked", Mat(Vec(m.get_lb().head(n))), rows(lb, 1));
  check_eqm(t + "upper bounds stacked", Mat(Vec(m.get_ub().head(n))), rows(ub, 1));
  if (n) observe("g0", d->g(0));
}
// what an action data owns
struct Shared { Vec g, h; Mat Gx, Gu, Hx, Hu; };
struct ActionModelLike {
  World *w;
  std::shared_ptr<StateVectorTpl<double>> get_state() const { return w->state; }
  std::size_t get_nu() const { return w->nu; }
  std::size_t get_ng() const { return w->man->get_ng(); }
  std::size_t get_nh() const { return w->man->get_nh(); }
  std::size_t get_ng_T() const { return w->man->get_ng_T(); }
  std::size_t get_nh_T() const { return w->man->get_nh_T(); }
};
static void history(const Case &c) {
  World w = world(c);
  bookkeeping(w, "initially");
  if (c("start")) add(w, w.names[0], c("start") == 1, true);
  for (long t = 0; t < c("len"); ++t) step(w, t);
  DataCollectorAbstractTpl<double> coll;
  auto d = w.man->createData(&coll);
  Vec x = in_vec("x", w.nx), u = in_vec("u", w.nu);
  values(w, d, x, u, false);
  d->resize(w.man.get(), false);
  values(w, d, x, u, true);
  d->resize(w.man.get(), true);
  values(w, d, x, u, false);
}
// memory shared with an action data, resized when the node type changes; status changes after creation
static void shared(const Case &c) {
  World w = world(c);
  for (auto &n : w.names) add(w, n, flag("on_" + n), flag("T_" + n));
  DataCollectorAbstractTpl<double> coll;
  auto d = w.man->createData(&coll);
  ActionModelLike am{&w};
  Shared s{Vec::Zero(am.get_ng()), Vec::Zero(am.get_nh()), Mat::Zero(am.get_ng(), w.nx), Mat::Zero(am.get_ng(), w.nu), Mat::Zero(am.get_nh(), w.nx), Mat::Zero(am.get_nh(), w.nu)};
  d->shareMemory(&s);
  Vec x = in_vec("x", w.nx), u = in_vec("u", w.nu);
  const bool terminal_first = flag("terminal_first");
  d->resize(&am, &s, !terminal_first);
  values(w, d, x, u, terminal_first);
  for (auto &n : w.names) {
    const bool on = flag("then_" + n);
    w.man->changeConstraintStatus(n, on);
    w.sh[n].active = on;
  }
  bookkeeping(w, "after changes");
  d->resize(&am, &s, true);
  values(w, d, x, u, false);
  check_eqm("shared g", s.g, Vec(d->g));
  check_eqm("shared h", s.h, Vec(d->h));
  check_eqm("shared Gx", s.Gx, Mat(d->Gx));
  check_eqm("shared Gu", s.Gu, Mat(d->Gu));
  check_eqm("shared Hx", s.Hx, Mat(d->Hx));
  check_eqm("shared Hu", s.Hu, Mat(d->Hu));
  d->resize(&am, &s, false);
  values(w, d, x, u, true);
  check_eqm("shared terminal g", s.g, Vec(d->g));
  check_eqm("shared terminal h", s.h, Vec(d->h));
  check_eqm("shared terminal Gx", s.Gx, Mat(d->Gx));
  check_eqm("shared terminal Hx", s.Hx, Mat(d->Hx));
}
static void rejects(const Case &c) {
  World w = world(c);
  add(w, "b", true, true);
  auto bad = std::make_shared<Stub>(w.state, w.nu + 1, 1, 0, true);
  check_true("constraint with another control dimension rejected", throws([&]() { w.man->addConstraint("bad", bad); }));
  bookkeeping(w, "after a rejected constraint");
  DataCollectorAbstractTpl<double> coll;
  auto d = w.man->createData(&coll);
  Vec x = Vec::Zero(w.nx), u = Vec::Zero(w.nu), xb = Vec::Zero(w.nx + 1), ub = Vec::Zero(w.nu + 1);
  check_true("wrong state dimension rejected", throws([&]() { w.man->calc(d, xb, u); }) && throws([&]() { w.man->calc(d, xb); }) && throws([&]() { w.man->calcDiff(d, xb, u); }) && throws([&]() { w.man->calcDiff(d, xb); }));
  check_true("wrong control dimension rejected", throws([&]() { w.man->calc(d, x, ub); }) && throws([&]() { w.man->calcDiff(d, x, ub); }));
  add(w, "a", true, true);
  check_true("data of fewer constraints rejected", throws([&]() { w.man->calc(d, x, u); }) && throws([&]() { w.man->calc(d, x); }) && throws([&]() { w.man->calcDiff(d, x, u); }) && throws([&]() { w.man->calcDiff(d, x); }));
  check_true("setters reject wrong dimensions", throws([&]() { d->set_g(Vec::Zero(7)); }) && throws([&]() { d->set_h(Vec::Zero(7)); }) && throws([&]() { d->set_Gx(Mat::Zero(7, 7)); }) && throws([&]() { d->set_Gu(Mat::Zero(7, 7)); }) && throws([&]() { d->set_Hx(Mat::Zero(7, 7)); }) && throws([&]() { d->set_Hu(Mat::Zero(7, 7)); }));
}
REGISTER(
  add_case("history", history, {{"nu", 1}, {"names", 2}, {"len", 2}, {"start", 0}, {"kind", 0}});
  add_case("history", history, {{"nu", 2}, {"names", 2}, {"len", 2}, {"start", 1}, {"kind", 1}});
  add_case("history", history, {{"nu", 1}, {"names", 2}, {"len", 2}, {"start", 2}, {"kind", 2}});
  add_case("history", history, {{"nu", 1}, {"names", 2}, {"len", 2}, {"start", 1}, {"kind", 3}});
  add_case("history", history, {{"nu", 1}, {"names", 2}, {"len", 3}, {"start", 1}, {"kind", 0}}, 1);
  add_case("history", history, {{"nu", 1}, {"names", 2}, {"len", 3}, {"start", 2}, {"kind", 1}}, 1);
  add_case("history", history, {{"nu", 1}, {"names", 3}, {"len", 3}, {"start", 0}, {"kind", 0}}, 1);
  add_case("shared", shared, {{"nu", 1}, {"names", 2}, {"kind", 0}});
  add_case("shared", shared, {{"nu", 2}, {"names", 2}, {"kind", 1}});
  add_case("shared", shared, {{"nu", 1}, {"names", 3}, {"kind", 0}}, 1);
  add_case("rejects", rejects, {{"nu", 1}, {"names", 2}, {"kind", 0}});)
