// Shooting problem edits: nodes follow every sequence of receding-horizon updates.
// BOUNDS: horizons 1..3, every sequence of up to 2 (thorough 3) edits out of append, append with data, replace node, replace model, replace terminal model, replace all running models (shorter, equal or longer list), replace the initial state, and rejected edits; models with different numbers of controls; evaluation with arbitrary states and controls after the sequence
// OUTSIDE: multi-threaded evaluation, floating-point rounding; solvers built on a problem whose horizon length changes afterwards
#include "harness/ocp.hpp"

static NodeP node(const std::string &p, std::shared_ptr<St> s, long nu) { return std::make_shared<Node>(p, s, nu, 0, 0, 0, 0, true); }

static void edits(const Case &c) {
  set_option("max_paths", 60000);
  const long T0 = c("T"), nx = c("nx"), ops = c("ops");
  auto s = std::make_shared<Flat>(nx);
  std::vector<NodeP> m;
  std::vector<std::shared_ptr<AD>> ds;
  for (long i = 0; i < T0; ++i) m.push_back(node("m" + num(i), s, 1 + i % 2));
  NodeP t = node("mT", s, 1);
  Vec x0 = in_vec("xi", nx);
  SP p(x0, std::vector<std::shared_ptr<AM>>(m.begin(), m.end()), t);
  ds = p.get_runningDatas();
  std::shared_ptr<AD> dT = p.get_terminalData();
  check_true("a new problem is not marked as edited", !p.is_updated());
  auto odd = node("odd", std::make_shared<Flat>(nx + 1), 1);
  for (long o = 0; o < ops; ++o) {
    const long T = m.size(), op = choose("op" + num(o), 8);
    const std::string k = "e" + num(o);
    bool edited = true, newT = false;
    std::vector<bool> fresh(T, false);
    if (op == 0 || op == 1) {
      NodeP n = node(k, s, 2);
      std::shared_ptr<AD> d = n->createData();
      if (op == 0) p.circularAppend(n);
      else p.circularAppend(n, d);
      m.erase(m.begin());
      ds.erase(ds.begin());
      m.push_back(n);
      ds.push_back(d);
      if (op == 0) { fresh[T - 1] = true; }
    } else if (op == 2 || op == 3) {
      const long i = choose(k + "i", T + 1);
      NodeP n = node(k, s, 2);
      std::shared_ptr<AD> d = n->createData();
      if (op == 2) p.updateNode(i, n, d);
      else p.updateModel(i, n);
      if (i == T) { t = n; dT = d; newT = op == 3; }
      else { m[i] = n; ds[i] = d; fresh[i] = op == 3; }
    } else if (op == 4) {
      t = node(k, s, 1);
      p.set_terminalModel(t);
      newT = true;
    } else if (op == 5) {
      const long n = std::max<long>(1, T - 1 + choose(k + "n", 3));
      std::vector<NodeP> l;
      for (long i = 0; i < n; ++i) l.push_back(i == 0 && flag(k + "keep") ? m[0] : node(k + num(i), s, 1 + (i + o) % 2));
      p.set_runningModels(std::vector<std::shared_ptr<AM>>(l.begin(), l.end()));
      m = l;
      ds.assign(n, nullptr);
      fresh.assign(n, true);
    } else if (op == 6) {
      x0 = in_vec(k + "x", nx);
      p.set_x0(x0);
      edited = false;
    } else {
      edited = false;
      NodeP good = node(k, s, 2);
      std::vector<std::shared_ptr<AM>> l(m.begin(), m.end());
      const long kind = choose(k + "bad", 5);
      if (kind == 0) check_true("appending a node of another state is rejected", throws([&]() { p.circularAppend(odd); }) && throws([&]() { p.circularAppend(odd, odd->createData()); }));
      if (kind == 1) check_true("replacing by a node of another state is rejected", throws([&]() { p.updateModel(0, odd); }) && throws([&]() { p.updateNode(T, odd, odd->createData()); }) && throws([&]() { p.set_terminalModel(odd); }));
      if (kind == 2) check_true("replacing a node out of the horizon is rejected", throws([&]() { p.updateModel(T + 1, good); }) && throws([&]() { p.updateNode(T + 1, good, good->createData()); }));
      if (kind == 3) { l.push_back(odd); check_true("replacing all by inconsistent nodes is rejected", throws([&]() { p.set_runningModels(l); })); }
      if (kind == 4) check_true("data of another model is rejected", throws([&]() { p.circularAppend(good, odd->createData()); }) && throws([&]() { p.updateNode(0, good, odd->createData()); }) && throws([&]() { p.updateNode(T, good, odd->createData()); }));
    }
    const long n = m.size();
    check_true("horizon", (long)p.get_T() == n && (long)p.get_runningModels().size() == n && (long)p.get_runningDatas().size() == n);
    if ((long)p.get_T() != n || (long)p.get_runningModels().size() != n || (long)p.get_runningDatas().size() != n) return;
    for (long i = 0; i < n; ++i) {
      const auto &d = p.get_runningDatas()[i];
      check_true("models follow the edit", p.get_runningModels()[i] == m[i]);
      if (fresh[i]) {
        check_true("new data fits its model", d && m[i]->checkData(d));
        for (long j = 0; j < n; ++j) check_true("new data is not shared", (j == i || d != p.get_runningDatas()[j]) && (!ds[j] || i == j || d != ds[j]));
        ds[i] = d;
      } else {
        check_true("data follow their model", d == ds[i]);
      }
    }
    check_true("terminal model follows the edit", p.get_terminalModel() == t);
    if (newT) { dT = p.get_terminalData(); check_true("new terminal data fits its model", dT && t->checkData(dT)); }
    check_true("terminal data follows the edit", p.get_terminalData() == dT);
    check_eqm("initial state", p.get_x0(), x0);
    check_true("an edited problem is marked", p.is_updated() == edited);
    check_true("reading the mark resets it", !p.is_updated());
  }
  const long T = m.size();
  std::vector<long> nu, nxs(T + 1, nx);
  for (auto &n : m) nu.push_back(n->get_nu());
  Traj xs = traj("x", nxs), us = traj("u", nu);
  double e = t->cost(xs[T]);
  for (long i = 0; i < T; ++i) e += m[i]->cost(xs[i], us[i]);
  check_eq("cost after the edits", p.calc(xs, us), e);
  p.calcDiff(xs, us);
  for (long i = 0; i < T; ++i) {
    check_eqm("next state after the edits", p.get_runningDatas()[i]->xnext, m[i]->next(xs[i], us[i]));
    check_eqm("gradient after the edits", p.get_runningDatas()[i]->Lx, Vec(m[i]->Q * xs[i] + m[i]->N * us[i] + m[i]->q));
  }
  Traj r = p.rollout_us(us);
  check_eqm("rollout after the edits", r[0], x0);
  for (long i = 0; i < T; ++i) check_eqm("rollout after the edits", r[i + 1], m[i]->next(r[i], us[i]));
}
// the mark stays until it is read
static void mark(const Case &c) {
  auto s = std::make_shared<Flat>(1);
  std::vector<std::shared_ptr<AM>> m;
  for (long i = 0; i < c("T"); ++i) m.push_back(node("m" + num(i), s, 1));
  SP p(Vec::Zero(1), m, node("mT", s, 1));
  bool dirty = false;
  NodeP n = node("n", s, 1);
  for (long o = 0; o < 4; ++o) {
    const long op = choose("op" + num(o), 6);
    if (op == 0) { check_true("mark of an edited problem", p.is_updated() == dirty); dirty = false; continue; }
    if (op == 1) p.circularAppend(n);
    if (op == 2) p.updateModel(0, n);
    if (op == 3) p.set_terminalModel(n);
    if (op == 4) p.set_x0(Vec::Ones(1));
    if (op == 5) p.set_runningModels(m);
    if (op != 4) dirty = true;
  }
  check_true("mark of an edited problem", p.is_updated() == dirty);
}
REGISTER(
  for (long T = 1; T <= 3; ++T) {
    add_case("edits", edits, {{"T", T}, {"nx", 1}, {"ops", 1}});
    add_case("edits", edits, {{"T", T}, {"nx", 2}, {"ops", 1}}, 1);
    add_case("edits", edits, {{"T", T}, {"nx", 1}, {"ops", 2}});
    add_case("edits", edits, {{"T", T}, {"nx", 1}, {"ops", 3}}, 1);
    add_case("mark", mark, {{"T", T}});
  })
