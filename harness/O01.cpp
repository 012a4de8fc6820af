// Shooting problem: cost, derivatives, rollout and quasi-static controls of every node.
// BOUNDS: horizons 1..3 (thorough 4), 1..2 states, controls of 0..2 entries different at each node; arbitrary quadratic costs, bilinear dynamics and constraints per node; data created by the problem or given by the user, used before in any way; the same model at two nodes
// OUTSIDE: multi-threaded evaluation (the build configures it off), floating-point rounding
#include "harness/ocp.hpp"

static std::vector<long> dims(const Case &c) {
  std::vector<long> n;
  for (long i = 0; i < c("T"); ++i) n.push_back((c("nu") + (c("vary") ? i : 0)) % 3);
  return n;
}
// a problem built where memory was used before
template <class... A>
static std::shared_ptr<SP> fresh(A &&...a) {
  void *m = ::operator new(sizeof(SP));
  for (std::size_t i = 0; i < sizeof(SP); ++i) static_cast<volatile char *>(m)[i] = 1;
  asm volatile("" : : "r"(m) : "memory");
  return std::shared_ptr<SP>(new (m) SP(std::forward<A>(a)...), [](SP *p) { p->~SP(); ::operator delete(p); });
}
struct Pb {
  std::shared_ptr<St> s;
  std::vector<NodeP> m;
  NodeP t;
  std::shared_ptr<SP> p;
  Vec x0;
  std::vector<long> nu, nx;
};
static Pb build(const Case &c) {
  Pb b;
  const long T = c("T"), nx = c("nx");
  b.s = std::make_shared<Flat>(nx);
  b.nu = dims(c);
  b.nx.assign(T + 1, nx);
  std::vector<std::shared_ptr<AM>> ms;
  for (long i = 0; i < T; ++i) {
    if (c("shared") && i > 0) b.m.push_back(b.m[0]);
    else b.m.push_back(std::make_shared<Node>("m" + num(i), b.s, b.nu[i], c("con"), c("con"), 0, 0, true));
    ms.push_back(b.m[i]);
  }
  if (c("shared")) b.nu.assign(T, b.nu[0]);
  b.t = std::make_shared<Node>("mT", b.s, 0, 0, 0, c("con"), 2 * c("con"), false, true);
  b.x0 = in_vec("xi", nx);
  if (flag("own data")) {
    std::vector<std::shared_ptr<AD>> ds;
    for (auto &m : ms) ds.push_back(m->createData());
    auto dT = b.t->createData();
    b.p = fresh(b.x0, ms, b.t, ds, dT);
    for (long i = 0; i < T; ++i) check_true("given data are used", b.p->get_runningDatas()[i] == ds[i]);
    check_true("given data are used", b.p->get_terminalData() == dT);
  } else {
    b.p = fresh(b.x0, ms, b.t);
  }
  check_true("a new problem is not marked as edited", !b.p->is_updated());
  check_true("dimensions", (long)b.p->get_T() == T && (long)b.p->get_nx() == nx && (long)b.p->get_ndx() == nx);
  check_true("models", b.p->get_runningModels() == ms && b.p->get_terminalModel() == b.t);
  check_eqm("initial state", b.p->get_x0(), b.x0);
  for (long i = 0; i < T; ++i) for (long j = 0; j < i; ++j) check_true("every node has its own data", b.p->get_runningDatas()[i] != b.p->get_runningDatas()[j]);
  if (flag("used")) {
    Traj xs = traj("ox", b.nx), us = traj("ou", b.nu);
    b.p->calc(xs, us);
    b.p->calcDiff(xs, us);
  }
  return b;
}
static void values(Pb &b, const Traj &xs, const Traj &us, double cost) {
  const long T = us.size();
  double e = b.t->cost(xs[T]);
  for (long i = 0; i < T; ++i) {
    const auto &d = b.p->get_runningDatas()[i];
    check_eqm("next state of a node", d->xnext, b.m[i]->next(xs[i], us[i]));
    check_eq("cost of a node", d->cost, b.m[i]->cost(xs[i], us[i]));
    check_eqm("inequalities of a node", d->g, b.m[i]->g(xs[i], us[i]));
    check_eqm("equalities of a node", d->h, b.m[i]->h(xs[i], us[i]));
    e += b.m[i]->cost(xs[i], us[i]);
  }
  const auto &d = b.p->get_terminalData();
  check_eq("cost of the terminal node", d->cost, b.t->cost(xs[T]));
  check_eqm("inequalities of the terminal node", d->g, b.t->g(xs[T]));
  check_eqm("equalities of the terminal node", d->h, b.t->h(xs[T]));
  check_eq("total cost", cost, e);
}
static void evaluate(const Case &c) {
  Pb b = build(c);
  Traj xs = traj("x", b.nx), us = traj("u", b.nu);
  values(b, xs, us, b.p->calc(xs, us));
  const double cost = b.p->calcDiff(xs, us);
  values(b, xs, us, cost);
  for (long i = 0; i < c("T"); ++i) {
    const auto &d = b.p->get_runningDatas()[i];
    auto w = b.m[i]->createData();
    b.m[i]->calcDiff(w, xs[i], us[i]);
    check_eqm("Fx of a node", d->Fx, w->Fx);
    check_eqm("Fu of a node", d->Fu, w->Fu);
    check_eqm("Lx of a node", d->Lx, w->Lx);
    check_eqm("Lu of a node", d->Lu, w->Lu);
    check_eqm("Lxx of a node", d->Lxx, w->Lxx);
    check_eqm("Lxu of a node", d->Lxu, w->Lxu);
    check_eqm("Luu of a node", d->Luu, w->Luu);
  }
  check_eqm("Lx of the terminal node", b.p->get_terminalData()->Lx, Vec(b.t->Q * xs.back() + b.t->q));
  check_eqm("Lxx of the terminal node", b.p->get_terminalData()->Lxx, b.t->Q);
}
static void roll(const Case &c) {
  Pb b = build(c);
  Traj us = traj("u", b.nu);
  if (flag("new x0")) {
    b.x0 = in_vec("y0", c("nx"));
    b.p->set_x0(b.x0);
  }
  Traj xs;
  if (flag("in place")) {
    xs = traj("x", b.nx);
    b.p->rollout(us, xs);
  } else {
    xs = b.p->rollout_us(us);
  }
  check_true("one state per node", (long)xs.size() == c("T") + 1);
  check_eqm("rollout starts at the initial state", xs[0], b.x0);
  for (long i = 0; i < c("T"); ++i) check_eqm("rollout follows the dynamics", xs[i + 1], b.m[i]->next(xs[i], us[i]));
  check_eqm("initial state is kept", b.p->get_x0(), b.x0);
  double e = b.t->cost(xs.back()), s = b.p->get_terminalData()->cost;
  for (long i = 0; i < c("T"); ++i) { e += b.m[i]->cost(xs[i], us[i]); s += b.p->get_runningDatas()[i]->cost; }
  check_eq("costs of the rollout", s, e);
}
static void statics(const Case &c) {
  Pb b = build(c);
  std::vector<long> nx(c("T"), c("nx"));
  Traj xs = traj("x", nx), us = b.p->quasiStatic_xs(xs), vs = traj("v", b.nu), v0 = vs;
  check_true("one control per node", (long)us.size() == c("T"));
  b.p->quasiStatic(vs, xs);
  for (long i = 0; i < c("T"); ++i) {
    Vec e(b.nu[i]);
    for (long j = 0; j < b.nu[i]; ++j) e(j) = b.m[i]->c + (j + 2) * xs[i](0);
    check_eqm("quasi-static controls from null guesses", us[i], e);
    check_eqm("quasi-static controls from given guesses", vs[i], Vec(v0[i] + e));
  }
}
static void wrong(const Case &c) {
  Pb b = build(c);
  const long T = c("T"), nx = c("nx");
  Traj xs = zeros(b.nx), us = zeros(b.nu), xl = xs, ul = us;
  xl.push_back(Vec::Zero(nx)); ul.push_back(Vec::Zero(1));
  Traj xsh(xs.begin(), xs.end() - 1), ush(us.begin(), us.end() - 1);
  for (auto &x : {xl, xsh}) {
    Traj y = x;
    check_true("wrong number of states rejected", throws([&]() { b.p->calc(x, us); }) && throws([&]() { b.p->calcDiff(x, us); }) && throws([&]() { b.p->rollout(us, y); }));
  }
  for (auto &u : {ul, ush}) {
    Traj y = xs;
    check_true("wrong number of controls rejected", throws([&]() { b.p->calc(xs, u); }) && throws([&]() { b.p->calcDiff(xs, u); }) && throws([&]() { b.p->rollout(u, y); }) && throws([&]() { b.p->rollout_us(u); }));
  }
  Traj v = us;
  check_true("wrong number of quasi-static states rejected", throws([&]() { b.p->quasiStatic(v, xs); }) && throws([&]() { b.p->quasiStatic_xs(xs); }));
  check_true("wrong number of quasi-static controls rejected", throws([&]() { b.p->quasiStatic(ul, xsh); }) && throws([&]() { b.p->quasiStatic(ush, xsh); }));
  check_true("wrong initial state rejected", throws([&]() { b.p->set_x0(Vec::Zero(nx + 1)); }));
  check_eqm("rejected initial state changes nothing", b.p->get_x0(), b.x0);
  // inconsistent nodes
  auto s2 = std::make_shared<Flat>(nx + 1);
  std::shared_ptr<AM> odd = std::make_shared<Node>("odd", s2, 1);
  std::vector<std::shared_ptr<AM>> ms(b.m.begin(), b.m.end());
  std::vector<std::shared_ptr<AD>> ds;
  for (auto &m : ms) ds.push_back(m->createData());
  auto dT = b.t->createData();
  check_true("initial state of another size rejected", throws([&]() { SP z(Vec::Zero(nx + 1), ms, b.t); }) && throws([&]() { SP z(Vec::Zero(nx + 1), ms, b.t, ds, dT); }));
  check_true("terminal node of another state rejected", throws([&]() { SP z(b.x0, ms, odd); }) && throws([&]() { SP z(b.x0, ms, odd, ds, odd->createData()); }));
  if (T > 1) {
    const long i = 1 + choose("odd node", T - 1);
    auto ms2 = ms;
    auto ds2 = ds;
    ms2[i] = odd;
    ds2[i] = odd->createData();
    check_true("node of another state rejected", throws([&]() { SP z(b.x0, ms2, b.t); }) && throws([&]() { SP z(b.x0, ms2, b.t, ds2, dT); }));
  }
  auto d3 = ds;
  d3.pop_back();
  check_true("missing data rejected", throws([&]() { SP z(b.x0, ms, b.t, d3, dT); }));
}
static void copies(const Case &c) {
  Pb b = build(c);
  auto qp = fresh((const SP &)*b.p);
  SP &q = *qp;
  check_true("copy is not marked as edited", !q.is_updated());
  check_true("copy has the same dimensions", (long)q.get_T() == c("T") && (long)q.get_nx() == c("nx") && (long)q.get_ndx() == c("nx") && q.get_nthreads() == b.p->get_nthreads());
  check_true("copy has the same models", q.get_runningModels() == b.p->get_runningModels() && q.get_terminalModel() == b.p->get_terminalModel());
  check_eqm("copy has the same initial state", q.get_x0(), b.x0);
  Traj xs = traj("x", b.nx), us = traj("u", b.nu);
  const double v = q.calc(xs, us), w = b.p->calc(xs, us);
  check_eq("copy has the same cost", v, w);
  Traj r = q.rollout_us(us), r2 = b.p->rollout_us(us);
  for (long i = 0; i <= c("T"); ++i) check_eqm("copy has the same rollout", r[i], r2[i]);
}
static void put(const char *n, Fn f, long T, long nx, long nu, long vary, long con, long shared, int tier) {
  add_case(n, f, {{"T", T}, {"nx", nx}, {"nu", nu}, {"vary", vary}, {"con", con}, {"shared", shared}}, tier);
}
REGISTER(
  for (long T = 1; T <= 4; ++T)
    for (long nx = 1; nx <= 2; ++nx)
      for (long nu = 0; nu <= 2; ++nu) {
        const int tier = T > 3 || (T == 3 && nx == 2 && nu != 1) || (T == 2 && nx == 2 && nu == 0);
        put("evaluate", evaluate, T, nx, nu, 1, 1, 0, tier);
        put("rollout", roll, T, nx, nu, 1, 0, 0, tier || (nx == 2 && T > 2));
        put("statics", statics, T, nx, nu, 1, 0, 0, tier || T > 2);
      }
  put("evaluate", evaluate, 3, 1, 1, 0, 1, 1, 0);
  put("rollout", roll, 3, 1, 1, 0, 0, 1, 0);
  for (long T = 1; T <= 3; ++T) {
    put("wrong", wrong, T, 1, 1, 0, 0, 0, 0);
    put("wrong", wrong, T, 2, 0, 1, 0, 0, T > 2);
    put("copies", copies, T, 1, 1, 1, 0, 0, 0);
  })
