// SOURCES: src/core/solver-base.cpp src/core/solvers/ddp.cpp src/core/solvers/fddp.cpp
// Solvers: initial guess, default guess, rejected guesses and settings, regularization updates.
// BOUNDS: horizon 1..2, state dimension 1..2, control dimension 0..2 (differing per node), every guess and setting, one replacement of a node between guesses
// OUTSIDE: longer horizons; floating-point rounding
#include "harness/solv.hpp"
static bool same_size(const Traj &a, const Traj &b) {
  bool ok = a.size() == b.size();
  for (std::size_t i = 0; ok && i < a.size(); ++i) ok = a[i].size() == b[i].size();
  return ok;
}
struct Offset : Flat {
  Vec z;
  explicit Offset(long n) : Flat(n), z(in_vec("z", n)) {}
  Vec zero() const override { return z; }
};
template <class S>
static void guess(const Case &c) {
  const std::vector<std::vector<long>> nus = {{1}, {2, 1}, {0, 1}};
  const std::vector<long> nu = nus[c("nu")];
  const long n = c("n"), T = nu.size();
  auto st = std::make_shared<Offset>(n);
  std::vector<std::shared_ptr<AM>> m;
  for (long t = 0; t < T; ++t) m.push_back(std::make_shared<Node>("m" + num(t), st, nu[t]));
  auto p = std::make_shared<SP>(in_vec("xi", n), m, std::make_shared<Node>("T", st, 0, 0, 0, 0, 0, false, true));
  S s(p);
  Traj zx(T + 1, st->z), zu = zeros(nu);
  check_true("dimensions of the initial guess", same_size(s.get_xs(), zx) && same_size(s.get_us(), zu) && s.get_fs().size() == zx.size());
  for (long t = 0; t <= T; ++t) check_eqm("initial state guess", s.get_xs()[t], zx[t]);
  for (long t = 0; t < T; ++t) check_eqm("initial control guess", s.get_us()[t], zu[t]);
  check_true("initially not feasible", !s.get_is_feasible());
  const Traj xs = traj("x", std::vector<long>(T + 1, n)), us = traj("u", nu);
  if (flag("used")) s.setCandidate(xs, us, true);
  const bool gx = flag("gx"), gu = flag("gu"), feas = flag("feas");
  const Traj ys = traj("y", std::vector<long>(T + 1, n)), vs = traj("v", nu), none;
  s.setCandidate(gx ? ys : none, gu ? vs : none, feas);
  check_true("feasibility as declared", s.get_is_feasible() == feas);
  for (long t = 0; t <= T; ++t) check_eqm("states of the guess", s.get_xs()[t], gx ? ys[t] : zx[t]);
  for (long t = 0; t < T; ++t) check_eqm("controls of the guess", s.get_us()[t], gu ? vs[t] : zu[t]);
  // rejected guesses
  const long k = choose("k", 4);
  Traj bx = ys, bu = vs;
  if (k == 0) bx.pop_back();
  if (k == 1) bx.push_back(st->z);
  if (k == 2) bx[0].resize(n + 1);
  if (k == 3) bx[T].resize(n + 1);
  check_true("wrong states rejected", throws([&]() { s.setCandidate(bx, vs, true); }));
  check_true("wrong states rejected", throws([&]() { s.set_xs(bx); }));
  if (k == 0) bu.push_back(vs[0]);
  if (k == 1) bu[0].resize(nu[0] + 1);
  if (k == 2) bu[T - 1].resize(nu[T - 1] + 1);
  if (k == 3) { bu.clear(); bu.resize(T + 1, vs[0]); }
  check_true("wrong controls rejected", throws([&]() { s.setCandidate(ys, bu, true); }));
  check_true("wrong controls rejected", throws([&]() { s.set_us(bu); }));
  s.set_xs(xs);
  s.set_us(us);
  for (long t = 0; t <= T; ++t) check_eqm("states set", s.get_xs()[t], xs[t]);
  for (long t = 0; t < T; ++t) check_eqm("controls set", s.get_us()[t], us[t]);
}
// a node is replaced by one with other dimensions; the next guess has those
template <class S>
static void replaced(const Case &c) {
  Prob z = problem(1, {1, 1}, 0, false);
  S s(z.p);
  s.setCandidate(z.xs, z.us, false);
  z.p->updateModel(c("t"), std::make_shared<Node>("r", z.s, 2));
  if (c("direct")) s.setCandidate(flag("gx") ? z.xs : Traj(), {}, false);
  else s.solve(z.xs, {}, 0, false, 0);
  check_true("dimension follows the problem", s.get_us()[c("t")].size() == 2 && s.get_us()[1 - c("t")].size() == 1);
  if (!c("direct")) check_true("gains follow the problem", s.get_k()[c("t")].size() == 2 && s.get_K()[c("t")].rows() == 2 && s.get_Quu()[c("t")].rows() == 2 && s.get_Qxu()[c("t")].cols() == 2 && s.get_Qu()[c("t")].size() == 2);
  for (long t = 0; t < 2; ++t) check_eqm("default controls", s.get_us()[t], Vec(Vec::Zero(t == c("t") ? 2 : 1)));
  check_true("old dimension rejected", throws([&]() { s.setCandidate(z.xs, z.us, false); }));
}
static void settings(const Case &) {
  Prob z = problem(1, {1}, 0, false);
  SolverFDDP s(z.p);
  check_true("defaults", s.get_alphas().size() == 10);
  for (long i = 0; i < 10; ++i) check_eq("default step lengths", s.get_alphas()[i], 1 / double(1 << i));
  const double v = in("v");
  const long k = choose("k", 12);
  bool bad = false, thrown = false;
  double old = 0, now = 0;
  auto range = [&](P ok) { bad = flag("bad"); assume(bad ? P_not(ok) : ok); };
#define SETTING(I, OK, NAME) if (k == I) { old = s.get_##NAME(); range(OK); thrown = throws([&]() { s.set_##NAME(v); }); now = s.get_##NAME(); }
  SETTING(0, gt(v, 1), reg_incfactor)
  SETTING(1, gt(v, 1), reg_decfactor)
  SETTING(2, ge(v, 0), reg_min)
  SETTING(3, ge(v, 0), reg_max)
  SETTING(4, P_and(gt(v, 0), le(v, 1)), th_stepdec)
  SETTING(5, P_and(gt(v, 0), le(v, 1)), th_stepinc)
  SETTING(6, ge(v, 0), th_grad)
  SETTING(7, ge(v, 0), preg)
  SETTING(8, ge(v, 0), dreg)
  SETTING(9, P_and(gt(v, 0), le(v, 1)), th_acceptstep)
  SETTING(10, gt(v, 0), th_stop)
  SETTING(11, ge(v, 0), th_acceptnegstep)
  check_true("setting validated", thrown == bad);
  check_eq("setting", now, bad ? old : v);
}
static void more(const Case &) {
  Prob z = problem(1, {1}, 0, false);
  SolverFDDP s(z.p);
  const double v = in("v"), w = in("w");
  const bool bad = flag("bad");
  P ok = P_and(P_and(gt(v, 0), gt(w, 0)), lt(w, v));
  assume(bad ? P_not(ok) : ok);
  check_true("step lengths are positive and decreasing", throws([&]() { s.set_alphas({v, w}); }) == bad);
  check_true("step lengths", s.get_alphas().size() == (bad ? 10u : 2u));
  check_eq("step lengths", s.get_alphas()[0], bad ? double(1) : v);
  check_true("step lengths needed", throws([&]() { s.set_alphas({}); }));
  const bool gb = flag("gb");
  assume(gb ? lt(w, 0) : ge(w, 0));
  check_true("gap tolerance validated", throws([&]() { s.set_th_gaptol(w); }) == gb);
}
static void regularization(const Case &) {
  Prob z = problem(1, {1}, 0, false);
  SolverDDP s(z.p);
  const double lo = in("lo"), hi = in("hi"), inc = in("inc"), dec = in("dec"), r = in("r");
  assume(gt(lo, 0) & lt(lo, hi) & gt(inc, 1) & gt(dec, 1) & ge(r, lo) & le(r, hi));
  s.set_reg_min(lo); s.set_reg_max(hi); s.set_reg_incfactor(inc); s.set_reg_decfactor(dec); s.set_preg(r);
  double e = r;
  for (long i = 0; i < 2; ++i) {
    if (flag("up" + num(i))) { s.increaseRegularization(); e = min2(e * inc, hi); }
    else { s.decreaseRegularization(); e = max2(e / dec, lo); }
    check_eq("regularization", s.get_preg(), e);
    check_eq("dual regularization", s.get_dreg(), e);
    check("regularization within its limits", P_and(ge(s.get_preg(), lo), le(s.get_preg(), hi)));
  }
}
static void from_zero(const Case &) {
  Prob z = problem(1, {1}, 0, false);
  SolverDDP s(z.p);
  const double lo = in("lo"), hi = in("hi");
  assume(ge(lo, 0) & lt(lo, hi));
  s.set_reg_min(lo); s.set_reg_max(hi); s.set_preg(0);
  s.increaseRegularization();
  check("a null regularization is increased", P_and(gt(s.get_preg(), 0), le(s.get_preg(), hi)));
}
REGISTER(
  add_case("from_zero", from_zero, {{"n", 1}});
  for (long nu = 0; nu < 3; ++nu) {
    add_case("guess_ddp", guess<SolverDDP>, {{"n", 1 + (nu == 0)}, {"nu", nu}});
    add_case("guess_fddp", guess<SolverFDDP>, {{"n", 1 + (nu == 0)}, {"nu", nu}});
  }
  for (long t = 0; t < 2; ++t) for (long d = 0; d < 2; ++d) { add_case("replaced_ddp", replaced<SolverDDP>, {{"t", t}, {"direct", d}}); add_case("replaced_fddp", replaced<SolverFDDP>, {{"t", t}, {"direct", d}}); }
  add_case("settings", settings, {{"n", 1}});
  add_case("more", more, {{"n", 1}});
  add_case("regularization", regularization, {{"n", 1}});)
