// SOURCES: src/core/solver-base.cpp src/core/solvers/ddp.cpp src/core/solvers/fddp.cpp
// DDP/FDDP line-search candidates: policy, gap contraction, rollout, cost, step validation.
// BOUNDS: horizon 1..2, state dimension 1..2, control dimension 0..2 (differing per node), every node, guess, initial state, regularization and step length, flat and curved states, affine and bilinear dynamics
// OUTSIDE: longer horizons; floating-point rounding
// ASSUMES: feasible guesses satisfy the dynamics; the direction was computed without refusal
#include "harness/solv.hpp"
template <class S>
static void candidate(const Case &c) {
  const bool fddp = c("fddp"), feas = c("feas");
  const std::vector<std::vector<long>> nus = {{1}, {2}, {1, 1}, {0, 1}, {1, 0}, {0}, {0, 0}};
  Prob z = problem(c("n"), nus[c("nu")], c("state"), feas, c("bil"));
  Open<S> s(z.p);
  double reg = 0;
  if (c("reg")) { reg = in("reg"); assume(ge(reg, 0)); }
  s.set_preg(reg);
  s.setCandidate(z.xs, z.us, feas);
  if (throws([&]() { s.computeDirection(true); })) return;
  double al = 1;
  if (c("alpha")) { al = in("alpha"); assume(gt(al, 0) & lt(al, 1)); }
  double dv = 0;
  if (c("again")) throws([&]() { s.tryStep(0.5); });
  if (throws([&]() { dv = s.tryStep(al); })) return;
  const Traj X = s.xs_try_, U = s.us_try_;
  const double f = fddp && !feas ? al - 1 : double(0);  // remaining part of the gaps
  check_eqm("initial state of the candidate", dif(z, X[0], z.p->get_x0()), Vec(-f * (fddp ? s.get_fs()[0] : Vec(Vec::Zero(z.n)))));
  for (long t = 0; t < z.T; ++t) {
    check_true("control dimension", U[t].size() == (long)z.m[t]->get_nu());
    if (U[t].size()) check_eqm("policy", U[t], Vec(z.us[t] - al * s.get_k()[t] - Mat(s.get_K()[t]) * dif(z, z.xs[t], X[t])));
    check_eqm("gap of the candidate", dif(z, X[t + 1], next(z, t, X[t], U[t])), Vec(-f * s.get_fs()[t + 1]));
  }
  check_eq("cost decrease", dv, s.get_cost() - cost(z, X, U));
  for (long t = 0; t <= z.T; ++t) check_eqm("guess kept", s.get_xs()[t], z.xs[t]);
  for (long t = 0; t < z.T; ++t) check_eqm("guess kept", s.get_us()[t], z.us[t]);
}
template <class S>
static void range(const Case &) {
  Prob z = problem(1, {1}, 0, true);
  z.m[0]->R(0, 0) = 1; z.term->Q(0, 0) = 0;
  Open<S> s(z.p);
  s.set_preg(0);
  s.setCandidate(z.xs, z.us, true);
  if (throws([&]() { s.computeDirection(true); })) return;
  const double al = in("alpha");
  const bool bad = flag("bad");
  assume(bad ? (lt(al, 0) | gt(al, 1)) : (ge(al, 0) & le(al, 1)));
  if (bad) check_true("step length outside [0, 1] refused", throws([&]() { s.tryStep(al); }));
}
static void pair_(long n, long nu, long state, long feas, long bil, long reg, long alpha, long again = 0, long th = 0) {
  add_case("ddp", candidate<SolverDDP>, {{"fddp", 0}, {"n", n}, {"nu", nu}, {"state", state}, {"feas", feas}, {"bil", bil}, {"reg", reg}, {"alpha", alpha}, {"again", again}}, th);
  add_case("fddp", candidate<SolverFDDP>, {{"fddp", 1}, {"n", n}, {"nu", nu}, {"state", state}, {"feas", feas}, {"bil", bil}, {"reg", reg}, {"alpha", alpha}, {"again", again}}, th);
}
REGISTER(
  for (long feas = 0; feas < 2; ++feas) for (long al = 0; al < 2; ++al) {
    pair_(1, 0, 0, feas, 0, 1, al); pair_(1, 5, 1, feas, 0, 0, al); pair_(1, 6, 0, feas, 0, 0, al);
    pair_(1, 3, 0, feas, 0, 0, al); pair_(1, 4, 0, feas, 0, 0, al);
  }
  pair_(1, 0, 1, 0, 1, 0, 1); pair_(2, 0, 0, 0, 0, 0, 1); pair_(1, 0, 0, 0, 0, 0, 1, 1); pair_(1, 2, 0, 0, 0, 0, 1); pair_(1, 2, 0, 0, 0, 0, 0, 0, 1);
  pair_(1, 1, 0, 0, 0, 0, 1, 0, 1); pair_(1, 2, 1, 0, 0, 0, 1, 0, 1);
  add_case("range_ddp", range<SolverDDP>, {{"n", 1}});
  add_case("range_fddp", range<SolverFDDP>, {{"n", 1}});)
