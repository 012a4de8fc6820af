// SOURCES: src/core/solver-base.cpp src/core/solvers/ddp.cpp src/core/solvers/fddp.cpp
// Linear-quadratic problems: one full step is optimal; the expected improvement is the actual one.
// BOUNDS: horizon 1..2, state dimension 1..2, control dimension 1..2, every linear dynamics and quadratic cost, every guess (feasible or not), initial state and step length, no regularization; expected improvement of infeasible guesses at the full step
// OUTSIDE: longer horizons; expected improvement of infeasible guesses at shorter steps (approximate by design); floating-point rounding; nonlinear problems
// ASSUMES: the direction was computed without refusal; feasible guesses satisfy the dynamics
#include "harness/solv.hpp"
static void kkt(const Prob &z, const Traj &X, const Traj &U) {
  Vec l = z.term->Q * X[z.T] + z.term->q;  // costate
  check_eqm("initial state", X[0], z.p->get_x0());
  for (long t = z.T - 1; t >= 0; --t) {
    const Node &m = *z.m[t];
    check_eqm("dynamics", X[t + 1], m.next(X[t], U[t]));
    if (U[t].size()) check_eqm("stationary with respect to the control", Vec(m.R * U[t] + m.N.transpose() * X[t] + m.r + m.B.transpose() * l), Vec(Vec::Zero(U[t].size())));
    l = Vec(m.Q * X[t] + m.N * U[t] + m.q + m.A.transpose() * l);
  }
}
// one iteration of the main loop, after a change of the initial state
template <class S>
static void solved(const Case &c) {
  const std::vector<std::vector<long>> nus = {{1}, {2}, {1, 1}, {0, 1}, {1, 0}, {0}};
  Prob z = problem(c("n"), nus[c("nu")], 0, false);
  Open<S> s(z.p);
  s.set_reg_min(0);
  s.set_reg_max(1e-9);  // a refused direction ends the solve
  s.set_alphas({1});
  s.solve(z.xs, z.us, 0, false, 0);
  z.p->set_x0(in_vec("x0new", z.n));
  s.solve(z.xs, z.us, 1, false, 0);
  if (!s.get_is_feasible()) return;
  check_eq("cost of the solution", s.get_cost(), cost(z, s.get_xs(), s.get_us()));
  kkt(z, s.get_xs(), s.get_us());
}
template <class S>
static void newton(const Case &c) {
  const std::vector<std::vector<long>> nus = {{1}, {2}, {1, 1}, {0, 1}, {1, 0}, {0}};
  Prob z = problem(c("n"), nus[c("nu")], c("state"), c("feas"));
  Open<S> s(z.p);
  s.set_preg(0);
  s.setCandidate(z.xs, z.us, c("feas"));
  if (throws([&]() { s.computeDirection(true); })) return;
  if (throws([&]() { s.tryStep(1); })) return;
  const Traj X = s.xs_try_, U = s.us_try_;
  kkt(z, X, U);
}
static void prepare(SolverFDDP &s) { s.updateExpectedImprovement(); }
static void prepare(SolverDDP &) {}
template <class S>
static void expected(const Case &c) {
  const std::vector<std::vector<long>> nus = {{1}, {2}, {1, 1}, {0, 1}, {1, 0}, {0}};
  Prob z = problem(c("n"), nus[c("nu")], 0, c("feas"));
  Open<S> s(z.p);
  s.set_preg(0);
  s.setCandidate(z.xs, z.us, c("feas"));
  if (throws([&]() { s.computeDirection(true); })) return;
  double al = 1;
  if (c("alpha")) { al = in("alpha"); assume(gt(al, 0) & lt(al, 1)); }
  prepare(s);
  double dv = 0;
  if (throws([&]() { dv = s.tryStep(al); })) return;
  const Eigen::Vector2d d = s.expectedImprovement();
  check_eq("actual improvement", dv, al * (d[0] + al * d[1] / 2));
  const double st = s.stoppingCriteria();
  check_eq("stopping criterion", st, abs1(d[0] + d[1] / 2));
  check_eq("stopping criterion", s.get_stop(), st);
  check_eqm("expected improvement", Vec(s.get_d()), Vec(d));
  if (c("feas")) check("descent direction", P_and(ge(d[0], 0), le(d[1], 0)));
}
REGISTER(
  for (long feas = 0; feas < 2; ++feas) for (long nu = 0; nu < 5; ++nu) {
    const long th = nu == 1 || nu == 2;
    add_case("newton_ddp", newton<SolverDDP>, {{"n", 1}, {"nu", nu}, {"state", 0}, {"feas", feas}}, th);
    add_case("newton_fddp", newton<SolverFDDP>, {{"n", 1}, {"nu", nu}, {"state", 0}, {"feas", feas}}, th);
    for (long al = 0; al < 2; ++al) {
      if (feas) add_case("expected_ddp", expected<SolverDDP>, {{"n", 1}, {"nu", nu}, {"feas", feas}, {"alpha", al}}, th);
      if (feas || !al) add_case("expected_fddp", expected<SolverFDDP>, {{"n", 1}, {"nu", nu}, {"feas", feas}, {"alpha", al}}, th);
    }
  }
  for (long nu = 0; nu < 5; ++nu) {
    add_case("solved_ddp", solved<SolverDDP>, {{"n", 1}, {"nu", nu}}, nu == 1 || nu == 2);
    add_case("solved_fddp", solved<SolverFDDP>, {{"n", 1}, {"nu", nu}}, nu == 1 || nu == 2);
  }
  add_case("newton_ddp", newton<SolverDDP>, {{"n", 2}, {"nu", 0}, {"state", 0}, {"feas", 0}});
  add_case("newton_fddp", newton<SolverFDDP>, {{"n", 2}, {"nu", 0}, {"state", 0}, {"feas", 0}});)
