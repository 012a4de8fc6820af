// SOURCES: src/core/solver-base.cpp src/core/solvers/ddp.cpp src/core/solvers/fddp.cpp
// DDP/FDDP search direction: gaps, Riccati recursion, gains, refusals.
// BOUNDS: horizon 1..2, state dimension 1..2, control dimension 0..2 (differing per node), every derivative of dynamics and cost, every guess and initial state, every regularization, flat and curved states
// OUTSIDE: longer horizons; floating-point rounding; computeDirection called after setCandidate in the middle of a previous solve
// ASSUMES: feasible guesses satisfy the dynamics
#include "harness/solv.hpp"
static P posdef(const Mat &M) {
  if (M.rows() == 0) return P_bool(true);
  P p = gt(M(0, 0), 0);
  if (M.rows() == 2) p = P_and(p, gt(M(0, 0) * M(1, 1) - M(1, 0) * M(1, 0), 0));
  return p;
}
template <class S>
static void direction(const Case &c) {
  const std::vector<std::vector<long>> nus = {{1}, {2}, {1, 1}, {0, 1}, {1, 0}, {2, 1}};
  Prob z = problem(c("n"), nus[c("nu")], c("state"), c("feas"), c("bil"));
  Open<S> s(z.p);
  double reg = 0;
  if (c("reg")) { reg = in("reg"); assume(ge(reg, 0)); }
  if (c("used")) {  // another direction computed before, possibly refused
    const double r0 = in("reg0"); assume(ge(r0, 0));
    s.set_preg(r0);
    s.setCandidate(traj("y", std::vector<long>(z.T + 1, z.n)), z.us, false);
    throws([&]() { s.computeDirection(true); });
  }
  s.set_preg(reg);
  s.setCandidate(z.xs, z.us, c("feas"));
  bool thrown = throws([&]() { s.computeDirection(true); });
  const long n = z.n;
  check_eq("cost of the guess", s.get_cost(), cost(z, z.xs, z.us));
  check_eqm("initial gap", s.get_fs()[0], dif(z, z.xs[0], z.p->get_x0()));
  for (long t = 0; t < z.T; ++t) check_eqm("gap", s.get_fs()[t + 1], dif(z, z.xs[t + 1], next(z, t, z.xs[t], z.us[t])));
  if (thrown) {
    if (z.T == 1) {
      P why = P_not(posdef(s.get_Quu()[0]));
      for (long i = 0; i < n; ++i) {
        why = P_or(why, ge(abs1(s.get_Vx()[0](i)), 1e30));
        for (long j = 0; j < n; ++j) why = P_or(why, ge(abs1(s.get_Vxx()[0](i, j)), 1e30));
      }
      check("refused only without a positive-definite control Hessian or on overflow", why);
    }
    return;
  }
  const Mat I = Mat::Identity(n, n);
  for (long t = z.T; t >= 0; --t) {
    Vec vx; Mat vxx;
    if (t == z.T) {
      vx = z.term->Q * z.xs[t] + z.term->q; vxx = z.term->Q;
    } else {
      std::shared_ptr<AD> d = z.m[t]->createData();
      const Vec Vx = s.get_Vx()[t + 1];
      const Mat Vxx = s.get_Vxx()[t + 1];
      const long m = z.m[t]->get_nu();
      z.m[t]->calcDiff(d, z.xs[t], z.us[t]);
      const Mat Fx = d->Fx, Fu = d->Fu;
      const Vec Lx = d->Lx, Lu = d->Lu;
      check_eqm("Qx", s.get_Qx()[t], Vec(Lx + Fx.transpose() * Vx));
      check_eqm("Qxx", s.get_Qxx()[t], Mat(z.m[t]->Q + Fx.transpose() * Vxx * Fx));
      vx = s.get_Qx()[t]; vxx = s.get_Qxx()[t];
      if (m) {
        const Mat Quu = s.get_Quu()[t], Qxu = s.get_Qxu()[t];
        const Vec Qu = s.get_Qu()[t];
        check_eqm("Qu", Qu, Vec(Lu + Fu.transpose() * Vx));
        check_eqm("Quu", Quu, Mat(z.m[t]->R + Fu.transpose() * Vxx * Fu + reg * Mat::Identity(m, m)));
        check_eqm("Qxu", Qxu, Mat(z.m[t]->N + Fx.transpose() * Vxx * Fu));
        check("Quu positive definite", posdef(Quu));
        const Mat K = s.get_K()[t];
        const Vec k = s.get_k()[t];
        check_eqm("feedforward gain", Vec(Quu * k), Qu);
        check_eqm("feedback gain", Mat(Quu * K), Mat(Qxu.transpose()));
        vx -= K.transpose() * Qu;
        vxx -= Mat(Qxu * K + (Qxu * K).transpose()) / 2;
      }
    }
    vxx += reg * I;
    if (!c("feas")) vx += vxx * s.get_fs()[t];
    check_eqm("Vxx", s.get_Vxx()[t], vxx);
    check_eqm("Vx", s.get_Vx()[t], vx);
  }
}
static void pair(long n, long nu, long state, long feas, long bil, long reg, long th = 0, long used = 0) {
  add_case("ddp", direction<SolverDDP>, {{"n", n}, {"nu", nu}, {"state", state}, {"feas", feas}, {"bil", bil}, {"reg", reg}, {"used", used}}, th);
  add_case("fddp", direction<SolverFDDP>, {{"n", n}, {"nu", nu}, {"state", state}, {"feas", feas}, {"bil", bil}, {"reg", reg}, {"used", used}}, th);
}
REGISTER(
  for (long feas = 0; feas < 2; ++feas) for (long reg = 0; reg < 2; ++reg) {
    pair(1, 2, 0, feas, 0, reg); pair(2, 0, 0, feas, 0, reg, reg); pair(1, 1, 0, feas, 0, reg, !reg);
    pair(1, 3, 0, feas, 0, reg, !reg); pair(1, 4, 0, feas, 0, reg, !reg); pair(1, 0, 0, feas, 0, reg, 1);
    pair(1, 5, 0, feas, 0, reg, 1);
  }
  pair(1, 0, 1, 0, 1, 1); pair(2, 0, 1, 0, 1, 0, 1); pair(1, 2, 1, 0, 1, 0, 1); pair(1, 0, 0, 0, 0, 1, 0, 1); pair(1, 2, 0, 0, 0, 1, 1, 1);)
