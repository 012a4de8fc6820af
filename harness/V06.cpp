// SOURCES: src/core/solver-base.cpp
// KKT solver: assembled optimality system, direction, steps, expected improvement, stopping value, one-step optimality.
// BOUNDS: horizon 1..2, state dimension 1..2, control dimension 0..2 (differing per node), every derivative of dynamics and cost, every guess (declared feasible or not, rightly or not), initial state and step length, flat and curved states; solver used before
// OUTSIDE: longer horizons; problems whose dimensions change after construction; models that throw while the guess is evaluated; floating-point rounding
// ASSUMES: the dense linear solve of the optimality system (Eigen) returns a solution of the system it is given; feasible guesses satisfy the dynamics
#include "sym/harness.hpp"
static long solves = 0;  // linear solves so far on this path
#ifdef VERIF_SYMBOLIC
namespace Eigen {
// linear solves by contract: some solution of the given system
template <>
class PartialPivLU<vf::Mat> {
  vf::Mat A;
 public:
  template <class M> explicit PartialPivLU(const EigenBase<M> &m) : A(m.derived()) {}
  template <class R> vf::Vec solve(const MatrixBase<R> &rhs) const {
    const vf::Vec b = rhs;
    const vf::Vec x = vf::in_vec("solution" + std::to_string(solves++), b.size());
    for (long i = 0; i < b.size(); ++i) {
      double r = 0;
      for (long j = 0; j < b.size(); ++j) r += A(i, j) * x(j);
      vf::assume(vf::eq(r, b(i)));
    }
    return x;
  }
};
}  // namespace Eigen
#endif
#include "harness/solv.hpp"
#include "crocoddyl/../../src/core/solvers/kkt.cpp"  // in this unit, for the replaced linear solve

static const std::vector<std::vector<long>> nus = {{1}, {2}, {0}, {1, 1}, {0, 1}, {1, 0}, {2, 1}};
struct OpenKkt : SolverKKT {
  explicit OpenKkt(std::shared_ptr<SP> p) : SolverKKT(p) {}
  using SolverKKT::cost_try_;
  using SolverKKT::us_try_;
  using SolverKKT::xs_try_;
};
struct System { Mat K; Vec r; long N, M; };  // optimality system of the problem at the guess
static System assemble(const Prob &z) {
  System y;
  const long n = z.n, N = n * (z.T + 1);
  long M = 0;
  for (long t = 0; t < z.T; ++t) M += z.m[t]->get_nu();
  y.N = N; y.M = M;
  Mat H = Mat::Zero(N + M, N + M), J = Mat::Zero(N, N + M);
  Vec g = Vec::Zero(N + M), f = Vec::Zero(N);
  long iu = 0;
  for (long i = 0; i < N; ++i) J(i, i) = 1;
  f.head(n) = dif(z, z.p->get_x0(), z.xs[0]);
  for (long t = 0; t < z.T; ++t) {
    std::shared_ptr<AD> d = z.m[t]->createData();
    const long m = z.m[t]->get_nu();
    z.m[t]->calcDiff(d, z.xs[t], z.us[t]);
    for (long i = 0; i < n; ++i) {
      for (long j = 0; j < n; ++j) { H(t * n + i, t * n + j) = d->Lxx(i, j); J((t + 1) * n + i, t * n + j) = -d->Fx(i, j); }
      for (long j = 0; j < m; ++j) { H(t * n + i, N + iu + j) = H(N + iu + j, t * n + i) = d->Lxu(i, j); J((t + 1) * n + i, N + iu + j) = -d->Fu(i, j); }
      g(t * n + i) = d->Lx(i);
    }
    for (long i = 0; i < m; ++i) { for (long j = 0; j < m; ++j) H(N + iu + i, N + iu + j) = d->Luu(i, j); g(N + iu + i) = d->Lu(i); }
    f.segment((t + 1) * n, n) = dif(z, next(z, t, z.xs[t], z.us[t]), z.xs[t + 1]);
    iu += m;
  }
  const Vec gT = z.term->Q * z.xs[z.T] + z.term->q;
  for (long i = 0; i < n; ++i) { for (long j = 0; j < n; ++j) H(z.T * n + i, z.T * n + j) = z.term->Q(i, j); g(z.T * n + i) = gT(i); }
  y.K = Mat::Zero(2 * N + M, 2 * N + M);
  y.K.topLeftCorner(N + M, N + M) = H;
  y.K.bottomLeftCorner(N, N + M) = J;
  y.K.topRightCorner(N + M, N) = J.transpose();
  y.r = Vec(2 * N + M);
  y.r << g, f;
  return y;
}
static void used(const Case &c, const Prob &z, SolverKKT &s) {
  if (!c("used")) return;
  s.setCandidate(traj("y", std::vector<long>(z.T + 1, z.n)), z.us, false);
  s.computeDirection(true);
  s.expectedImprovement();
  s.stoppingCriteria();
}
static void direction(const Case &c) {
  solves = 0;
  Prob z = problem(c("n"), nus[c("nu")], c("state"), c("feas") == 1, c("bil"));
  OpenKkt s(z.p);
  used(c, z, s);
  s.setCandidate(z.xs, z.us, c("feas"));
  s.computeDirection(true);
  const System y = assemble(z);
  const long n = z.n, N = y.N, M = y.M;
  check_true("dimensions", (long)s.get_ndx() == N && (long)s.get_nx() == N && (long)s.get_nu() == M);
  check_eqm("optimality matrix", s.get_kkt(), y.K);
  check_eqm("optimality vector", s.get_kktref(), y.r);
  observe("cost", s.get_cost());
  check_eq("cost of the guess", s.get_cost(), cost(z, z.xs, z.us));
  const Vec w = s.get_primaldual();
  if (c("solve")) check_eqm("direction solves the optimality system", Vec(y.K * w), Vec(-y.r));
  long iu = 0;
  for (long t = 0; t <= z.T; ++t) {
    check_eqm("state direction", s.get_dxs()[t], Vec(w.segment(t * n, n)));
    check_eqm("multiplier", s.get_lambdas()[t], Vec(w.segment(N + M + t * n, n)));
    if (t == z.T) break;
    const long m = z.m[t]->get_nu();
    check_eqm("control direction", s.get_dus()[t], Vec(w.segment(N + iu, m)));
    iu += m;
  }
  // expected improvement along the direction, exact on the quadratic model
  const Eigen::Vector2d d = s.expectedImprovement();
  const Vec p = w.head(N + M);
  double d0 = 0, d1 = 0;
  for (long i = 0; i < N + M; ++i) { d0 -= y.r(i) * p(i); for (long j = 0; j < N + M; ++j) d1 -= p(i) * y.K(i, j) * p(j); }
  check_eq("first-order expected improvement", d[0], d0);
  check_eq("second-order expected improvement", d[1], d1);
  check_eqm("stored expected improvement", Vec(s.get_d()), Vec(d));
  // stopping value: gradient of the Lagrangian and gaps
  Vec l = y.r.head(N + M);
  for (long i = 0; i < N + M; ++i) for (long j = 0; j < N; ++j) l(i) += y.K(N + M + j, i) * w(N + M + j);
  double stop = 0;
  for (long i = 0; i < N + M; ++i) stop += l(i) * l(i);
  for (long i = 0; i < N; ++i) stop += y.r(N + M + i) * y.r(N + M + i);
  observe("stop", stop);
  observe("d0", d0);
  observe("d1", d1);
  check_eq("stopping value", s.stoppingCriteria(), stop);
  check_eq("stored stopping value", s.get_stop(), stop);
}
static void step(const Case &c) {
  solves = 0;
  Prob z = problem(c("n"), nus[c("nu")], c("state"), c("feas") == 1);
  OpenKkt s(z.p);
  used(c, z, s);
  s.setCandidate(z.xs, z.us, c("feas"));
  s.computeDirection(true);
  const double al = in("alpha");
  if (c("again")) s.tryStep(0.5);
  const double dv = s.tryStep(al);
  for (long t = 0; t <= z.T; ++t) {
    check_eqm("candidate state", s.xs_try_[t], itg(z, z.xs[t], Vec(al * s.get_dxs()[t])));
    if (t < z.T) check_eqm("candidate control", s.us_try_[t], Vec(z.us[t] + al * s.get_dus()[t]));
  }
  observe("dv", dv);
  check_eq("cost decrease", dv, cost(z, z.xs, z.us) - cost(z, s.xs_try_, s.us_try_));
  if (!c("state")) {
    const Eigen::Vector2d d = s.expectedImprovement();
    check_eq("expected improvement is the actual one", dv, al * d[0] + al * al * d[1] / 2);
  }
  for (long t = 0; t <= z.T; ++t) check_eqm("guess kept", s.get_xs()[t], z.xs[t]);
  for (long t = 0; t < z.T; ++t) check_eqm("guess kept", s.get_us()[t], z.us[t]);
}
// one iteration on a linear-quadratic problem is optimal; a second one stops
static void solved(const Case &c) {
  solves = 0;
  Prob z = problem(c("n"), nus[c("nu")], 0, false);
  OpenKkt s(z.p);
  s.set_th_stop(1e-9);
  const bool done = s.solve(z.xs, z.us, c("iter"), false);
  const Traj X = s.get_xs(), U = s.get_us();
  check_eq("cost of the solution", s.get_cost(), cost(z, X, U));
  Vec l = z.term->Q * X[z.T] + z.term->q;
  check_eqm("initial state", X[0], z.p->get_x0());
  for (long t = z.T - 1; t >= 0; --t) {
    const Node &m = *z.m[t];
    check_eqm("dynamics", X[t + 1], m.next(X[t], U[t]));
    if (U[t].size()) check_eqm("stationary with respect to the control", Vec(m.R * U[t] + m.N.transpose() * X[t] + m.r + m.B.transpose() * l), Vec(Vec::Zero(U[t].size())));
    l = Vec(m.Q * X[t] + m.N * U[t] + m.q + m.A.transpose() * l);
  }
  check_true("feasible after a full step", s.get_is_feasible());
  if (c("iter") == 1) check_true("not finished before a feasible iteration", !done);
}
static void D(long n, long nu, long state, long feas, long bil, long used, long solve, long th) { add_case("direction", direction, {{"n", n}, {"nu", nu}, {"state", state}, {"feas", feas}, {"bil", bil}, {"used", used}, {"solve", solve}}, th); }
static void Q(long n, long nu, long state, long feas, long used, long again, long th) { add_case("step", step, {{"n", n}, {"nu", nu}, {"state", state}, {"feas", feas}, {"used", used}, {"again", again}}, th); }
REGISTER(
  for (long nu = 0; nu < 7; ++nu) { D(1, nu, 0, 0, 0, 0, nu < 3, nu == 5); Q(1, nu, 0, nu % 2, 0, 0, nu == 5); add_case("solved", solved, {{"n", 1}, {"nu", nu}, {"iter", 1}}, nu > 4); }
  D(2, 0, 0, 0, 0, 0, 0, 0); D(2, 4, 1, 0, 1, 0, 0, 1); D(1, 0, 1, 0, 1, 1, 1, 0); D(1, 0, 0, 1, 0, 1, 1, 0); D(1, 0, 0, 2, 0, 0, 1, 0); D(1, 4, 1, 2, 1, 1, 0, 0); D(1, 3, 0, 2, 0, 1, 0, 0); D(2, 6, 0, 0, 0, 0, 0, 1);
  Q(1, 0, 1, 2, 1, 1, 0); Q(2, 0, 0, 0, 0, 0, 0);)
