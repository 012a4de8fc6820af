// SOURCES: src/core/solvers/box-qp.cpp
// Box QP: feasible iterates, no cost increase, exact solutions and active sets, argument validation.
// BOUNDS: 1..2 variables (thorough 3 for feasibility), 0..3 iterations, every positive-definite Hessian, gradient, box (also one-sided and unbounded), initial guess in or out of the box, regularization and acceptance threshold; solver used before on another problem, resized between solves
// OUTSIDE: convergence in more than 3 iterations; floating-point rounding
// ASSUMES: lower bounds not above upper bounds
#include "sym/harness.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
using namespace vf;
using namespace crocoddyl;

struct Qp { Mat H; Vec q, lb, ub, x0; double reg; };
static double inf_() { return std::numeric_limits<double>::infinity(); }
static Qp problem(const std::string &p, long n, long box, bool pd = true, long hess = 0) {
  Qp z;
  if (hess == 0) z.H = in_sym(p + "H", n);
  else {  // given Hessians with exact Cholesky factors
    z.H = Mat(2, 2);
    if (hess == 1) z.H << 4, 2, 2, 5;
    else z.H << 1, -2, -2, 8;
    pd = false;
  }
  z.q = in_vec(p + "q", n);
  z.x0 = in_vec(p + "x", n);
  z.lb = Vec::Constant(n, -inf_());
  z.ub = Vec::Constant(n, inf_());
  if (box & 1) z.lb = in_vec(p + "l", n);
  if (box & 2) z.ub = in_vec(p + "u", n);
  if (box == 3) for (long i = 0; i < n; ++i) assume(le(z.lb(i), z.ub(i)));
  if (pd) {
    assume(gt(z.H(0, 0), 0));
    if (n > 1) { assume(gt(z.H(1, 1), 0)); assume(gt(z.H(0, 0) * z.H(1, 1) - z.H(0, 1) * z.H(0, 1), 0)); }
  }
  z.reg = 0;
  return z;
}
static double obj(const Qp &z, const Vec &x) {
  double f = z.q.dot(x);
  for (long i = 0; i < x.size(); ++i) {
    f += z.reg * x(i) * x(i) / 2;
    for (long j = 0; j < x.size(); ++j) f += x(i) * z.H(i, j) * x(j) / 2;
  }
  return f;
}
static Vec clamp(const Qp &z, const Vec &x) {
  Vec y = x;
  for (long i = 0; i < x.size(); ++i) y(i) = max2(min2(x(i), z.ub(i)), z.lb(i));
  return y;
}
static void inside(const Qp &z, const Vec &x) {
  std::vector<P> p;
  for (long i = 0; i < x.size(); ++i) { p.push_back(le(z.lb(i), x(i))); p.push_back(le(x(i), z.ub(i))); }
  check("result within the box", p);
}
static void sets(const Qp &z, const BoxQPSolution &s) {
  const long n = z.q.size();
  std::vector<long> seen(n, 0);
  bool ok = (long)(s.free_idx.size() + s.clamped_idx.size()) == n;
  for (auto i : s.free_idx) { ok = ok && (long)i < n; if ((long)i < n) ++seen[i]; }
  for (auto i : s.clamped_idx) { ok = ok && (long)i < n; if ((long)i < n) ++seen[i]; }
  for (long i = 0; i < n; ++i) ok = ok && seen[i] == 1;
  check_true("free and clamped variables partition the variables", ok);
  if (!ok) return;
  for (auto i : s.clamped_idx) check("clamped variables are at a bound", P_or(eq(s.x(i), z.lb(i)), eq(s.x(i), z.ub(i))));
  const long f = s.free_idx.size();
  Mat Hff(f, f);
  for (long i = 0; i < f; ++i) for (long j = 0; j < f; ++j) Hff(i, j) = z.H(s.free_idx[i], s.free_idx[j]) + (i == j ? z.reg : double(0));
  check_eqm("inverse of the free Hessian", Mat(s.Hff_inv * Hff), Mat(Mat::Identity(f, f)));
}
static void used(BoxQP &b, long n) {
  if (!flag("used")) return;
  Qp o = problem("o", n, 0);
  b.solve(o.H, o.q, o.lb, o.ub, o.x0);
}
// regularization 1 that keeps the exact factors of the given Hessians
static void given_reg(Qp &z, BoxQP &b) { z.reg = 1; z.H -= Mat::Identity(2, 2); b.set_reg(1); }
// any number of iterations: feasible, no cost increase
static void descend(const Case &c) {
  const long n = c("n");
  Qp z = problem("", n, c("box"), true, c("H"));
  BoxQP b(n, c("iter"));
  b.set_reg(0);
  if (c("reg") == 1) { z.reg = in("reg"); assume(gt(z.reg, 0) & lt(z.reg, 10)); b.set_reg(z.reg); }
  if (c("reg") == 2) given_reg(z, b);
  if (c("th")) { const double th = in("th"); assume(gt(th, 0) & lt(th, 0.5)); b.set_th_acceptstep(th); }
  if (c("alphas")) b.set_alphas({1, 0.25});
  b.set_th_grad(0);
  BoxQPSolution s = b.solve(z.H, z.q, z.lb, z.ub, z.x0);
  inside(z, s.x);
  check_eqm("stored solution", b.get_solution().x, s.x);
  if (c("iter") > 0) sets(z, s);
  check("objective not above that of the projected guess", le(obj(z, s.x), obj(z, clamp(z, z.x0))));
}
// one variable: exact solution
static void scalar(const Case &c) {
  Qp z = problem("", 1, c("box"));
  BoxQP b(1, 3);
  b.set_reg(0);
  if (c("reg")) { z.reg = in("reg"); assume(gt(z.reg, 0)); b.set_reg(z.reg); }
  b.set_th_grad(0);
  used(b, 1);
  BoxQPSolution s = b.solve(z.H, z.q, z.lb, z.ub, z.x0);
  Vec e(1);
  e(0) = -z.q(0) / (z.H(0, 0) + z.reg);
  check_eqm("exact solution", s.x, clamp(z, e));
  sets(z, s);
}
// no active bound: Newton step gives the exact solution
static void newton(const Case &c) {
  const long n = c("n");
  Qp z = problem("", n, 0);
  BoxQP b(n, c("iter"));
  b.set_reg(0);
  b.set_th_grad(0);
  if (c("reg")) { z.reg = in("reg"); assume(gt(z.reg, 0) & lt(z.reg, 10)); b.set_reg(z.reg); }
  BoxQPSolution s = b.solve(z.H, z.q, z.lb, z.ub, z.x0);
  check_eqm("stationary point of the objective", Vec(z.H * s.x + z.reg * s.x + z.q), Vec(Vec::Zero(n)));
  check_true("every variable is free", (long)s.free_idx.size() == n);
  sets(z, s);
}
// points satisfying the optimality conditions are kept
static void optimal(const Case &c) {
  const long n = c("n");
  Qp z = problem("", n, 3, true, c("H"));
  if (c("reg") == 1) { z.reg = in("reg"); assume(gt(z.reg, 0)); }
  if (c("reg") == 2) { z.reg = 1; z.H -= Mat::Identity(n, n); }
  Vec g = Vec::Zero(n);
  for (long i = 0; i < n; ++i) {
    const long k = choose("k" + std::to_string(i), 3);
    if (k == 0) assume(lt(z.lb(i), z.x0(i)) & lt(z.x0(i), z.ub(i)));
    if (k == 1) { z.x0(i) = z.lb(i); g(i) = in("g" + std::to_string(i)); assume(ge(g(i), 0)); }
    if (k == 2) { z.x0(i) = z.ub(i); g(i) = in("g" + std::to_string(i)); assume(le(g(i), 0)); }
  }
  // gradient at the guess is g
  z.q = g - z.H * z.x0 - z.reg * z.x0;
  BoxQP b(n, c("iter"));
  b.set_reg(z.reg);
  if (n == 1) used(b, n);
  BoxQPSolution s = b.solve(z.H, z.q, z.lb, z.ub, z.x0);
  check_eqm("an optimal guess is kept", s.x, z.x0);
  if (c("iter")) sets(z, s);
}
static void indefinite(const Case &c) {
  const long n = c("n");
  Qp z = problem("", n, 0, false);
  assume(le(z.H(0, 0), 0) | (n > 1 ? le(z.H(0, 0) * z.H(1, 1) - z.H(0, 1) * z.H(0, 1), 0) : P_bool(false)));
  BoxQP b(n, 1);
  b.set_reg(0);
  check_true("a Hessian that is not positive definite is refused", throws([&]() { b.solve(z.H, z.q, z.lb, z.ub, z.x0); }));
}
static void settings(const Case &c) {
  const long n = c("n");
  BoxQP b(n);
  check_true("defaults", (long)b.get_nx() == n && b.get_maxiter() == 100 && b.get_alphas().size() == 10);
  for (long i = 0; i < 10; ++i) check_eq("step lengths", b.get_alphas()[i], 1 / double(1 << i));
  const double v = in("v"), w = in("w");
  if (flag("th")) {
    const bool bad = flag("bad");
    assume(bad ? (le(v, 0) | ge(v, 0.5)) : (gt(v, 0) & lt(v, 0.5)));
    const double old = b.get_th_acceptstep();
    check_true("acceptance threshold validated", throws([&]() { b.set_th_acceptstep(v); }) == bad);
    check_eq("acceptance threshold", b.get_th_acceptstep(), bad ? old : v);
  }
  const bool bad = flag("bad2");
  assume(bad ? lt(v, 0) : ge(v, 0));
  check_true("gradient tolerance validated", throws([&]() { b.set_th_grad(v); }) == bad);
  check_true("regularization validated", throws([&]() { b.set_reg(v); }) == bad);
  check_eq("gradient tolerance", b.get_th_grad(), bad ? double(1e-9) : v);
  check_eq("regularization", b.get_reg(), bad ? double(1e-9) : v);
  const bool bad3 = flag("bad3");
  assume(bad3 ? (le(w, 0) | ge(w, 1)) : (gt(w, 0) & lt(w, 1)));
  check_true("step lengths validated", throws([&]() { b.set_alphas({1, w}); }) == bad3);
  check_true("step lengths", (long)b.get_alphas().size() == (bad3 ? 10 : 2));
  check_true("first step length validated", bad3 || throws([&]() { b.set_alphas({-w}); }));
  check_true("step lengths needed", throws([&]() { b.set_alphas({}); }));
  check_true("first step length validated", throws([&]() { b.set_alphas({0}); }));
  b.set_maxiter(7);
  check_true("number of iterations", b.get_maxiter() == 7);
  Vec o = Vec::Ones(n), l = Vec::Ones(n + 1);
  Mat H = Mat::Identity(n, n), G = Mat::Identity(n + 1, n + 1), R = Mat::Identity(n, n + 1), R2 = Mat::Identity(n + 1, n);
  check_true("wrong Hessian rejected", throws([&]() { b.solve(G, o, o, o, o); }) && throws([&]() { b.solve(R, o, o, o, o); }) && throws([&]() { b.solve(R2, o, o, o, o); }));
  check_true("wrong vectors rejected", throws([&]() { b.solve(H, l, o, o, o); }) && throws([&]() { b.solve(H, o, l, o, o); }) && throws([&]() { b.solve(H, o, o, l, o); }) && throws([&]() { b.solve(H, o, o, o, l); }));
  b.set_nx(n + 1);
  check_true("resized", (long)b.get_nx() == n + 1);
  b.set_reg(0);
  b.set_th_grad(0);
  b.set_th_acceptstep(0.1);
  Vec q = in_vec("q", n + 1), big = Vec::Constant(n + 1, inf_()), x0 = in_vec("x0", n + 1);
  BoxQPSolution s = b.solve(G, q, Vec(-big), big, x0);
  check_eqm("solution after resizing", s.x, Vec(-q));
}
REGISTER(
  for (long box = 0; box < 4; ++box) for (long reg = 0; reg < 2; ++reg) add_case("scalar", scalar, {{"box", box}, {"reg", reg}});
  for (long n = 1; n <= 2; ++n) {
    for (long it = 1; it <= 2; ++it) for (long reg = 0; reg < 2; ++reg) add_case("newton", newton, {{"n", n}, {"iter", it}, {"reg", reg}});
    for (long it = 0; it <= 2; ++it) for (long reg = 0; reg < 2; ++reg) add_case("optimal", optimal, {{"n", n}, {"iter", it}, {"reg", reg}, {"H", 0}}, n > 1 && it > 0);
    add_case("indefinite", indefinite, {{"n", n}});
    add_case("settings", settings, {{"n", n}});
  }
  for (long it = 0; it <= 3; ++it) add_case("descend", descend, {{"n", 1}, {"iter", it}, {"box", 3}, {"reg", it == 1}, {"th", it == 1}, {"alphas", 0}, {"H", 0}});
  for (long h = 1; h <= 2; ++h) {
    for (long it = 1; it <= 2; ++it) {
      add_case("optimal", optimal, {{"n", 2}, {"iter", it}, {"reg", 0}, {"H", h}});
      add_case("optimal", optimal, {{"n", 2}, {"iter", it}, {"reg", 2}, {"H", h}}, it > 1);
      add_case("descend", descend, {{"n", 2}, {"iter", it}, {"box", 2}, {"reg", 2}, {"th", 0}, {"alphas", 1}, {"H", h}}, it > 1 || h > 1);
      for (long box = 1; box <= 3; ++box) add_case("descend", descend, {{"n", 2}, {"iter", it}, {"box", box}, {"reg", 0}, {"th", 0}, {"alphas", 1}, {"H", h}}, it > 1 || box == 3);
    }
  }
  add_case("descend", descend, {{"n", 2}, {"iter", 0}, {"box", 3}, {"reg", 1}, {"th", 1}, {"alphas", 1}, {"H", 0}});)
