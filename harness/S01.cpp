// Vector-space state: diff / integrate / Jacobians / limits.
// BOUNDS: state dimension 1..4 (quick), 1..6 (thorough); every real value of the points, tangents and pre-existing Jacobian contents; bounds finite or infinite per component
// OUTSIDE: larger dimensions; floating-point rounding (arithmetic is over the exact reals)
#include "sym/harness.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
using namespace vf;
using namespace crocoddyl;
typedef StateVectorTpl<double> State;

static void ops(const Case &c) {
  const long n = c("n");
  State s(n);
  Vec x0 = in_vec("x0", n), x1 = in_vec("x1", n), dx = in_vec("dx", n);
  Vec d(n), y(n), y2(n), d2(n);
  s.diff(x0, x1, d);
  s.integrate(x0, dx, y);
  s.integrate(x0, d, y2);
  s.diff(x0, y, d2);
  check_eqm("integrate(x0, diff(x0,x1)) = x1", y2, x1);
  check_eqm("diff(x0, integrate(x0,dx)) = dx", d2, dx);
  Vec z(n);
  s.diff(x0, x0, z);
  check_eqm("diff(x,x) = 0", z, Vec::Zero(n));
  Vec w(n);
  s.integrate(s.zero(), dx, w);
  check_eqm("integrate(zero, dx) = dx", w, dx);
  Vec e1(n), e2(n);
  s.diff(x1, x0, e1);
  check_eqm("diff is antisymmetric", e1, -d);
  check_eqm("diff_dx agrees", s.diff_dx(x0, x1), d);
  check_eqm("integrate_x agrees", s.integrate_x(x0, dx), y);
  Mat J1 = in_mat("J1", n, n), J2 = in_mat("J2", n, n);
  s.Jdiff(x0, x1, J1, J2, both);
  check_jac("Jdiff first", "diff", d, "x0", J1);
  check_jac("Jdiff second", "diff2", d, "x1", J2);
  Mat K1 = in_mat("K1", n, n), K2 = in_mat("K2", n, n), L1 = K1, L2 = K2;
  const Mat K10 = K1, K20 = K2;
  s.Jdiff(x0, x1, K1, L2, first);
  s.Jdiff(x0, x1, L1, K2, second);
  check_eqm("Jdiff(first) agrees with both", K1, J1);
  check_eqm("Jdiff(second) agrees with both", K2, J2);
  check_eqm("Jdiff(first) leaves the second argument", L2, K20);
  check_eqm("Jdiff(second) leaves the first argument", L1, K10);
  std::vector<Mat> js = s.Jdiff_Js(x0, x1);
  check_eqm("Jdiff_Js first", js[0], J1);
  check_eqm("Jdiff_Js second", js[1], J2);
  observe("y", y);
}

static void jint(const Case &c) {
  const long n = c("n");
  State s(n);
  Vec x = in_vec("x", n), dx = in_vec("dx", n), y(n);
  s.integrate(x, dx, y);
  Mat A = Mat::Zero(n, n), B = Mat::Zero(n, n);
  s.Jintegrate(x, dx, A, B, both, setto);
  check_jac("Jintegrate first (zeroed output)", "y", y, "x", A);
  check_jac("Jintegrate second (zeroed output)", "y2", y, "dx", B);
  const Mat P = in_mat("P", n, n), Q = in_mat("Q", n, n);
  Mat P1 = P, Q1 = Q;
  s.Jintegrate(x, dx, P1, Q1, both, addto);
  check_eqm("addto first", P1, P + A);
  check_eqm("addto second", Q1, Q + B);
  P1 = P, Q1 = Q;
  s.Jintegrate(x, dx, P1, Q1, both, rmfrom);
  check_eqm("rmfrom first", P1, P - A);
  check_eqm("rmfrom second", Q1, Q - B);
  P1 = P, Q1 = Q;
  s.Jintegrate(x, dx, P1, Q1, both, setto);
  check_eqm("setto overwrites first", P1, A);
  check_eqm("setto overwrites second", Q1, B);
  for (int op = 0; op < 3; ++op) {
    P1 = P, Q1 = Q;
    Mat P2 = P, Q2 = Q;
    AssignmentOp o = op == 0 ? setto : op == 1 ? addto : rmfrom;
    s.Jintegrate(x, dx, P2, Q2, both, o);
    s.Jintegrate(x, dx, P1, Q1, first, o);
    check_eqm("first only: first as with both", P1, P2);
    check_eqm("first only: second untouched", Q1, Q);
    P1 = P;
    s.Jintegrate(x, dx, P1, Q1, second, o);
    check_eqm("second only: second as with both", Q1, Q2);
    check_eqm("second only: first untouched", P1, P);
  }
  P1 = P;
  s.JintegrateTransport(x, dx, P1, first);
  check_eqm("transport (first) is the identity", P1, P);
  s.JintegrateTransport(x, dx, P1, second);
  check_eqm("transport (second) is the identity", P1, P);
  check_true("transport with both rejected", throws([&]() { s.JintegrateTransport(x, dx, P1, both); }));
  std::vector<Mat> js = s.Jintegrate_Js(x, dx);
  check_eqm("Jintegrate_Js first", js[0], A);
  check_eqm("Jintegrate_Js second", js[1], B);
}

static void limits(const Case &c) {
  const long n = c("n");
  State s(n);
  const double inf = std::numeric_limits<double>::infinity();
  check_true("no limits at construction", !s.get_has_limits());
  Vec lb = in_vec("lb", n), ub = in_vec("ub", n);
  bool any = false;
  for (int round = 0; round < 2; ++round) {
    const bool lower = flag("lower" + std::to_string(round));
    Vec v(n);
    for (long i = 0; i < n; ++i) {
      const bool fin = flag("finite" + std::to_string(round) + "_" + std::to_string(i));
      v(i) = fin ? (lower ? lb(i) : ub(i)) : (lower ? -inf : inf);
    }
    if (lower) {
      s.set_lb(v);
      check_eqm("lower bound stored", s.get_lb(), v);
    } else {
      s.set_ub(v);
      check_eqm("upper bound stored", s.get_ub(), v);
    }
    any = false;
    for (long i = 0; i < n; ++i) any = any || std::isfinite(s.get_lb()(i)) || std::isfinite(s.get_ub()(i));
    bool both_ = true, some = false;
    for (long i = 0; i < n; ++i) {
      both_ = both_ && std::isfinite(s.get_lb()(i)) && std::isfinite(s.get_ub()(i));
      some = some || (std::isfinite(s.get_lb()(i)) && std::isfinite(s.get_ub()(i)));
    }
    if (!any) check_true("has_limits is false when every bound is infinite", !s.get_has_limits());
    if (both_) check_true("has_limits is true when every bound is finite", s.get_has_limits());
  }
}

static void dims(const Case &c) {
  const long n = c("n");
  State s(n);
  check_true("nx", (long)s.get_nx() == n && (long)s.get_ndx() == n);
  check_true("nq + nv = nx + ...", (long)s.get_nv() + (long)s.get_nq() == n || (long)s.get_nv() == n / 2);
  Vec ok = Vec::Zero(n), bad = Vec::Zero(n + 1), o = Vec::Zero(n), ob = Vec::Zero(n + 1);
  Mat J = Mat::Zero(n, n), Jb = Mat::Zero(n + 1, n), Jc = Mat::Zero(n, n + 1);
  check_true("diff rejects x0", throws([&]() { s.diff(bad, ok, o); }));
  check_true("diff rejects x1", throws([&]() { s.diff(ok, bad, o); }));
  check_true("diff rejects dxout", throws([&]() { s.diff(ok, ok, ob); }));
  check_true("integrate rejects x", throws([&]() { s.integrate(bad, ok, o); }));
  check_true("integrate rejects dx", throws([&]() { s.integrate(ok, bad, o); }));
  check_true("integrate rejects xout", throws([&]() { s.integrate(ok, ok, ob); }));
  check_true("Jdiff rejects first", throws([&]() { s.Jdiff(ok, ok, Jb, J, both); }) && throws([&]() { s.Jdiff(ok, ok, Jc, J, first); }));
  check_true("Jdiff rejects second", throws([&]() { s.Jdiff(ok, ok, J, Jb, both); }) && throws([&]() { s.Jdiff(ok, ok, J, Jc, second); }));
  check_true("Jintegrate rejects first", throws([&]() { s.Jintegrate(ok, ok, Jb, J, both); }) && throws([&]() { s.Jintegrate(ok, ok, Jc, J, first); }));
  check_true("Jintegrate rejects second", throws([&]() { s.Jintegrate(ok, ok, J, Jb, both); }) && throws([&]() { s.Jintegrate(ok, ok, J, Jc, second); }));
  check_true("set_lb rejects", throws([&]() { s.set_lb(bad); }));
  check_true("set_ub rejects", throws([&]() { s.set_ub(bad); }));
}

REGISTER(
    for (long n = 1; n <= 6; ++n) {
      add_case("ops", ops, {{"n", n}}, n > 4);
      add_case("jint", jint, {{"n", n}}, n > 4);
      add_case("dims", dims, {{"n", n}}, n > 4);
    }
    for (long n = 1; n <= 3; ++n) add_case("limits", limits, {{"n", n}}, n > 2);)
