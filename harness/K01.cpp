// Residual cost: value, gradient and Gauss-Newton curvature from residual and activation.
// BOUNDS: 1..2 positions and velocities, 1..2 controls, residual dimension 1..3 (quick), one more of each (thorough); every state, control, residual Jacobian, activation gradient and curvature; every dependency pattern; fresh data or data used before
// OUTSIDE: floating-point rounding; the true second derivative of a nonlinear residual (the documented approximation drops it)
#include "sym/harness.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/residual-base.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
using namespace vf;
using namespace crocoddyl;
typedef ResidualModelAbstractTpl<double> ResBase;
typedef ResidualDataAbstractTpl<double> ResData;
typedef ActivationModelAbstractTpl<double> ActBase;
typedef ActivationDataAbstractTpl<double> ActData;
typedef Eigen::Ref<const Vec> VR;
static double sq(const double &x) { return x * x; }

// r_i = c_i + sum_j A_ij x_j + a_i x_j^2 + sum_k B_ik u_k + b_i u_k^2, restricted to what it depends on
struct Residual : ResBase {
  Mat A, B;
  Vec c, a, b;
  long nv;
  Residual(std::shared_ptr<StateAbstractTpl<double>> s, long nr, long nu, bool q, bool v, bool u, bool nonlinear)
      : ResBase(s, nr, nu, q, v, u), nv(s->get_nv()) {
    A = in_mat("A", nr, s->get_ndx());
    B = in_mat("B", nr, nu);
    c = in_vec("c", nr);
    a = nonlinear ? in_vec("a", nr) : Vec(Vec::Zero(nr));
    b = nonlinear ? in_vec("b", nr) : Vec(Vec::Zero(nr));
    if (!q) A.leftCols(nv).setZero();
    if (!v) A.rightCols(nv).setZero();
    if (!u) { B.setZero(); b.setZero(); }
  }
  bool dep(long j) const { return j < nv ? q_dependent_ : v_dependent_; }
  Vec value(const VR &x, const Vec *u) const {
    Vec r = c;
    for (long i = 0; i < r.size(); ++i) {
      for (long j = 0; j < x.size(); ++j) if (dep(j)) r(i) += A(i, j) * x(j) + a(i) * sq(x(j));
      if (u) for (long k = 0; k < u->size(); ++k) r(i) += B(i, k) * (*u)(k) + b(i) * sq((*u)(k));
    }
    return r;
  }
  void diffx(const std::shared_ptr<ResData> &d, const VR &x) {
    for (long i = 0; i < d->Rx.rows(); ++i)
      for (long j = 0; j < x.size(); ++j) if (dep(j)) d->Rx(i, j) = A(i, j) + 2 * a(i) * x(j);
  }
  void calc(const std::shared_ptr<ResData> &d, const VR &x, const VR &u) override { Vec uu = u; d->r = value(x, &uu); }
  void calc(const std::shared_ptr<ResData> &d, const VR &x) override { d->r = value(x, nullptr); }
  void calcDiff(const std::shared_ptr<ResData> &d, const VR &x, const VR &u) override {
    diffx(d, x);
    if (u_dependent_) for (long i = 0; i < d->Ru.rows(); ++i) for (long k = 0; k < u.size(); ++k) d->Ru(i, k) = B(i, k) + 2 * b(i) * u(k);
  }
  void calcDiff(const std::shared_ptr<ResData> &d, const VR &x) override { diffx(d, x); }
};
// activation with an arbitrary value / gradient / curvature
struct AnyActivation : ActBase {
  double val;
  Vec Ar, Arr;
  AnyActivation(long nr) : ActBase(nr) { val = in("act"); Ar = in_vec("Ar", nr); Arr = in_vec("Arr", nr); }
  void calc(const std::shared_ptr<ActData> &d, const VR &) override { d->a_value = val; }
  void calcDiff(const std::shared_ptr<ActData> &d, const VR &) override { d->Ar = Ar; d->Arr.diagonal() = Arr; }
};
struct Dims { long nv, nu, nr; };
static Dims dims(const Case &c) { return Dims{c("nv"), c("nu"), c("nr")}; }

// gradients and curvatures are those of activation(residual(x, u))
static void derivatives(const Case &c) {
  const Dims n = dims(c);
  const bool q = flag("q"), v = flag("v"), ud = flag("u"), nonlinear = c("nonlinear") != 0;
  auto state = std::make_shared<StateVectorTpl<double>>(2 * n.nv);
  auto res = std::make_shared<Residual>(state, n.nr, n.nu, q, v, ud, nonlinear);
  const bool weighted = c("weighted") != 0;
  Vec w = weighted ? in_vec("w", n.nr) : Vec(Vec::Ones(n.nr));
  auto m = weighted ? std::make_shared<CostModelResidualTpl<double>>(state, std::make_shared<ActivationModelWeightedQuadTpl<double>>(w), res)
                    : std::make_shared<CostModelResidualTpl<double>>(state, res);
  check_true("dimensions", (long)m->get_nu() == n.nu && (long)m->get_activation()->get_nr() == n.nr && m->get_residual() == res && m->get_state() == state);
  DataCollectorAbstractTpl<double> coll;
  auto d = m->createData(&coll);
  Vec x = in_vec("x", 2 * n.nv), u = in_vec("u", n.nu);
  const long before = choose("used_before", 3);
  if (before) {
    Vec xo = in_vec("xo", 2 * n.nv), uo = in_vec("uo", n.nu);
    if (before == 1) { m->calc(d, xo, uo); m->calcDiff(d, xo, uo); }
    if (before == 2) { m->calc(d, xo); m->calcDiff(d, xo); }
  }
  m->calc(d, x, u);
  const double cost = d->cost;
  Vec r = res->value(x, &u);
  double expected = 0;
  for (long i = 0; i < n.nr; ++i) expected += w(i) * sq(r(i)) / 2;
  check_eq("cost is the activation of the residual", cost, expected);
  m->calcDiff(d, x, u);
  check_eq("calcDiff keeps the cost", d->cost, cost);
  check_jac1("Lx", "cost", cost, "x", d->Lx);
  check_jac1("Lu", "cost_u", cost, "u", d->Lu);
  if (!nonlinear) {
    check_jac("Lxx", "Lx_", Vec(d->Lx), "x", d->Lxx);
    check_jac("Luu", "Lu_", Vec(d->Lu), "u", d->Luu);
    check_jac("Lxu", "Lxu_", Vec(d->Lx), "u", d->Lxu);
  }
  // terminal node
  m->calc(d, x);
  const double tcost = d->cost;
  Vec rt = res->value(x, nullptr);
  expected = 0;
  if (q || v) for (long i = 0; i < n.nr; ++i) expected += w(i) * sq(rt(i)) / 2;
  check_eq("terminal cost is the activation of the residual without control", tcost, expected);
  m->calcDiff(d, x);
  check_jac1("terminal Lx", "tcost", tcost, "x", d->Lx);
  if (!nonlinear) check_jac("terminal Lxx", "tLx_", Vec(d->Lx), "x", d->Lxx);
}
// the Gauss-Newton composition for an arbitrary activation
static void gauss_newton(const Case &c) {
  const Dims n = dims(c);
  const bool q = flag("q"), v = flag("v"), ud = flag("u");
  auto state = std::make_shared<StateVectorTpl<double>>(2 * n.nv);
  auto res = std::make_shared<Residual>(state, n.nr, n.nu, q, v, ud, true);
  auto act = std::make_shared<AnyActivation>(n.nr);
  auto m = std::make_shared<CostModelResidualTpl<double>>(state, act, res);
  DataCollectorAbstractTpl<double> coll;
  auto d = m->createData(&coll);
  Vec x = in_vec("x", 2 * n.nv), u = in_vec("u", n.nu);
  const bool terminal = flag("terminal");
  if (flag("used_before")) {
    Vec xo = in_vec("xo", 2 * n.nv), uo = in_vec("uo", n.nu);
    m->calc(d, xo, uo);
    m->calcDiff(d, xo, uo);
  }
  Mat Rx(n.nr, 2 * n.nv), Ru(n.nr, n.nu);
  for (long i = 0; i < n.nr; ++i) {
    for (long j = 0; j < 2 * n.nv; ++j) Rx(i, j) = res->dep(j) ? res->A(i, j) + 2 * res->a(i) * x(j) : double(0);
    for (long k = 0; k < n.nu; ++k) Ru(i, k) = ud ? res->B(i, k) + 2 * res->b(i) * u(k) : double(0);
  }
  const Mat D = act->Arr.asDiagonal();
  if (terminal) {
    m->calc(d, x);
    m->calcDiff(d, x);
    if (q || v) check_eq("terminal cost", d->cost, act->val); else check_eq("terminal cost without state dependence", d->cost, 0);
    check_eqm("terminal Lx", d->Lx, Rx.transpose() * act->Ar);
    check_eqm("terminal Lxx", d->Lxx, Rx.transpose() * D * Rx);
  } else {
    m->calc(d, x, u);
    m->calcDiff(d, x, u);
    check_eq("cost", d->cost, act->val);
    check_eqm("Lx", d->Lx, Rx.transpose() * act->Ar);
    check_eqm("Lu", d->Lu, Ru.transpose() * act->Ar);
    check_eqm("Lxx", d->Lxx, Rx.transpose() * D * Rx);
    check_eqm("Lxu", d->Lxu, Rx.transpose() * D * Ru);
    check_eqm("Luu", d->Luu, Ru.transpose() * D * Ru);
    observe("Lx", Vec(d->Lx));
    observe("Luu", Mat(d->Luu));
  }
}
// the control residual has its own composition
static void control_cost(const Case &c) {
  const Dims n = dims(c);
  auto state = std::make_shared<StateVectorTpl<double>>(2 * n.nv);
  Vec uref = in_vec("uref", n.nu), w = in_vec("w", n.nu);
  auto res = std::make_shared<ResidualModelControlTpl<double>>(state, uref);
  auto m = std::make_shared<CostModelResidualTpl<double>>(state, std::make_shared<ActivationModelWeightedQuadTpl<double>>(w), res);
  DataCollectorAbstractTpl<double> coll;
  auto d = m->createData(&coll);
  Vec x = in_vec("x", 2 * n.nv), u = in_vec("u", n.nu);
  const long before = choose("used_before", 3);
  if (before) {
    Vec xo = in_vec("xo", 2 * n.nv), uo = in_vec("uo", n.nu);
    if (before == 1) { m->calc(d, xo, uo); m->calcDiff(d, xo, uo); }
    if (before == 2) { m->calc(d, xo); m->calcDiff(d, xo); }
  }
  m->calc(d, x, u);
  const double cost = d->cost;
  m->calcDiff(d, x, u);
  double e = 0;
  for (long i = 0; i < n.nu; ++i) e += w(i) * sq(u(i) - uref(i)) / 2;
  check_eq("cost", cost, e);
  check_jac1("Lx", "cost", cost, "x", d->Lx);
  check_jac1("Lu", "cost_u", cost, "u", d->Lu);
  check_jac("Lxx", "Lx_", Vec(d->Lx), "x", d->Lxx);
  check_jac("Luu", "Lu_", Vec(d->Lu), "u", d->Luu);
  check_jac("Lxu", "Lxu_", Vec(d->Lx), "u", d->Lxu);
  m->calc(d, x);
  m->calcDiff(d, x);
  check_eq("no terminal control cost", d->cost, 0);
  check_eqm("no terminal gradient", d->Lx, Vec::Zero(2 * n.nv));
  check_eqm("no terminal curvature", d->Lxx, Mat::Zero(2 * n.nv, 2 * n.nv));
}
static void mismatch(const Case &c) {
  const Dims n = dims(c);
  auto state = std::make_shared<StateVectorTpl<double>>(2 * n.nv);
  auto res = std::make_shared<Residual>(state, n.nr, n.nu, true, true, true, false);
  check_true("activation of another dimension rejected", throws([&]() { CostModelResidualTpl<double> m(state, std::make_shared<ActivationModelQuadTpl<double>>(n.nr + 1), res); }));
  CostModelResidualTpl<double> m(state, std::make_shared<ActivationModelQuadTpl<double>>(n.nr), res);
  check_true("dimension", (long)m.get_nu() == n.nu);
}
REGISTER(for (long nv = 1; nv <= 3; ++nv) for (long nu = 1; nu <= 2; ++nu) for (long nr = 1; nr <= 3; ++nr) {
  const bool q = (nv == 1 && nr <= 2) || (nv == 2 && nu == 1 && nr == 1);
  for (long nl = 0; nl < 2; ++nl) for (long w = 0; w < 2; ++w) add_case("derivatives", derivatives, {{"nv", nv}, {"nu", nu}, {"nr", nr}, {"nonlinear", nl}, {"weighted", w}}, !q);
  add_case("gauss_newton", gauss_newton, {{"nv", nv}, {"nu", nu}, {"nr", nr}}, !(q || (nv == 2 && nr == 2 && nu == 2)));
  if (nr == 1) add_case("control_cost", control_cost, {{"nv", nv}, {"nu", nu}, {"nr", nu}}, nv > 2);
} add_case("mismatch", mismatch, {{"nv", 1}, {"nu", 2}, {"nr", 2}});)
