// Constraints made of a residual: values, Jacobians, bounds and their validation.
// BOUNDS: 1..2 positions and velocities, 1..2 controls, residual dimension 1..2 (quick) / 3 (thorough); every state, control, residual value and Jacobian; every dependency pattern; every bound, finite or infinite or maximal
// OUTSIDE: finite bounds of magnitude 1e6 or more; floating-point rounding
#include "sym/harness.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/residual-base.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
using namespace vf;
using namespace crocoddyl;
typedef ResidualModelAbstractTpl<double> ResBase;
typedef ResidualDataAbstractTpl<double> ResData;
typedef ConstraintModelResidualTpl<double> Con;
typedef ConstraintModelAbstractTpl<double> ConBase;
typedef ConstraintDataAbstractTpl<double> ConData;
typedef StateVectorTpl<double> State;
typedef Eigen::Ref<const Vec> VR;

// affine residual restricted to what it depends on; another constant term at terminal nodes
struct Residual : ResBase {
  Mat A, B;
  Vec c, ct;
  long nv;
  Residual(std::shared_ptr<StateAbstractTpl<double>> s, long nr, long nu, bool q, bool v, bool u) : ResBase(s, nr, nu, q, v, u), nv(s->get_nv()) {
    A = in_mat("A", nr, s->get_ndx());
    B = in_mat("B", nr, nu);
    c = in_vec("c", nr);
    ct = in_vec("ct", nr);
    if (!q) A.leftCols(nv).setZero();
    if (!v) A.rightCols(nv).setZero();
    if (!u) B.setZero();
  }
  void calc(const std::shared_ptr<ResData> &d, const VR &x, const VR &u) override { d->r = c + A * x + B * u; }
  void calc(const std::shared_ptr<ResData> &d, const VR &x) override { d->r = ct + A * x; }
  void dx(const std::shared_ptr<ResData> &d) {
    if (q_dependent_) d->Rx.leftCols(nv) = A.leftCols(nv);
    if (v_dependent_) d->Rx.rightCols(nv) = A.rightCols(nv);
  }
  void calcDiff(const std::shared_ptr<ResData> &d, const VR &, const VR &) override { dx(d); if (u_dependent_) d->Ru = B; }
  void calcDiff(const std::shared_ptr<ResData> &d, const VR &) override { dx(d); }
};
static double bound(const std::string &n, long kind) {
  const double inf = std::numeric_limits<double>::infinity(), mx = std::numeric_limits<double>::max();
  if (kind == 1) return inf;
  if (kind == 2) return -inf;
  if (kind == 3) return mx;
  if (kind == 4) return -mx;
  double b = in(n);
  assume(lt(b, 1e6));
  assume(gt(b, -1e6));
  return b;
}
static void values(const Case &c) {
  const long nq = c("nq"), nu = c("nu"), nr = c("nr");
  auto st = std::make_shared<State>(2 * nq);
  auto res = std::make_shared<Residual>(st, nr, nu, flag("q"), flag("v"), flag("u"));
  const bool ineq = flag("inequality"), T = flag("T");
  Vec lb = in_vec("lb", nr), ub = in_vec("ub", nr);
  for (long i = 0; i < nr; ++i) { assume(lt(lb(i), ub(i))); assume(gt(lb(i), -1e6)); assume(lt(ub(i), 1e6)); }
  std::shared_ptr<ConBase> m;
  if (ineq) m = std::make_shared<Con>(st, res, lb, ub, T); else m = std::make_shared<Con>(st, res, T);
  check_true("terminal flag", m->get_T_constraint() == (T && (res->get_q_dependent() || res->get_v_dependent())));
  bool g = ineq;
  if (ineq && flag("remove")) {
    m->remove_bounds();
    g = false;
    if (flag("again")) {
      m->update_bounds(lb, ub);
      g = true;
    }
  }
  check_true("type", m->get_type() == (g ? ConstraintType::Inequality : ConstraintType::Equality));
  check_true("dimensions", (long)m->get_ng() == (g ? nr : 0) && (long)m->get_nh() == (g ? 0 : nr) && (long)m->get_nu() == nu);
  check_eqm("lower bound kept", Mat(m->get_lb()), g ? Mat(lb) : Mat(0, 1));
  check_eqm("upper bound kept", Mat(m->get_ub()), g ? Mat(ub) : Mat(0, 1));
  DataCollectorAbstractTpl<double> coll;
  auto d = m->createData(&coll);
  Vec x = in_vec("x", 2 * nq), u = in_vec("u", nu);
  const long before = choose("before", 3);  // nothing, running, terminal
  if (before) {
    Vec x0 = in_vec("x_before", 2 * nq), u0 = in_vec("u_before", nu);
    if (before == 1) { m->calc(d, x0, u0); m->calcDiff(d, x0, u0); } else { m->calc(d, x0); m->calcDiff(d, x0); }
  }
  m->calc(d, x, u);
  check_eqm("running value is the residual", g ? Vec(d->g) : Vec(d->h), Vec(res->c + res->A * x + res->B * u));
  m->calcDiff(d, x, u);
  check_eqm("running state Jacobian is that of the residual", g ? Mat(d->Gx) : Mat(d->Hx), res->A);
  check_eqm("running control Jacobian is that of the residual", g ? Mat(d->Gu) : Mat(d->Hu), res->B);
  observe("v", g ? Vec(d->g) : Vec(d->h));
  m->calc(d, x);
  check_eqm("terminal value is the residual", g ? Vec(d->g) : Vec(d->h), Vec(res->ct + res->A * x));
  m->calcDiff(d, x);
  check_eqm("terminal state Jacobian is that of the residual", g ? Mat(d->Gx) : Mat(d->Hx), res->A);
  check_true("other kind is empty", g ? d->h.size() == 0 && d->Hx.rows() == 0 && d->Hu.rows() == 0 : d->g.size() == 0 && d->Gx.rows() == 0 && d->Gu.rows() == 0);
}
static void bounds(const Case &c) {
  const long nr = c("nr"), dlo = c("dlo"), dup = c("dup");
  auto st = std::make_shared<State>(2);
  auto res = std::make_shared<Residual>(st, nr, 1, true, true, true);
  Vec lb(nr + dlo), ub(nr + dup);
  bool bad = dlo || dup;
  P order = P_bool(true), strict = P_bool(true);
  for (long i = 0; i < lb.size(); ++i) {
    const long k = choose("klb" + std::to_string(i), i == 0 ? 5 : 3);
    lb(i) = bound("lb" + std::to_string(i), k);
    bad = bad || k == 1 || k == 3;
  }
  for (long i = 0; i < ub.size(); ++i) {
    const long k = choose("kub" + std::to_string(i), i == 0 ? 5 : 3);
    ub(i) = bound("ub" + std::to_string(i), k);
    bad = bad || k == 2 || k == 4;
  }
  if (!bad)
    for (long i = 0; i < nr; ++i) {
      order = order & le(lb(i), ub(i));
      strict = strict & lt(lb(i), ub(i));
    }
  std::shared_ptr<Con> m;
  bool thrown = throws([&]() { m = std::make_shared<Con>(st, res, lb, ub); });
  if (bad) check_true("constructor rejects bounds of the wrong dimension, unreachable or inverted", thrown);
  else check("constructor rejects exactly the inverted bounds", thrown ? P_not(order) : order);
  if (!thrown && m) {
    check_eqm("lower bound kept", Mat(m->get_lb()), Mat(lb));
    check_eqm("upper bound kept", Mat(m->get_ub()), Mat(ub));
  }
  Vec l0 = Vec::Constant(nr, -1.), u0 = Vec::Constant(nr, 2.);
  Con n(st, res, l0, u0);
  if (flag("removed")) {
    n.remove_bounds();
    l0.resize(0);
    u0.resize(0);
  }
  const long ng = n.get_ng(), nh = n.get_nh();
  thrown = throws([&]() { n.update_bounds(lb, ub); });
  if (bad) check_true("update rejects bounds of the wrong dimension, unreachable or inverted", thrown);
  else {
    check("update accepts strictly ordered bounds", implies(strict, P_bool(!thrown)));
    check("update rejects inverted bounds", implies(P_not(order), P_bool(thrown)));
  }
  if (thrown) {
    check_eqm("rejected update keeps the lower bound", Mat(n.get_lb()), Mat(l0));
    check_eqm("rejected update keeps the upper bound", Mat(n.get_ub()), Mat(u0));
    check_true("rejected update keeps the dimensions", (long)n.get_ng() == ng && (long)n.get_nh() == nh);
  } else {
    check_eqm("updated lower bound", Mat(n.get_lb()), Mat(lb));
    check_eqm("updated upper bound", Mat(n.get_ub()), Mat(ub));
    check_true("updated dimensions", (long)n.get_ng() == nr && n.get_nh() == 0 && n.get_type() == ConstraintType::Inequality);
  }
}
struct Any : ConBase {
  Any(std::shared_ptr<State> s, std::shared_ptr<ResBase> r, long ng, long nh) : ConBase(s, r, ng, nh) {}
  void calc(const std::shared_ptr<ConData> &, const VR &, const VR &) override {}
  void calcDiff(const std::shared_ptr<ConData> &, const VR &, const VR &) override {}
};
// sizes of a constraint on a residual; mixed constraints
static void sizes(const Case &c) {
  const long nr = c("nr"), ng = choose("ng", 2 * nr + 3), nh = choose("nh", nr + 3);
  auto st = std::make_shared<State>(2);
  auto res = std::make_shared<Residual>(st, nr, 1, true, true, true);
  std::shared_ptr<Any> m;
  const bool thrown = throws([&]() { m = std::make_shared<Any>(st, res, ng, nh); });
  const bool ok = nh <= nr && ng <= 2 * (nr - nh);
  check_true("more constraints than the residual allows are rejected", thrown == !ok);
  if (!m) return;
  const ConstraintType t = ng && nh ? ConstraintType::Both : ng ? ConstraintType::Inequality : ConstraintType::Equality;
  check_true("type from dimensions", m->get_type() == t && (long)m->get_ng() == ng && (long)m->get_nh() == nh);
  DataCollectorAbstractTpl<double> coll;
  std::shared_ptr<ConData> d;
  const bool none = throws([&]() { d = m->createData(&coll); });
  check_true("empty constraint has no data", none == (ng == 0 && nh == 0));
  m->remove_bounds();
  check_true("removed bounds make equalities", m->get_ng() == 0 && (long)m->get_nh() == ng + nh && m->get_type() == ConstraintType::Equality);
  Vec lb = Vec::Constant(ng, -1.), ub = Vec::Constant(ng, 1.);
  m->update_bounds(lb, ub);
  check_true("restored bounds restore the dimensions", (long)m->get_ng() == ng && (long)m->get_nh() == nh && (ng == 0 || m->get_type() == t));
}
REGISTER(
  add_case("values", values, {{"nq", 1}, {"nu", 1}, {"nr", 1}});
  add_case("values", values, {{"nq", 2}, {"nu", 1}, {"nr", 2}});
  add_case("values", values, {{"nq", 1}, {"nu", 2}, {"nr", 3}}, 1);
  add_case("bounds", bounds, {{"nr", 1}, {"dlo", 0}, {"dup", 0}});
  add_case("bounds", bounds, {{"nr", 2}, {"dlo", 0}, {"dup", 0}});
  add_case("bounds", bounds, {{"nr", 2}, {"dlo", -1}, {"dup", -1}});
  add_case("bounds", bounds, {{"nr", 1}, {"dlo", 1}, {"dup", 0}});
  add_case("bounds", bounds, {{"nr", 1}, {"dlo", 0}, {"dup", 1}});
  add_case("bounds", bounds, {{"nr", 1}, {"dlo", -1}, {"dup", 0}});
  add_case("sizes", sizes, {{"nr", 1}});
  add_case("sizes", sizes, {{"nr", 2}});
  add_case("sizes", sizes, {{"nr", 3}}, 1);)
