// Activation functions: value, gradient and (diagonal) second derivative.
// BOUNDS: residual dimension 1..3 (quick), 1..4 (thorough); every real residual, weight, smoothing / width parameter and pair of bounds (infinite or below 1e6 in magnitude)
// OUTSIDE: points where a value is not differentiable (bound hit exactly, zero residual of the norm barrier); floating-point rounding; exp/log are treated as functions known only through sign axioms and their derivative rules
#include "sym/harness.hpp"
#include "pinocchio/utils/static-if.hpp"
#include "crocoddyl/core/activation-base.hpp"
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
using namespace vf;
using namespace crocoddyl;
typedef ActivationModelAbstractTpl<double> Act;
typedef ActivationDataAbstractTpl<double> ActData;

static double sq(const double &x) { return x * x; }
static ActivationBoundsTpl<double> bounds_of(long nr, const std::string &nm) {
  const double inf = std::numeric_limits<double>::infinity();
  Vec lb = in_vec(nm + "_lb", nr), ub = in_vec(nm + "_ub", nr);
  for (long i = 0; i < nr; ++i) {
    assume(le(lb(i), ub(i)) & gt(lb(i), -1e6) & lt(ub(i), 1e6));
    if (i == 0) {
      long k = choose(nm + "_kind", 3);
      if (k == 1) lb(i) = -inf;
      if (k == 2) ub(i) = inf;
    }
  }
  return ActivationBoundsTpl<double>(lb, ub, 1.);
}

// gradient and second derivative against the exact derivatives of the value
static void derivatives(const std::shared_ptr<Act> &m, const Vec &r, bool exact_hessian, const std::string &tag = "") {
  std::shared_ptr<ActData> d = m->createData();
  m->calc(d, r);
  const double a = d->a_value;
  observe("a" + tag, a);
  m->calcDiff(d, r);
  check_eq("calcDiff keeps the value", d->a_value, a);
  check_jac1("gradient" + tag, "value" + tag, a, "r", d->Ar);
  if (exact_hessian) {
    Vec g = d->Ar;
    for (long i = 0; i < r.size(); ++i) {
      Vec gi(1), h = Vec::Zero(r.size());
      gi(0) = g(i);
      // only the diagonal of the Hessian is represented
      h(i) = d->Arr.diagonal()(i);
      check_jac_entry("second derivative" + tag, "grad" + tag + std::to_string(i), gi(0), "r[" + std::to_string(i) + "]", h(i));
    }
  }
  // a second data object and a second evaluation give the same results
  Vec Ar = d->Ar, Arr = d->Arr.diagonal();
  std::shared_ptr<ActData> d2 = m->createData();
  Vec z = in_vec("other" + tag, r.size());
  if (flag("evaluated_elsewhere_before" + tag)) {
    for (long i = 0; i < z.size(); ++i) assume(ne(z(i), 0));
    m->calc(d2, z);
    m->calcDiff(d2, z);
  }
  m->calc(d2, r);
  m->calcDiff(d2, r);
  check_eq("value does not depend on the data object or history", d2->a_value, a);
  check_eqm("gradient does not depend on the data object or history", d2->Ar, Ar);
  check_eqm("second derivative does not depend on the data object or history", Vec(d2->Arr.diagonal()), Arr);
}

static void quad(const Case &c) {
  Vec r = in_vec("r", c("nr"));
  auto m = std::make_shared<ActivationModelQuadTpl<double>>(c("nr"));
  derivatives(m, r, true);
  auto d = m->createData();
  m->calc(d, r);
  check_eq("value formula", d->a_value, r.squaredNorm() / 2);
}
static void wquad(const Case &c) {
  const long nr = c("nr");
  Vec r = in_vec("r", nr), w = in_vec("w", nr), w2 = in_vec("v", nr);
  auto m = std::make_shared<ActivationModelWeightedQuadTpl<double>>(w);
  auto early = m->createData();
  derivatives(m, r, true);
  m->set_weights(w2);
  check_eqm("weights stored", m->get_weights(), w2);
  derivatives(m, r, true, "_after_set_weights");
  m->calc(early, r);
  m->calcDiff(early, r);
  check_eqm("data created before set_weights follows the new weights", Vec(early->Arr.diagonal()), w2);
  double a = 0;
  for (long i = 0; i < nr; ++i) a += w2(i) * sq(r(i)) / 2;
  check_eq("value formula", early->a_value, a);
}
static void smooth1(const Case &c) {
  const long nr = c("nr");
  Vec r = in_vec("r", nr);
  double eps = in("eps");
  assume(gt(eps, 0));
  auto m = std::make_shared<ActivationModelSmooth1NormTpl<double>>(nr, eps);
  derivatives(m, r, true);
  auto d = m->createData();
  m->calc(d, r);
  double a = 0;
  using std::sqrt;
  for (long i = 0; i < nr; ++i) a += sqrt(eps + sq(r(i)));
  check_eq("value formula", d->a_value, a);
}
static void smooth2(const Case &c) {
  const long nr = c("nr");
  Vec r = in_vec("r", nr);
  double eps = in("eps");
  assume(gt(eps, 0));
  auto m = std::make_shared<ActivationModelSmooth2NormTpl<double>>(nr, eps);
  derivatives(m, r, true);
  auto d = m->createData();
  m->calc(d, r);
  check_eq("value squared", sq(d->a_value), eps + r.squaredNorm());
  check("value positive", gt(d->a_value, 0));
}
static void flatexp(const Case &c) {
  const long nr = c("nr");
  Vec r = in_vec("r", nr);
  double alpha = in("alpha");
  assume(gt(alpha, 0));
  auto m = std::make_shared<ActivationModelQuadFlatExpTpl<double>>(nr, alpha);
  derivatives(m, r, true);
  auto d = m->createData();
  m->calc(d, r);
  check("value in [0,1)", ge(d->a_value, 0) & lt(d->a_value, 1));
  double a2 = in("alpha2");
  assume(gt(a2, 0));
  m->set_alpha(a2);
  derivatives(m, r, true, "_after_set_alpha");
}
static void flatlog(const Case &c) {
  const long nr = c("nr");
  Vec r = in_vec("r", nr);
  double alpha = in("alpha");
  assume(gt(alpha, 0));
  auto m = std::make_shared<ActivationModelQuadFlatLogTpl<double>>(nr, alpha);
  derivatives(m, r, true);
  auto d = m->createData();
  m->calc(d, r);
  check("value non-negative", ge(d->a_value, 0));
  double a2 = in("alpha2");
  assume(gt(a2, 0));
  m->set_alpha(a2);
  derivatives(m, r, true, "_after_set_alpha");
}
static void norm_barrier(const Case &c) {
  const long nr = c("nr");
  Vec r = in_vec("r", nr);
  double alpha = in("alpha");
  assume(gt(alpha, 0) & gt(r.squaredNorm(), 0));
  const bool th = c("true_hessian") != 0;
  auto m = std::make_shared<ActivationModel2NormBarrierTpl<double>>(nr, alpha, th);
  derivatives(m, r, th);
  auto d = m->createData();
  m->calc(d, r);
  m->calcDiff(d, r);
  using std::sqrt;
  double n = sqrt(r.squaredNorm());
  check("value formula", eq(d->a_value, ite(lt(n, alpha), sq(n - alpha) / 2, 0)));
  if (!th) {
    // Gauss-Newton approximation: (d distance / d r)^2 inside, zero outside
    for (long i = 0; i < nr; ++i) check("Gauss-Newton second derivative", eq(d->Arr.diagonal()(i), ite(lt(n, alpha), sq(r(i)) / r.squaredNorm(), 0)));
  }
}
static void qbarrier(const Case &c) {
  const long nr = c("nr");
  Vec r = in_vec("r", nr);
  auto b = bounds_of(nr, "b");
  const Vec lb = b.lb, ub = b.ub;
  auto m = std::make_shared<ActivationModelQuadraticBarrierTpl<double>>(b);
  derivatives(m, r, true);
  auto d = m->createData();
  m->calc(d, r);
  m->calcDiff(d, r);
  double a = 0;
  for (long i = 0; i < nr; ++i) a += sq(min2(r(i) - lb(i), 0)) / 2 + sq(max2(r(i) - ub(i), 0)) / 2;
  check_eq("value formula", d->a_value, a);
  P inside = P_bool(true);
  for (long i = 0; i < nr; ++i) inside = inside & le(lb(i), r(i)) & le(r(i), ub(i));
  check("zero iff inside the bounds", (inside & eq(d->a_value, 0)) | (!inside & gt(d->a_value, 0)));
  auto b2 = bounds_of(nr, "b2");
  m->set_bounds(b2);
  derivatives(m, r, true, "_after_set_bounds");
}
static void wqbarrier(const Case &c) {
  const long nr = c("nr");
  Vec r = in_vec("r", nr), w = in_vec("w", nr), v = in_vec("v", nr);
  auto b = bounds_of(nr, "b");
  auto m = std::make_shared<ActivationModelWeightedQuadraticBarrierTpl<double>>(b, w);
  derivatives(m, r, true);
  m->set_weights(v);
  derivatives(m, r, true, "_after_set_weights");
  auto d = m->createData();
  m->calc(d, r);
  double a = 0;
  for (long i = 0; i < nr; ++i) a += sq(v(i) * min2(r(i) - b.lb(i), 0)) / 2 + sq(v(i) * max2(r(i) - b.ub(i), 0)) / 2;
  check_eq("value formula", d->a_value, a);
}
static void dims(const Case &c) {
  const long nr = c("nr");
  Vec w = Vec::Ones(nr), bad = Vec::Ones(nr + 1);
  ActivationBoundsTpl<double> b(Vec(-w), w);
  std::vector<std::shared_ptr<Act>> ms = {
      std::make_shared<ActivationModelQuadTpl<double>>(nr), std::make_shared<ActivationModelWeightedQuadTpl<double>>(w), std::make_shared<ActivationModelSmooth1NormTpl<double>>(nr), std::make_shared<ActivationModelSmooth2NormTpl<double>>(nr), std::make_shared<ActivationModelQuadFlatExpTpl<double>>(nr), std::make_shared<ActivationModelQuadFlatLogTpl<double>>(nr), std::make_shared<ActivationModel2NormBarrierTpl<double>>(nr), std::make_shared<ActivationModelQuadraticBarrierTpl<double>>(b), std::make_shared<ActivationModelWeightedQuadraticBarrierTpl<double>>(b, w)};
  for (auto &m : ms) {
    auto d = m->createData();
    check_true("dimension", (long)m->get_nr() == nr && d->Ar.size() == nr && d->Arr.rows() == nr);
    check_true("calc rejects a wrong dimension", throws([&]() { m->calc(d, bad); }));
    check_true("calcDiff rejects a wrong dimension", throws([&]() { m->calcDiff(d, bad); }));
  }
  check_true("wrong weights rejected", throws([&]() { ActivationModelWeightedQuadTpl<double> q(w); q.set_weights(bad); }));
  check_true("wrong weights rejected (barrier)", throws([&]() { ActivationModelWeightedQuadraticBarrierTpl<double> q(b, w); q.set_weights(bad); }));
  double e = in("e");
  assume(lt(e, 0));
  check_true("negative smoothing rejected (1norm)", throws([&]() { ActivationModelSmooth1NormTpl<double> q(nr, e); }));
  check_true("negative smoothing rejected (2norm)", throws([&]() { ActivationModelSmooth2NormTpl<double> q(nr, e); }));
  check_true("negative width rejected (exp)", throws([&]() { ActivationModelQuadFlatExpTpl<double> q(nr, e); }));
  check_true("negative width rejected (log)", throws([&]() { ActivationModelQuadFlatLogTpl<double> q(nr, e); }));
  check_true("negative threshold rejected", throws([&]() { ActivationModel2NormBarrierTpl<double> q(nr, e); }));
}

REGISTER(for (long nr = 1; nr <= 4; ++nr) {
  add_case("quad", quad, {{"nr", nr}}, nr > 3);
  add_case("weighted_quad", wquad, {{"nr", nr}}, nr > 3);
  add_case("smooth_1norm", smooth1, {{"nr", nr}}, nr > 3);
  add_case("smooth_2norm", smooth2, {{"nr", nr}}, nr > 3);
  add_case("flat_exp", flatexp, {{"nr", nr}}, nr > 3);
  add_case("flat_log", flatlog, {{"nr", nr}}, nr > 3);
  add_case("norm_barrier", norm_barrier, {{"nr", nr}, {"true_hessian", 0}}, nr > 2);
  add_case("norm_barrier", norm_barrier, {{"nr", nr}, {"true_hessian", 1}}, nr > 2);
  if (nr <= 3) {
    add_case("quad_barrier", qbarrier, {{"nr", nr}}, nr > 2);
    add_case("weighted_quad_barrier", wqbarrier, {{"nr", nr}}, nr > 2);
  }
} add_case("dims", dims, {{"nr", 3}});)
