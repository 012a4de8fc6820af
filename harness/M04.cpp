// Action model bases: limits, default terminal evaluation and copies.
// BOUNDS: 1..3 controls, 0..2 inequality rows at running and terminal nodes; every bound, finite or infinite; discrete and differential models
// OUTSIDE: quasi-static controls (they need a singular value decomposition)
#include "sym/harness.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/action-base.hpp"
#include "crocoddyl/core/diff-action-base.hpp"
using namespace vf;
using namespace crocoddyl;
typedef StateVectorTpl<double> State;
typedef Eigen::Ref<const Vec> VR;

struct Seen { Vec x, u; long calls = 0, diffs = 0; };
template <class M, class D>
struct Stub : M {
  Seen *s;
  Stub(std::shared_ptr<State> st, long nu, long ng, long ngT, Seen *s_) : M(st, nu, 1, ng, 0, ngT, 0), s(s_) {}
  void calc(const std::shared_ptr<D> &d, const VR &x, const VR &u) override { s->x = x; s->u = u; ++s->calls; d->cost = x.sum() + 2 * u.sum(); }
  void calcDiff(const std::shared_ptr<D> &, const VR &x, const VR &u) override { s->x = x; s->u = u; ++s->diffs; }
};
static double bnd(const std::string &n, bool &fin) {
  const double inf = std::numeric_limits<double>::infinity();
  const long k = choose("kind_" + n, 3);
  fin = fin || k == 0;
  return k == 0 ? in(n) : k == 1 ? inf : -inf;
}
static Vec bounds(const std::string &n, long k, bool &fin) {
  Vec b(k);
  for (long i = 0; i < k; ++i) b(i) = bnd(n + std::to_string(i), fin);
  return b;
}
template <class S, class M, class D>
static void behaves(S &m, Seen &s, long nu, const Vec &ulb, const Vec &uub, bool lim, const Vec &glb, const Vec &gub, const std::string &who) {
  check_eqm("control lower limit of " + who, Mat(m.get_u_lb()), Mat(ulb));
  check_eqm("control upper limit of " + who, Mat(m.get_u_ub()), Mat(uub));
  check_true("presence of control limits of " + who, m.get_has_control_limits() == lim);
  check_eqm("constraint lower bound of " + who, Mat(m.get_g_lb()), Mat(glb));
  check_eqm("constraint upper bound of " + who, Mat(m.get_g_ub()), Mat(gub));
  auto d = m.createData();
  Vec x = in_vec("x", 2);
  M &b = m;
  const long c0 = s.calls, d0 = s.diffs;
  b.calc(d, x);
  check_true("terminal evaluation runs once on " + who, s.calls == c0 + 1);
  check_eqm("terminal evaluation uses the given state on " + who, s.x, x);
  check_eqm("terminal evaluation uses a zero control on " + who, s.u, Vec(Vec::Zero(nu)));
  check_eq("terminal cost of " + who, d->cost, x.sum());
  b.calcDiff(d, x);
  check_true("terminal differentiation runs once on " + who, s.diffs == d0 + 1);
  check_eqm("terminal differentiation uses the given state on " + who, s.x, x);
  check_eqm("terminal differentiation uses a zero control on " + who, s.u, Vec(Vec::Zero(nu)));
  observe("cost", d->cost);
}
template <class M, class D>
static void base(const Case &c) {
  may_repeat("x[");
  set_option("max_paths", 20000);
  const long nu = c("nu"), ng = c("ng"), ngT = c("ngT"), n = std::max(ng, ngT);
  typedef Stub<M, D> S;
  Seen s;
  auto st = std::make_shared<State>(2);
  S m(st, nu, ng, ngT, &s);
  const double inf = std::numeric_limits<double>::infinity();
  Vec ulb = Vec::Constant(nu, -inf), uub = Vec::Constant(nu, inf), glb = Vec::Constant(n, -inf), gub = Vec::Constant(n, inf);
  behaves<S, M, D>(m, s, nu, ulb, uub, false, glb, gub, "a new model");
  bool fl = false, fu = false, f = false;
  ulb = bounds("ulb", nu, fl);
  m.set_u_lb(ulb);
  check_true("one-sided limits", m.get_has_control_limits() == false);
  if (flag("upper")) { uub = bounds("uub", nu, fu); m.set_u_ub(uub); }
  if (n && flag("constraint")) { glb = bounds("glb", n, f); gub = bounds("gub", n, f); m.set_g_lb(glb); m.set_g_ub(gub); }
  behaves<S, M, D>(m, s, nu, ulb, uub, fl && fu, glb, gub, "the model");
  check_true("wrong limits rejected", throws([&]() { m.set_u_lb(Vec::Zero(nu + 1)); }) && throws([&]() { m.set_u_ub(Vec::Zero(nu + 1)); }) && throws([&]() { m.set_g_lb(Vec::Zero(n + 1)); }) && throws([&]() { m.set_g_ub(Vec::Zero(n + 1)); }));
  S copy(m);
  behaves<S, M, D>(copy, s, nu, ulb, uub, fl && fu, glb, gub, "a copy");
  check_true("dimensions of a copy", (long)copy.get_nu() == nu && copy.get_nr() == 1 && (long)copy.get_ng() == ng && (long)copy.get_ng_T() == ngT && copy.get_nh() == 0 && copy.get_nh_T() == 0 && copy.get_state() == st);
  behaves<S, M, D>(m, s, nu, ulb, uub, fl && fu, glb, gub, "the original");
  m.set_u_lb(Vec::Constant(nu, -inf));
  check_true("limits can be taken away", !m.get_has_control_limits());
}
static void discrete(const Case &c) { base<ActionModelAbstractTpl<double>, ActionDataAbstractTpl<double>>(c); }
static void differential(const Case &c) { base<DifferentialActionModelAbstractTpl<double>, DifferentialActionDataAbstractTpl<double>>(c); }
REGISTER(
  for (auto f : {std::make_pair("discrete", discrete), std::make_pair("differential", differential)}) {
    add_case(f.first, f.second, {{"nu", 1}, {"ng", 1}, {"ngT", 0}});
    add_case(f.first, f.second, {{"nu", 2}, {"ng", 0}, {"ngT", 1}});
    add_case(f.first, f.second, {{"nu", 1}, {"ng", 2}, {"ngT", 1}}, 1);
    add_case(f.first, f.second, {{"nu", 3}, {"ng", 0}, {"ngT", 0}}, 1);
  })
