// Conversions to another scalar type and copies of models evaluate as the original model.
// DEFS: VERIF_KEEP_CAST
// BOUNDS: residual dimension 1..2, 1..2 positions, 1..2 controls, problems of two nodes; every parameter of every model (weights, smoothing, bounds, references, time step, matrices, limits), including parameters set after construction; every state and control; copy (conversion to the same type), conversion to another scalar type, and round trip
// OUTSIDE: rounding of the conversion itself (the other scalar type is as exact as the original in the encoding, and wider in the replay); numerical-differentiation step (its default depends on the type); code generation and multibody models
// ASSUMES: the positive-semidefiniteness test is replaced by its specification in the encoding (the real one runs in the replay)
#include "sym/harness.hpp"
#include <unsupported/Eigen/MatrixFunctions>
#include "crocoddyl/core/utils/math.hpp"
#include "sym/psd.hpp"
#ifdef VERIF_SYMBOLIC
namespace crocoddyl {
template <>
inline bool checkPSD<::sy::SymT<1>>(const Eigen::Matrix<::sy::SymT<1>, Eigen::Dynamic, Eigen::Dynamic> &) { return true; }
}
#define float ::sy::SymT<1>
#else
#define float long double
#endif
#include "crocoddyl/core/states/euclidean.hpp"
#include "pinocchio/utils/static-if.hpp"
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
template class crocoddyl::ShootingProblemTpl<double>;
template class crocoddyl::ShootingProblemTpl<float>;
using namespace vf;
using namespace crocoddyl;
typedef double D;
typedef float F;
template <class S> using VS = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <class S> using MS = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S, class E> VS<S> to(const Eigen::MatrixBase<E> &v) { VS<S> r = v.template cast<S>(); return r; }
template <class E> Mat bk(const Eigen::MatrixBase<E> &v) { Mat r = v.template cast<D>(); return r; }
static D bk(const D &x) { return x; }
static D bk(const F &x) { return static_cast<D>(x); }
template <class A, class B>
static void same(const std::string &what, const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b) {
  const bool sz = a.rows() == b.rows() && a.cols() == b.cols();
  check_true(what + ": dimensions", sz);
  if (sz && a.size()) check_eqm(what, bk(b), Mat(a));
}
// copy, conversion and round trip of a model given through its base class
template <template <class> class Base, class Fn>
static void each(const std::shared_ptr<Base<D>> &m, Fn f) {
  const long k = choose("conversion", 3);
  if (k == 0) f(m->template cast<D>(), std::string("copy: "));
  if (k == 1) f(m->template cast<F>(), std::string("other scalar type: "));
  if (k == 2) f(m->template cast<F>()->template cast<D>(), std::string("round trip: "));
}
template <class P> struct ScalarOf { typedef typename P::element_type::Scalar type; };


// ---- activations
static Vec weights(const std::string &n, long nr) { return in_vec(n, nr); }
static ActivationBoundsTpl<D> bounds_of(long nr) {
  const D inf = std::numeric_limits<D>::infinity();
  Vec lb = in_vec("lb", nr), ub = in_vec("ub", nr);
  for (long i = 0; i < nr; ++i) assume(le(lb(i), ub(i)) & gt(lb(i), -1e6) & lt(ub(i), 1e6));
  const long k = choose("bound_kind", 3);
  if (k == 1) lb(0) = -inf;
  if (k == 2) ub(0) = inf;
  D beta = 1;
  if (flag("shrunk")) {
    beta = in("beta");
    assume(gt(beta, 0) & lt(beta, 1));
  }
  return ActivationBoundsTpl<D>(lb, ub, beta);
}
static void activation(const Case &c) {
  const long nr = c("nr"), kind = c("kind");
  typedef std::shared_ptr<ActivationModelAbstractTpl<D>> P;
  P m;
  D par = in("par");
  assume(gt(par, 1e-3) & lt(par, 10));
  if (kind == 0) m = std::make_shared<ActivationModelQuadTpl<D>>(nr);
  if (kind == 1) {
    auto a = std::make_shared<ActivationModelWeightedQuadTpl<D>>(weights("w", nr));
    if (flag("set")) a->set_weights(weights("w2", nr));
    m = a;
  }
  if (kind == 2) m = std::make_shared<ActivationModelSmooth1NormTpl<D>>(nr, par);
  if (kind == 3) m = std::make_shared<ActivationModelSmooth2NormTpl<D>>(nr, par);
  if (kind == 4) {
    auto a = std::make_shared<ActivationModelQuadFlatExpTpl<D>>(nr, par);
    if (flag("set")) a->set_alpha(par + 1);
    m = a;
  }
  if (kind == 5) {
    auto a = std::make_shared<ActivationModelQuadFlatLogTpl<D>>(nr, par);
    if (flag("set")) a->set_alpha(par + 1);
    m = a;
  }
  if (kind == 6) {
    auto a = std::make_shared<ActivationModel2NormBarrierTpl<D>>(nr, par, flag("true_hessian"));
    if (flag("set")) a->set_alpha(par + 1);
    m = a;
  }
  if (kind == 7) m = std::make_shared<ActivationModelQuadraticBarrierTpl<D>>(bounds_of(nr));
  if (kind == 8) m = std::make_shared<ActivationModelWeightedQuadraticBarrierTpl<D>>(bounds_of(nr), weights("w", nr));
  Vec r = in_vec("r", nr);
  if (kind == 6) assume(ne(r(0), 0));
  each<ActivationModelAbstractTpl>(m, [&](auto k, const std::string &t) {
    typedef typename decltype(k)::element_type::Scalar S;
    auto d = m->createData();
    auto e = k->createData();
    check_true(t + "dimension", k->get_nr() == m->get_nr());
    m->calc(d, r);
    k->calc(e, to<S>(r));
    check_eq(t + "value", bk(e->a_value), d->a_value);
    m->calcDiff(d, r);
    k->calcDiff(e, to<S>(r));
    same(t + "gradient", d->Ar, e->Ar);
    same(t + "second derivative", Vec(d->Arr.diagonal()), VS<S>(e->Arr.diagonal()));
    observe("a", bk(e->a_value));
  });
}
static void activation_bounds(const Case &c) {
  ActivationBoundsTpl<D> b = bounds_of(c("nr"));
  const long k = choose("conversion", 2);
  auto f = [&](const auto &o, const std::string &t) {
    same(t + "lower bound", b.lb, o.lb);
    same(t + "upper bound", b.ub, o.ub);
    check_eq(t + "beta", bk(o.beta), b.beta);
  };
  if (k == 0) f(ActivationBoundsTpl<D>(b), "copy: ");
  if (k == 1) f(b.template cast<D>(), "conversion: ");
}

// ---- states
static std::shared_ptr<StateVectorTpl<D>> state_of(long nx, bool limits) {
  auto s = std::make_shared<StateVectorTpl<D>>(nx);
  if (limits) {
    s->set_lb(in_vec("x_lb", nx));
    s->set_ub(in_vec("x_ub", nx));
  }
  return s;
}
template <class S>
static void same_state(const std::string &t, const std::shared_ptr<StateAbstractTpl<D>> &a, const std::shared_ptr<StateAbstractTpl<S>> &b) {
  check_true(t + "state dimensions", a->get_nx() == b->get_nx() && a->get_ndx() == b->get_ndx() && a->get_nq() == b->get_nq() && a->get_nv() == b->get_nv());
  check_true(t + "state has limits", a->get_has_limits() == b->get_has_limits());
  if (a->get_has_limits()) {
    same(t + "state lower limits", a->get_lb(), b->get_lb());
    same(t + "state upper limits", a->get_ub(), b->get_ub());
  }
}
static void state(const Case &c) {
  const long nx = c("nx");
  std::shared_ptr<StateAbstractTpl<D>> m = state_of(nx, flag("limits"));
  Vec x = in_vec("x", nx), y = in_vec("y", nx);
  each<StateAbstractTpl>(m, [&](auto k, const std::string &t) {
    typedef typename decltype(k)::element_type::Scalar S;
    same_state<S>(t, m, k);
    VS<S> d(nx), z(nx);
    k->diff(to<S>(x), to<S>(y), d);
    k->integrate(to<S>(x), to<S>(y), z);
    same(t + "difference", Vec(y - x), d);
    same(t + "integration", Vec(x + y), z);
    observe("d", Vec(bk(d)));
  });
}

// ---- control parametrizations
static std::shared_ptr<ControlParametrizationModelAbstractTpl<D>> control_of(long kind, long nw) {
  if (kind == 0) return std::make_shared<ControlParametrizationModelPolyZeroTpl<D>>(nw);
  if (kind == 1) return std::make_shared<ControlParametrizationModelPolyOneTpl<D>>(nw);
  return std::make_shared<ControlParametrizationModelPolyTwoRKTpl<D>>(nw, kind == 2 ? RKType::three : RKType::four);
}
static void control(const Case &c) {
  const long nw = c("nw");
  auto m = control_of(c("kind"), nw);
  const long nu = m->get_nu();
  Vec u = in_vec("u", nu), wl = in_vec("wl", nw), wu = in_vec("wu", nw);
  D time = in("t");
  Mat J = in_mat("J", nw, nw);
  each<ControlParametrizationModelAbstractTpl>(m, [&](auto k, const std::string &t) {
    typedef typename decltype(k)::element_type::Scalar S;
    check_true(t + "dimensions", k->get_nw() == m->get_nw() && k->get_nu() == m->get_nu());
    if (k->get_nu() != m->get_nu()) return;
    auto d = m->createData();
    auto e = k->createData();
    m->calc(d, time, u);
    m->calcDiff(d, time, u);
    k->calc(e, S(time), to<S>(u));
    k->calcDiff(e, S(time), to<S>(u));
    same(t + "control", d->w, e->w);
    same(t + "derivative", d->dw_du, e->dw_du);
    Vec lb(nu), ub(nu);
    VS<S> lb2(nu), ub2(nu);
    m->convertBounds(wl, wu, lb, ub);
    k->convertBounds(to<S>(wl), to<S>(wu), lb2, ub2);
    same(t + "converted lower bounds", lb, lb2);
    same(t + "converted upper bounds", ub, ub2);
    Mat o(nw, nu);
    MS<S> o2(nw, nu);
    m->multiplyByJacobian(d, J, o, setto);
    MS<S> J2 = J.template cast<S>();
    k->multiplyByJacobian(e, J2, o2, setto);
    same(t + "product with the derivative", o, o2);
    m->params(d, time, wl);
    k->params(e, S(time), to<S>(wl));
    same(t + "parameters", d->u, e->u);
    observe("w", Vec(bk(e->w)));
  });
}

// ---- actuation: the joint torques are a linear function of the controls
template <typename Scalar_>
struct LinearActuation : ActuationModelAbstractTpl<Scalar_> {
  typedef Scalar_ Scalar;
  typedef ActuationModelAbstractTpl<Scalar> Base;
  typedef ActuationDataAbstractTpl<Scalar> Data;
  CROCODDYL_DERIVED_CAST(ActuationModelBase, LinearActuation)
  MS<Scalar> T;
  LinearActuation(std::shared_ptr<StateAbstractTpl<Scalar>> s, const MS<Scalar> &T_) : Base(s, T_.cols()), T(T_) {}
  void calc(const std::shared_ptr<Data> &d, const Eigen::Ref<const VS<Scalar>> &, const Eigen::Ref<const VS<Scalar>> &u) override { VS<Scalar> t = T * u; d->tau = t; }
  void calcDiff(const std::shared_ptr<Data> &d, const Eigen::Ref<const VS<Scalar>> &, const Eigen::Ref<const VS<Scalar>> &) override { d->dtau_du = T; }
  void commands(const std::shared_ptr<Data> &, const Eigen::Ref<const VS<Scalar>> &, const Eigen::Ref<const VS<Scalar>> &) override {}
  template <typename NewScalar> LinearActuation<NewScalar> cast() const { return LinearActuation<NewScalar>(this->state_->template cast<NewScalar>(), T.template cast<NewScalar>()); }
};
static std::shared_ptr<SquashingModelSmoothSatTpl<D>> squashing_of(long ns) {
  Vec lb = in_vec("s_lb", ns), ub = in_vec("s_ub", ns);
  for (long i = 0; i < ns; ++i) assume(lt(lb(i), ub(i)) & gt(lb(i), -1e3) & lt(ub(i), 1e3));
  auto s = std::make_shared<SquashingModelSmoothSatTpl<D>>(lb, ub, ns);
  if (flag("set_smooth")) {
    D smooth = in("smooth");
    assume(gt(smooth, 1e-2) & lt(smooth, 1));
    s->set_smooth(smooth);
  }
  return s;
}
static void squashing(const Case &c) {
  const long ns = c("ns");
  std::shared_ptr<SquashingModelAbstractTpl<D>> m = squashing_of(ns);
  Vec s = in_vec("s", ns);
  each<SquashingModelAbstractTpl>(m, [&](auto k, const std::string &t) {
    typedef typename decltype(k)::element_type::Scalar S;
    auto d = m->createData();
    auto e = k->createData();
    m->calc(d, s);
    m->calcDiff(d, s);
    k->calc(e, to<S>(s));
    k->calcDiff(e, to<S>(s));
    check_true(t + "dimension", m->get_ns() == k->get_ns());
    same(t + "squashed input", d->u, e->u);
    same(t + "derivative", Vec(d->du_ds.diagonal()), VS<S>(e->du_ds.diagonal()));
    same(t + "lower limit", m->get_s_lb(), k->get_s_lb());
    same(t + "upper limit", m->get_s_ub(), k->get_s_ub());
    observe("u", Vec(bk(e->u)));
  });
}
static void actuation(const Case &c) {
  const long nv = c("nv"), nu = c("nu");
  auto st = state_of(2 * nv, false);
  auto lin = std::make_shared<LinearActuation<D>>(st, in_mat("T", nv, nu));
  std::shared_ptr<ActuationModelAbstractTpl<D>> m = std::make_shared<ActuationSquashingModelTpl<D>>(lin, squashing_of(nu), nu);
  Vec x = in_vec("x", 2 * nv), u = in_vec("u", nu);
  each<ActuationModelAbstractTpl>(m, [&](auto k, const std::string &t) {
    typedef typename decltype(k)::element_type::Scalar S;
    auto d = m->createData();
    auto e = k->createData();
    m->calc(d, x, u);
    m->calcDiff(d, x, u);
    k->calc(e, to<S>(x), to<S>(u));
    k->calcDiff(e, to<S>(x), to<S>(u));
    check_true(t + "dimension", m->get_nu() == k->get_nu());
    same_state<S>(t, m->get_state(), k->get_state());
    same(t + "joint torques", d->tau, e->tau);
    same(t + "derivative", d->dtau_du, e->dtau_du);
    observe("tau", Vec(bk(e->tau)));
  });
}

// ---- residuals
struct JointValues { Vec tau, a; Mat tx, tu, ax, au; };
template <class S> static void fill(JointDataAbstractTpl<S> &j, const JointValues &v) {
  j.tau = v.tau.template cast<S>(); j.a = v.a.template cast<S>();
  j.dtau_dx = v.tx.template cast<S>(); j.dtau_du = v.tu.template cast<S>();
  j.da_dx = v.ax.template cast<S>(); j.da_du = v.au.template cast<S>();
}
static std::shared_ptr<ResidualModelAbstractTpl<D>> residual_of(long kind, std::shared_ptr<StateAbstractTpl<D>> st, std::shared_ptr<ActuationModelAbstractTpl<D>> act, long nv, long nu, const std::string &p = "") {
  if (kind == 0) {
    auto r = std::make_shared<ResidualModelControlTpl<D>>(st, in_vec(p + "uref", nu));
    if ((p.empty() && flag("set_reference"))) r->set_reference(in_vec(p + "uref2", nu));
    return r;
  }
  if (kind == 1) {
    auto r = std::make_shared<ResidualModelJointEffortTpl<D>>(st, act, in_vec(p + "tref", nu), nu, p.empty() && flag("forward_dynamics"));
    if ((p.empty() && flag("set_reference"))) r->set_reference(in_vec(p + "tref2", nu));
    return r;
  }
  auto r = std::make_shared<ResidualModelJointAccelerationTpl<D>>(st, in_vec(p + "aref", nv), nu);
  if ((p.empty() && flag("set_reference"))) r->set_reference(in_vec(p + "aref2", nv));
  return r;
}
template <class S> struct World {  // what residual data share, for one scalar type
  std::shared_ptr<ActuationModelAbstractTpl<S>> act;
  std::shared_ptr<JointDataAbstractTpl<S>> joint;
  std::shared_ptr<DataCollectorJointTpl<S>> coll;
  World(const std::shared_ptr<StateAbstractTpl<S>> &st, const std::shared_ptr<ActuationModelAbstractTpl<S>> &a, long nu, const JointValues &v) : act(a) {
    joint = std::make_shared<JointDataAbstractTpl<S>>(st, act, nu);
    fill<S>(*joint, v);
    coll = std::make_shared<DataCollectorJointTpl<S>>(joint);
  }
};
struct Setting {
  long nv, nu;
  std::shared_ptr<StateAbstractTpl<D>> st;
  std::shared_ptr<ActuationModelAbstractTpl<D>> act;
  JointValues v;
  Vec x, u;
  Setting(long nv_, long nu_, bool limits = false) : nv(nv_), nu(nu_), st(state_of(2 * nv_, limits)) {
    act = std::make_shared<LinearActuation<D>>(st, in_mat("T", nv, nu));
    v = JointValues{in_vec("tau", nu), in_vec("acc", nv), in_mat("tx", nu, 2 * nv), in_mat("tu", nu, nu), in_mat("ax", nv, 2 * nv), in_mat("au", nv, nu)};
    x = in_vec("x", 2 * nv);
    u = in_vec("u", nu);
  }
  World<D> world() const { return World<D>(st, act, nu, v); }
  template <class S> World<S> world_of() const { return World<S>(st->template cast<S>(), act->template cast<S>(), nu, v); }
};
static void residual(const Case &c) {
  Setting s(c("nv"), c("nu"));
  auto m = residual_of(c("kind"), s.st, s.act, s.nv, s.nu);
  each<ResidualModelAbstractTpl>(m, [&](auto k, const std::string &t) {
    typedef typename decltype(k)::element_type::Scalar S;
    World<D> w = s.world();
    World<S> z = s.template world_of<S>();
    auto d = m->createData(w.coll.get());
    auto e = k->createData(z.coll.get());
    check_true(t + "dimensions", m->get_nr() == k->get_nr() && m->get_nu() == k->get_nu());
    check_true(t + "dependencies", m->get_q_dependent() == k->get_q_dependent() && m->get_v_dependent() == k->get_v_dependent() && m->get_u_dependent() == k->get_u_dependent());
    if (flag("terminal")) {
      m->calc(d, s.x);
      m->calcDiff(d, s.x);
      k->calc(e, to<S>(s.x));
      k->calcDiff(e, to<S>(s.x));
    } else {
      m->calc(d, s.x, s.u);
      m->calcDiff(d, s.x, s.u);
      k->calc(e, to<S>(s.x), to<S>(s.u));
      k->calcDiff(e, to<S>(s.x), to<S>(s.u));
    }
    same(t + "residual", d->r, e->r);
    same(t + "Rx", d->Rx, e->Rx);
    same(t + "Ru", d->Ru, e->Ru);
    observe("r", Vec(bk(e->r)));
  });
}

// ---- costs
template <class A, class B>
static void same_cost_data(const std::string &t, const A &d, const B &e) {
  check_eq(t + "cost", bk(e->cost), d->cost);
  same(t + "Lx", d->Lx, e->Lx);
  same(t + "Lu", d->Lu, e->Lu);
  same(t + "Lxx", d->Lxx, e->Lxx);
  same(t + "Lxu", d->Lxu, e->Lxu);
  same(t + "Luu", d->Luu, e->Luu);
  observe("cost", bk(e->cost));
}
static std::shared_ptr<ActivationModelAbstractTpl<D>> act_of(const std::string &p, long nr) {
  return std::make_shared<ActivationModelWeightedQuadTpl<D>>(in_vec(p + "w", nr));
}
static void cost(const Case &c) {
  Setting s(c("nv"), c("nu"), true);
  auto r = residual_of(c("kind"), s.st, s.act, s.nv, s.nu);
  std::shared_ptr<CostModelAbstractTpl<D>> m;
  if (flag("activation")) m = std::make_shared<CostModelResidualTpl<D>>(s.st, act_of("", r->get_nr()), r);
  else m = std::make_shared<CostModelResidualTpl<D>>(s.st, r);
  each<CostModelAbstractTpl>(m, [&](auto k, const std::string &t) {
    typedef typename decltype(k)::element_type::Scalar S;
    World<D> w = s.world();
    World<S> z = s.template world_of<S>();
    auto d = m->createData(w.coll.get());
    auto e = k->createData(z.coll.get());
    check_true(t + "control dimension", m->get_nu() == k->get_nu());
    same_state<S>(t, m->get_state(), k->get_state());
    m->calc(d, s.x, s.u);
    m->calcDiff(d, s.x, s.u);
    k->calc(e, to<S>(s.x), to<S>(s.u));
    k->calcDiff(e, to<S>(s.x), to<S>(s.u));
    same_cost_data(t, d, e);
  });
}
static void cost_sum(const Case &c) {
  Setting s(c("nv"), c("nu"), true);
  CostModelSumTpl<D> m(s.st, s.nu);
  const long n = c("n");
  for (long i = 0; i < n; ++i) {
    const std::string p = "c" + std::to_string(i) + "_";
    auto r = residual_of((i + c("kind")) % 3, s.st, s.act, s.nv, s.nu, p);
    m.addCost(p, std::make_shared<CostModelResidualTpl<D>>(s.st, act_of(p, r->get_nr()), r), in(p + "weight"), flag(p + "active"));
  }
  if (flag("changed")) m.changeCostStatus("c0_", flag("changed_to"));
  auto f = [&](auto k, const std::string &t) {
    typedef typename decltype(k)::Scalar S;
    World<D> w = s.world();
    World<S> z = s.template world_of<S>();
    auto d = m.createData(w.coll.get());
    auto e = k.createData(z.coll.get());
    check_true(t + "dimensions", m.get_nu() == k.get_nu() && m.get_nr() == k.get_nr() && m.get_nr_total() == k.get_nr_total() && m.get_costs().size() == k.get_costs().size());
    check_true(t + "active and inactive sets", m.get_active_set() == k.get_active_set() && m.get_inactive_set() == k.get_inactive_set());
    if (flag("terminal")) {
      m.calc(d, s.x);
      m.calcDiff(d, s.x);
      k.calc(e, to<S>(s.x));
      k.calcDiff(e, to<S>(s.x));
    } else {
      m.calc(d, s.x, s.u);
      m.calcDiff(d, s.x, s.u);
      k.calc(e, to<S>(s.x), to<S>(s.u));
      k.calcDiff(e, to<S>(s.x), to<S>(s.u));
    }
    same_cost_data(t, d, e);
  };
  const long k = choose("conversion", 3);
  if (k == 0) f(CostModelSumTpl<D>(m), std::string("copy: "));
  if (k == 1) f(m.template cast<F>(), std::string("other scalar type: "));
  if (k == 2) f(m.template cast<D>(), std::string("same scalar type: "));
}

// ---- constraints
static std::shared_ptr<ConstraintModelAbstractTpl<D>> constraint_of(const Setting &s, long kind, const std::string &p) {
  auto r = residual_of(kind, s.st, s.act, s.nv, s.nu, p);
  const bool T = flag(p + "T");
  if (!flag(p + "inequality")) return std::make_shared<ConstraintModelResidualTpl<D>>(s.st, r, T);
  const long nr = r->get_nr();
  Vec lb = in_vec(p + "lb", nr), ub = in_vec(p + "ub", nr);
  for (long i = 0; i < nr; ++i) assume(lt(lb(i), ub(i)) & gt(lb(i), -1e6) & lt(ub(i), 1e6));
  if (p.empty() && flag("unbounded")) ub(0) = std::numeric_limits<D>::infinity();
  auto m = std::make_shared<ConstraintModelResidualTpl<D>>(s.st, r, lb, ub, T);
  if (p.empty() && flag("updated")) {
    Vec l2 = in_vec(p + "lb2", nr), u2 = in_vec(p + "ub2", nr);
    for (long i = 0; i < nr; ++i) assume(lt(l2(i), u2(i)) & gt(l2(i), -1e6) & lt(u2(i), 1e6));
    m->update_bounds(l2, u2);
  }
  return m;
}
template <class A, class B>
static void same_constraint_data(const std::string &t, const A &d, const B &e) {
  same(t + "g", d->g, e->g);
  same(t + "h", d->h, e->h);
  same(t + "Gx", d->Gx, e->Gx);
  same(t + "Gu", d->Gu, e->Gu);
  same(t + "Hx", d->Hx, e->Hx);
  same(t + "Hu", d->Hu, e->Hu);
}
static void constraint(const Case &c) {
  Setting s(c("nv"), c("nu"), true);
  auto m = constraint_of(s, c("kind"), "");
  each<ConstraintModelAbstractTpl>(m, [&](auto k, const std::string &t) {
    typedef typename decltype(k)::element_type::Scalar S;
    World<D> w = s.world();
    World<S> z = s.template world_of<S>();
    auto d = m->createData(w.coll.get());
    auto e = k->createData(z.coll.get());
    check_true(t + "dimensions", m->get_nu() == k->get_nu() && m->get_ng() == k->get_ng() && m->get_nh() == k->get_nh());
    check_true(t + "type and terminal flag", m->get_type() == k->get_type() && m->get_T_constraint() == k->get_T_constraint());
    same_state<S>(t, m->get_state(), k->get_state());
    same(t + "lower bounds", m->get_lb(), k->get_lb());
    same(t + "upper bounds", m->get_ub(), k->get_ub());
    m->calc(d, s.x, s.u);
    m->calcDiff(d, s.x, s.u);
    k->calc(e, to<S>(s.x), to<S>(s.u));
    k->calcDiff(e, to<S>(s.x), to<S>(s.u));
    same_constraint_data(t, d, e);
    observe("g", Vec(bk(e->g)));
  });
}
static void manager(const Case &c) {
  Setting s(c("nv"), c("nu"), true);
  ConstraintModelManagerTpl<D> m(s.st, s.nu);
  const long n = c("n");
  for (long i = 0; i < n; ++i) {
    const std::string p = "c" + std::to_string(i) + "_";
    m.addConstraint(p, constraint_of(s, (i + c("kind")) % 3, p), flag(p + "active"));
  }
  if (flag("changed")) m.changeConstraintStatus("c0_", flag("changed_to"));
  auto f = [&](auto k, const std::string &t) {
    typedef typename decltype(k)::Scalar S;
    World<D> w = s.world();
    World<S> z = s.template world_of<S>();
    auto d = m.createData(w.coll.get());
    auto e = k.createData(z.coll.get());
    check_true(t + "dimensions", m.get_nu() == k.get_nu() && m.get_ng() == k.get_ng() && m.get_nh() == k.get_nh() && m.get_ng_T() == k.get_ng_T() && m.get_nh_T() == k.get_nh_T());
    check_true(t + "active and inactive sets", m.get_active_set() == k.get_active_set() && m.get_inactive_set() == k.get_inactive_set());
    m.calc(d, s.x, s.u);
    m.calcDiff(d, s.x, s.u);
    k.calc(e, to<S>(s.x), to<S>(s.u));
    k.calcDiff(e, to<S>(s.x), to<S>(s.u));
    same_constraint_data(t, d, e);
    same(t + "lower bounds", m.get_lb(), k.get_lb());
    same(t + "upper bounds", m.get_ub(), k.get_ub());
  };
  const long k = choose("conversion", 3);
  if (k == 0) f(ConstraintModelManagerTpl<D>(m), std::string("copy: "));
  if (k == 1) f(m.template cast<F>(), std::string("other scalar type: "));
  if (k == 2) f(m.template cast<D>(), std::string("same scalar type: "));
}

// ---- actions
static const D INF = std::numeric_limits<D>::infinity();
template <class M> static void limits(M &m, const std::string &p = "") {
  const long nu = m.get_nu(), ng = m.get_ng();
  const long k = choose(p + "limits", 3);
  if (k) m.set_u_lb(in_vec(p + "u_lb", nu));
  if (k == 2) m.set_u_ub(in_vec(p + "u_ub", nu));
  if (ng && flag(p + "constraint_bounds")) {
    m.set_g_lb(in_vec(p + "g_lb", ng));
    m.set_g_ub(in_vec(p + "g_ub", ng));
  }
}
template <class A, class B>
static void same_limits(const std::string &t, A &m, B &k) {
  check_true(t + "dimensions", m.get_nu() == k.get_nu() && m.get_nr() == k.get_nr() && m.get_ng() == k.get_ng() && m.get_nh() == k.get_nh() && m.get_ng_T() == k.get_ng_T() && m.get_nh_T() == k.get_nh_T());
  check_true(t + "has control limits", m.get_has_control_limits() == k.get_has_control_limits());
  same(t + "control lower limits", m.get_u_lb(), k.get_u_lb());
  same(t + "control upper limits", m.get_u_ub(), k.get_u_ub());
  same(t + "constraint lower bounds", m.get_g_lb(), k.get_g_lb());
  same(t + "constraint upper bounds", m.get_g_ub(), k.get_g_ub());
}
template <class A, class B>
static void same_node_data(const std::string &t, const A &d, const B &e) {
  same_cost_data(t, d, e);
  same_constraint_data(t, d, e);
  same(t + "Fx", d->Fx, e->Fx);
  same(t + "Fu", d->Fu, e->Fu);
}
template <class S>
static void same_action(const std::string &t, ActionModelAbstractTpl<D> &m, ActionModelAbstractTpl<S> &k, const Vec &x, const Vec &u) {
  same_limits(t, m, k);
  same_state<S>(t, m.get_state(), k.get_state());
  if (k.get_nu() != m.get_nu()) return;
  auto d = m.createData();
  auto e = k.createData();
  if (flag("terminal")) {
    m.calc(d, x);
    m.calcDiff(d, x);
    k.calc(e, to<S>(x));
    k.calcDiff(e, to<S>(x));
  } else {
    m.calc(d, x, u);
    m.calcDiff(d, x, u);
    k.calc(e, to<S>(x), to<S>(u));
    k.calcDiff(e, to<S>(x), to<S>(u));
    same(t + "next state", d->xnext, e->xnext);
  }
  same_node_data(t, d, e);
}
static void unicycle(const Case &) {
  auto m = std::make_shared<ActionModelUnicycleTpl<D>>();
  if (flag("weights")) m->set_cost_weights(Vec(in_vec("w", 2)));
  if (flag("step")) {
    D dt = in("dt");
    assume(gt(dt, 0));
    m->set_dt(dt);
  }
  limits(*m);
  Vec x = in_vec("x", 3), u = in_vec("u", 2);
  each<ActionModelAbstractTpl>(std::shared_ptr<ActionModelAbstractTpl<D>>(m), [&](auto k, const std::string &t) { same_action(t, *m, *k, x, u); });
}
static std::shared_ptr<ActionModelLQRTpl<D>> lqr_of(const std::string &p, long nx, long nu, long ng, long nh) {
  Mat Q, R, N;
  psd_blocks(p, nx, nu, Q, R, N);
  auto m = std::make_shared<ActionModelLQRTpl<D>>(in_mat(p + "A", nx, nx), in_mat(p + "B", nx, nu), Q, R, N, in_mat(p + "G", ng, nx + nu), in_mat(p + "H", nh, nx + nu), in_vec(p + "f", nx), in_vec(p + "q", nx), in_vec(p + "r", nu), in_vec(p + "g", ng), in_vec(p + "h", nh));
  limits(*m, p);
  return m;
}
static void lqr(const Case &c) {
  const long nx = c("nx"), nu = c("nu");
  auto m = lqr_of("", nx, nu, c("ng"), c("nh"));
  Vec x = in_vec("x", nx), u = in_vec("u", nu);
  each<ActionModelAbstractTpl>(std::shared_ptr<ActionModelAbstractTpl<D>>(m), [&](auto k, const std::string &t) { same_action(t, *m, *k, x, u); });
}
static std::shared_ptr<DifferentialActionModelLQRTpl<D>> diff_lqr_of(const std::string &p, long nq, long nu, long ng, long nh) {
  Mat Q, R, N;
  psd_blocks(p, 2 * nq, nu, Q, R, N);
  auto m = std::make_shared<DifferentialActionModelLQRTpl<D>>(in_mat(p + "Aq", nq, nq), in_mat(p + "Av", nq, nq), in_mat(p + "B", nq, nu), Q, R, N, in_mat(p + "G", ng, 2 * nq + nu), in_mat(p + "H", nh, 2 * nq + nu), in_vec(p + "f", nq), in_vec(p + "q", 2 * nq), in_vec(p + "r", nu), in_vec(p + "g", ng), in_vec(p + "h", nh));
  limits(*m, p);
  return m;
}
template <class S>
static void same_diff_action(const std::string &t, DifferentialActionModelAbstractTpl<D> &m, DifferentialActionModelAbstractTpl<S> &k, const Vec &x, const Vec &u) {
  same_limits(t, m, k);
  same_state<S>(t, m.get_state(), k.get_state());
  auto d = m.createData();
  auto e = k.createData();
  if (flag("terminal")) {
    m.calc(d, x);
    m.calcDiff(d, x);
    k.calc(e, to<S>(x));
    k.calcDiff(e, to<S>(x));
  } else {
    m.calc(d, x, u);
    m.calcDiff(d, x, u);
    k.calc(e, to<S>(x), to<S>(u));
    k.calcDiff(e, to<S>(x), to<S>(u));
    same(t + "acceleration", d->xout, e->xout);
  }
  same_node_data(t, d, e);
}
static void diff_lqr(const Case &c) {
  const long nq = c("nq"), nu = c("nu");
  auto m = diff_lqr_of("", nq, nu, c("ng"), c("nh"));
  Vec x = in_vec("x", 2 * nq), u = in_vec("u", nu);
  each<DifferentialActionModelAbstractTpl>(std::shared_ptr<DifferentialActionModelAbstractTpl<D>>(m), [&](auto k, const std::string &t) { same_diff_action(t, *m, *k, x, u); });
}
static std::shared_ptr<ActionModelAbstractTpl<D>> integrated_of(long scheme, long ctrl, long nq, long nu, long ng) {
  auto dm = diff_lqr_of("d_", nq, nu, ng, ng);
  D dt = in("dt");
  assume(ge(dt, 0));
  const bool res = flag("with_cost_residual");
  std::shared_ptr<ControlParametrizationModelAbstractTpl<D>> cp;
  if (ctrl >= 0) cp = control_of(ctrl, nu);
  std::shared_ptr<IntegratedActionModelAbstractTpl<D>> m;
  if (scheme == 1) {
    if (cp) m = std::make_shared<IntegratedActionModelEulerTpl<D>>(dm, cp, dt, res);
    else m = std::make_shared<IntegratedActionModelEulerTpl<D>>(dm, dt, res);
  } else {
    const RKType rk = scheme == 2 ? RKType::two : scheme == 3 ? RKType::three : RKType::four;
    if (cp) m = std::make_shared<IntegratedActionModelRKTpl<D>>(dm, cp, rk, dt, res);
    else m = std::make_shared<IntegratedActionModelRKTpl<D>>(dm, rk, dt, res);
  }
  if (flag("limits_set")) {
    m->set_u_lb(in_vec("p_lb", m->get_nu()));
    m->set_u_ub(in_vec("p_ub", m->get_nu()));
  }
  if (flag("step_set")) {
    D h = in("dt2");
    assume(ge(h, 0));
    m->set_dt(h);
  }
  return m;
}
static void integrated(const Case &c) {
  const long nq = c("nq"), nu = c("nu");
  auto m = integrated_of(c("scheme"), c("ctrl"), nq, nu, c("ng"));
  Vec x = in_vec("x", 2 * nq), u = in_vec("u", m->get_nu());
  each<ActionModelAbstractTpl>(m, [&](auto k, const std::string &t) { same_action(t, *m, *k, x, u); });
}
static void shooting(const Case &c) {
  const long nx = c("nx"), T = c("T");
  std::vector<std::shared_ptr<ActionModelAbstractTpl<D>>> r;
  for (long i = 0; i < T; ++i) r.push_back(lqr_of("m" + std::to_string(i) + "_", nx, 1 + i % 2, 0, 0));
  auto term = lqr_of("mT_", nx, 1, 0, 0);
  Vec x0 = in_vec("x0", nx);
  ShootingProblemTpl<D> p(Vec::Zero(nx), r, term);
  p.set_x0(x0);
  std::vector<Vec> xs, us;
  for (long i = 0; i <= T; ++i) xs.push_back(in_vec("x" + std::to_string(i) + "_", nx));
  for (long i = 0; i < T; ++i) us.push_back(in_vec("u" + std::to_string(i) + "_", r[i]->get_nu()));
  auto f = [&](auto q, const std::string &t) {
    typedef typename decltype(q)::Scalar S;
    std::vector<VS<S>> x2, u2;
    for (auto &x : xs) x2.push_back(to<S>(x));
    for (auto &u : us) u2.push_back(to<S>(u));
    same(t + "initial state", p.get_x0(), q.get_x0());
    check_true(t + "horizon and dimensions", p.get_T() == q.get_T() && p.get_nx() == q.get_nx() && p.get_ndx() == q.get_ndx());
    check_eq(t + "total cost", bk(q.calc(x2, u2)), p.calc(xs, us));
    check_eq(t + "total cost of the derivatives", bk(q.calcDiff(x2, u2)), p.calcDiff(xs, us));
    for (long i = 0; i < T; ++i) {
      same_limits(t + "node: ", *p.get_runningModels()[i], *q.get_runningModels()[i]);
      same_node_data(t + "node: ", p.get_runningDatas()[i], q.get_runningDatas()[i]);
    }
    same_node_data(t + "terminal node: ", p.get_terminalData(), q.get_terminalData());
  };
  const long k = choose("conversion", 3);
  if (k == 0) f(ShootingProblemTpl<D>(p), std::string("copy: "));
  if (k == 1) f(p.template cast<F>(), std::string("other scalar type: "));
  if (k == 2) f(p.template cast<D>(), std::string("same scalar type: "));
}

// ---- numerical differentiation
static void numdiff(const Case &c) {
  const long kind = c("kind");
  const bool gauss = flag("gauss_newton");
  D h = in("h");
  assume(gt(h, 1e-3) & lt(h, 1e-2));
  if (kind == 0) {
    auto uni = std::make_shared<ActionModelUnicycleTpl<D>>();
    uni->set_cost_weights(Vec(in_vec("w", 2)));
    limits(*uni);
    auto m = std::make_shared<ActionModelNumDiffTpl<D>>(uni, gauss);
    each<ActionModelAbstractTpl>(std::shared_ptr<ActionModelAbstractTpl<D>>(m), [&](auto k, const std::string &t) {
      typedef typename decltype(k)::element_type::Scalar S;
      auto n = std::static_pointer_cast<ActionModelNumDiffTpl<S>>(k);
      check_true(t + "Gauss-Newton approximation", n->get_with_gauss_approx() == m->get_with_gauss_approx());
      same_limits(t, *m, *k);
      auto d = m->createData();
      auto e = k->createData();
      Vec x = in_vec("x", 3), u = in_vec("u", 2);
      m->calc(d, x, u);
      k->calc(e, to<S>(x), to<S>(u));
      same(t + "next state", d->xnext, e->xnext);
      check_eq(t + "cost", bk(e->cost), d->cost);
    });
  } else {
    auto lq = diff_lqr_of("d_", 1, 1, 1, 0);
    auto m = std::make_shared<DifferentialActionModelNumDiffTpl<D>>(lq, gauss);
    each<DifferentialActionModelAbstractTpl>(std::shared_ptr<DifferentialActionModelAbstractTpl<D>>(m), [&](auto k, const std::string &t) {
      typedef typename decltype(k)::element_type::Scalar S;
      auto n = std::static_pointer_cast<DifferentialActionModelNumDiffTpl<S>>(k);
      check_true(t + "Gauss-Newton approximation", n->get_with_gauss_approx() == m->get_with_gauss_approx());
      same_limits(t, *m, *k);
      auto d = m->createData();
      auto e = k->createData();
      Vec x = in_vec("x", 2), u = in_vec("u", 1);
      m->calc(d, x, u);
      k->calc(e, to<S>(x), to<S>(u));
      same(t + "acceleration", d->xout, e->xout);
      check_eq(t + "cost", bk(e->cost), d->cost);
    });
  }
}
REGISTER(for (long k = 0; k < 9; ++k) for (long nr = 1; nr <= 3; ++nr) add_case("activation", activation, {{"kind", k}, {"nr", nr}}, nr > 2);
         for (long n = 1; n <= 2; ++n) {
           add_case("bounds", activation_bounds, {{"nr", n}}, 0);
           add_case("state", state, {{"nx", 2 * n}}, 0);
           add_case("squashing", squashing, {{"ns", n}}, 0);
           for (long k = 0; k < 4; ++k) add_case("control", control, {{"kind", k}, {"nw", n}}, 0);
           for (long k = 0; k < 3; ++k) {
             add_case("residual", residual, {{"kind", k}, {"nv", n}, {"nu", n}}, 0);
             add_case("cost", cost, {{"kind", k}, {"nv", n}, {"nu", n}}, 0);
             add_case("constraint", constraint, {{"kind", k}, {"nv", n}, {"nu", n}}, 0);
           }
           add_case("actuation", actuation, {{"nv", n}, {"nu", n}}, 0);
           add_case("lqr", lqr, {{"nx", n}, {"nu", 1}, {"ng", n - 1}, {"nh", n - 1}}, 0);
           add_case("diff_lqr", diff_lqr, {{"nq", n}, {"nu", 1}, {"ng", n - 1}, {"nh", n - 1}}, 0);
           add_case("shooting", shooting, {{"nx", n}, {"T", n}}, 0);
           add_case("numdiff", numdiff, {{"kind", n - 1}}, 0);
         }
         for (long k = 0; k < 3; ++k) {
           add_case("cost_sum", cost_sum, {{"kind", k}, {"nv", 1}, {"nu", 1}, {"n", 2}}, 0);
           add_case("manager", manager, {{"kind", k}, {"nv", 1}, {"nu", 1}, {"n", 2}}, 0);
         }
         add_case("unicycle", unicycle, {}, 0);
         for (long s = 1; s <= 4; ++s) for (long q = -1; q <= 1; ++q) add_case("integrated", integrated, {{"scheme", s}, {"ctrl", q}, {"nq", 1}, {"nu", 1}, {"ng", 0}}, q == 0);
         add_case("integrated", integrated, {{"scheme", 1}, {"ctrl", -1}, {"nq", 2}, {"nu", 1}, {"ng", 1}}, 0);)
