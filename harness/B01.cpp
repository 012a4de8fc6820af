// Multibody dynamics actions: equations of motion, exact derivatives, forces, costs and constraints.
// BOUNDS: free, contact and impulse forward dynamics, free and contact inverse dynamics; two joint velocities; no, one and two contacts (impulses) of one dimension, active or not; every mass matrix, gravity, Coriolis term, Jacobian, drift, their first derivatives, state, control, damping, restitution, armature; costs on accelerations, efforts and forces, one equality and one inequality constraint
// OUTSIDE: Pinocchio (the terms of the equations of motion are arbitrary values consistent to first order; its routines do what they document); contact and impulse models (C02); costs read from the kinematics; pseudo-inverse of rank-deficient matrices; floating-point rounding
// ASSUMES: the pseudo-inverse is replaced by its closed form in the encoding (the real one runs in the replay)
#include "sym/harness.hpp"
#include <unsupported/Eigen/MatrixFunctions>
#include "crocoddyl/core/utils/math.hpp"
#include "crocoddyl/multibody/pch.hpp"
#ifdef VERIF_SYMBOLIC
namespace crocoddyl {
template <>
struct pseudoInverseAlgo<Eigen::MatrixXd, true> {
  static Eigen::MatrixXd run(const Eigen::MatrixBase<Eigen::MatrixXd> &a_, const double &) {
    const Eigen::MatrixXd a = a_, t = a.transpose();
    if (a.rows() == a.cols()) return pinocchio::Terms::inverse(a);
    if (a.rows() < a.cols()) return t * pinocchio::Terms::inverse(a * t);
    return pinocchio::Terms::inverse(t * a) * t;
  }
};
}  // namespace crocoddyl
#endif
#include "pinocchio/utils/static-if.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "crocoddyl/multibody/contacts/contact-1d.hpp"
#include "crocoddyl/multibody/residuals/contact-force.hpp"
#include "crocoddyl/multibody/actions/free-fwddyn.hpp"
#include "crocoddyl/multibody/actions/contact-fwddyn.hpp"
#include "crocoddyl/multibody/actions/impulse-fwddyn.hpp"
#include "crocoddyl/multibody/actions/free-invdyn.hpp"
#include "crocoddyl/multibody/actions/contact-invdyn.hpp"
using namespace vf;
using namespace crocoddyl;
typedef Eigen::Ref<const Vec> VR;
typedef StateMultibodyTpl<double> State;
typedef pinocchio::ForceTpl<double> Force;
typedef pinocchio::DataTpl<double> PData;
static const long NV = 2, NX = 4;
static std::string num(long i) { return std::to_string(i); }
static long min(long a, long b) { return a < b ? a : b; }

// what makes a leg: how its force enters (J = s(q) J_joint(q)), drift of the constraint
struct Leg {
  long joint, frame;
  double s, e;
  Vec sq, Eq, Ev;
  const pinocchio::Terms *t;
  const Vec *x0;
  double s_at(const Vec &q) const { return s + sq.dot(q); }
  Mat J_at(const Vec &q) const { return Mat(s_at(q) * t->J_at(joint, q).transpose()); }
  Mat J_k(long k, const Vec &q) const { return Mat((sq(k) * t->J_at(joint, q) + s_at(q) * t->Jq[joint][k]).transpose()); }
  double drift(const Vec &q, const Vec &v) const { return e + Eq.dot(q) + Ev.dot(v - x0->tail(NV)); }
  Mat torque(const Vec &q, double f) const {  // torque derivative of a force that does not change
    Mat r(NV, NV);
    for (long k = 0; k < NV; ++k) r.col(k) = -sq(k) * f * t->J_at(joint, q);
    return r;
  }
};
struct Contact : ContactModel1DTpl<double> {
  typedef ContactDataAbstractTpl<double> D;
  Leg l;
  Contact(std::shared_ptr<State> st, const Leg &g, long nu) : ContactModel1DTpl<double>(st, g.frame, double(0), pinocchio::WORLD, Eigen::Matrix<double, 3, 3>(Eigen::Matrix<double, 3, 3>::Identity()), nu, Eigen::Matrix<double, 2, 1>(Eigen::Matrix<double, 2, 1>::Zero())), l(g) {}
  void calc(const std::shared_ptr<D> &d, const VR &) override {
    const PData &p = *d->pinocchio;
    d->Jc = l.J_at(p.q);
    d->a0(0) = (d->Jc * p.a)(0) + l.drift(p.q, p.v);
  }
  void calcDiff(const std::shared_ptr<D> &d, const VR &) override {
    const PData &p = *d->pinocchio;
    for (long k = 0; k < NV; ++k) {
      d->da0_dx(0, k) = (l.J_k(k, p.q) * p.a)(0) + l.Eq(k);
      d->da0_dx(0, NV + k) = l.Ev(k);
    }
  }
  void updateForce(const std::shared_ptr<D> &d, const Vec &f) override {
    if (f.size() != 1) throw std::invalid_argument("size");
    const PData &p = *d->pinocchio;
    d->f.setZero();
    d->f.toVector()(2) = f(0);
    d->fext.setZero();
    d->fext.toVector()(0) = l.s_at(p.q) * f(0);
    d->dtau_dq = l.torque(p.q, f(0));
  }
};
struct Impulse : ImpulseModelAbstractTpl<double> {
  typedef ImpulseDataAbstractTpl<double> D;
  Leg l;
  Impulse(std::shared_ptr<State> st, const Leg &g) : ImpulseModelAbstractTpl<double>(st, pinocchio::WORLD, 1), l(g) { set_id(g.frame); }
  void calc(const std::shared_ptr<D> &d, const VR &) override { d->Jc = l.J_at(d->pinocchio->q); }
  void calcDiff(const std::shared_ptr<D> &d, const VR &) override {
    const PData &p = *d->pinocchio;
    for (long k = 0; k < NV; ++k) d->dv0_dq(0, k) = (l.J_k(k, p.q) * p.v)(0);
    d->dtau_dq = l.torque(p.q, d->f.toVector()(2));
  }
  void updateForce(const std::shared_ptr<D> &d, const Vec &f) override {
    if (f.size() != 1) throw std::invalid_argument("size");
    d->f.setZero();
    d->f.toVector()(2) = f(0);
    d->fext.setZero();
    d->fext.toVector()(0) = l.s_at(d->pinocchio->q) * f(0);
  }
  std::shared_ptr<D> createData(PData *const p) override { auto d = std::make_shared<D>(this, p); d->frame = l.frame; return d; }
};
// tau = t + S u + (Tx + sum u_k SX_k) dx
struct Actuation : ActuationModelAbstractTpl<double> {
  typedef ActuationDataAbstractTpl<double> D;
  Vec t, x0;
  Mat S, Tx, Mtau;
  std::vector<Mat> SX;
  std::vector<bool> set;
  Actuation(std::shared_ptr<State> st, long nu, const Vec &x) : ActuationModelAbstractTpl<double>(st, nu), t(Vec::Zero(NV)), x0(x), S(Mat::Zero(NV, nu)), Tx(Mat::Zero(NV, NX)), Mtau(Mat::Zero(nu, NV)), SX(nu, Mat(Mat::Zero(NV, NX))), set(NV, true) {}
  void calc(const std::shared_ptr<D> &d, const VR &x, const VR &u) override {
    const Vec dx = x - x0, uu = u;
    d->tau = t + S * uu + Tx * dx;
    for (std::size_t k = 0; k < nu_; ++k) d->tau += uu((long)k) * (SX[k] * dx);
  }
  void calcDiff(const std::shared_ptr<D> &d, const VR &x, const VR &u) override {
    const Vec dx = x - x0, uu = u;
    d->dtau_dx = Tx;
    d->dtau_du = S;
    for (std::size_t k = 0; k < nu_; ++k) {
      d->dtau_dx += uu((long)k) * SX[k];
      d->dtau_du.col((long)k) += SX[k] * dx;
    }
  }
  void commands(const std::shared_ptr<D> &d, const VR &, const VR &tau) override { d->u = Mtau * tau; }
  void torqueTransform(const std::shared_ptr<D> &d, const VR &, const VR &) override { d->Mtau = Mtau; }
  std::shared_ptr<D> createData() override { auto d = std::make_shared<D>(this); d->tau_set = set; return d; }
};
// copies made by the library's casts (to the same scalar)
namespace crocoddyl {
template <> std::shared_ptr<ContactModelAbstractTpl<double>> ContactModelBase::cast<double>() const { return std::make_shared<Contact>(static_cast<const Contact &>(*this)); }
template <> std::shared_ptr<ImpulseModelAbstractTpl<double>> ImpulseModelBase::cast<double>() const { return std::make_shared<Impulse>(static_cast<const Impulse &>(*this)); }
template <> std::shared_ptr<ActuationModelAbstractTpl<double>> ActuationModelBase::cast<double>() const { return std::make_shared<Actuation>(static_cast<const Actuation &>(*this)); }
template <> std::shared_ptr<CostModelAbstractTpl<double>> CostModelBase::cast<double>() const { return std::make_shared<CostModelResidualTpl<double>>(static_cast<const CostModelResidualTpl<double> &>(*this)); }
template <> std::shared_ptr<ConstraintModelAbstractTpl<double>> ConstraintModelBase::cast<double>() const { return std::make_shared<ConstraintModelResidualTpl<double>>(static_cast<const ConstraintModelResidualTpl<double> &>(*this)); }
template <> std::shared_ptr<StateAbstractTpl<double>> StateBase::cast<double>() const { return std::make_shared<State>(static_cast<const State &>(*this)); }
}  // namespace crocoddyl
template <class M>
static std::shared_ptr<M> maybe_copy(const std::shared_ptr<M> &m) {
  if (!flag("copied")) return m;
  auto n = std::make_shared<M>(m->template cast<double>());
  check_true("the copy has its own components", n->get_costs() != m->get_costs() && n->get_costs()->get_costs().size() == m->get_costs()->get_costs().size() && n->get_state()->get_nx() == m->get_state()->get_nx());
  return n;
}
struct Robot {
  std::shared_ptr<pinocchio::ModelStub> model = std::make_shared<pinocchio::ModelStub>();
  std::shared_ptr<State> state;
  Vec x0, dx, x, q, v;
  std::vector<std::shared_ptr<Leg>> legs;
  pinocchio::Terms &t() { return model->terms; }
  Robot(long nlegs) {
    model->joints = {{0}, {1}, {1}};
    model->names = {"universe", "p", "q"};
    model->njoints = 3;
    model->nframes = 3;
    model->frames.resize(3);
    for (long i = 0; i < 3; ++i) model->frames[i] = pinocchio::FrameStub{(pinocchio::JointIndex)i, pinocchio::SE3Tpl<double>::Identity(), "frame" + num(i)};
    model->effortLimit = in_vec("limit", NV);
    x0 = Vec::Zero(NX);
    x0.tail(NV) = in_vec("v", NV);
    dx = in_vec("d0.x", NX);
    x = x0 + dx;
    q = x.head(NV);
    v = x.tail(NV);
    pinocchio::Terms &T = t();
    T.q0 = Vec::Zero(NV);
    T.M = in_sym("M", NV);
    assume(gt(T.M(0, 0), 0.1) & gt(pinocchio::Terms::det(T.M), 0.1));
    T.g = in_vec("g", NV);
    T.Gq = in_mat("gq", NV, NV);
    T.C = in_mat("C", NV, NV);
    for (long k = 0; k < NV; ++k) {
      T.Mq.push_back(in_sym("dM" + num(k), NV));
      T.Cq.push_back(in_mat("dC" + num(k), NV, NV));
    }
    for (long j = 0; j < 3; ++j) {
      T.J.push_back(Vec::Zero(NV));
      T.Jq.push_back({Vec(Vec::Zero(NV)), Vec(Vec::Zero(NV))});
      if (j == 0 || j > nlegs) continue;
      T.J[j] = in_vec("J" + num(j), NV);
      for (long k = 0; k < NV; ++k) T.Jq[j][k] = in_vec("dJ" + num(j) + num(k), NV);
    }
    for (long j = 1; j <= nlegs; ++j) {
      auto l = std::make_shared<Leg>();
      l->joint = j;
      l->frame = j;
      l->s = 1;
      l->e = in("drift" + num(j));
      l->sq = in_vec("dS" + num(j), NV);
      l->Eq = in_vec("driftq" + num(j), NV);
      l->Ev = in_vec("driftv" + num(j), NV);
      l->t = &model->terms;
      l->x0 = &x0;
      legs.push_back(l);
    }
    state = std::make_shared<State>(model);
  }
  Vec inertia(const Vec &a) { return t().M_at(q) * a; }
  Vec bias() { return t().g_at(q) + t().C_at(q) * v; }
};
static void cost(const std::shared_ptr<CostModelSumTpl<double>> &c, const std::string &n, std::shared_ptr<ResidualModelAbstractTpl<double>> r, double w) {
  c->addCost(n, std::make_shared<CostModelResidualTpl<double>>(r->get_state(), r), w);
}
static double half(const Vec &r) { return 0.5 * r.dot(r); }
template <class M>
static void bounds(M &m, bool manager, const Vec &lb, const Vec &ub) {
  if (manager) {
    check_eqm("inequality bounds", Vec(m.get_g_lb()), lb);
    check_eqm("inequality bounds", Vec(m.get_g_ub()), ub);
  } else {
    check_true("inequality bounds", m.get_g_lb().size() == 0 && m.get_g_ub().size() == 0 && &m.get_g_lb() != &m.get_g_ub());
  }
}
// force of the first impulse
struct ForceRes : ResidualModelAbstractTpl<double> {
  typedef ResidualDataAbstractTpl<double> D;
  double ref;
  ForceRes(std::shared_ptr<State> st, double f) : ResidualModelAbstractTpl<double>(st, 1, 0, true, true, false), ref(f) {}
  static const ImpulseDataAbstractTpl<double> &of(const std::shared_ptr<D> &d) {
    return *dynamic_cast<DataCollectorMultibodyInImpulseTpl<double> *>(d->shared)->impulses->impulses.at("leg0");
  }
  void calc(const std::shared_ptr<D> &d, const VR &, const VR &) override { d->r(0) = of(d).f.toVector()(2) - ref; }
  void calc(const std::shared_ptr<D> &d, const VR &) override { d->r(0) = of(d).f.toVector()(2) - ref; }
  void calcDiff(const std::shared_ptr<D> &d, const VR &, const VR &) override { d->Rx = of(d).df_dx; }
  void calcDiff(const std::shared_ptr<D> &d, const VR &) override { d->Rx = of(d).df_dx; }
};
struct Manager {
  std::shared_ptr<ConstraintModelManagerTpl<double>> m;
  Vec lb, ub;
};

static void forward(const Case &c) {
  may_repeat("aref");
  may_repeat("eref");
  may_repeat("fref");
  const long n = c("contacts"), how = c("how");  // how: 0 free, 1 contact
  Robot r(n);
  const long nu = NV;
  auto act = std::make_shared<Actuation>(r.state, nu, r.x0);
  act->t = in_vec("act_t", NV);
  act->S = in_mat("act_S", NV, nu);
  act->Tx = in_mat("act_Tx", NV, NX);
  if (n == 0) for (long k = 0; k < nu; ++k) act->SX[k] = in_mat("act_SX" + num(k), NV, NX);
  auto contacts = std::make_shared<ContactModelMultipleTpl<double>>(r.state, nu);
  std::vector<long> on;
  for (long i = 0; i < n; ++i) {
    const bool active = c("active") & (1 << i);
    contacts->addContact("leg" + num(i), std::make_shared<Contact>(r.state, *r.legs[i], nu), active);
    if (active) on.push_back(i);
  }
  const long nc = (long)on.size();
  // what is asked of the motion
  auto ra = std::make_shared<ResidualModelJointAccelerationTpl<double>>(r.state, in_vec("aref", NV), nu);
  auto re = std::make_shared<ResidualModelJointEffortTpl<double>>(r.state, act, in_vec("eref", nu), nu, true);
  auto costs = std::make_shared<CostModelSumTpl<double>>(r.state, nu);
  const bool force_cost = how == 1 && n > 0;
  const double wa = in("wa"), we = in("we"), wf = force_cost ? in("wf") : double(0);
  cost(costs, "a", ra, wa);
  cost(costs, "e", re, we);
  if (force_cost) cost(costs, "f", std::make_shared<ResidualModelContactForceTpl<double>>(r.state, 1, Force(Force::Vector6(Vec(Vec::Unit(6, 2) * in("fref")))), 1, nu, true), wf);
  Manager k;
  const bool managed = c("managed");
  if (managed) {
    k.m = std::make_shared<ConstraintModelManagerTpl<double>>(r.state, nu);
    k.lb = in_vec("lb", NV);
    k.ub = in_vec("ub", NV);
    for (long i = 0; i < NV; ++i) assume(lt(k.lb(i), k.ub(i)) & ge(k.lb(i), -100) & le(k.ub(i), 100));
    k.m->addConstraint("a", std::make_shared<ConstraintModelResidualTpl<double>>(r.state, ra, k.lb, k.ub));
    k.m->addConstraint("e", std::make_shared<ConstraintModelResidualTpl<double>>(r.state, re));
  }
  const bool armature = c("armature");
  const Vec A = armature ? in_vec("armature", NV) : Vec(Vec::Zero(NV));
  if (armature) for (long i = 0; i < NV; ++i) assume(ge(A(i), 0));
  double mu = 0;
  if (c("damped")) { mu = in("damping"); assume(ge(mu, 0.01)); }
  std::shared_ptr<DifferentialActionModelAbstractTpl<double>> m;
  if (how == 0) {
    typedef DifferentialActionModelFreeFwdDynamicsTpl<double> M;
    auto f = managed ? std::make_shared<M>(r.state, act, costs, k.m) : std::make_shared<M>(r.state, act, costs);
    if (armature) f->set_armature(A);
    f = maybe_copy(f);
    check_eqm("armature", Vec(f->get_armature()), A);
    m = f;
  } else {
    typedef DifferentialActionModelContactFwdDynamicsTpl<double> M;
    const bool later = flag("later");
    const double mu0 = later ? double(0) : mu;
    auto f = managed ? std::make_shared<M>(r.state, act, contacts, costs, k.m, mu0, true) : std::make_shared<M>(r.state, act, contacts, costs, mu0, true);
    if (later) f->set_damping_factor(mu);
    if (armature) f->set_armature(A);
    f = maybe_copy(f);
    check_eqm("armature", Vec(f->get_armature()), A);
    check_eq("damping", f->get_damping_factor(), mu);
    m = f;
  }
  check_eqm("torque limits", Vec(m->get_u_lb()), Vec(-r.model->effortLimit));
  check_eqm("torque limits", Vec(m->get_u_ub()), Vec(r.model->effortLimit));
  check_true("sizes", (long)m->get_nu() == nu && (long)m->get_ng() == (managed ? NV : 0) && (long)m->get_nh() == (managed ? nu : 0));
  if (!managed) bounds(*m, false, k.lb, k.ub);
  // invertibility of the constrained inertia
  {
    const long N = NV + nc;
    Mat K = Mat::Zero(N, N);
    K.topLeftCorner(NV, NV) = r.t().M;
    K.topLeftCorner(NV, NV).diagonal() += A;
    for (long i = 0; i < nc; ++i) {
      K.block(NV + i, 0, 1, NV) = r.t().J[on[i] + 1].transpose();
      K.block(0, NV + i, NV, 1) = r.t().J[on[i] + 1];
      K(NV + i, NV + i) = -mu;
    }
    const double dt = pinocchio::Terms::det(K);
    assume(nc % 2 ? lt(dt, -0.05) : gt(dt, 0.05));
  }
  const Vec u = Vec(in_vec("u", nu) + in_vec("d0.u", nu));
  auto data = m->createData();
  if (flag("used")) {
    Vec y = Vec::Constant(NX, 2), w = Vec::Constant(nu, 1);
    y.head(NV).setZero();
    m->calc(data, y, w);
    m->calcDiff(data, y, w);
  }
  m->calc(data, r.x, u);
  if (managed) bounds(*m, true, k.lb, k.ub);
  // equations of motion
  const Vec a = data->xout;
  Vec tau = act->t + act->S * u + act->Tx * r.dx;
  for (long i = 0; i < nu; ++i) tau += u(i) * (act->SX[i] * r.dx);
  Vec lhs = r.inertia(a) + A.cwiseProduct(a) + r.bias() - tau;
  Vec f = Vec::Zero(n);
  if (how == 1) {
    auto d = std::static_pointer_cast<DifferentialActionDataContactFwdDynamicsTpl<double>>(data);
    for (long i = 0; i < n; ++i) f(i) = d->multibody.contacts->contacts.at("leg" + num(i))->f.toVector()(2);
    for (long i = 0; i < n; ++i) lhs -= r.legs[i]->J_at(r.q).transpose() * f(i);
    for (long i = 0; i < n; ++i) {
      bool is = false;
      for (long j : on) is = is || j == i;
      if (!is) check_eq("no force without contact", f(i), 0);
      else check_eq("contact constraint", (r.legs[i]->J_at(r.q) * a)(0) + r.legs[i]->drift(r.q, r.v) + mu * f(i), 0);
    }
  }
  check_eqm("equations of motion", lhs, Vec(Vec::Zero(NV)));
  const Vec sa = a - in_vec("aref", NV), se = u - in_vec("eref", nu);
  double total = wa * half(sa) + we * half(se);
  if (force_cost) { const double e = f(0) - in("fref"); total += wf * 0.5 * e * e; }
  check_eq("cost", data->cost, total);
  if (managed) {
    check_eqm("inequality", Vec(data->g), sa);
    check_eqm("equality", Vec(data->h), se);
  }
  const double cst = data->cost;
  const Vec g = data->g, h = data->h;
  m->calcDiff(data, r.x, u);
  check_jac("acceleration by state", "a", a, "d0.x", Mat(data->Fx));
  check_jac("acceleration by control", "a", a, "d0.u", Mat(data->Fu));
  check_jac1("cost by state", "cost", cst, "d0.x", Vec(data->Lx));
  check_jac1("cost by control", "cost", cst, "d0.u", Vec(data->Lu));
  if (managed) {
    check_jac("inequality by state", "g", g, "d0.x", Mat(data->Gx));
    check_jac("inequality by control", "g", g, "d0.u", Mat(data->Gu));
    check_jac("equality by state", "h", h, "d0.x", Mat(data->Hx));
    check_jac("equality by control", "h", h, "d0.u", Mat(data->Hu));
  }
  if (how == 1) {
    auto d = std::static_pointer_cast<DifferentialActionDataContactFwdDynamicsTpl<double>>(data);
    for (long i = 0; i < n; ++i) {
      Vec fi(1);
      fi << f(i);
      check_jac("force by state", "f", fi, "d0.x", Mat(d->multibody.contacts->contacts.at("leg" + num(i))->df_dx));
      check_jac("force by control", "f", fi, "d0.u", Mat(d->multibody.contacts->contacts.at("leg" + num(i))->df_du));
    }
  }
}
static void impulse(const Case &c) {
  const long n = c("contacts");
  Robot r(n);
  auto impulses = std::make_shared<ImpulseModelMultipleTpl<double>>(r.state);
  std::vector<long> on;
  for (long i = 0; i < n; ++i) {
    const bool active = c("active") & (1 << i);
    impulses->addImpulse("leg" + num(i), std::make_shared<Impulse>(r.state, *r.legs[i]), active);
    if (active) on.push_back(i);
  }
  const long nc = (long)on.size();
  auto costs = std::make_shared<CostModelSumTpl<double>>(r.state, 0);
  const double wf = n ? in("wf") : double(0), fref = in("fref");
  auto rf = std::make_shared<ForceRes>(r.state, fref);
  if (n) cost(costs, "f", rf, wf);
  Manager k;
  const bool managed = c("managed");
  if (managed) {
    k.m = std::make_shared<ConstraintModelManagerTpl<double>>(r.state, 0);
    k.lb = in_vec("lb", 1);
    k.ub = in_vec("ub", 1);
    assume(lt(k.lb(0), k.ub(0)) & ge(k.lb(0), -100) & le(k.ub(0), 100));
    k.m->addConstraint("f", std::make_shared<ConstraintModelResidualTpl<double>>(r.state, rf, k.lb, k.ub));
  }
  const bool armature = c("armature");
  const Vec A = armature ? in_vec("armature", NV) : Vec(Vec::Zero(NV));
  if (armature) for (long i = 0; i < NV; ++i) assume(ge(A(i), 0));
  double mu = 0, rest = 0;
  if (c("damped")) { mu = in("damping"); assume(ge(mu, 0.01)); }
  if (c("bouncing")) { rest = in("restitution"); assume(ge(rest, 0)); }
  typedef ActionModelImpulseFwdDynamicsTpl<double> M;
  const bool later = flag("later");
  const double mu0 = later ? double(0) : mu, r0 = later ? double(0) : rest;
  auto m = managed ? std::make_shared<M>(r.state, impulses, costs, k.m, r0, mu0, true) : std::make_shared<M>(r.state, impulses, costs, r0, mu0, true);
  if (later) { m->set_damping_factor(mu); m->set_restitution_coefficient(rest); }
  if (armature) m->set_armature(A);
  m = maybe_copy(m);
  check_eqm("armature", Vec(m->get_armature()), A);
  check_eq("damping", m->get_damping_factor(), mu);
  check_eq("restitution", m->get_restitution_coefficient(), rest);
  check_true("sizes", m->get_nu() == 0 && (long)m->get_ng() == (managed ? 1 : 0) && m->get_nh() == 0);
  if (!managed) bounds(*m, false, k.lb, k.ub);
  {
    const long N = NV + nc;
    Mat K = Mat::Zero(N, N);
    K.topLeftCorner(NV, NV) = r.t().M;
    K.topLeftCorner(NV, NV).diagonal() += A;
    for (long i = 0; i < nc; ++i) {
      K.block(NV + i, 0, 1, NV) = r.t().J[on[i] + 1].transpose();
      K.block(0, NV + i, NV, 1) = r.t().J[on[i] + 1];
      K(NV + i, NV + i) = -mu;
    }
    const double dt = pinocchio::Terms::det(K);
    assume(nc % 2 ? lt(dt, -0.05) : gt(dt, 0.05));
  }
  const Vec u(0);
  auto data = m->createData();
  if (flag("used")) {
    Vec y = Vec::Constant(NX, 2);
    y.head(NV).setZero();
    m->calc(data, y, u);
    m->calcDiff(data, y, u);
  }
  const bool terminal = flag("terminal");
  if (terminal) m->calc(data, r.x);
  else m->calc(data, r.x, u);
  if (managed) bounds(*m, true, k.lb, k.ub);
  auto d = std::static_pointer_cast<ActionDataImpulseFwdDynamicsTpl<double>>(data);
  const Vec xn = data->xnext, vn = xn.tail(NV), dv = vn - r.v;
  check_eqm("the configuration does not jump", Vec(xn.head(NV)), r.q);
  Vec lhs = r.inertia(dv) + A.cwiseProduct(dv), f(n);
  for (long i = 0; i < n; ++i) f(i) = d->multibody.impulses->impulses.at("leg" + num(i))->f.toVector()(2);
  for (long i = 0; i < n; ++i) {
    lhs -= r.legs[i]->J_at(r.q).transpose() * f(i);
    bool is = false;
    for (long j : on) is = is || j == i;
    if (!is) check_eq("no impulse without contact", f(i), 0);
    else check_eq("velocity after the impact", (r.legs[i]->J_at(r.q) * (vn + rest * r.v))(0) + mu * f(i), 0);
  }
  check_eqm("impulse changes the momentum", lhs, Vec(Vec::Zero(NV)));
  if (n) check_eq("cost", data->cost, wf * 0.5 * (f(0) - fref) * (f(0) - fref));
  const double cst = data->cost;
  const Vec g = data->g;
  if (terminal) m->calcDiff(data, r.x);
  else m->calcDiff(data, r.x, u);
  check_jac("next state", "xn", xn, "d0.x", Mat(data->Fx));
  {
    check_jac1("cost by state", "cost", cst, "d0.x", Vec(data->Lx));
    if (managed) check_jac("inequality by state", "g", g, "d0.x", Mat(data->Gx));
  }
  for (long i = 0; i < n; ++i) {
    Vec fi(1);
    fi << f(i);
    check_jac("impulse by state", "f", fi, "d0.x", Mat(d->multibody.impulses->impulses.at("leg" + num(i))->df_dx));
  }
}
// the control (and contact forces) that holds the robot still: least-norm solution of S u + J' f = gravity
static void quasi(const Case &c) {
  const long n = c("contacts"), how = c("how"), na = c("na");  // how: 0 free forward, 1 contact forward, 2 free inverse, 3 contact inverse
  const bool contact = how % 2, inv = how >= 2;
  Robot r(n);
  const long nu = inv ? NV + (contact ? n : 0) : na;
  auto act = std::make_shared<Actuation>(r.state, na, r.x0);
  act->S = in_mat("act_S", NV, na);
  if (inv) act->set[0] = na == 2;
  auto contacts = std::make_shared<ContactModelMultipleTpl<double>>(r.state, nu);
  std::vector<bool> on;
  for (long i = 0; i < n; ++i) {
    on.push_back(c("active") & (1 << i));
    contacts->addContact("leg" + num(i), std::make_shared<Contact>(r.state, *r.legs[i], nu), on[i]);
  }
  auto costs = std::make_shared<CostModelSumTpl<double>>(r.state, nu);
  std::shared_ptr<DifferentialActionModelAbstractTpl<double>> m;
  if (how == 0) m = std::make_shared<DifferentialActionModelFreeFwdDynamicsTpl<double>>(r.state, act, costs);
  else if (how == 1) m = std::make_shared<DifferentialActionModelContactFwdDynamicsTpl<double>>(r.state, act, contacts, costs, double(0), true);
  else if (how == 2) m = std::make_shared<DifferentialActionModelFreeInvDynamicsTpl<double>>(r.state, act, costs);
  else m = std::make_shared<DifferentialActionModelContactInvDynamicsTpl<double>>(r.state, act, contacts, costs);
  auto data = m->createData();
  auto evaluate = [&] {
    Vec y = Vec::Constant(NX, 2), w = Vec::Constant(nu, 1);
    y.head(NV).setZero();
    m->calc(data, y, w);
    if (choose("derivatives", 2)) m->calcDiff(data, y, w);
  };
  {
    Mat K = r.t().M;  // evaluations before are well posed
    for (long i = 0; i < n; ++i) assume(gt(r.t().J[i + 1].squaredNorm(), 0.05));
  }
  if (choose("used", 2)) evaluate();
  if (n && choose("switch", 2)) {
    contacts->changeContactStatus("leg0", !on[0]);
    on[0] = !on[0];
  }
  long nc = 0;
  for (long i = 0; i < n; ++i) nc += on[i];
  Mat A(NV, na + nc);
  A.leftCols(na) = act->S;
  for (long i = 0, j = na; i < n; ++i) if (on[i]) A.col(j++) = r.legs[i]->J_at(r.q).transpose();
  const Mat At = A.transpose(), G = A.cols() < NV ? Mat(At * A) : Mat(A * At);
  assume(gt(pinocchio::Terms::det(G), 0.05));
  const Vec g = r.t().g_at(r.q);
  const Mat Gi = pinocchio::Terms::inverse(G);
  const Vec sol = A.cols() < NV ? Vec(Gi * (At * g)) : Vec(At * (Gi * g));
  Vec want = Vec::Zero(nu);
  if (!inv) want = sol.head(na);
  else if (contact) for (long i = 0, j = na; i < n; ++i) if (on[i]) want(NV + i) = sol(j++);
  Vec u = Vec::Constant(nu, 7);
  for (long again = 0; again < 2; ++again) {
    m->quasiStatic(data, u, r.x, 100, double(1e-9));
    check_eqm("quasi-static control", u, want);
    if (again) break;
    if (choose("between", 2)) break;
  }
}
static void inverse(const Case &c) {
  may_repeat("aref");
  may_repeat("eref");
  may_repeat("fref");
  const long n = c("contacts"), how = c("how");  // 0 free, 1 contact
  Robot r(n);
  const long na = c("under") ? 1 : 2, nu = NV + (how ? n : 0);
  auto act = std::make_shared<Actuation>(r.state, na, r.x0);
  if (na == 1) { act->set[0] = false; act->S(1, 0) = 1; }
  else act->S = Mat::Identity(NV, NV);
  act->Mtau = in_mat("Mtau", na, NV);
  auto contacts = std::make_shared<ContactModelMultipleTpl<double>>(r.state, nu);
  std::vector<bool> on;
  for (long i = 0; i < n; ++i) {
    on.push_back(c("active") & (1 << i));
    contacts->addContact("leg" + num(i), std::make_shared<Contact>(r.state, *r.legs[i], nu), on[i]);
  }
  auto ra = std::make_shared<ResidualModelJointAccelerationTpl<double>>(r.state, in_vec("aref", NV), nu);
  auto re = std::make_shared<ResidualModelJointEffortTpl<double>>(r.state, act, in_vec("eref", na), nu, false);
  auto costs = std::make_shared<CostModelSumTpl<double>>(r.state, nu);
  const double wa = in("wa"), we = in("we");
  cost(costs, "a", ra, wa);
  cost(costs, "e", re, we);
  const bool managed = c("managed");
  Manager k;
  if (managed) {
    k.m = std::make_shared<ConstraintModelManagerTpl<double>>(r.state, nu);
    k.lb = in_vec("lb", na);
    k.ub = in_vec("ub", na);
    for (long i = 0; i < na; ++i) assume(lt(k.lb(i), k.ub(i)) & ge(k.lb(i), -100) & le(k.ub(i), 100));
    k.m->addConstraint("zz", std::make_shared<ConstraintModelResidualTpl<double>>(r.state, re, k.lb, k.ub));
  }
  std::shared_ptr<DifferentialActionModelAbstractTpl<double>> m;
  if (how == 0) {
    typedef DifferentialActionModelFreeInvDynamicsTpl<double> M;
    m = maybe_copy(managed ? std::make_shared<M>(r.state, act, costs, k.m) : std::make_shared<M>(r.state, act, costs));
  } else {
    typedef DifferentialActionModelContactInvDynamicsTpl<double> M;
    auto f = managed ? std::make_shared<M>(r.state, act, contacts, costs, k.m) : std::make_shared<M>(r.state, act, contacts, costs);
    m = f = maybe_copy(f);
    contacts = f->get_contacts();
  }
  const long nh = NV - na + (how ? n : 0);
  check_true("sizes", (long)m->get_nu() == nu && (long)m->get_ng() == (managed ? na : 0) && (long)m->get_nh() == nh);
  const Vec u = Vec(in_vec("u", nu) + in_vec("d0.u", nu));
  auto data = m->createData();
  if (flag("used")) {
    Vec y = Vec::Constant(NX, 2), w = Vec::Constant(nu, 1);
    y.head(NV).setZero();
    m->calc(data, y, w);
    m->calcDiff(data, y, w);
  }
  if (how && n && flag("switch")) {  // the status of a contact changes between two evaluations
    contacts->changeContactStatus("leg0", !on[0]);
    on[0] = !on[0];
  }
  m->calc(data, r.x, u);
  if (managed) bounds(*m, true, k.lb, k.ub);
  const Vec a = u.head(NV), f = u.tail(nu - NV);
  check_eqm("acceleration", Vec(data->xout), a);
  Vec tau = r.inertia(a) + r.bias();
  if (how) for (long i = 0; i < n; ++i) if (on[i]) tau -= r.legs[i]->J_at(r.q).transpose() * f(i);
  const Vec sa = a - in_vec("aref", NV), se = act->Mtau * tau - in_vec("eref", na);
  check_eq("cost", data->cost, wa * half(sa) + we * half(se));
  if (managed) check_eqm("inequality", Vec(data->g), se);
  // constraints by alphabetical order: legs, then torque. The force of an
  // inactive contact is a control with no effect: the row of the contact may
  // be that force or zero, and its Jacobian is the unit row of that force.
  Vec want(nh);
  long row = 0;
  std::vector<long> idle;
  if (how) for (long i = 0; i < n; ++i) {
    if (on[i]) want(row++) = (r.legs[i]->J_at(r.q) * a)(0) + r.legs[i]->drift(r.q, r.v);
    else {
      idle.push_back(row);
      check("force of an inactive contact", eq(data->h(row), f(i)) | eq(data->h(row), 0));
      want(row) = data->h(row);
      ++row;
    }
  }
  if (na == 1) want(row++) = tau(0);
  // an inactive contact carries no force: its force enters the equations only through its own constraint
  check_true("number of equalities", data->h.size() == nh && row == nh);
  check_eqm("equality", Vec(data->h), want);
  const double cst = data->cost;
  const Vec g = data->g, h = data->h;
  m->calcDiff(data, r.x, u);
  check_eqm("acceleration by state", Mat(data->Fx), Mat(Mat::Zero(NV, NX)));
  Mat Fu = Mat::Zero(NV, nu);
  Fu.leftCols(NV).setIdentity();
  check_eqm("acceleration by control", Mat(data->Fu), Fu);
  check_jac1("cost by state", "cost", cst, "d0.x", Vec(data->Lx));
  check_jac1("cost by control", "cost", cst, "d0.u", Vec(data->Lu));
  if (managed) {
    check_jac("inequality by state", "g", g, "d0.x", Mat(data->Gx));
    check_jac("inequality by control", "g", g, "d0.u", Mat(data->Gu));
  }
  Vec hh = h;
  for (long i = 0, j = 0; how && i < n; ++i) if (!on[i]) hh(idle[j++]) = f(i);
  check_jac("equality by state", "h", hh, "d0.x", Mat(data->Hx));
  check_jac("equality by control", "h", hh, "d0.u", Mat(data->Hu));
}
REGISTER(
  for (long na = 1; na < 3; ++na) {
    add_case("quasi", quasi, {{"how", 0}, {"na", na}, {"contacts", 0}, {"active", 0}});
    add_case("quasi", quasi, {{"how", 2}, {"na", na}, {"contacts", 0}, {"active", 0}});
    for (long how = 1; how < 4; how += 2) {
      add_case("quasi", quasi, {{"how", how}, {"na", na}, {"contacts", 1}, {"active", 1}});
      add_case("quasi", quasi, {{"how", how}, {"na", na}, {"contacts", 2}, {"active", 2}});
    }
  }
  for (long arm = 0; arm < 2; ++arm)
    for (long man = 0; man < 2; ++man) {
      add_case("forward", forward, {{"how", 0}, {"contacts", 0}, {"active", 0}, {"armature", arm}, {"damped", 0}, {"managed", man}});
      for (long damped = 0; damped < 2; ++damped) {
        add_case("forward", forward, {{"how", 1}, {"contacts", 1}, {"active", 1}, {"armature", arm}, {"damped", damped}, {"managed", man}});
        for (long b = 0; b < 2; ++b) add_case("impulse", impulse, {{"contacts", 1}, {"active", 1}, {"armature", arm}, {"damped", damped}, {"bouncing", b}, {"managed", man}});
      }
    }
  add_case("forward", forward, {{"how", 1}, {"contacts", 0}, {"active", 0}, {"armature", 0}, {"damped", 0}, {"managed", 0}});
  add_case("forward", forward, {{"how", 1}, {"contacts", 2}, {"active", 2}, {"armature", 0}, {"damped", 0}, {"managed", 0}});
  add_case("impulse", impulse, {{"contacts", 2}, {"active", 2}, {"armature", 0}, {"damped", 0}, {"bouncing", 1}, {"managed", 0}});
  for (long man = 0; man < 2; ++man)
    for (long under = 0; under < 2; ++under) {
      add_case("inverse", inverse, {{"how", 0}, {"contacts", 0}, {"active", 0}, {"under", under}, {"managed", man}});
      add_case("inverse", inverse, {{"how", 1}, {"contacts", 1}, {"active", 1}, {"under", under}, {"managed", man}});
      add_case("inverse", inverse, {{"how", 1}, {"contacts", 2}, {"active", 1 + (under ^ man)}, {"under", under}, {"managed", man}});
    }
)
