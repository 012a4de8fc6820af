// Control, joint-effort and joint-acceleration residuals.
// BOUNDS: 1..2 joints (quick), 3 (thorough), 1..3 controls; every joint data value, reference and control; fresh data or data used before for another node
// OUTSIDE: floating-point rounding
#include "sym/harness.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
using namespace vf;
using namespace crocoddyl;
typedef ResidualModelAbstractTpl<double> Res;
typedef ResidualDataAbstractTpl<double> ResData;
typedef ActuationDataAbstractTpl<double> ActuationData;

struct Actuation : ActuationModelAbstractTpl<double> {
  Actuation(std::shared_ptr<StateAbstractTpl<double>> s, std::size_t nu) : ActuationModelAbstractTpl<double>(s, nu) {}
  void calc(const std::shared_ptr<ActuationData> &, const Eigen::Ref<const Vec> &, const Eigen::Ref<const Vec> &) override {}
  void calcDiff(const std::shared_ptr<ActuationData> &, const Eigen::Ref<const Vec> &, const Eigen::Ref<const Vec> &) override {}
  void commands(const std::shared_ptr<ActuationData> &, const Eigen::Ref<const Vec> &, const Eigen::Ref<const Vec> &) override {}
};
typedef JointDataAbstractTpl<double> Joint;
static void fill(Joint &j, const std::string &p) {
  j.tau = in_vec(p + "tau", j.tau.size());
  j.a = in_vec(p + "a", j.a.size());
  j.dtau_dx = in_mat(p + "dtau_dx", j.dtau_dx.rows(), j.dtau_dx.cols());
  j.dtau_du = in_mat(p + "dtau_du", j.dtau_du.rows(), j.dtau_du.cols());
  j.da_dx = in_mat(p + "da_dx", j.da_dx.rows(), j.da_dx.cols());
  j.da_du = in_mat(p + "da_du", j.da_du.rows(), j.da_du.cols());
}

static void control(const Case &c) {
  const long nv = c("nv"), nu = c("nu");
  auto state = std::make_shared<StateVectorTpl<double>>(2 * nv);
  std::shared_ptr<ResidualModelControlTpl<double>> m;
  Vec uref = in_vec("uref", nu);
  const long kind = choose("ctor", 3);
  if (kind == 0) m = std::make_shared<ResidualModelControlTpl<double>>(state, uref);
  if (kind == 1) m = std::make_shared<ResidualModelControlTpl<double>>(state, (std::size_t)nu);
  if (kind == 2) m = std::make_shared<ResidualModelControlTpl<double>>(state);
  const long n = kind == 2 ? nv : nu;
  check_true("dimensions", (long)m->get_nr() == n && (long)m->get_nu() == n && m->get_reference().size() == n);
  check_true("depends on the control only", !m->get_q_dependent() && !m->get_v_dependent() && m->get_u_dependent());
  Vec ref = kind == 0 ? uref : Vec(Vec::Zero(n));
  check_eqm("initial reference", m->get_reference(), ref);
  Vec x = in_vec("x", 2 * nv), u = in_vec("u", n);
  DataCollectorAbstractTpl<double> coll;
  auto d = m->createData(&coll);
  if (flag("used_before")) {
    Vec z = in_vec("z", n);
    m->calc(d, x, z);
    m->calcDiff(d, x, z);
    if (flag("as_terminal")) {
      std::shared_ptr<Res>(m)->calc(d, x);
      std::shared_ptr<Res>(m)->calcDiff(d, x);
    }
  }
  if (flag("set_reference")) {
    ref = in_vec("ref2", n);
    m->set_reference(ref);
    check_eqm("reference stored", m->get_reference(), ref);
  }
  m->calc(d, x, u);
  check_eqm("residual is u minus the reference", d->r, u - ref);
  Vec r = d->r;
  m->calcDiff(d, x, u);
  check_eqm("calcDiff keeps the residual", d->r, r);
  check_jac("Rx", "r", r, "x", d->Rx);
  check_jac("Ru", "ru", r, "u", d->Ru);
  std::shared_ptr<Res>(m)->calc(d, x);
  check_eqm("no control residual at a terminal node", d->r, Vec::Zero(n));
  std::shared_ptr<Res>(m)->calcDiff(d, x);
  check_eqm("terminal Rx", d->Rx, Mat::Zero(n, 2 * nv));
  m->calc(d, x, u);
  m->calcDiff(d, x, u);
  check_eqm("residual after a terminal evaluation", d->r, u - ref);
  check_eqm("Ru after a terminal evaluation", d->Ru, Mat::Identity(n, n));
  Vec bad = Vec::Zero(n + 1);
  check_true("wrong control dimension rejected", throws([&]() { m->calc(d, x, bad); }));
  check_true("wrong reference dimension rejected", throws([&]() { m->set_reference(bad); }));
  check_true("no control dimension rejected", throws([&]() { ResidualModelControlTpl<double> z(state, (std::size_t)0); }) && throws([&]() { ResidualModelControlTpl<double> z(state, Vec(Vec::Zero(0))); }));
}

static void effort(const Case &c) {
  const long nv = c("nv"), nu = c("nu"), na = c("na");
  auto state = std::make_shared<StateVectorTpl<double>>(2 * nv);
  auto act = std::make_shared<Actuation>(state, na);
  typedef ResidualModelJointEffortTpl<double> M;
  Vec uref = in_vec("uref", na);
  const long kind = choose("ctor", 5);
  std::shared_ptr<M> m;
  if (kind == 0) m = std::make_shared<M>(state, act, uref, nu, true);
  if (kind == 1) m = std::make_shared<M>(state, act, uref, nu, false);
  if (kind == 2) m = std::make_shared<M>(state, act, uref);
  if (kind == 3) m = std::make_shared<M>(state, act, (std::size_t)nu);
  if (kind == 4) m = std::make_shared<M>(state, act);
  const bool fwd = kind == 0;
  const long n = (kind == 2 || kind == 4) ? nv : nu;
  check_true("dimensions", (long)m->get_nr() == na && (long)m->get_nu() == n && m->get_reference().size() == na);
  check_true("dependencies", m->get_q_dependent() == !fwd && m->get_v_dependent() == !fwd && m->get_u_dependent());
  Vec ref = kind <= 2 ? uref : Vec(Vec::Zero(na));
  check_eqm("initial reference", m->get_reference(), ref);
  auto joint = std::make_shared<Joint>(state, act, n);
  DataCollectorJointTpl<double> coll(joint);
  auto d = m->createData(&coll);
  Vec x = in_vec("x", 2 * nv), u = in_vec("u", n);
  if (flag("used_before")) {
    fill(*joint, "old_");
    m->calc(d, x, u);
    m->calcDiff(d, x, u);
    if (flag("as_terminal")) {
      std::shared_ptr<Res>(m)->calc(d, x);
      std::shared_ptr<Res>(m)->calcDiff(d, x);
    }
  }
  if (flag("set_reference")) {
    ref = in_vec("ref2", na);
    m->set_reference(ref);
    check_eqm("reference stored", m->get_reference(), ref);
  }
  fill(*joint, "");
  m->calc(d, x, u);
  m->calcDiff(d, x, u);
  check_eqm("residual is the joint effort minus the reference", d->r, joint->tau - ref);
  check_eqm("Rx", d->Rx, fwd ? Mat(Mat::Zero(na, 2 * nv)) : Mat(joint->dtau_dx));
  check_eqm("Ru", d->Ru, joint->dtau_du);
  observe("r", Vec(d->r));
  std::shared_ptr<Res>(m)->calc(d, x);
  std::shared_ptr<Res>(m)->calcDiff(d, x);
  check_eqm("terminal residual", d->r, fwd ? Vec(Vec::Zero(na)) : Vec(joint->tau - ref));
  check_eqm("terminal Rx", d->Rx, fwd ? Mat(Mat::Zero(na, 2 * nv)) : Mat(joint->dtau_dx));
  if (!fwd) check_eqm("terminal Ru", d->Ru, joint->dtau_du);
  check_true("wrong reference dimension rejected", throws([&]() { m->set_reference(Vec::Zero(na + 1)); }));
  check_true("constructor rejects a wrong reference dimension", throws([&]() { M z(state, act, Vec(Vec::Zero(na + 1)), nu, fwd); }) && throws([&]() { M z(state, act, Vec(Vec::Zero(na + 1))); }));
  check_true("no control dimension rejected", throws([&]() { M z(state, act, (std::size_t)0); }) && throws([&]() { M z(state, act, uref, 0, fwd); }));
  DataCollectorAbstractTpl<double> other;
  check_true("a data collector without joint data is rejected", throws([&]() { m->createData(&other); }));
}

static void acceleration(const Case &c) {
  const long nv = c("nv"), nu = c("nu");
  auto state = std::make_shared<StateVectorTpl<double>>(2 * nv);
  auto act = std::make_shared<Actuation>(state, nu);
  typedef ResidualModelJointAccelerationTpl<double> M;
  Vec aref = in_vec("aref", nv);
  const long kind = choose("ctor", 4);
  std::shared_ptr<M> m;
  if (kind == 0) m = std::make_shared<M>(state, aref, (std::size_t)nu);
  if (kind == 1) m = std::make_shared<M>(state, aref);
  if (kind == 2) m = std::make_shared<M>(state, (std::size_t)nu);
  if (kind == 3) m = std::make_shared<M>(state);
  const long n = (kind == 1 || kind == 3) ? nv : nu;
  check_true("dimensions", (long)m->get_nr() == nv && (long)m->get_nu() == n && m->get_reference().size() == nv);
  check_true("dependencies", m->get_q_dependent() && m->get_v_dependent() && m->get_u_dependent());
  Vec ref = kind <= 1 ? aref : Vec(Vec::Zero(nv));
  check_eqm("initial reference", m->get_reference(), ref);
  auto joint = std::make_shared<Joint>(state, act, n);
  DataCollectorJointTpl<double> coll(joint);
  auto d = m->createData(&coll);
  Vec x = in_vec("x", 2 * nv), u = in_vec("u", n);
  if (flag("used_before")) {
    fill(*joint, "old_");
    m->calc(d, x, u);
    m->calcDiff(d, x, u);
    if (flag("as_terminal")) {
      std::shared_ptr<Res>(m)->calc(d, x);
      std::shared_ptr<Res>(m)->calcDiff(d, x);
    }
  }
  if (flag("set_reference")) {
    ref = in_vec("ref2", nv);
    m->set_reference(ref);
    check_eqm("reference stored", m->get_reference(), ref);
  }
  fill(*joint, "");
  m->calc(d, x, u);
  m->calcDiff(d, x, u);
  check_eqm("residual is the joint acceleration minus the reference", d->r, joint->a - ref);
  check_eqm("Rx", d->Rx, joint->da_dx);
  check_eqm("Ru", d->Ru, joint->da_du);
  observe("r", Vec(d->r));
  std::shared_ptr<Res>(m)->calc(d, x);
  std::shared_ptr<Res>(m)->calcDiff(d, x);
  check_eqm("terminal residual", d->r, Vec::Zero(nv));
  check_eqm("terminal Rx is the derivative of the terminal residual", d->Rx, Mat::Zero(nv, 2 * nv));
  check_true("wrong reference dimension rejected", throws([&]() { m->set_reference(Vec::Zero(nv + 1)); }));
  check_true("constructor rejects a wrong reference dimension", throws([&]() { M z(state, Vec(Vec::Zero(nv + 1)), (std::size_t)nu); }) && throws([&]() { M z(state, Vec(Vec::Zero(nv + 1))); }));
  DataCollectorAbstractTpl<double> other;
  check_true("a data collector without joint data is rejected", throws([&]() { m->createData(&other); }));
}
REGISTER(for (long nv = 1; nv <= 3; ++nv) for (long nu = 1; nu <= 3; ++nu) {
  const bool q = nv <= 2 && nu <= 2;
  add_case("control", control, {{"nv", nv}, {"nu", nu}}, !q);
  add_case("acceleration", acceleration, {{"nv", nv}, {"nu", nu}}, !q);
  add_case("effort", effort, {{"nv", nv}, {"nu", nu}, {"na", nv}}, !q);
} add_case("effort", effort, {{"nv", 3}, {"nu", 4}, {"na", 2}}, 0);)
