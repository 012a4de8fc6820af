// Kinematic residuals: state, centre of mass, momentum, frame placement, rotation, translation and velocity, gravity torque, impact velocity of the centre of mass.
// BOUNDS: two joint velocities, two frames, every frame orientation except half turns, every position, motion, reference and first derivative; local, world and local-world-aligned velocities; construction, later change of frame, reference or type; fresh or used data; states on flat, joint-wise curved and arbitrary curved manifolds; weighted quadratic activations
// OUTSIDE: Pinocchio (the kinematics are arbitrary values consistent to first order); logarithms (any function with its Jacobian); actuations depending on the state; derivatives of the residual with contact forces next to gravity while forces act; collisions; floating-point rounding
#include "sym/harness.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/data/actuation.hpp"
#include "pinocchio/utils/static-if.hpp"
#include "crocoddyl/multibody/impulses/multiple-impulses.hpp"
#include "crocoddyl/multibody/data/impulses.hpp"
#include "crocoddyl/multibody/residuals/state.hpp"
#include "crocoddyl/multibody/residuals/com-position.hpp"
#include "crocoddyl/multibody/residuals/centroidal-momentum.hpp"
#include "crocoddyl/multibody/residuals/frame-placement.hpp"
#include "crocoddyl/multibody/residuals/frame-rotation.hpp"
#include "crocoddyl/multibody/residuals/frame-translation.hpp"
#include "crocoddyl/multibody/residuals/frame-velocity.hpp"
#include "crocoddyl/multibody/residuals/control-gravity.hpp"
#include "crocoddyl/multibody/residuals/impulse-com.hpp"
#include "crocoddyl/multibody/contacts/multiple-contacts.hpp"
#include "crocoddyl/multibody/data/contacts.hpp"
#include "crocoddyl/multibody/residuals/contact-control-gravity.hpp"
using namespace vf;
using namespace crocoddyl;
template class crocoddyl::ResidualModelStateTpl<double>;
typedef Eigen::Ref<const Vec> VR;
typedef StateMultibodyTpl<double> State;
typedef ResidualModelAbstractTpl<double> Res;
typedef pinocchio::DataTpl<double> PData;
typedef pinocchio::SE3Tpl<double> SE3;
typedef pinocchio::MotionTpl<double> Motion;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, Eigen::Dynamic> M6x;
static const long NV = 2, NX = 4;
static M3 hat(const V3 &a) {
  M3 m;
  m << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
  return m;
}
static M3 rotation(const V3 &g) {  // Cayley: every rotation but half turns
  const double n = g(0) * g(0) + g(1) * g(1) + g(2) * g(2);
  M3 R = M3::Identity() * (1 - n) + 2 * hat(g);
  for (long i = 0; i < 3; ++i) for (long j = 0; j < 3; ++j) R(i, j) = (R(i, j) + 2 * g(i) * g(j)) / (1 + n);
  return R;
}
static V3 v3(double a, double b, double c) { V3 v; v << a, b, c; return v; }
static V3 in3(const std::string &n) { return V3(in_vec(n, 3)); }
static std::string num(long i) { return std::to_string(i); }
struct World {
  std::shared_ptr<pinocchio::ModelStub> model = std::make_shared<pinocchio::ModelStub>();
  std::shared_ptr<State> state;
  Vec x0, dx, x;
  SE3 M0[3];
  M6x J[3], Vq[3];
  V6 v0[3];
  V3 c0;
  V6 h0;
  Mat Jc, hq, hv;
  World() {
    model->nv = model->nq = NV;
    model->joints = {{0}, {1}, {1}};
    model->njoints = 3;
    model->nframes = 3;
    model->frames.resize(3);
    model->idx_vs = {0, 0, 1};
    model->nvs = {0, 1, 1};
    state = std::make_shared<State>(model);
    x0 = Vec::Zero(NX);
    x0.tail(NV) = in_vec("v", NV);
    dx = in_vec("d0.x", NX);
    x = x0 + dx;
    model->terms.q0 = Vec::Zero(NV);
    model->terms.M = Mat::Identity(NV, NV);
    pinocchio::Com::of() = pinocchio::Com();
  }
  Vec dq() const { return dx.head(NV); }
  Vec dv() const { return dx.tail(NV); }
  void frames() {
    for (long f = 1; f < 3; ++f) {
      const std::string n = num(f);
      M0[f] = SE3(f == 1 ? rotation(in3("g" + n)) : rotation(v3(double(1) / 2, double(1) / 3, -1)), in3("p" + n));
      J[f] = in_mat("J" + n, 6, NV);
      Vq[f] = in_mat("Vq" + n, 6, NV);
      v0[f] = in_vec("fv" + n, 6);
    }
  }
  void fill(PData &d) const {
    d.oMf.assign(3, SE3(M3::Zero(), V3::Zero()));
    d.frame_motion.resize(3);
    d.q = x.head(NV);
    d.v = x.tail(NV);
    for (long f = 1; f < 3; ++f) {
      if (J[f].size() == 0) continue;
      pinocchio::FrameMotion<double> &k = d.frame_motion[f];
      const M3 dR = hat(V3(J[f].bottomRows(3) * dq()));
      k.oMf = SE3(M3(M0[f].R + M0[f].R * dR), V3(M0[f].p + M0[f].R * (J[f].topRows(3) * dq())));
      k.J = J[f];
      k.Vq = Vq[f];
      k.v = Motion(V6(v0[f] + Vq[f] * dq() + J[f] * dv()));
    }
    if (Jc.size()) {
      d.com.assign(1, V3(c0 + Jc * dq()));
      d.Jcom = Jc;
    }
    if (hq.size()) d.hg = pinocchio::ForceTpl<double>(V6(h0 + hq * dq() + hv * dv()));
  }
};
// evaluates the residual at the state, at running and terminal nodes
static void evaluate(World &w, const std::shared_ptr<Res> &m, DataCollectorAbstractTpl<double> *shared, const Vec &want, long nu, const std::function<void()> &change, bool has_u = false, const Mat &Ru = Mat()) {
  auto d = m->createData(shared);
  const Vec u = in_vec("u", nu);
  if (flag("used")) {
    Vec y = w.x;
    m->calc(d, y, u);
    m->calcDiff(d, y, u);
  }
  if (change) change();
  check_true("size", (long)m->get_nr() == want.size() && (long)m->get_nu() == nu && d->r.size() == want.size());
  const bool terminal = !has_u && flag("terminal");
  if (terminal) m->calc(d, w.x);
  else m->calc(d, w.x, u);
  check_eqm("residual", Vec(d->r), want);
  if (terminal) m->calcDiff(d, w.x);
  else m->calcDiff(d, w.x, u);
  check_jac("residual by state", "r", Vec(d->r), "d0.x", Mat(d->Rx));
  if (has_u) check_eqm("residual by control", Mat(d->Ru), Ru);
  else check_eqm("no dependence on the control", Mat(d->Ru), Mat(Mat::Zero(want.size(), nu)));
  // what the residual declares is what it depends on
  if (!m->get_q_dependent()) check_eqm("independent of the configuration", Mat(d->Rx.leftCols(NV)), Mat(Mat::Zero(want.size(), NV)));
  if (!m->get_v_dependent()) check_eqm("independent of the velocity", Mat(d->Rx.rightCols(NV)), Mat(Mat::Zero(want.size(), NV)));
  if (has_u) check_true("depends on the control", m->get_u_dependent());
}
static long controls(const Case &c) { return c("nu"); }
static void com(const Case &c) {
  World w;
  w.c0 = in3("com");
  w.Jc = in_mat("Jcom", 3, NV);
  PData pd;
  w.fill(pd);
  DataCollectorMultibodyTpl<double> shared(&pd);
  const V3 ref = in3("ref");
  const long nu = controls(c), how = choose("how", 2);
  std::shared_ptr<ResidualModelCoMPositionTpl<double>> m;
  const V3 first = how ? v3(7, 8, 9) : ref;
  if (nu == NV && flag("default")) m = std::make_shared<ResidualModelCoMPositionTpl<double>>(w.state, first);
  else m = std::make_shared<ResidualModelCoMPositionTpl<double>>(w.state, first, nu);
  evaluate(w, m, &shared, Vec(w.c0 + w.Jc * w.dq() - ref), nu, [&] { if (how) m->set_reference(ref); check_eqm("reference", Vec(m->get_reference()), Vec(ref)); });
}
static void momentum(const Case &c) {
  World w;
  w.h0 = in_vec("h", 6);
  w.hq = in_mat("hq", 6, NV);
  w.hv = in_mat("hv", 6, NV);
  pinocchio::Com &k = pinocchio::Com::of();
  k.hq = w.hq;
  k.hv = w.hv;
  k.dq = in_mat("hdq", 6, NV);
  k.dv = in_mat("hdv", 6, NV);
  PData pd;
  w.fill(pd);
  DataCollectorMultibodyTpl<double> shared(&pd);
  const V6 ref = in_vec("ref", 6);
  const long nu = controls(c), how = choose("how", 2);
  const V6 first = how ? V6(V6::Constant(7)) : ref;
  std::shared_ptr<ResidualModelCentroidalMomentumTpl<double>> m;
  if (nu == NV && flag("default")) m = std::make_shared<ResidualModelCentroidalMomentumTpl<double>>(w.state, first);
  else m = std::make_shared<ResidualModelCentroidalMomentumTpl<double>>(w.state, first, nu);
  evaluate(w, m, &shared, Vec(w.h0 + w.hq * w.dq() + w.hv * w.dv() - ref), nu, [&] { if (how) m->set_reference(ref); check_eqm("reference", Vec(m->get_reference()), Vec(ref)); });
}
static void frame(const Case &c) {
  World w;
  w.frames();
  PData pd;
  w.fill(pd);
  DataCollectorMultibodyTpl<double> shared(&pd);
  const long nu = controls(c), what = c("what"), how = choose("how", 2), id = 1 + choose("frame", 2), id0 = how ? 3 - id : id;
  const V3 pref = in3("ref");
  const M3 Rref = rotation(v3(0, double(1) / 2, 1)), R0 = how ? M3(M3::Identity()) : Rref;
  const V3 p0 = how ? v3(1, 2, 3) : pref;
  const bool def = nu == NV && flag("default");
  const SE3 M = pd.frame_motion[id].oMf;
  check_true("frames outside the robot are rejected", throws([&] {
    if (what == 0) ResidualModelFrameTranslationTpl<double> bad(w.state, 3, p0, nu);
    else if (what == 1) ResidualModelFrameRotationTpl<double> bad(w.state, 3, R0, nu);
    else if (what == 2) ResidualModelFramePlacementTpl<double> bad(w.state, 3, SE3(R0, p0), nu);
    else ResidualModelFrameVelocityTpl<double> bad(w.state, 3, Motion::Zero(), pinocchio::LOCAL, nu);
  }));
  if (what == 0) {
    typedef ResidualModelFrameTranslationTpl<double> R;
    auto m = def ? std::make_shared<R>(w.state, id0, p0) : std::make_shared<R>(w.state, id0, p0, nu);
    evaluate(w, m, &shared, Vec(M.p - pref), nu, [&] {
      if (how) { m->set_id(id); m->set_reference(pref); }
      check_true("frame", (long)m->get_id() == id);
      check_eqm("reference", Vec(m->get_reference()), Vec(pref));
    });
  } else if (what == 1) {
    typedef ResidualModelFrameRotationTpl<double> R;
    auto m = def ? std::make_shared<R>(w.state, id0, R0) : std::make_shared<R>(w.state, id0, R0, nu);
    const V3 L0 = in3("log");
    const M3 JL = in_mat("Jlog", 3, 3), N = Rref.transpose() * w.M0[id].R;
    auto vee = [N](const M3 &A) {
      const M3 D = N.transpose() * A;
      return v3((D(2, 1) - D(1, 2)) / 2, (D(0, 2) - D(2, 0)) / 2, (D(1, 0) - D(0, 1)) / 2);
    };
    pinocchio::Log3<double>::f() = [L0, JL, vee](const M3 &A) { return V3(L0 + JL * vee(A)); };
    pinocchio::Log3<double>::J() = [JL, vee](const M3 &A) { return M3(JL * (1 + vee(A).sum())); };
    evaluate(w, m, &shared, Vec(L0 + JL * vee(Rref.transpose() * M.R)), nu, [&] {
      if (how) { m->set_id(id); m->set_reference(Rref); }
      check_true("frame", (long)m->get_id() == id);
      check_eqm("reference", Mat(m->get_reference()), Mat(Rref));
    });
  } else if (what == 2) {
    typedef ResidualModelFramePlacementTpl<double> R;
    auto m = def ? std::make_shared<R>(w.state, id0, SE3(R0, p0)) : std::make_shared<R>(w.state, id0, SE3(R0, p0), nu);
    const SE3 ref(Rref, pref), N = ref.inverse().act(w.M0[id]);
    const V6 L0 = in_vec("log", 6);
    const M6 JL = in_mat("Jlog", 6, 6);
    auto vee = [N](const SE3 &A) {
      const SE3 D = N.inverse().act(A);
      V6 r;
      r << D.p, (D.R(2, 1) - D.R(1, 2)) / 2, (D.R(0, 2) - D.R(2, 0)) / 2, (D.R(1, 0) - D.R(0, 1)) / 2;
      return r;
    };
    pinocchio::Log6<double>::f() = [L0, JL, vee](const SE3 &A) { return V6(L0 + JL * vee(A)); };
    pinocchio::Log6<double>::J() = [JL, vee](const SE3 &A) { return M6(JL * (1 + vee(A).sum())); };
    evaluate(w, m, &shared, Vec(L0 + JL * vee(ref.inverse().act(M))), nu, [&] {
      if (how) { m->set_id(id); m->set_reference(ref); }
      check_true("frame", (long)m->get_id() == id);
      check_eqm("reference", Mat(m->get_reference().R), Mat(Rref));
      check_eqm("reference", Vec(m->get_reference().p), Vec(pref));
    });
  } else {
    typedef ResidualModelFrameVelocityTpl<double> R;
    const long t = c("type");
    const pinocchio::ReferenceFrame rf = t == 0 ? pinocchio::WORLD : t == 1 ? pinocchio::LOCAL : pinocchio::LOCAL_WORLD_ALIGNED, rf0 = how ? (t == 1 ? pinocchio::WORLD : pinocchio::LOCAL) : rf;
    const V6 vref = in_vec("vref", 6), vr0 = how ? V6(V6::Constant(5)) : vref;
    auto m = def ? std::make_shared<R>(w.state, id0, Motion(vr0), rf0) : std::make_shared<R>(w.state, id0, Motion(vr0), rf0, nu);
    const V6 v = pinocchio::in_frame(pd.frame_motion[id], pd.frame_motion[id].v, rf).toVector();
    evaluate(w, m, &shared, Vec(v - vref), nu, [&] {
      if (how) { m->set_id(id); m->set_reference(Motion(vref)); m->set_type(rf); }
      check_true("frame", (long)m->get_id() == id && m->get_type() == rf);
      check_eqm("reference", Vec(m->get_reference().toVector()), Vec(vref));
    });
  }
}
struct Torque : ActuationModelAbstractTpl<double> {
  typedef ActuationDataAbstractTpl<double> D;
  Mat S;
  Torque(std::shared_ptr<State> st, long nu) : ActuationModelAbstractTpl<double>(st, nu), S(in_mat("S", NV, nu)) {}
  void calc(const std::shared_ptr<D> &d, const VR &, const VR &u) override { const Vec uu = u; d->tau = S * uu; }
  void calcDiff(const std::shared_ptr<D> &d, const VR &, const VR &) override { d->dtau_du = S; }
  void commands(const std::shared_ptr<D> &, const VR &, const VR &) override {}
};
static void gravity(const Case &c) {
  World w;
  const long nu = c("nu");
  w.model->terms.g = in_vec("grav", NV);
  w.model->terms.Gq = in_mat("gravq", NV, NV);
  PData pd;
  w.fill(pd);
  Torque a(w.state, nu);
  auto ad = a.createData();
  DataCollectorActMultibodyTpl<double> shared(&pd, ad);
  typedef ResidualModelControlGravTpl<double> R;
  auto m = nu == NV && flag("default") ? std::make_shared<R>(w.state) : std::make_shared<R>(w.state, nu);
  check_true("a free motion has no torque to compare", throws([&] { R bad(w.state, 0); }));
  auto d = m->createData(&shared);
  const Vec u = Vec(in_vec("u", nu) + in_vec("d0.u", nu)), g = w.model->terms.g_at(w.x.head(NV));
  if (flag("used")) {
    Vec y = w.x, t = Vec::Constant(nu, 3);
    y(0) += 1;
    a.calc(ad, y, t);
    a.calcDiff(ad, y, t);
    m->calc(d, y, t);
    m->calcDiff(d, y, t);
  }
  if (flag("terminal")) {
    m->calc(d, w.x);
    check_eqm("gravity torque", Vec(d->r), Vec(-g));
    m->calcDiff(d, w.x);
    check_jac("residual by state", "r", Vec(d->r), "d0.x", Mat(d->Rx));
    return;
  }
  a.calc(ad, w.x, u);
  a.calcDiff(ad, w.x, u);
  m->calc(d, w.x, u);
  check_eqm("torque beyond gravity", Vec(d->r), Vec(a.S * u - g));
  m->calcDiff(d, w.x, u);
  check_jac("residual by state", "r", Vec(d->r), "d0.x", Mat(d->Rx));
  check_jac("residual by control", "r", Vec(d->r), "d0.u", Mat(d->Ru));
  check_true("dependences", m->get_q_dependent() && m->get_u_dependent() && (long)m->get_nr() == NV && (long)m->get_nu() == nu);
}
// the torque beyond gravity and the forces of the contacts
static void contact_gravity(const Case &c) {
  World w;
  const long nu = c("nu");
  w.model->terms.g = in_vec("grav", NV);
  w.model->terms.Gq = in_mat("gravq", NV, NV);
  for (long j = 0; j < 3; ++j) w.model->static_J.push_back(j ? Mat(in_mat("Jj" + num(j), 6, NV)) : Mat(Mat::Zero(6, NV)));
  PData pd;
  w.fill(pd);
  Torque a(w.state, nu);
  auto ad = a.createData();
  ContactModelMultipleTpl<double> contacts(w.state, nu);
  auto cd = contacts.createData(&pd);
  DataCollectorActMultibodyInContactTpl<double> shared(&pd, ad, cd);
  typedef ResidualModelContactControlGravTpl<double> R;
  auto m = nu == NV && flag("default") ? std::make_shared<R>(w.state) : std::make_shared<R>(w.state, nu);
  check_true("a free motion has no torque to compare", throws([&] { R bad(w.state, 0); }));
  check_true("needs contacts", throws([&] { DataCollectorActMultibodyTpl<double> wrong(&pd, ad); m->createData(&wrong); }));
  auto d = m->createData(&shared);
  const Vec u = Vec(in_vec("u", nu) + in_vec("d0.u", nu)), g = w.model->terms.g_at(w.x.head(NV));
  if (flag("used")) {
    Vec y = w.x, t = Vec::Constant(nu, 3);
    y(0) += 1;
    a.calc(ad, y, t);
    a.calcDiff(ad, y, t);
    m->calc(d, y, t);
    m->calcDiff(d, y, t);
  }
  if (flag("terminal")) {
    m->calc(d, w.x);
    check_eqm("gravity torque", Vec(d->r), Vec(-g));
    m->calcDiff(d, w.x);
    check_jac("residual by state", "r", Vec(d->r), "d0.x", Mat(d->Rx));
    return;
  }
  a.calc(ad, w.x, u);
  a.calcDiff(ad, w.x, u);
  if (c("forces")) {  // what the action leaves in the contacts before it asks for costs
    Vec f = Vec::Zero(NV);
    for (long j = 1; j < 3; ++j) {
      const V6 fj = in_vec("f" + num(j), 6);
      cd->fext[j] = pinocchio::ForceTpl<double>(fj);
      f += w.model->static_J[j].transpose() * fj;
    }
    m->calc(d, w.x, u);
    check_eqm("torque beyond gravity and contact forces", Vec(d->r), Vec(a.S * u - g + f));
    return;
  }
  m->calc(d, w.x, u);
  check_eqm("torque beyond gravity", Vec(d->r), Vec(a.S * u - g));
  m->calcDiff(d, w.x, u);
  check_jac("residual by state", "r", Vec(d->r), "d0.x", Mat(d->Rx));
  check_jac("residual by control", "r", Vec(d->r), "d0.u", Mat(d->Ru));
  check_true("dependences", m->get_q_dependent() && m->get_u_dependent() && (long)m->get_nr() == NV && (long)m->get_nu() == nu);
}
static void impact(const Case &) {
  World w;
  pinocchio::Com &k = pinocchio::Com::of();
  k.J = in_mat("Jcom", 3, NV);
  for (long i = 0; i < NV; ++i) k.Jq.push_back(in_mat("Jcomq" + num(i), 3, NV));
  PData pd;
  w.fill(pd);
  ImpulseModelMultipleTpl<double> im(w.state);
  auto id = im.createData(&pd);
  const Vec vn = in_vec("vnext", NV);
  const Mat D = in_mat("dvnext", NV, NX);
  id->vnext = vn + D * w.dx;
  id->dvnext_dx = D;
  DataCollectorMultibodyInImpulseTpl<double> shared(&pd, id);
  auto m = std::make_shared<ResidualModelImpulseCoMTpl<double>>(w.state);
  evaluate(w, m, &shared, Vec(k.J_at(w.dq()) * (id->vnext - w.x.tail(NV))), 0, nullptr);
}
// a robot whose configuration is curved joint by joint
struct Curved : State {
  std::vector<Mat> K;
  Curved(std::shared_ptr<pinocchio::ModelStub> m) : State(m) {
    K.push_back(in_mat("K0", 2, 2));
    K.push_back(in_mat("K1", 1, 1));
  }
  Mat J() const {
    Mat A = Mat::Identity(6, 6);
    A.topLeftCorner(2, 2) = K[0];
    A(2, 2) = K[1](0, 0);
    return A;
  }
  void diff(const VR &a, const VR &b, Eigen::Ref<Vec> d) const override { const Vec e = b - a; d = J() * e; }
  void Jdiff(const VR &, const VR &, Eigen::Ref<Mat> F, Eigen::Ref<Mat> S, const Jcomponent s = both) const override {
    if (s != second) F = -J();
    if (s != first) S = J();
  }
};
// a state of another kind
struct Other : StateVectorTpl<double> {
  Mat K;
  Other(long n) : StateVectorTpl<double>(n), K(in_mat("K", n, n)) {}
  void diff(const VR &a, const VR &b, Eigen::Ref<Vec> d) const override { const Vec e = b - a; d = K * e; }
  void Jdiff(const VR &, const VR &, Eigen::Ref<Mat> F, Eigen::Ref<Mat> S, const Jcomponent s = both) const override {
    if (s != second) F = -K;
    if (s != first) S = K;
  }
};
static void state_cost(const Case &c) {
  const long kind = c("kind"), nx = kind == 1 ? 6 : kind == 3 ? 4 : 3;  // 0 vector, 1 robot, 2 other, 3 flat robot
  std::shared_ptr<StateAbstractTpl<double>> s;
  Mat J = Mat::Identity(nx, nx);
  auto model = std::make_shared<pinocchio::ModelStub>();
  if (kind == 0) s = std::make_shared<StateVectorTpl<double>>(nx);
  else if (kind == 1) {
    model->joints = {{0}, {2}, {1}};
    model->njoints = 3;
    model->nv = model->nq = 3;
    model->idx_vs = {0, 0, 2};
    model->nvs = {0, 2, 1};
    auto k = std::make_shared<Curved>(model);
    J = k->J();
    s = k;
  } else if (kind == 3) {
    model->joints = {{0}, {1}, {1}};
    model->njoints = 3;
    model->nv = model->nq = 2;
    model->idx_vs = {0, 0, 1};
    model->nvs = {0, 1, 1};
    s = std::make_shared<State>(model);
  } else {
    auto k = std::make_shared<Other>(nx);
    J = k->K;
    s = k;
  }
  const long nu = 1, how = choose("how", 3);
  const Vec ref = how == 2 ? Vec(s->zero()) : in_vec("ref", nx), x = Vec(in_vec("x", nx) + in_vec("d0.x", nx)), u = in_vec("u", nu);
  typedef ResidualModelStateTpl<double> R;
  std::shared_ptr<R> m;
  if (how == 0) m = std::make_shared<R>(s, ref, nu);
  else if (how == 1) { m = std::make_shared<R>(s, Vec(Vec::Constant(nx, 4)), nu); m->set_reference(ref); }
  else m = std::make_shared<R>(s, nu);
  check_eqm("reference", Vec(m->get_reference()), ref);
  check_true("wrong references are rejected", throws([&] { R bad(s, Vec(Vec::Zero(nx + 1)), nu); }) && throws([&] { m->set_reference(Vec(Vec::Zero(nx - 1))); }));
  const Vec wts = in_vec("w", nx);
  auto cost = std::make_shared<CostModelResidualTpl<double>>(s, std::make_shared<ActivationModelWeightedQuadTpl<double>>(wts), m);
  DataCollectorAbstractTpl<double> shared;
  auto d = cost->createData(&shared);
  if (flag("used")) {
    cost->calc(d, Vec(Vec::Constant(nx, 2)), u);
    cost->calcDiff(d, Vec(Vec::Constant(nx, 2)), u);
  }
  const bool terminal = flag("terminal");
  if (terminal) cost->calc(d, x);
  else cost->calc(d, x, u);
  const Vec r = J * (x - ref);
  check_eqm("residual", Vec(d->residual->r), r);
  check_eq("cost", d->cost, 0.5 * wts.dot(r.cwiseProduct(r)));
  const double cst = d->cost;
  if (terminal) cost->calcDiff(d, x);
  else cost->calcDiff(d, x, u);
  check_jac("residual by state", "r", Vec(d->residual->r), "d0.x", Mat(d->residual->Rx));
  check_jac1("gradient", "cost", cst, "d0.x", Vec(d->Lx));
  check_eqm("curvature", Mat(d->Lxx), Mat(J.transpose() * wts.asDiagonal() * J));
  check_eqm("no control terms", Vec(d->Lu), Vec(Vec::Zero(nu)));
  check_eqm("no control terms", Mat(d->Luu), Mat(Mat::Zero(nu, nu)));
  check_eqm("no control terms", Mat(d->Lxu), Mat(Mat::Zero(nx, nu)));
}
REGISTER(
  for (long nu = 1; nu < 3; ++nu) {
    add_case("com", com, {{"nu", nu}});
    add_case("momentum", momentum, {{"nu", nu}});
    add_case("gravity", gravity, {{"nu", nu}});
    for (long forces = 0; forces < 2; ++forces) add_case("contact_gravity", contact_gravity, {{"nu", nu}, {"forces", forces}});
    for (long what = 0; what < 3; ++what) add_case("frame", frame, {{"nu", nu}, {"what", what}, {"type", 1}});
    for (long type = 0; type < 3; ++type) add_case("frame", frame, {{"nu", nu}, {"what", 3}, {"type", type}});
  }
  add_case("impact", impact, {});
  for (long kind = 0; kind < 4; ++kind) add_case("state_cost", state_cost, {{"kind", kind}});
)
