// Contact and impulse models: constraint acceleration, Jacobian, exact derivatives, forces.
// BOUNDS: 1D, 2D, 3D and 6D contacts, 3D and 6D impulses; local, world and local-world-aligned constraints; one and two joint velocities; every frame orientation except half turns (planar motions for 2D), every frame position, motion, reference, gain, joint-level derivative and force; a fixed general rotation between joint and contact frame and for the 1D axis, every offset between them
// OUTSIDE: Pinocchio (the motion of the frame and its derivatives are arbitrary values consistent to first order); logarithm of a placement (any function with its Jacobian); floating-point rounding
#include "sym/harness.hpp"
#include "crocoddyl/multibody/contacts/contact-1d.hpp"
#include "crocoddyl/multibody/contacts/contact-2d.hpp"
#include "crocoddyl/multibody/contacts/contact-3d.hpp"
#include "crocoddyl/multibody/contacts/contact-6d.hpp"
#include "crocoddyl/multibody/impulses/impulse-3d.hpp"
#include "crocoddyl/multibody/impulses/impulse-6d.hpp"
using namespace vf;
using namespace crocoddyl;
typedef Eigen::Ref<const Vec> VR;
typedef StateMultibodyTpl<double> State;
typedef pinocchio::ForceTpl<double> Force;
typedef pinocchio::MotionTpl<double> Motion;
typedef pinocchio::SE3Tpl<double> SE3;
typedef pinocchio::DataTpl<double> PData;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 2, 1> V2;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, Eigen::Dynamic> M6x;
static const long FRAME = 1, JOINT = 2;

static M3 hat(const V3 &a) {
  M3 m;
  m << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
  return m;
}
static M3 rotation(const V3 &g) {  // Cayley: every rotation but half turns
  const double n = g(0) * g(0) + g(1) * g(1) + g(2) * g(2);
  M3 R = M3::Identity() * (1 - n) + 2 * hat(g);
  for (long i = 0; i < 3; ++i) for (long j = 0; j < 3; ++j) R(i, j) = (R(i, j) + 2 * g(i) * g(j)) / (1 + n);
  return R;
}
static V3 v3(double a, double b, double c) { V3 v; v << a, b, c; return v; }
static V3 in3(const std::string &n) { Vec v = in_vec(n, 3); return v3(v(0), v(1), v(2)); }
static M6x in6x(const std::string &n, long nv, bool planar) {
  M6x m = in_mat(n, 6, nv);
  if (planar) for (long j = 0; j < nv; ++j) m(1, j) = m(3, j) = m(5, j) = 0;
  return m;
}
// The motion of the frame, to first order in a change dx of the state.
struct World {
  std::shared_ptr<pinocchio::ModelStub> model = std::make_shared<pinocchio::ModelStub>();
  std::shared_ptr<State> state;
  long nv;
  SE3 jMf, oMf0;
  M6x J, Vq, Aq, Av, Jj;
  V6 v0, a0;
  Vec dx, x;
  World(long n, bool planar) : nv(n) {
    model->joints.push_back(pinocchio::JointStub{(int)nv});
    model->frames.resize(2);
    jMf = SE3(planar ? rotation(v3(0, double(1) / 3, 0)) : rotation(v3(double(1) / 2, double(1) / 3, -1)), in3("offset"));
    if (planar) jMf.p(1) = 0;
    model->frames[FRAME] = pinocchio::FrameStub{(pinocchio::JointIndex)JOINT, jMf, "foot"};
    state = std::make_shared<State>(model);
    V3 g = in3("g");
    if (planar) g = v3(0, g(1), 0);
    oMf0 = SE3(rotation(g), in3("p"));
    J = in6x("J", nv, planar);
    Vq = in6x("Vq", nv, planar);
    Aq = in6x("Aq", nv, planar);
    Av = in6x("Av", nv, planar);
    v0 = in6x("v", 1, planar);
    a0 = in6x("a", 1, planar);
    x = in_vec("x", 2 * nv);
    dx = in_vec("d0.x", 2 * nv);
  }
  void fill(PData &d, const V6 &extra) const {
    d.oMf.assign(2, SE3(M3::Zero(), V3::Zero()));
    d.frame_motion.resize(2);
    d.joint_motion.resize(3);
    const Vec dq = dx.head(nv), dv = dx.tail(nv);
    const M3 dR = hat(V3(J.bottomRows(3) * dq));
    pinocchio::FrameMotion<double> &k = d.frame_motion[FRAME];
    k.oMf = SE3(M3(oMf0.R + oMf0.R * dR), V3(oMf0.p + oMf0.R * (J.topRows(3) * dq)));
    k.J = J;
    k.v = Motion(V6(v0 + Vq * dq + J * dv));
    k.a = Motion(V6(a0 + extra + Aq * dq + Av * dv));
    pinocchio::JointMotion<double> &j = d.joint_motion[JOINT];
    const M6 X = jMf.toActionMatrix();
    j.Vq = X * Vq; j.Vv = X * J; j.Aq = X * Aq; j.Av = X * Av; j.Aa = X * J;
  }
  M6x joint_jacobian() const { return M6x(jMf.toActionMatrix() * J); }
};
static pinocchio::ReferenceFrame frame_type(long t) { return t == 0 ? pinocchio::WORLD : t == 1 ? pinocchio::LOCAL : pinocchio::LOCAL_WORLD_ALIGNED; }

static M3 axis_rotation() { return rotation(v3(1, double(1) / 2, double(1) / 3)); }

static void contact(const Case &c) {
  const long dim = c("dim"), nv = c("nv"), t = c("type");
  const bool planar = dim == 2;
  World w(nv, planar);
  const pinocchio::ReferenceFrame rf = frame_type(t);
  V2 gains;
  gains << 0, 0;
  if (flag("kp")) gains(0) = in("kp");
  if (flag("kd")) gains(1) = in("kd");
  const long nu = 2;
  std::shared_ptr<ContactModelAbstractTpl<double>> m;
  const M3 Ra = axis_rotation();
  double xref1 = in("xref1");
  V3 xref3 = in3("xref");
  V2 xref2;
  xref2 << xref3(0), xref3(2);
  SE3 pref(rotation(v3(0, double(1) / 2, 1)), xref3);
  const long how = c("how");  // 0 constructor, 1 set_reference
  V2 none;
  none << 0, 0;
  if (dim == 1) {
    auto k = std::make_shared<ContactModel1DTpl<double>>(w.state, FRAME, how ? double(7) : xref1, rf, how ? M3(M3::Identity()) : Ra, nu, gains);
    if (how) { k->set_reference(xref1); k->set_axis_rotation(Ra); }
    check_eq("reference", k->get_reference(), xref1);
    check_eqm("axis", Mat(k->get_axis_rotation()), Mat(Ra));
    check_eqm("gains", Vec(k->get_gains()), Vec(gains));
    m = how ? std::make_shared<ContactModel1DTpl<double>>(k->cast<double>()) : k;
  } else if (dim == 2) {
    auto k = std::make_shared<ContactModel2DTpl<double>>(w.state, FRAME, how ? none : xref2, nu, gains);
    if (how) k->set_reference(xref2);
    check_eqm("reference", Vec(k->get_reference()), Vec(xref2));
    check_eqm("gains", Vec(k->get_gains()), Vec(gains));
    m = how ? std::make_shared<ContactModel2DTpl<double>>(k->cast<double>()) : k;
  } else if (dim == 3) {
    auto k = std::make_shared<ContactModel3DTpl<double>>(w.state, FRAME, how ? v3(1, 2, 3) : xref3, rf, nu, gains);
    if (how) k->set_reference(xref3);
    check_eqm("reference", Vec(k->get_reference()), Vec(xref3));
    check_eqm("gains", Vec(k->get_gains()), Vec(gains));
    m = how ? std::make_shared<ContactModel3DTpl<double>>(k->cast<double>()) : k;
  } else {
    auto k = std::make_shared<ContactModel6DTpl<double>>(w.state, FRAME, how ? SE3::Identity() : pref, rf, nu, gains);
    if (how) k->set_reference(pref);
    check_eqm("reference", Mat(k->get_reference().rotation()), Mat(pref.R));
    check_eqm("reference", Vec(k->get_reference().translation()), Vec(pref.p));
    check_eqm("gains", Vec(k->get_gains()), Vec(gains));
    m = how ? std::make_shared<ContactModel6DTpl<double>>(k->cast<double>()) : k;
  }
  check_true("sizes", (long)m->get_nc() == dim && (long)m->get_nu() == nu && (long)m->get_id() == FRAME);
  if (dim != 2) check_true("type", m->get_type() == rf);
  // the logarithm: any function with its Jacobian, evaluated at the right placement
  const V6 L0 = in_vec("log", 6);
  const M6 JL = in_mat("Jlog", 6, 6);
  const SE3 M0 = pref.inverse().act(w.oMf0);
  auto vee = [M0](const SE3 &M) {
    const SE3 D = M0.inverse().act(M);
    V6 r;
    r << D.p, (D.R(2, 1) - D.R(1, 2)) / 2, (D.R(0, 2) - D.R(2, 0)) / 2, (D.R(1, 0) - D.R(0, 1)) / 2;
    return r;
  };
  pinocchio::Log6<double>::f() = [L0, JL, vee](const SE3 &M) { return V6(L0 + JL * vee(M)); };
  pinocchio::Log6<double>::J() = [JL, vee](const SE3 &M) { return M6(JL * (1 + vee(M).sum())); };

  PData pd, pt;
  w.fill(pd, V6::Zero());
  auto d = m->createData(&pd);
  check_true("data sizes", d->a0.size() == dim && d->Jc.rows() == dim && d->Jc.cols() == nv && d->da0_dx.rows() == dim && d->da0_dx.cols() == 2 * nv);
  if (flag("used")) {
    PData po;
    World *o = &w;
    const SE3 keep = o->oMf0;
    o->oMf0 = SE3(rotation(v3(1, 2, 1)), v3(3, 1, 2));
    o->fill(pd, V6(V6::Constant(2)));
    m->calc(d, w.x); m->calcDiff(d, w.x);
    o->oMf0 = keep;
    w.fill(pd, V6::Zero());
  }
  m->calc(d, w.x);
  // value
  const V3 wv = w.v0.head(3), ww = w.v0.tail(3);
  V6 a = w.a0;
  if (dim != 6) a.head(3) += ww.cross(wv);
  V6 e;
  e.setZero();
  if (dim == 1) e.head(3) = w.oMf0.R.transpose() * (w.oMf0.p - xref1 * (Ra.transpose() * v3(0, 0, 1)));
  if (dim == 3) e.head(3) = w.oMf0.R.transpose() * (w.oMf0.p - xref3);
  if (dim == 6) e = L0;
  V6 acc = a + gains(0) * e + gains(1) * w.v0;
  M6 Rot = M6::Identity();
  if (rf != pinocchio::LOCAL && dim != 2) { Rot.topLeftCorner(3, 3) = w.oMf0.R; Rot.bottomRightCorner(3, 3) = w.oMf0.R; }
  Mat S = Mat::Zero(dim, 6);
  if (dim == 1) S.leftCols(3) = Ra.row(2);
  if (dim == 2) S(0, 0) = S(1, 2) = 1;
  if (dim == 3) S.leftCols(3) = M3::Identity();
  if (dim == 6) S = M6::Identity();
  const Mat SR = S * Rot;
  Vec va = SR * acc;
  if (dim == 2) {
    va(0) += gains(0) * (w.oMf0.p(0) - xref2(0));
    va(1) += gains(0) * (w.oMf0.p(2) - xref2(1));
  }
  check_eqm("constraint acceleration", Vec(d->a0), va);
  check_eqm("constraint Jacobian", Mat(d->Jc), Mat(SR * w.J));

  // derivative, after the dynamics changed the acceleration
  const V6 extra = V6(w.J * in_vec("qdd", nv));
  w.fill(pt, extra);
  auto dt = m->createData(&pt);
  m->calc(dt, w.x);
  const Vec Y = dt->a0;
  pd.frame_motion[FRAME].a = Motion(V6(pd.frame_motion[FRAME].a.toVector() + extra));
  if (rf == pinocchio::LOCAL) pd.frame_motion[FRAME].a = Motion(V6(w.a0 + extra));
  m->calcDiff(d, w.x);
  check_jac("derivative of the constraint acceleration", "a0", Y, "d0.x", Mat(d->da0_dx));

  // forces
  const Vec f = in_vec("f", dim);
  m->updateForce(d, f);
  check_eqm("external force does the work of the constraint force", Vec(w.joint_jacobian().transpose() * d->fext.toVector()), Vec(d->Jc.transpose() * f));
  V6 fl = V6::Zero();
  if (dim == 1) fl(2) = f(0);
  if (dim == 2) { fl(0) = f(0); fl(2) = f(1); }
  if (dim == 3) fl.head(3) = f;
  if (dim == 6) fl = f;
  check_eqm("force in the constraint frame", Vec(d->f.toVector()), Vec(fl));
  // torque of a force fixed in the constraint frame while the frame turns
  Mat Rt = Mat::Identity(6, 6);
  if (rf != pinocchio::LOCAL && dim != 2) {
    const M3 R = pd.frame_motion[FRAME].oMf.R;
    Rt.topLeftCorner(3, 3) = R;
    Rt.bottomRightCorner(3, 3) = R;
  }
  const Vec tau = -w.J.transpose() * (Rt.transpose() * (S.transpose() * f));
  check_jac("torque derivative of a fixed force", "tau", tau, "d0.x", Mat(d->dtau_dq), nv);
  const Mat fx = in_mat("fx", dim, 2 * nv), fu = in_mat("fu", dim, nu);
  m->updateForceDiff(d, fx, fu);
  check_eqm("force derivatives", Mat(d->df_dx), fx);
  check_eqm("force derivatives", Mat(d->df_du), fu);
  check_true("wrong force size rejected", throws([&]() { m->updateForce(d, Vec(Vec::Zero(dim + 1))); }));
  check_true("wrong derivative size rejected", throws([&]() { m->updateForceDiff(d, Mat(Mat::Zero(dim + 1, 2 * nv)), fu); }) && throws([&]() { m->updateForceDiff(d, fx, Mat(Mat::Zero(dim, nu + 1))); }));
  m->setZeroForce(d);
  m->setZeroForceDiff(d);
  check_eqm("no force", Vec(d->f.toVector()), Vec(Vec::Zero(6)));
  check_eqm("no force", Vec(d->fext.toVector()), Vec(Vec::Zero(6)));
  check_eqm("no force derivatives", Mat(d->df_dx), Mat(Mat::Zero(dim, 2 * nv)));
  check_eqm("no force derivatives", Mat(d->df_du), Mat(Mat::Zero(dim, nu)));
}

static void impulse(const Case &c) {
  const long dim = c("dim"), nv = c("nv"), t = c("type");
  World w(nv, false);
  const pinocchio::ReferenceFrame rf = frame_type(t);
  std::shared_ptr<ImpulseModelAbstractTpl<double>> m;
  if (dim == 3) m = std::make_shared<ImpulseModel3DTpl<double>>(w.state, FRAME, rf);
  else m = std::make_shared<ImpulseModel6DTpl<double>>(w.state, FRAME, rf);
  if (flag("cast")) {
    if (dim == 3) m = std::make_shared<ImpulseModel3DTpl<double>>(std::static_pointer_cast<ImpulseModel3DTpl<double>>(m)->cast<double>());
    else m = std::make_shared<ImpulseModel6DTpl<double>>(std::static_pointer_cast<ImpulseModel6DTpl<double>>(m)->cast<double>());
  }
  check_true("sizes", (long)m->get_nc() == dim && (long)m->get_id() == FRAME && m->get_type() == rf);
  PData pd;
  w.fill(pd, V6::Zero());
  auto d = m->createData(&pd);
  if (flag("used")) {
    const SE3 keep = w.oMf0;
    w.oMf0 = SE3(rotation(v3(1, 2, 1)), v3(3, 1, 2));
    w.fill(pd, V6(V6::Constant(2)));
    m->calc(d, w.x); m->calcDiff(d, w.x);
    w.oMf0 = keep;
    w.fill(pd, V6::Zero());
  }
  m->calc(d, w.x);
  M6 Rot = M6::Identity();
  if (rf != pinocchio::LOCAL) { Rot.topLeftCorner(3, 3) = w.oMf0.R; Rot.bottomRightCorner(3, 3) = w.oMf0.R; }
  const Mat S = Mat::Identity(dim, 6);
  check_eqm("constraint Jacobian", Mat(d->Jc), Mat(S * Rot * w.J));
  m->calcDiff(d, w.x);
  M6 Rt = M6::Identity();
  if (rf != pinocchio::LOCAL) { Rt.topLeftCorner(3, 3) = Rt.bottomRightCorner(3, 3) = pd.frame_motion[FRAME].oMf.R; }
  check_jac("derivative of the constraint velocity", "v0", Vec(S * Rt * pd.frame_motion[FRAME].v.toVector()), "d0.x", Mat(d->dv0_dq), nv);
  const Vec f = in_vec("f", dim);
  m->updateForce(d, f);
  check_eqm("external impulse does the work of the constraint impulse", Vec(w.joint_jacobian().transpose() * d->fext.toVector()), Vec(d->Jc.transpose() * f));
  V6 fl = V6::Zero();
  fl.head(dim) = f;
  check_eqm("impulse in the constraint frame", Vec(d->f.toVector()), Vec(fl));
  check_jac("torque derivative of a fixed impulse", "tau", Vec(-w.J.transpose() * (Rt.transpose() * fl)), "d0.x", Mat(d->dtau_dq), nv);
  const Mat fx = in_mat("fx", dim, 2 * nv);
  m->updateForceDiff(d, fx);
  check_eqm("impulse derivatives", Mat(d->df_dx), fx);
  check_true("wrong impulse size rejected", throws([&]() { m->updateForce(d, Vec(Vec::Zero(dim + 1))); }));
  m->setZeroForce(d);
  m->setZeroForceDiff(d);
  check_eqm("no impulse", Vec(d->f.toVector()), Vec(Vec::Zero(6)));
  check_eqm("no impulse", Vec(d->fext.toVector()), Vec(Vec::Zero(6)));
  check_eqm("no impulse derivatives", Mat(d->df_dx), Mat(Mat::Zero(dim, 2 * nv)));
}
REGISTER(
  for (long nv = 1; nv <= 2; ++nv) for (long dim : {1, 2, 3, 6}) for (long t = 0; t < (dim == 2 ? 1 : 3); ++t) {
    for (long how = 0; how < 2; ++how) add_case("contact", contact, {{"nv", nv}, {"dim", dim}, {"type", t}, {"how", how}}, nv > 1 && how == 1);
    if (dim == 3 || dim == 6) add_case("impulse", impulse, {{"nv", nv}, {"dim", dim}, {"type", t}}, 0);
  }
)
