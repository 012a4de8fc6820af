// Force residuals: friction cone, wrench cone, centre of pressure, force tracking.
// BOUNDS: 1D, 2D, 3D and 6D contacts, 3D and 6D impulses next to another one, local and world-aligned; forward and inverse dynamics; every cone frame, friction coefficient, box, reference, force and force derivative; two data objects, one replacement of the reference, two velocities, two controls; cones of 4 facets
// OUTSIDE: the contact dynamics that produce the forces (arbitrary); cones with other numbers of facets (F01, F02); floating-point rounding
#include "sym/harness.hpp"
#include "pinocchio/utils/static-if.hpp"
#include "crocoddyl/multibody/residuals/contact-friction-cone.hpp"
#include "crocoddyl/multibody/residuals/contact-wrench-cone.hpp"
#include "crocoddyl/multibody/residuals/contact-cop-position.hpp"
#include "crocoddyl/multibody/residuals/contact-force.hpp"
using namespace vf;
using namespace crocoddyl;
typedef Eigen::Ref<const Vec> VR;
typedef StateMultibodyTpl<double> State;
typedef pinocchio::ForceTpl<double> Force;
typedef pinocchio::SE3Tpl<double> SE3;
typedef pinocchio::DataTpl<double> PData;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 2, 1> V2;
typedef ResidualModelAbstractTpl<double> Res;
typedef ResidualDataAbstractTpl<double> ResD;
static const long NV = 2, NU = 2;

static V3 in3(const std::string &n) { Vec v = in_vec(n, 3); V3 r; r << v(0), v(1), v(2); return r; }
static M3 inM3(const std::string &n) { M3 r = in_mat(n, 3, 3); return r; }
static M3 turn() {  // a general rotation
  M3 r;
  r << double(2) / 3, -double(1) / 3, double(2) / 3, double(2) / 3, double(2) / 3, -double(1) / 3, -double(1) / 3, double(2) / 3, double(2) / 3;
  return r;
}
struct Robot {
  std::shared_ptr<pinocchio::ModelStub> model = std::make_shared<pinocchio::ModelStub>();
  std::shared_ptr<State> state;
  Robot() {
    model->joints.push_back(pinocchio::JointStub{(int)NV});
    model->nframes = 4;
    model->frames.resize(4);
    for (long i = 0; i < 4; ++i) model->frames[i] = pinocchio::FrameStub{(pinocchio::JointIndex)(i / 2), SE3(turn(), V3(V3::Constant(i))), "frame" + std::to_string(i)};
    state = std::make_shared<State>(model);
  }
};
// one set of contacts (or impulses) with its forces and their derivatives
struct Forces {
  long kind;  // 1, 2, 3, 6: contacts; 13, 16: impulses
  PData pd;
  std::shared_ptr<ContactModelMultipleTpl<double>> cm;
  std::shared_ptr<ImpulseModelMultipleTpl<double>> im;
  std::shared_ptr<ContactDataMultipleTpl<double>> cd;
  std::shared_ptr<ImpulseDataMultipleTpl<double>> id;
  std::shared_ptr<DataCollectorAbstractTpl<double>> col;
  long nc() const { return kind % 10; }
  std::shared_ptr<ContactModelAbstractTpl<double>> contact(std::shared_ptr<State> s, long k, long frame, pinocchio::ReferenceFrame rf) {
    V2 z;
    z << 0, 0;
    if (k == 1) return std::make_shared<ContactModel1DTpl<double>>(s, frame, double(0), rf, M3(M3::Identity()), NU, z);
    if (k == 2) return std::make_shared<ContactModel2DTpl<double>>(s, frame, z, NU, z);
    if (k == 3) return std::make_shared<ContactModel3DTpl<double>>(s, frame, V3(V3::Zero()), rf, NU, z);
    return std::make_shared<ContactModel6DTpl<double>>(s, frame, SE3::Identity(), rf, NU, z);
  }
  Forces(const Robot &r, long k, pinocchio::ReferenceFrame rf) : kind(k) {
    pd.oMf.assign(4, SE3(turn(), V3(V3::Zero())));
    if (k < 10) {
      cm = std::make_shared<ContactModelMultipleTpl<double>>(r.state, NU);
      cm->addContact("a", contact(r.state, 6, 1, rf));
      cm->addContact("b", contact(r.state, k, 2, rf));
      cm->addContact("c", contact(r.state, 3, 3, rf));
      cd = cm->createData(&pd);
      col = std::make_shared<DataCollectorContactTpl<double>>(cd);
    } else {
      im = std::make_shared<ImpulseModelMultipleTpl<double>>(r.state);
      im->addImpulse("a", std::make_shared<ImpulseModel6DTpl<double>>(r.state, 1, rf));
      if (k == 13) im->addImpulse("b", std::make_shared<ImpulseModel3DTpl<double>>(r.state, 2, rf));
      else im->addImpulse("b", std::make_shared<ImpulseModel6DTpl<double>>(r.state, 2, rf));
      id = im->createData(&pd);
      col = std::make_shared<DataCollectorImpulseTpl<double>>(id);
    }
  }
  void force(const Vec &f) {
    if (cm) cm->get_contacts().at("b")->contact->updateForce(cd->contacts.at("b"), f);
    else im->get_impulses().at("b")->impulse->updateForce(id->impulses.at("b"), f);
  }
  void derivatives(const Mat &fx, const Mat &fu) {
    if (cm) cm->get_contacts().at("b")->contact->updateForceDiff(cd->contacts.at("b"), fx, fu);
    else im->get_impulses().at("b")->impulse->updateForceDiff(id->impulses.at("b"), fx);
  }
};
// the force as a spatial vector of the contact frame
static Vec spatial(long nc, const Vec &f) {
  Vec s = Vec::Zero(6);
  if (nc == 1) s(2) = f(0);
  if (nc == 2) { s(0) = f(0); s(2) = f(1); }
  if (nc == 3) s.head(3) = f;
  if (nc == 6) s = f;
  return s;
}
// a residual r = A f - b, and a way to replace its reference
struct Spec {
  std::shared_ptr<Res> m;
  Mat A;
  Vec b;
  std::function<void()> replace;
};
static WrenchConeTpl<double> wrench(const std::string &p) {
  V2 box;
  box << in(p + "boxx"), in(p + "boxy");
  assume(gt(box(0), 0.01) & gt(box(1), 0.01));
  const double mu = in(p + "mu");
  assume(gt(mu, 0.01));
  return WrenchConeTpl<double>(inM3(p + "R"), mu, box, 4, false, 0, 50);
}
static CoPSupportTpl<double> support(const std::string &p) {
  V2 box;
  box << in(p + "boxx"), in(p + "boxy");
  assume(gt(box(0), 0.01) & gt(box(1), 0.01));
  return CoPSupportTpl<double>(inM3(p + "R"), box);
}
static FrictionConeTpl<double> friction(const std::string &p) {
  const double mu = in(p + "mu");
  assume(gt(mu, 0.01));
  return FrictionConeTpl<double>(inM3(p + "R"), mu, 4, false, 0, 50);
}
static void residual(const Case &c) {
  const long what = c("what"), kind = c("kind"), fwd = c("fwd"), nc = kind % 10;
  Robot r;
  const pinocchio::ReferenceFrame rf = c("rf") ? pinocchio::LOCAL_WORLD_ALIGNED : pinocchio::LOCAL;
  Spec s;
  const long nu = kind > 10 ? 0 : NU;
  const bool replace = flag("replace");
  const std::string p = replace ? "2" : "1";
  if (what == 0) {
    auto a = friction("1");
    auto m = std::make_shared<ResidualModelContactFrictionConeTpl<double>>(r.state, 2, a, nu, fwd);
    auto used = a;
    if (replace) used = friction("2");
    s.A = Mat::Zero(used.get_nf() + 1, 6);
    s.A.leftCols(3) = used.get_A();
    s.replace = [m, used]() { m->set_reference(used); };
    s.m = m;
    check_true("settings", (long)m->get_id() == 2 && m->is_fwddyn() == (bool)fwd);
  } else if (what == 1) {
    auto a = wrench("1");
    auto m = std::make_shared<ResidualModelContactWrenchConeTpl<double>>(r.state, 2, a, nu, fwd);
    auto used = a;
    if (replace) used = wrench("2");
    s.A = used.get_A();
    s.replace = [m, used]() { m->set_reference(used); };
    s.m = m;
    check_true("settings", (long)m->get_id() == 2 && m->is_fwddyn() == (bool)fwd);
  } else if (what == 2) {
    auto a = support("1");
    auto m = std::make_shared<ResidualModelContactCoPPositionTpl<double>>(r.state, 2, a, nu, fwd);
    auto used = a;
    if (replace) used = support("2");
    s.A = used.get_A();
    s.replace = [m, used]() { m->set_reference(used); };
    s.m = m;
    check_true("settings", (long)m->get_id() == 2 && m->is_fwddyn() == (bool)fwd);
  } else {
    Force a(Force::Vector6(in_vec("1f", 6)));
    auto m = std::make_shared<ResidualModelContactForceTpl<double>>(r.state, 2, a, nc, nu, fwd);
    Force used = a;
    if (replace) used = Force(Force::Vector6(in_vec("2f", 6)));
    s.A = nc == 1 ? Mat(Mat::Identity(6, 6).row(2)) : nc == 3 ? Mat(Mat::Identity(3, 6)) : Mat(Mat::Identity(6, 6));
    s.b = s.A * used.toVector();
    s.replace = [m, used]() { m->set_reference(used); };
    s.m = m;
    check_true("settings", (long)m->get_id() == 2 && m->is_fwddyn() == (bool)fwd);
  }
  if (s.b.size() == 0) s.b = Vec::Zero(s.A.rows());
  check_true("sizes", (long)s.m->get_nr() == s.A.rows() && (long)s.m->get_nu() == nu);
  check_true("dependencies", s.m->get_q_dependent() == (bool)fwd && s.m->get_v_dependent() == (bool)fwd && s.m->get_u_dependent());

  Forces f1(r, kind, rf), f2(r, kind, rf);
  Vec dx = in_vec("d0.x", 2 * NV), du = in_vec("d0.u", nu);
  Mat Fx = Mat::Zero(nc, 2 * NV), Fu = in_mat("Fu", nc, nu);
  if (fwd) Fx = in_mat("Fx", nc, 2 * NV);
  const Vec x = in_vec("x", 2 * NV), u = in_vec("u", nu);
  if (fwd) { f1.derivatives(Mat(Mat::Zero(nc, 2 * NV)), Mat(Mat::Zero(nc, nu))); } else { f1.derivatives(Fx, Fu); f2.derivatives(Fx, Fu); }
  std::shared_ptr<Res> m = s.m;
  auto d1 = m->createData(f1.col.get()), d2 = m->createData(f2.col.get());
  const Vec old = in_vec("old", nc);
  if (flag("used")) {
    f1.force(old);
    m->calc(d1, x, u);
    m->calcDiff(d1, x, u);
    if (flag("terminal")) { m->calc(d1, x); m->calcDiff(d1, x); }
  }
  if (replace) s.replace();
  const long which = choose("data order", 2);
  for (long k = 0; k < 2; ++k) {
    Forces &f = (k == which) ? f1 : f2;
    auto d = (k == which) ? d1 : d2;
    const std::string n = k == 0 ? "first data: " : "second data: ", t = k == 0 ? "f" : "g";
    const Vec lam = Vec(in_vec(t, nc) + Fx * dx + Fu * du);
    f.force(lam);
    f.derivatives(Fx, Fu);
    m->calc(d, x, u);
    check_eqm(n + "residual", Vec(d->r), Vec(s.A * spatial(nc, lam) - s.b));
    m->calcDiff(d, x, u);
    check_jac(n + "state Jacobian", t + "r", Vec(d->r), "d0.x", Mat(d->Rx));
    if (nu > 0) check_jac(n + "control Jacobian", t + "r", Vec(d->r), "d0.u", Mat(d->Ru));
  }
  m->calc(d1, x);
  m->calcDiff(d1, x);
  check_eqm("no force at the terminal node", Vec(d1->r), Vec(Vec::Zero(s.A.rows())));
  check_eqm("no force at the terminal node", Mat(d1->Rx), Mat(Mat::Zero(s.A.rows(), 2 * NV)));
}
static void invalid(const Case &c) {
  const long what = c("what"), kind = c("kind");
  Robot r;
  Forces f(r, kind, pinocchio::LOCAL);
  DataCollectorAbstractTpl<double> none;
  auto attempt = [&](std::shared_ptr<Res> m, const std::string &l, bool ok) {
    check_true(l + ": data without forces rejected", throws([&]() { m->createData(&none); }));
    check_true(l + ": contact type", throws([&]() { m->createData(f.col.get()); }) == !ok);
  };
  const bool six = kind % 10 == 6, three = kind % 10 == 3;
  if (what == 0) {
    auto a = friction("1");
    check_true("frame outside the robot rejected", throws([&]() { ResidualModelContactFrictionConeTpl<double> m(r.state, 4, a, NU); }) && throws([&]() { ResidualModelContactFrictionConeTpl<double> m(r.state, 4, a); }));
    attempt(std::make_shared<ResidualModelContactFrictionConeTpl<double>>(r.state, 2, a), "friction cone", six || three || kind == 2);
    check_true("frame without contact rejected", throws([&]() { ResidualModelContactFrictionConeTpl<double>(r.state, 0, a).createData(f.col.get()); }));
  } else if (what == 1) {
    auto a = wrench("1");
    check_true("frame outside the robot rejected", throws([&]() { ResidualModelContactWrenchConeTpl<double> m(r.state, 4, a, NU); }) && throws([&]() { ResidualModelContactWrenchConeTpl<double> m(r.state, 4, a); }));
    attempt(std::make_shared<ResidualModelContactWrenchConeTpl<double>>(r.state, 2, a), "wrench cone", six);
    check_true("frame without contact rejected", throws([&]() { ResidualModelContactWrenchConeTpl<double>(r.state, 0, a).createData(f.col.get()); }));
  } else if (what == 2) {
    auto a = support("1");
    attempt(std::make_shared<ResidualModelContactCoPPositionTpl<double>>(r.state, 2, a), "centre of pressure", six);
    check_true("frame without contact rejected", throws([&]() { ResidualModelContactCoPPositionTpl<double>(r.state, 0, a).createData(f.col.get()); }));
  } else {
    Force a(Force::Vector6(in_vec("1f", 6)));
    check_true("frame outside the robot rejected", throws([&]() { ResidualModelContactForceTpl<double> m(r.state, 4, a, 3, NU); }) && throws([&]() { ResidualModelContactForceTpl<double> m(r.state, 4, a, 3); }));
    check_true("more than six force components rejected", throws([&]() { ResidualModelContactForceTpl<double> m(r.state, 2, a, 7, NU); }) && throws([&]() { ResidualModelContactForceTpl<double> m(r.state, 2, a, 7); }));
    attempt(std::make_shared<ResidualModelContactForceTpl<double>>(r.state, 2, a, kind % 10), "force", six || three || kind == 1);
    check_true("frame without contact rejected", throws([&]() { ResidualModelContactForceTpl<double>(r.state, 0, a, 3).createData(f.col.get()); }));
  }
}
REGISTER(
  for (long what = 0; what < 4; ++what) for (long kind : {1, 2, 3, 6, 13, 16}) {
    add_case("invalid", invalid, {{"what", what}, {"kind", kind}});
    const bool six = kind % 10 == 6;
    if (what == 0 && kind == 1) continue;
    if ((what == 1 || what == 2) && !six) continue;
    if (what == 3 && kind == 2) continue;
    for (long fwd = 0; fwd < 2; ++fwd) for (long rf = 0; rf < 2; ++rf) {
      if (!fwd && kind > 10) continue;
      if (rf && kind == 2) continue;
      add_case("residual", residual, {{"what", what}, {"kind", kind}, {"fwd", fwd}, {"rf", rf}});
    }
  }
)
