// Actuations: torque map, exact Jacobians, torque transform; squashing: range and slope.
// BOUNDS: 1..3 controls; full, floating-base and thruster actuation with 1..6 base and 0..2 joint coordinates, 1..2 thrusters with every pose and coefficient, replaced once, two data objects; smooth saturation with every bound, input and positive smoothing; squashed actuation over an arbitrary bilinear actuation
// OUTSIDE: the pseudo-inverse and the default torque transform (singular value decomposition); zero smoothing; floating-point rounding
// ASSUMES: lower bound of a saturation at most its upper bound; the pseudo-inverse is an arbitrary but fixed function of its argument; a stand-in for the multibody state gives the joint sizes
#include "sym/harness.hpp"
#include "crocoddyl/core/utils/math.hpp"
using namespace vf;
#ifdef VERIF_SYMBOLIC
namespace crocoddyl {
// the singular value decomposition is replaced by some fixed function
template <>
struct pseudoInverseAlgo<Mat, true> {
  static Mat run(const Eigen::MatrixBase<Mat> &a, const double &) {
    // one nonzero column keeps the selection diagonal simple
    Mat m = Mat::Zero(a.cols(), a.rows());
    for (long i = 0; i < m.rows(); ++i) m(i, 5) = a.derived()(2, i) * (2 + i);
    return m;
  }
};
}  // namespace crocoddyl
#endif
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/multibody/actuations/full.hpp"
#include "crocoddyl/multibody/actuations/floating-base.hpp"
#include "crocoddyl/multibody/actuations/floating-base-thrusters.hpp"
using namespace crocoddyl;
typedef Eigen::Ref<const Vec> VR;
typedef ActuationModelAbstractTpl<double> AMod;
typedef ActuationDataAbstractTpl<double> ADat;
typedef SquashingModelSmoothSatTpl<double> Sat;

static void saturation(const Case &c) {
  const long n = c("n");
  Vec lb = in_vec("lb", n), ub = in_vec("ub", n), s = in_vec("s", n), s2 = in_vec("s2", n);
  for (long i = 0; i < n; ++i) assume(lt(lb(i), ub(i)));
  Sat m(lb, ub, n);
  SquashingModelAbstractTpl<double> &b = m;
  check_eq("default smoothing", m.get_smooth(), 0.1);
  check_eqm("input bounds", Vec(m.get_s_lb()), lb);
  check_eqm("input bounds", Vec(m.get_s_ub()), ub);
  double sm = 0.1;
  if (flag("set_smooth")) {
    sm = in("smooth");
    if (flag("negative")) {
      assume(lt(sm, 0));
      check_true("negative smoothing rejected", throws([&]() { m.set_smooth(sm); }));
      check_eq("rejected smoothing changes nothing", m.get_smooth(), 0.1);
      sm = 0.1;
    } else {
      assume(gt(sm, 0.01) & lt(sm, 2));
      m.set_smooth(sm);
      check_eq("smoothing", m.get_smooth(), sm);
    }
  }
  auto d = b.createData();
  if (flag("used")) { Vec z = in_vec("z", n); b.calc(d, z); b.calcDiff(d, z); }
  b.calc(d, s);
  Vec u = d->u;
  std::vector<P> range;
  for (long i = 0; i < n; ++i) {
    const double a = (ub(i) - lb(i)) * sm, lo = s(i) - lb(i), hi = s(i) - ub(i);
    check_eq("smooth saturation", u(i), (lb(i) + ub(i) + sqrt(lo * lo + a * a) - sqrt(hi * hi + a * a)) / 2);
    range.push_back(le(lb(i), u(i)));
    range.push_back(le(u(i), ub(i)));
  }
  check("output stays within the bounds", range);
  b.calcDiff(d, s);
  check_jac("slope of the saturation", "u", u, "s", d->du_ds);
  if (n == 1) check("saturation does not decrease", ge(d->du_ds(0, 0), 0));
}
// arbitrary bilinear actuation
struct Act : AMod {
  Mat A, B;
  Vec t0;
  double k;
  Act(std::shared_ptr<StateAbstractTpl<double>> s, long nu) : AMod(s, nu), A(in_mat("A", s->get_nv(), s->get_ndx())), B(in_mat("B", s->get_nv(), nu)), t0(in_vec("t0", s->get_nv())), k(in("k")) {}
  void calc(const std::shared_ptr<ADat> &d, const VR &x, const VR &u) override { d->tau = A * x + B * u + t0 + Vec::Constant(t0.size(), k * x.sum() * u.sum()); d->tau_set[0] = flag("drives"); }
  void calcDiff(const std::shared_ptr<ADat> &d, const VR &x, const VR &u) override { d->dtau_dx = A + Mat::Constant(A.rows(), A.cols(), k * u.sum()); d->dtau_du = B + Mat::Constant(B.rows(), B.cols(), k * x.sum()); }
  void commands(const std::shared_ptr<ADat> &, const VR &, const VR &) override {}
};
static void squashed(const Case &c) {
  const long nu = c("nu");
  auto st = std::make_shared<StateVectorTpl<double>>(2 * c("nv"));
  auto act = std::make_shared<Act>(st, nu);
  Vec lb = in_vec("lb", nu), ub = in_vec("ub", nu);
  for (long i = 0; i < nu; ++i) assume(lt(lb(i), ub(i)));
  auto sat = std::make_shared<Sat>(lb, ub, nu);
  ActuationSquashingModelTpl<double> m(act, sat, nu);
  AMod &b = m;
  check_true("parts", m.get_squashing() == sat && m.get_actuation() == act && (long)b.get_nu() == nu && b.get_state() == st);
  auto d = b.createData();
  if (flag("used")) { Vec x0 = in_vec("x0", st->get_nx()), u0 = in_vec("u0", nu); b.calc(d, x0, u0); b.calcDiff(d, x0, u0); }
  Vec x = in_vec("x", st->get_nx()), u = in_vec("u", nu);
  b.calc(d, x, u);
  Vec tau = d->tau;
  auto sd = sat->createData();
  sat->calc(sd, u);
  check_eqm("torque of the squashed input", tau, Vec(act->A * x + act->B * sd->u + act->t0 + Vec::Constant(tau.size(), act->k * x.sum() * sd->u.sum())));
  check_true("driven joints", d->tau_set[0] == flag("drives"));
  b.calcDiff(d, x, u);
  check_jac("derivative with respect to the input", "tau", tau, "u", d->dtau_du);
  check_jac("derivative with respect to the state", "tau", tau, "x", d->dtau_dx);
}
static void evaluate(AMod &b, const std::shared_ptr<ADat> &d, const std::string &k, long nx, const Mat &W, const Mat &Mt) {
  const long nu = W.cols(), nv = W.rows();
  Vec x = in_vec("x" + k, nx), u = in_vec("u" + k, nu);
  b.calc(d, x, u);
  Vec tau = d->tau;
  check_eqm("torque", tau, Vec(W * u));
  b.calcDiff(d, x, u);
  check_eqm("derivative with respect to the input", Mat(d->dtau_du), W);
  check_eqm("derivative with respect to the state", Mat(d->dtau_dx), Mat(Mat::Zero(nv, nx)));
  b.torqueTransform(d, x, u);
  check_eqm("torque transform", Mat(d->Mtau), Mt);
  Vec t = in_vec("t" + k, nv);
  b.commands(d, x, t);
  check_eqm("input that gives the torque", Vec(d->u), Vec(Mt * t));
  check_eqm("commands leave the torque", Vec(d->tau), tau);
}
static std::shared_ptr<StateMultibodyTpl<double>> mb(long nfb, long nj, bool root) {
  auto p = std::make_shared<pinocchio::ModelStub>();
  p->joints.push_back({0});
  p->names.push_back("universe");
  if (root) { p->joints.push_back({(int)nfb}); p->names.push_back("root_joint"); }
  for (long i = 0; i < nj; ++i) { p->joints.push_back({1}); p->names.push_back("j" + std::to_string(i)); }
  return std::make_shared<StateMultibodyTpl<double>>(p);
}
static void simple(const Case &c) {
  const long nfb = c("nfb"), nj = c("nj"), nv = nfb + nj;
  auto st = mb(nfb, nj, nfb > 0);
  std::shared_ptr<AMod> m;
  Mat W = Mat::Zero(nv, c("full") ? nv : nj);
  if (c("full")) { m = std::make_shared<ActuationModelFullTpl<double>>(st); W.setIdentity(); }
  else { m = std::make_shared<ActuationModelFloatingBaseTpl<double>>(st); W.bottomRows(nj).setIdentity(); }
  check_true("input dimension", (long)m->get_nu() == W.cols());
  auto d = m->createData();
  for (long i = 0; i < nv; ++i) check_true("driven joints", d->tau_set[i] == (c("full") || i >= nfb));
  evaluate(*m, d, "0", 2 * nv, W, W.transpose());
  evaluate(*m, d, "1", 2 * nv, W, W.transpose());
  Vec bad = Vec::Zero(W.cols() + 1), badt = Vec::Zero(nv + 1), x = Vec::Zero(2 * nv);
  check_true("wrong sizes rejected", throws([&]() { m->calc(d, x, bad); }) && throws([&]() { m->commands(d, x, badt); }));
}
struct Par { std::vector<ThrusterTpl<double>> t; Mat W; };
static Par thrusters(const std::string &k, long n, long nj) {
  Par p;
  p.W = Mat::Zero(6 + nj, n + nj);
  for (long i = 0; i < n; ++i) {
    const std::string s = k + std::to_string(i);
    Mat R = in_mat("R" + s, 3, 3);
    Vec q = in_vec("p" + s, 3);
    const double ct = in("ct" + s);
    const bool ccw = flag("ccw" + s);
    p.t.push_back(ThrusterTpl<double>(pinocchio::SE3Tpl<double>(Eigen::Matrix<double, 3, 3>(R), Eigen::Matrix<double, 3, 1>(q)), ct, ccw ? CCW : CW));
    const double x = R(0, 2), y = R(1, 2), z = R(2, 2), g = ccw ? -ct : ct;
    p.W.col(i).head(6) << x, y, z, q(1) * z - q(2) * y + g * x, q(2) * x - q(0) * z + g * y, q(0) * y - q(1) * x + g * z;
  }
  for (long j = 0; j < nj; ++j) p.W(6 + j, n + j) = 1;
  return p;
}
static void thrust(const Case &c) {
  const long n = c("n"), nj = c("nj"), nv = 6 + nj;
  auto st = mb(6, nj, true);
  Par p = thrusters("a", n, nj);
  ActuationModelFloatingBaseThrustersTpl<double> m(st, p.t);
  AMod &b = m;
  check_true("input dimension", (long)b.get_nu() == n + nj && (long)m.get_nthrusters() == n);
  std::shared_ptr<ADat> d[2] = {b.createData(), b.createData()};
  const long when = choose("when", 2);
  for (long t = 0; t < 2; ++t) {
    if (t == when && flag("replace")) {
      p = thrusters("b", n, nj);
      m.set_thrusters(p.t);
    }
    check_eqm("thrust matrix", Mat(m.get_Wthrust()), p.W);
    Mat Mt = pseudoInverse(p.W);
    check_eqm("selection", Mat(m.get_S()), Mat(p.W * Mt));
    const long k = choose("data" + std::to_string(t), 2);
    evaluate(b, d[k], std::to_string(t), 2 * nv, p.W, Mt);
  }
  check_true("wrong number of thrusters rejected", throws([&]() { p.t.pop_back(); m.set_thrusters(p.t); }));
  check_true("a base without root joint is rejected", throws([&]() { ActuationModelFloatingBaseThrustersTpl<double> z(mb(0, 1, false), p.t); }));
}
REGISTER(
  add_case("saturation", saturation, {{"n", 1}});
  add_case("saturation", saturation, {{"n", 2}});
  add_case("saturation", saturation, {{"n", 3}}, 1);
  for (long nu = 1; nu <= 2; ++nu) {
    add_case("squashed", squashed, {{"nu", nu}, {"nv", 1}});
    add_case("squashed", squashed, {{"nu", nu}, {"nv", 2}}, nu > 1);
  }
  for (long f = 0; f < 2; ++f) {
    add_case("simple", simple, {{"full", f}, {"nfb", 0}, {"nj", 2}});
    add_case("simple", simple, {{"full", f}, {"nfb", 1}, {"nj", 2}});
    add_case("simple", simple, {{"full", f}, {"nfb", 6}, {"nj", 1}});
    add_case("simple", simple, {{"full", f}, {"nfb", 6}, {"nj", 3}}, 1);
  }
  add_case("thrust", thrust, {{"n", 1}, {"nj", 0}});
  add_case("thrust", thrust, {{"n", 1}, {"nj", 1}});
  add_case("thrust", thrust, {{"n", 2}, {"nj", 1}}, 1);)
