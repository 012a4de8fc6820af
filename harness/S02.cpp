// State of a robot: configuration manifold and velocities.
// BOUNDS: 3 configuration coordinates and 2 velocities, 2 and 1, 2 and 2; with and without a root joint; arbitrary difference, integration, Jacobians and transport of the configuration; every state, tangent, limit and pre-existing Jacobian content; all selectors and assignment modes; the state, its copy and its conversion
// OUTSIDE: Pinocchio (the operations on the configuration are arbitrary functions); random states; floating-point rounding
#define VERIF_REAL_STATE
#include "sym/harness.hpp"
#include "crocoddyl/multibody/pch.hpp"
#include "crocoddyl/multibody/states/multibody.hpp"
using namespace vf;
using namespace crocoddyl;
template class crocoddyl::StateMultibodyTpl<double>;
typedef StateMultibodyTpl<double> State;
struct World {
  std::shared_ptr<pinocchio::ModelStub> m = std::make_shared<pinocchio::ModelStub>();
  std::shared_ptr<State> s;
  long nq, nv, nx, nd, root;
  Mat A, B, C, D, E, F, G;
  Vec d0, i0;
  World(const Case &c) : nq(c("nq")), nv(c("nv")), nx(nq + nv), nd(2 * nv), root(c("root")) {
    m->nq = (int)nq;
    m->nv = (int)nv;
    m->names = {"universe"};
    m->joints = {pinocchio::JointStub{0, 0}};
    if (root) { m->names.push_back("root_joint"); m->joints.push_back(pinocchio::JointStub{1, (int)root}); }
    m->names.push_back("leg");
    m->joints.push_back(pinocchio::JointStub{(int)(root ? nv - 1 : nv), (int)(nq - root)});
    m->njoints = (int)m->joints.size();
    A = in_mat("A", nv, nq);
    B = in_mat("B", nv, nq);
    C = in_mat("C", nq, nq);
    D = in_mat("D", nq, nv);
    E = in_mat("E", nv, nv);
    F = in_mat("F", nv, nv);
    d0 = in_vec("diff", nv);
    i0 = in_vec("int", nq);
    pinocchio::Manifold &k = m->manifold;
    const Mat a = A, b = B, cc = C, d = D, e = E, f = F;
    const Vec u = d0, w = i0;
    auto sized = [](const Vec &x, long n) { if (x.size() != n) throw std::logic_error("size"); };
    const long q_ = nq, v_ = nv;
    k.neutral = in_vec("neutral", nq);
    k.difference = [=](const Vec &q0, const Vec &q1) { sized(q0, q_); sized(q1, q_); return Vec(a * q1 - b * q0 + u); };
    k.integrate = [=](const Vec &q, const Vec &v) { sized(q, q_); sized(v, v_); return Vec(cc * q + d * v + w); };
    k.dDifference = [=](const Vec &q0, const Vec &q1, int arg) { return Mat(arg ? Mat(e * (1 + q0.sum() - 2 * q1.sum())) : Mat(f * (3 + q0.sum() + q1.sum()))); };
    k.dIntegrate = [=](const Vec &q, const Vec &v, int arg) { return Mat(arg ? Mat(f * (1 - q.sum() + 2 * v.sum())) : Mat(e * (5 + q.sum() + v.sum()))); };
    k.transport = [=](const Vec &q, const Vec &v, const Mat &J, int arg) { return Mat(arg ? Mat((e * J) * (1 + q.sum() + v.sum())) : Mat((f * J) * (2 - q.sum() + v.sum()))); };
    m->lowerPositionLimit = in_vec("lq", nq);
    m->upperPositionLimit = in_vec("uq", nq);
    m->velocityLimit = in_vec("lv", nv);
    s = std::make_shared<State>(m);
    const long how = choose("how", 3);
    if (how == 1) s = std::make_shared<State>(*s);
    else if (how == 2) s = std::make_shared<State>(s->cast<double>());
  }
};
// Jacobian contents before the call: blocks of the two parts
static Mat dst(const std::string &n, long nv) {
  Mat J = Mat::Zero(2 * nv, 2 * nv);
  J.topLeftCorner(nv, nv) = in_mat(n + ".q", nv, nv);
  for (long i = 0; i < nv; ++i) J(nv + i, nv + i) = in(n + ".v" + std::to_string(i));
  return J;
}
static Mat blocks(const Mat &Q, double v) {
  const long nv = Q.rows();
  Mat J = Mat::Zero(2 * nv, 2 * nv);
  J.topLeftCorner(nv, nv) = Q;
  for (long i = 0; i < nv; ++i) J(nv + i, nv + i) = v;
  return J;
}
static void ops(const Case &c) {
  World w(c);
  State &s = *w.s;
  const long nq = w.nq, nv = w.nv;
  const pinocchio::Manifold &k = w.m->manifold;
  check_true("sizes", (long)s.get_nx() == w.nx && (long)s.get_ndx() == w.nd && (long)s.get_nq() == nq && (long)s.get_nv() == nv);
  Vec zero = Vec::Zero(w.nx);
  zero.head(nq) = k.neutral;
  check_eqm("neutral state", s.zero(), zero);
  const Vec x0 = in_vec("x0", w.nx), x1 = in_vec("x1", w.nx), dx = in_vec("dx", w.nd);
  const Vec q0 = x0.head(nq), q1 = x1.head(nq), dq = dx.head(nv);
  Vec d = in_vec("before", w.nd), y = in_vec("beforex", w.nx), want(w.nd), wy(w.nx);
  s.diff(x0, x1, d);
  want << k.difference(q0, q1), x1.tail(nv) - x0.tail(nv);
  check_eqm("difference of configurations and of velocities", d, want);
  check_eqm("diff_dx agrees", s.diff_dx(x0, x1), want);
  s.integrate(x0, dx, y);
  wy << k.integrate(q0, dq), x0.tail(nv) + dx.tail(nv);
  check_eqm("integration of configurations and of velocities", y, wy);
  check_eqm("integrate_x agrees", s.integrate_x(x0, dx), wy);
  {  // in place
    Vec z = x0;
    s.integrate(z, dx, z);
    check_eqm("integration in place", z, wy);
  }
  const Mat D0 = blocks(k.dDifference(q0, q1, 0), -1), D1 = blocks(k.dDifference(q0, q1, 1), 1);
  const Mat J1 = dst("J1", nv), J2 = dst("J2", nv);
  for (long sel = 0; sel < 3; ++sel) {
    Mat a = J1, b = J2;
    s.Jdiff(x0, x1, a, b, sel == 0 ? both : sel == 1 ? first : second);
    check_eqm("Jdiff first", a, sel == 2 ? J1 : D0);
    check_eqm("Jdiff second", b, sel == 1 ? J2 : D1);
  }
  {
    const auto p = s.Jdiff_Js(x0, x1, both);
    check_true("Jacobians returned", p.size() == 2);
    check_eqm("Jdiff first", Mat(p[0]), D0);
    check_eqm("Jdiff second", Mat(p[1]), D1);
  }
  const Mat I0 = blocks(k.dIntegrate(q0, dq, 0), 1), I1 = blocks(k.dIntegrate(q0, dq, 1), 1);
  for (long sel = 0; sel < 3; ++sel)
    for (long op = 0; op < 3; ++op) {
      Mat a = J1, b = J2;
      s.Jintegrate(x0, dx, a, b, sel == 0 ? both : sel == 1 ? first : second, op == 0 ? setto : op == 1 ? addto : rmfrom);
      auto res = [&](const Mat &J, const Mat &I) { return Mat(op == 0 ? I : op == 1 ? Mat(J + I) : Mat(J - I)); };
      check_eqm("Jintegrate first", a, sel == 2 ? J1 : res(J1, I0));
      check_eqm("Jintegrate second", b, sel == 1 ? J2 : res(J2, I1));
    }
  {
    const auto p = s.Jintegrate_Js(x0, dx, both);
    check_eqm("Jintegrate first", Mat(p[0]), I0);
    check_eqm("Jintegrate second", Mat(p[1]), I1);
  }
  const Mat T = in_mat("T", w.nd, 3);
  for (long sel = 0; sel < 2; ++sel) {
    Mat a = T, t = T;
    s.JintegrateTransport(x0, dx, a, sel ? second : first);
    t.topRows(nv) = k.transport(q0, dq, Mat(T.topRows(nv)), (int)sel);
    check_eqm("transport of the configuration part", a, t);
  }
  {
    Mat a = T;
    check_true("transport of both", throws([&] { s.JintegrateTransport(x0, dx, a, both); }));
  }
  // limits
  Vec lb(w.nx), ub(w.nx);
  const double big = std::numeric_limits<double>::max();
  for (long i = 0; i < nq; ++i) { lb(i) = i < w.root ? -big : w.m->lowerPositionLimit(i); ub(i) = i < w.root ? big : w.m->upperPositionLimit(i); }
  lb.tail(nv) = -w.m->velocityLimit;
  ub.tail(nv) = w.m->velocityLimit;
  check_eqm("lower limits", Vec(s.get_lb()), lb);
  check_eqm("upper limits", Vec(s.get_ub()), ub);
  check_true("limits are reported", s.get_has_limits());
  check_true("the robot is kept", c("root") >= 0 && s.get_pinocchio()->nq == nq && (long)s.get_pinocchio()->nv == nv);
}
static void sizes(const Case &c) {
  World w(c);
  State &s = *w.s;
  const long bad = choose("which", 3), off = choose("off", 2) ? 1 : -1;
  auto n = [&](long k, long size) { return bad == k ? size + off : size; };
  const Vec a = Vec::Zero(n(0, w.nx)), b = Vec::Zero(n(1, w.nx)), b2 = Vec::Zero(n(1, w.nd));
  Vec d = Vec::Zero(n(2, w.nd)), y = Vec::Zero(n(2, w.nx));
  check_true("sizes of diff", throws([&] { s.diff(a, b, d); }));
  check_true("sizes of integrate", throws([&] { s.integrate(a, b2, y); }));
  const Vec x = Vec::Zero(w.nx), x2 = Vec::Zero(w.nd);
  Mat J = Mat::Zero(w.nd, w.nd), K = bad == 0 ? Mat(Mat::Zero(w.nd + off, w.nd)) : Mat(Mat::Zero(w.nd, w.nd + off));
  if (bad < 2) {
    check_true("sizes of Jdiff", throws([&] { s.Jdiff(x, x, K, J, first); }));
    check_true("sizes of Jdiff", throws([&] { s.Jdiff(x, x, J, K, second); }));
    check_true("sizes of Jdiff", throws([&] { s.Jdiff(x, x, K, J, both); }));
    check_true("sizes of Jdiff", throws([&] { s.Jdiff(x, x, J, K, both); }));
    check_true("sizes of Jintegrate", throws([&] { s.Jintegrate(x, x2, K, J, first); }));
    check_true("sizes of Jintegrate", throws([&] { s.Jintegrate(x, x2, J, K, second); }));
    check_true("sizes of Jdiff arguments", throws([&] { s.Jdiff(a, b, J, J, both); }));
  }
}
REGISTER(
  for (long nq = 2; nq < 4; ++nq)
    for (long nv = 1; nv < 3; ++nv)
      for (long root = 0; root < 2; ++root) {
        add_case("ops", ops, {{"nq", nq}, {"nv", nv}, {"root", nv == 1 ? 0 : root * (nq - 1)}}, root == 1 && nv == 1);
      }
  add_case("sizes", sizes, {{"nq", 3}, {"nv", 2}, {"root", 2}});
)
