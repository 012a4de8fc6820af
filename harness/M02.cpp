// Linear-quadratic differential action model: exact acceleration, cost, constraints and derivatives.
// BOUNDS: 1..2 positions and velocities (quick) / 3 (thorough), 1..2 controls, 0..1 inequality and equality rows (2 thorough); every matrix and vector of the model, every state and control; two data objects with any earlier use; model data changed after the data was created
// OUTSIDE: cost matrices that are not symmetric; floating-point rounding
// ASSUMES: the positive-semidefiniteness test is replaced by its specification in the encoding (the real one runs in the replay)
#include "sym/harness.hpp"
#include "crocoddyl/core/utils/math.hpp"
#include "sym/psd.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
using namespace vf;
using namespace crocoddyl;
typedef DifferentialActionModelLQRTpl<double> LQR;
typedef DifferentialActionModelAbstractTpl<double> Base;
typedef DifferentialActionDataAbstractTpl<double> Data;

struct Par {
  Mat Aq, Av, A, B, Q, R, N, G, H;
  Vec f, q, r, g, h;
};
static Par par(const std::string &p, long nx, long nu, long ng, long nh) {
  Par m;
  m.Aq = in_mat(p + "Aq", nx / 2, nx / 2);
  m.Av = in_mat(p + "Av", nx / 2, nx / 2);
  m.A.resize(nx / 2, nx);
  m.A << m.Aq, m.Av;
  m.B = in_mat(p + "B", nx / 2, nu);
  psd_blocks(p, nx, nu, m.Q, m.R, m.N);
  m.G = in_mat(p + "G", ng, nx + nu);
  m.H = in_mat(p + "H", nh, nx + nu);
  m.f = in_vec(p + "f", nx / 2);
  m.q = in_vec(p + "q", nx);
  m.r = in_vec(p + "r", nu);
  m.g = in_vec(p + "g", ng);
  m.h = in_vec(p + "h", nh);
  return m;
}
static void set(LQR &m, const Par &p) { m.set_LQR(p.Aq, p.Av, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h); }
static double quad(const Vec &x, const Mat &Q, const Vec &y) {
  double s = 0;
  for (long i = 0; i < Q.rows(); ++i) for (long j = 0; j < Q.cols(); ++j) s += x(i) * Q(i, j) * y(j);
  return s;
}
static void running(Base &m, const std::shared_ptr<Data> &d, const Par &p, const Vec &x, const Vec &u) {
  const long nx = x.size(), nu = u.size();
  m.calc(d, x, u);
  check_eqm("acceleration", Vec(d->xout), Vec(p.A * x + p.B * u + p.f));
  check_eq("cost", d->cost, quad(x, p.Q, x) / 2 + quad(u, p.R, u) / 2 + quad(x, p.N, u) + p.q.dot(x) + p.r.dot(u));
  check_eqm("inequality", Vec(d->g), Vec(p.G.leftCols(nx) * x + p.G.rightCols(nu) * u + p.g));
  check_eqm("equality", Vec(d->h), Vec(p.H.leftCols(nx) * x + p.H.rightCols(nu) * u + p.h));
  m.calcDiff(d, x, u);
  check_eqm("Fx", Mat(d->Fx), p.A);
  check_eqm("Fu", Mat(d->Fu), p.B);
  check_eqm("Gx", Mat(d->Gx), Mat(p.G.leftCols(nx)));
  check_eqm("Gu", Mat(d->Gu), Mat(p.G.rightCols(nu)));
  check_eqm("Hx", Mat(d->Hx), Mat(p.H.leftCols(nx)));
  check_eqm("Hu", Mat(d->Hu), Mat(p.H.rightCols(nu)));
  check_eqm("Lx", Vec(d->Lx), Vec(p.q + p.Q * x + p.N * u));
  check_eqm("Lu", Vec(d->Lu), Vec(p.r + p.R * u + p.N.transpose() * x));
  check_eqm("Lxx", Mat(d->Lxx), p.Q);
  check_eqm("Luu", Mat(d->Luu), p.R);
  check_eqm("Lxu", Mat(d->Lxu), p.N);
  observe("cost", d->cost);
  observe("xout", Vec(d->xout));
}
static void terminal(Base &m, const std::shared_ptr<Data> &d, const Par &p, const Vec &x) {
  const long nx = x.size();
  m.calc(d, x);
  check_eq("terminal cost", d->cost, quad(x, p.Q, x) / 2 + p.q.dot(x));
  check_eqm("terminal inequality", Vec(d->g), Vec(p.G.leftCols(nx) * x + p.g));
  check_eqm("terminal equality", Vec(d->h), Vec(p.H.leftCols(nx) * x + p.h));
  m.calcDiff(d, x);
  check_eqm("terminal Lx", Vec(d->Lx), Vec(p.q + p.Q * x));
  check_eqm("terminal Lxx", Mat(d->Lxx), p.Q);
  check_eqm("terminal Gx", Mat(d->Gx), Mat(p.G.leftCols(nx)));
  check_eqm("terminal Hx", Mat(d->Hx), Mat(p.H.leftCols(nx)));
}
static void use(Base &m, const std::shared_ptr<Data> &d, const Par &p, const std::string &k, long nx, long nu) {
  Vec x = in_vec("x" + k, nx), u = in_vec("u" + k, nu);
  if (flag("terminal" + k)) terminal(m, d, p, x);
  else running(m, d, p, x, u);
}
// any order of evaluations over two data objects, with the model changed in between
static void histories(const Case &c) {
  const long nx = c("nx"), nu = c("nu"), ng = c("ng"), nh = c("nh");
  Par p = par("p", nx, nu, ng, nh);
  LQR m(p.Aq, p.Av, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
  std::shared_ptr<Data> d[2] = {m.createData(), m.createData()};
  check_true("the model accepts its own data", m.checkData(d[0]));
  for (long t = 0; t < c("len"); ++t) {
    const std::string k = std::to_string(t);
    if (t == c("change")) {
      p = par("p2", nx, nu, ng, nh);
      set(m, p);
    }
    use(m, d[choose("data" + k, 2)], p, k, nx, nu);
  }
}
// exact derivatives, obtained from the recorded outputs themselves
static void derivatives(const Case &c) {
  const long nx = c("nx"), nu = c("nu"), ng = c("ng"), nh = c("nh");
  Par p = par("p", nx, nu, ng, nh);
  LQR m(p.Aq, p.Av, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
  auto d = m.createData();
  Base &b = m;
  Vec x = in_vec("x", nx), u = in_vec("u", nu);
  b.calc(d, x, u);
  b.calcDiff(d, x, u);
  check_jac("Fx is the derivative of the acceleration", "xout", d->xout, "x", d->Fx);
  check_jac("Fu is the derivative of the acceleration", "xout", d->xout, "u", d->Fu);
  check_jac1("Lx is the derivative of the cost", "cost", d->cost, "x", d->Lx);
  check_jac1("Lu is the derivative of the cost", "cost", d->cost, "u", d->Lu);
  check_jac("Lxx is the derivative of Lx", "Lx", d->Lx, "x", d->Lxx);
  check_jac("Lxu is the derivative of Lx", "Lx", d->Lx, "u", d->Lxu);
  check_jac("Luu is the derivative of Lu", "Lu", d->Lu, "u", d->Luu);
  if (ng) { check_jac("Gx", "g", d->g, "x", d->Gx); check_jac("Gu", "g", d->g, "u", d->Gu); }
  if (nh) { check_jac("Hx", "h", d->h, "x", d->Hx); check_jac("Hu", "h", d->h, "u", d->Hu); }
}
static void constructors(const Case &c) {
  const long nx = c("nx"), nu = c("nu");
  Par p = par("p", nx, nu, 0, 0);
  const long how = choose("how", 4);
  std::shared_ptr<LQR> m;
  if (how == 0) {
    p.f.setZero(); p.q.setZero(); p.r.setZero();
    m = std::make_shared<LQR>(p.Aq, p.Av, p.B, p.Q, p.R, p.N);
  } else if (how == 1) {
    m = std::make_shared<LQR>(p.Aq, p.Av, p.B, p.Q, p.R, p.N, p.f, p.q, p.r);
  } else if (how == 2) {
    const bool free = flag("drift_free");
    p.Aq = p.Av = Mat::Identity(nx / 2, nx / 2); p.A << p.Aq, p.Av; p.B = Mat::Identity(nx / 2, nu); p.Q = Mat::Identity(nx, nx); p.R = Mat::Identity(nu, nu); p.N = Mat::Zero(nx, nu);
    p.f = free ? Vec(Vec::Zero(nx / 2)) : Vec(Vec::Ones(nx / 2));
    p.q = Vec::Ones(nx); p.r = Vec::Ones(nu);
    m = std::make_shared<LQR>(nx / 2, nu, free);
  } else {
    LQR o(p.Aq, p.Av, p.B, p.Q, p.R, p.N, p.f, p.q, p.r);
    m = std::make_shared<LQR>(o);
  }
  check_true("dimensions", (long)m->get_nu() == nu && (long)m->get_state()->get_nx() == nx && m->get_ng() == 0 && m->get_nh() == 0 && m->get_ng_T() == 0 && m->get_nh_T() == 0);
  check_eqm("Aq", m->get_Aq(), p.Aq);
  check_eqm("Av", m->get_Av(), p.Av);
  check_eqm("B", m->get_B(), p.B);
  check_eqm("Q", m->get_Q(), p.Q);
  check_eqm("R", m->get_R(), p.R);
  check_eqm("N", m->get_N(), p.N);
  check_eqm("f", m->get_f(), p.f);
  check_eqm("q", m->get_q(), p.q);
  check_eqm("r", m->get_r(), p.r);
  auto d = m->createData();
  use(*m, d, p, "", nx, nu);
}
// one block at a time (deprecated interface)
static void blocks(const Case &c) {
  const long nx = c("nx"), nu = c("nu"), ng = 1, nh = 1;
  Par p = par("p", nx, nu, ng, nh), b = par("b", nx, nu, ng, nh);
  LQR m(p.Aq, p.Av, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
  const long w = choose("what", 8);
  if (w == 5) { p.N.setZero(); set(m, p); }
  if (w == 0) {
    if (flag("velocity")) m.set_Fv(p.Av = b.Av); else m.set_Fq(p.Aq = b.Aq);
    p.A << p.Aq, p.Av;
  }
  if (w == 1) m.set_Fu(p.B = b.B);
  if (w == 2) m.set_f0(p.f = b.f);
  if (w == 3) m.set_lx(p.q = b.q);
  if (w == 4) m.set_lu(p.r = b.r);
  if (w == 5) { if (flag("control")) m.set_Luu(p.R = b.R); else m.set_Lxx(p.Q = b.Q); }
  if (w == 6) m.set_Lxu(p.N = Mat::Zero(nx, nu));
  check_eqm("deprecated getters", Mat(m.get_Fq()), Mat(p.Aq));
  check_eqm("deprecated getters", Mat(m.get_Fv()), Mat(p.Av));
  check_eqm("deprecated getters", Mat(m.get_Fu()), Mat(p.B));
  check_eqm("deprecated getters", Mat(m.get_f0()), Mat(p.f));
  check_eqm("deprecated getters", Mat(m.get_lx()), Mat(p.q));
  check_eqm("deprecated getters", Mat(m.get_lu()), Mat(p.r));
  check_eqm("deprecated getters", Mat(m.get_Lxx()), Mat(p.Q));
  check_eqm("deprecated getters", Mat(m.get_Lxu()), Mat(p.N));
  check_eqm("deprecated getters", Mat(m.get_Luu()), Mat(p.R));
  auto d = m.createData();
  use(m, d, p, "", nx, nu);
}
static void rejects(const Case &c) {
  const long nx = c("nx"), nu = c("nu"), ng = 1, nh = 1;
  Par p = par("p", nx, nu, ng, nh);
  LQR m(p.Aq, p.Av, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
  const char *what[] = {"Aq", "B", "Q", "R", "N", "G", "H", "f", "q", "r", "g", "h", "indefinite", "Av"};
  const long w = choose("what", 14);
  Par b = par("b", nx, nu, ng, nh);
  if (w == 0) { if (flag("cols")) b.Aq = Mat::Zero(nx / 2, nx / 2 + 1); else b.Aq = Mat::Zero(nx / 2 + 1, nx / 2); }
  if (w == 13) { if (flag("cols")) b.Av = Mat::Zero(nx / 2, nx / 2 + 1); else b.Av = Mat::Zero(nx / 2 + 1, nx / 2); }
  if (w == 1) { if (flag("cols")) b.B = Mat::Zero(nx / 2, nu + 1); else b.B = Mat::Zero(nx / 2 + 1, nu); }
  if (w == 2) { if (flag("cols")) b.Q = Mat::Zero(nx, nx + 1); else b.Q = Mat::Zero(nx + 1, nx); }
  if (w == 3) { if (flag("cols")) b.R = Mat::Zero(nu, nu + 1); else b.R = Mat::Zero(nu + 1, nu); }
  if (w == 4) { if (flag("cols")) b.N = Mat::Zero(nx, nu + 1); else b.N = Mat::Zero(nx + 1, nu); }
  if (w == 5) { if (flag("cols")) b.G = Mat::Zero(ng, nx + nu + 1); else b.G = Mat::Zero(ng + 1, nx + nu); }
  if (w == 6) { if (flag("cols")) b.H = Mat::Zero(nh, nx + nu + 1); else b.H = Mat::Zero(nh + 1, nx + nu); }
  if (w == 7) b.f = Vec::Zero(nx / 2 + 1);
  if (w == 8) b.q = Vec::Zero(nx + 1);
  if (w == 9) b.r = Vec::Zero(nu + 1);
  if (w == 10) b.g = Vec::Zero(ng + 1);
  if (w == 11) b.h = Vec::Zero(nh + 1);
  if (w == 12) {
    const long k = choose("where", nx + nu + 1);
    const double neg = in("neg");
    assume(gt(neg, 0.5));
    if (k < nx) b.Q(k, k) = -neg;
    else if (k < nx + nu) b.R(k - nx, k - nx) = -neg;
    else { b.Q.setZero(); b.N.setZero(); b.N(0, 0) = neg; b.R = Mat::Identity(nu, nu); }
    psd_answer() = false;
  }
  check_true(std::string("rejected: ") + what[w], throws([&]() { set(m, b); }));
  psd_answer() = true;
  check_eqm("rejected change leaves Aq", m.get_Aq(), p.Aq);
  check_eqm("rejected change leaves Q", m.get_Q(), p.Q);
  check_eqm("rejected change leaves h", m.get_h(), p.h);
  auto d = m.createData();
  Base &base = m;
  Vec x = Vec::Zero(nx), u = Vec::Zero(nu), xb = Vec::Zero(nx + 1), ub = Vec::Zero(nu + 1);
  check_true("wrong state dimension rejected", throws([&]() { base.calc(d, xb, u); }) && throws([&]() { base.calc(d, xb); }) && throws([&]() { base.calcDiff(d, xb, u); }) && throws([&]() { base.calcDiff(d, xb); }));
  check_true("wrong control dimension rejected", throws([&]() { base.calc(d, x, ub); }) && throws([&]() { base.calcDiff(d, x, ub); }));
}
REGISTER(
  add_case("histories", histories, {{"nx", 2}, {"nu", 1}, {"ng", 1}, {"nh", 1}, {"len", 3}, {"change", -1}});
  add_case("histories", histories, {{"nx", 2}, {"nu", 1}, {"ng", 0}, {"nh", 0}, {"len", 3}, {"change", 1}});
  add_case("histories", histories, {{"nx", 4}, {"nu", 2}, {"ng", 1}, {"nh", 0}, {"len", 2}, {"change", 1}});
  add_case("histories", histories, {{"nx", 2}, {"nu", 1}, {"ng", 0}, {"nh", 1}, {"len", 3}, {"change", 2}});
  add_case("histories", histories, {{"nx", 6}, {"nu", 2}, {"ng", 2}, {"nh", 2}, {"len", 3}, {"change", 1}}, 1);
  add_case("histories", histories, {{"nx", 4}, {"nu", 1}, {"ng", 1}, {"nh", 2}, {"len", 4}, {"change", 2}}, 1);
  add_case("derivatives", derivatives, {{"nx", 2}, {"nu", 1}, {"ng", 1}, {"nh", 1}});
  add_case("derivatives", derivatives, {{"nx", 4}, {"nu", 2}, {"ng", 1}, {"nh", 1}});
  add_case("derivatives", derivatives, {{"nx", 6}, {"nu", 3}, {"ng", 2}, {"nh", 2}}, 1);
  add_case("constructors", constructors, {{"nx", 2}, {"nu", 1}});
  add_case("constructors", constructors, {{"nx", 4}, {"nu", 2}});
  add_case("blocks", blocks, {{"nx", 2}, {"nu", 1}});
  add_case("blocks", blocks, {{"nx", 2}, {"nu", 2}});
  add_case("rejects", rejects, {{"nx", 2}, {"nu", 1}});
  add_case("rejects", rejects, {{"nx", 2}, {"nu", 2}});)
