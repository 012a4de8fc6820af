// Numerically differentiated residuals, costs, constraints, contacts, activations, actuations, control
// parametrizations and states: difference quotients of the wrapped model.
// BOUNDS: every state, control, disturbance and quadratic function; flat and rescaled state space; 1 to 2 states, 1 to 2 controls, 1 to 2 outputs; quantities computed by the model itself or read from shared data refreshed by re-evaluation functions; data fresh or used before at a running or terminal node
// OUTSIDE: floating-point cancellation in the quotients (real arithmetic); functions other than quadratics; curvature reported by the activation wrapper (it is not a second derivative) and JintegrateTransport of the state wrapper (it does nothing)
#include "harness/numdiff.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/multibody/numdiff/contact.hpp"

struct Shared : DataCollectorAbstractTpl<double> { Vec x, u; };
// where the function is evaluated: at the arguments, or at what the shared data says
template <class Data> static Vec at_x(bool re, const Data &d, const VR &x) { return re ? static_cast<Shared *>(d.shared)->x : Vec(x); }
template <class Data> static Vec at_u(bool re, const Data &d, const VR &u) { return re ? static_cast<Shared *>(d.shared)->u : Vec(u); }

typedef ResidualModelAbstractTpl<double> RM;
typedef ResidualDataAbstractTpl<double> RD;
struct Res : RM {
  Fun f; bool re;
  Res(std::shared_ptr<St> s, long nr, long nu, const Fun &f, bool re) : RM(s, nr, nu, true, true, true), f(f), re(re) {}
  void calc(const std::shared_ptr<RD> &d, const VR &x, const VR &u) override { d->r = f(at_x(re, *d, x), at_u(re, *d, u)); }
  void calc(const std::shared_ptr<RD> &d, const VR &x) override { d->r = f(at_x(re, *d, x)); }
};
typedef CostModelAbstractTpl<double> CM;
typedef CostDataAbstractTpl<double> CD;
struct Cost : CM {
  Fun f, r; bool re;
  Cost(std::shared_ptr<St> s, std::shared_ptr<ActivationModelAbstractTpl<double>> a, long nu, const Fun &f, const Fun &r, bool re) : CM(s, a, nu), f(f), r(r), re(re) {}
  void calc(const std::shared_ptr<CD> &d, const VR &x, const VR &u) override { Vec X = at_x(re, *d, x), U = at_u(re, *d, u); d->cost = f(X, U)(0); d->residual->r = r(X, U); }
  void calc(const std::shared_ptr<CD> &d, const VR &x) override { Vec X = at_x(re, *d, x); d->cost = f(X)(0); d->residual->r = r(X); }
  void calcDiff(const std::shared_ptr<CD> &, const VR &, const VR &) override {}
  void calcDiff(const std::shared_ptr<CD> &, const VR &) override {}
};
typedef ConstraintModelAbstractTpl<double> NM;
typedef ConstraintDataAbstractTpl<double> ND;
struct Con : NM {
  Fun g, h; bool re;
  Con(std::shared_ptr<St> s, long nu, long ng, long nh, const Fun &g, const Fun &h, bool re, bool T = true) : NM(s, nu, ng, nh, T), g(g), h(h), re(re) {}
  void calc(const std::shared_ptr<ND> &d, const VR &x, const VR &u) override { Vec X = at_x(re, *d, x), U = at_u(re, *d, u); d->g = g(X, U); d->h = h(X, U); }
  void calc(const std::shared_ptr<ND> &d, const VR &x) override { Vec X = at_x(re, *d, x); d->g = g(X); d->h = h(X); }
  void calcDiff(const std::shared_ptr<ND> &, const VR &, const VR &) override {}
};
typedef ActuationModelAbstractTpl<double> UM;
typedef ActuationDataAbstractTpl<double> UD;
struct Act : UM {
  Fun f;
  Act(std::shared_ptr<St> s, long nu, const Fun &f) : UM(s, nu), f(f) {}
  void calc(const std::shared_ptr<UD> &d, const VR &x, const VR &u) override { d->tau = f(Vec(x), Vec(u)); }
  void calcDiff(const std::shared_ptr<UD> &, const VR &, const VR &) override {}
  void commands(const std::shared_ptr<UD> &d, const VR &x, const VR &tau) override { d->u = f.B.transpose() * Vec(tau) + Vec::Constant(nu_, x(0)); }
  void torqueTransform(const std::shared_ptr<UD> &d, const VR &x, const VR &u) override { d->Mtau = f.B.transpose() + Mat::Constant(nu_, f.B.rows(), x(0) + 2 * u(0)); }
};

struct Site {  // how the history of a data object is made
  long n, nu; bool term, re;
  Vec D, x, u;
  std::shared_ptr<St> s;
  double e, hx, hu;
  Shared sh;
  explicit Site(const Case &c) : n(c("n")), nu(c("nu")), term(c("term")), re(c("re")), s(space(c("scaled"), n, D)), e(in("e")) { assume(gt(e, 0)); }
  // evaluates at fresh arguments `hist` times, then at the final ones
  template <class M, class D_> void run(const Case &c, M &m, const std::shared_ptr<D_> &d) {
    m.set_disturbance(e);
    check_eq("disturbance kept", m.get_disturbance(), e);
    for (long t = 0; t <= c("hist"); ++t) {
      const std::string k = std::to_string(t);
      x = in_vec("x" + k, n); u = in_vec("u" + k, nu);
      const bool tm = t == c("hist") ? term : c("terms") && flag("term" + k);
      sh.x = x; sh.u = u;
      if (tm) { m.calc(d, x); m.calcDiff(d, x); } else { m.calc(d, x, u); m.calcDiff(d, x, u); }
    }
    hx = e * max2(double(1), max2(norm(x), norm(D.cwiseProduct(x)))); hu = step(e, u);
  }
  std::vector<boost::function<void(const Vec &, const Vec &)>> refresh() {
    if (!re) return {};
    return {[this](const Vec &a, const Vec &) { sh.x = a; }, [this](const Vec &, const Vec &b) { sh.u = b; }};
  }
  Vec value(const Fun &f) const { return term ? f(x) : f(x, u); }
  void jac(const std::string &what, const Fun &f, const Mat &Jx, const Mat &Ju) const {
    const Mat Ex = f.dx(x), Eu = f.du(u);
    check_true(what + ": dimensions", Jx.rows() == Ex.rows() && Jx.cols() == n && (term || (Ju.rows() == Eu.rows() && Ju.cols() == nu)));
    if (Jx.rows() != Ex.rows() || Jx.cols() != n) return;
    for (long i = 0; i < Ex.rows(); ++i) for (long j = 0; j < n; ++j) near(what + ": derivative in the state", Jx(i, j), Ex(i, j) / D(j), hx, f.cx(i) / (D(j) * D(j)));
    if (!term) for (long i = 0; i < Eu.rows(); ++i) for (long j = 0; j < nu; ++j) near(what + ": derivative in the control", Ju(i, j), Eu(i, j), hu, f.cu(i));
  }
};
static void residual(const Case &c) {
  Site S(c);
  Fun f("f", 2, S.n, S.nu, true);
  auto m = std::make_shared<Res>(S.s, 2, S.nu, f, S.re);
  ResidualModelNumDiffTpl<double> nd(m);
  nd.set_reevals(S.refresh());
  auto d = nd.createData(&S.sh);
  S.run(c, nd, d);
  check_eqm("value", Vec(d->r), S.value(f));
  S.jac("residual", f, d->Rx, d->Ru);
}
static void cost(const Case &c) {
  Site S(c);
  const long nr = c("nr");
  Fun f("f", 1, S.n, S.nu, true), r("r", nr, S.n, S.nu, false);
  Vec w = in_vec("w", nr);
  auto a = std::make_shared<ActivationModelWeightedQuadTpl<double>>(w);
  auto m = std::make_shared<Cost>(S.s, a, S.nu, f, r, S.re);
  CostModelNumDiffTpl<double> nd(m);
  nd.set_reevals(S.refresh());
  auto d = nd.createData(&S.sh);
  S.run(c, nd, d);
  check_eq("value", d->cost, S.value(f)(0));
  check_eqm("residual", Vec(d->residual->r), S.value(r));
  Mat Lx = Vec(d->Lx).transpose(), Lu = Vec(d->Lu).transpose();
  S.jac("cost", f, Lx, Lu);
  const Mat Rx = r.A * Mat(S.D.cwiseInverse().asDiagonal()), Ru = r.B, W = w.asDiagonal();
  check_eqm("Gauss-Newton Hessian (state)", Mat(d->Lxx), Mat(Rx.transpose() * W * Rx));
  if (S.term) return;
  check_eqm("Gauss-Newton Hessian (mixed)", Mat(d->Lxu), Mat(Rx.transpose() * W * Ru));
  check_eqm("Gauss-Newton Hessian (control)", Mat(d->Luu), Mat(Ru.transpose() * W * Ru));
}
static void constraint(const Case &c) {
  Site S(c);
  Fun g("g", 2, S.n, S.nu, true), h("h", 1, S.n, S.nu, true);
  auto m = std::make_shared<Con>(S.s, S.nu, 2, 1, g, h, S.re);
  ConstraintModelNumDiffTpl<double> nd(m);
  nd.set_reevals(S.refresh());
  auto d = nd.createData(&S.sh);
  S.run(c, nd, d);
  check_eqm("inequality value", Vec(d->g), S.value(g));
  check_eqm("equality value", Vec(d->h), S.value(h));
  S.jac("inequality", g, d->Gx, d->Gu);
  S.jac("equality", h, d->Hx, d->Hu);
}
static void actuation(const Case &c) {
  Site S(c);
  const long nv = S.s->get_nv();
  Fun f("f", nv, S.n, S.nu, true);
  auto m = std::make_shared<Act>(S.s, S.nu, f);
  ActuationModelNumDiffTpl<double> nd(m);
  auto d = nd.createData();
  S.run(c, nd, d);
  check_eqm("value", Vec(d->tau), S.value(f));
  S.jac("actuation", f, d->dtau_dx, d->dtau_du);
  if (c("hist")) return;
  Vec tau = in_vec("tau", nv);
  nd.commands(d, S.x, tau);
  check_eqm("commands are those of the model", Vec(d->u), Vec(f.B.transpose() * tau + Vec::Constant(S.nu, S.x(0))));
  nd.torqueTransform(d, S.x, S.u);
  check_eqm("torque transform is that of the model", Mat(d->Mtau), Mat(f.B.transpose() + Mat::Constant(S.nu, nv, S.x(0) + 2 * S.u(0))));
}
typedef StateMultibodyTpl<double> Robot;
typedef ContactModelAbstractTpl<double> TM;
typedef ContactDataAbstractTpl<double> TD;
struct Touch : TM {  // reads the state, or what the kinematics were last evaluated at
  Fun f;
  const Vec *at;
  Vec *forced;
  Touch(std::shared_ptr<Robot> s, long nc, long nu, const Fun &f, const Vec *at, Vec *forced) : TM(s, pinocchio::LOCAL, nc, nu), f(f), at(at), forced(forced) {}
  void calc(const std::shared_ptr<TD> &d, const VR &x) override { d->a0 = f(at ? *at : Vec(x)); }
  void calcDiff(const std::shared_ptr<TD> &, const VR &) override {}
  void updateForce(const std::shared_ptr<TD> &, const Vec &l) override { *forced = l; }
};
static void contact(const Case &c) {
  const long nc = c("nc"), nu = 1, n = 2, nv = 1;
  auto model = std::make_shared<pinocchio::ModelStub>();
  model->joints = {{0}, {1}};
  model->njoints = 2;
  model->nv = model->nq = nv;
  model->idx_vs = {0, 0};
  model->nvs = {0, 1};
  auto s = std::make_shared<Robot>(model);
  Fun f("f", nc, n, 0, true);
  Vec at, forced;
  auto m = std::make_shared<Touch>(s, nc, nu, f, c("re") ? &at : nullptr, &forced);
  ContactModelNumDiffTpl<double> nd(m);
  check_true("wraps the model", nd.get_model() == m && (long)nd.get_nc() == nc && (long)nd.get_nu() == nu);
  const double e = in("e");
  assume(gt(e, 0));
  nd.set_disturbance(e);
  check_eq("disturbance kept", nd.get_disturbance(), e);
  check_true("a negative disturbance is rejected", throws([&] { nd.set_disturbance(-1); }));
  if (c("re")) nd.set_reevals({[&at](const Vec &a, const Vec &) { at = a; }});
  pinocchio::DataTpl<double> pd;
  auto d = nd.createData(&pd);
  Vec x;
  for (long t = 0; t <= c("hist"); ++t) {
    x = in_vec("x" + std::to_string(t), n);
    at = x;
    nd.calc(d, x);
    nd.calcDiff(d, x);
  }
  check_eqm("value", Vec(d->a0), f(x));
  const Mat E = f.dx(x);
  check_true("dimensions", d->da0_dx.rows() == nc && d->da0_dx.cols() == n);
  if (d->da0_dx.rows() != nc || d->da0_dx.cols() != n) return;
  for (long i = 0; i < nc; ++i) for (long j = 0; j < n; ++j) near("derivative in the state", d->da0_dx(i, j), E(i, j), step(e, x), f.cx(i));
  const Vec l = in_vec("force", nc);
  nd.updateForce(d, l);
  check_true("the force goes to the model", forced.size() == nc);
  if (forced.size() == nc) check_eqm("the force goes to the model", forced, l);
  check_true("wrong forces are rejected", throws([&] { nd.updateForce(d, Vec(Vec::Zero(nc + 1))); }));
}
struct Quad : ActivationModelAbstractTpl<double> {
  Fun f;
  Quad(long n, const Fun &f) : ActivationModelAbstractTpl<double>(n), f(f) {}
  void calc(const std::shared_ptr<ActivationDataAbstractTpl<double>> &d, const VR &r) override { d->a_value = f(Vec(r))(0); }
  void calcDiff(const std::shared_ptr<ActivationDataAbstractTpl<double>> &, const VR &) override {}
};
static void activation(const Case &c) {
  const long n = c("n");
  Fun f("f", 1, n, 0, true);
  ActivationModelNumDiffTpl<double> nd(std::make_shared<Quad>(n, f));
  auto d = nd.createData();
  const double e = in("e");
  assume(gt(e, 0));
  nd.set_disturbance(e);
  Vec r;
  for (long t = 0; t <= c("hist"); ++t) {
    r = in_vec("r" + std::to_string(t), n);
    nd.calc(d, r);
    nd.calcDiff(d, r);
  }
  check_eq("value", d->a_value, f(r)(0));
  const Mat E = f.dx(r);
  for (long i = 0; i < n; ++i) near("gradient", d->Ar(i), E(0, i), step(e, r), f.cx(0));
  Vec bad = Vec::Zero(n + 1);
  check_true("wrong dimension rejected", throws([&]() { nd.calc(d, bad); }) && throws([&]() { nd.calcDiff(d, bad); }));
}
typedef ControlParametrizationModelAbstractTpl<double> WM;
typedef ControlParametrizationDataAbstractTpl<double> WD;
struct Ctl : WM {
  Fun f;
  Ctl(long nw, long nu, const Fun &f) : WM(nw, nu), f(f) {}
  static Vec ext(const VR &u, const double &t) { Vec r = u; r(0) += t; return r; }
  void calc(const std::shared_ptr<WD> &d, const double t, const VR &u) const override { d->w = f(ext(u, t)); }
  void calcDiff(const std::shared_ptr<WD> &, const double, const VR &) const override {}
  void params(const std::shared_ptr<WD> &d, const double t, const VR &w) const override { d->u = f.A.transpose() * Vec(w) + Vec::Constant(nu_, t); }
  void convertBounds(const VR &lb, const VR &ub, Eigen::Ref<Vec> ul, Eigen::Ref<Vec> uu) const override { ul = f.A.transpose() * Vec(lb); uu = f.A.transpose() * Vec(ub); }
  void multiplyByJacobian(const std::shared_ptr<WD> &, const Eigen::Ref<const Mat> &, Eigen::Ref<Mat>, const AssignmentOp) const override {}
  void multiplyJacobianTransposeBy(const std::shared_ptr<WD> &, const Eigen::Ref<const Mat> &, Eigen::Ref<Mat>, const AssignmentOp) const override {}
};
static void combine(const std::string &what, const Mat &before, const Mat &term, const Mat &after, AssignmentOp op) {
  check_eqm(what, after, op == setto ? term : op == addto ? Mat(before + term) : Mat(before - term));
}
static void control(const Case &c) {
  const long nu = c("nu"), nw = 2;
  Fun f("f", nw, nu, 0, true);
  auto m = std::make_shared<Ctl>(nw, nu, f);
  ControlParametrizationModelNumDiffTpl<double> nd(m);
  WM &b = nd;
  check_true("dimensions", (long)b.get_nu() == nu && (long)b.get_nw() == nw);
  const double e = in("e");
  assume(gt(e, 0));
  nd.set_disturbance(e);
  auto d = b.createData();
  Vec u;
  double t = 0;
  for (long k = 0; k <= c("hist"); ++k) {
    u = in_vec("u" + std::to_string(k), nu); t = in("t" + std::to_string(k));
    b.calc(d, t, u);
    check_eqm("value after calc", Vec(d->w), f(Ctl::ext(u, t)));
    b.calcDiff(d, t, u);
  }
  check_eqm("value", Vec(d->w), f(Ctl::ext(u, t)));
  const Mat E = f.dx(Ctl::ext(u, t));
  for (long i = 0; i < nw; ++i) for (long j = 0; j < nu; ++j) near("derivative in the parameters", d->dw_du(i, j), E(i, j), step(e, u), f.cx(i));
  const AssignmentOp ops[3] = {setto, addto, rmfrom};
  const AssignmentOp op = ops[choose("op", 3)];
  const Mat J = d->dw_du;
  Mat A = in_mat("A", 2, nw), O = in_mat("O", 2, nu), O0 = O;
  b.multiplyByJacobian(d, A, O, op);
  combine("product with the Jacobian", O0, Mat(A * J), O, op);
  Mat T = in_mat("T", nw, 1), Q = in_mat("Q", nu, 1), Q0 = Q;
  b.multiplyJacobianTransposeBy(d, T, Q, op);
  combine("product with the transposed Jacobian", Q0, Mat(J.transpose() * T), Q, op);
  Vec w = in_vec("w", nw), ul = Vec::Zero(nu), uu = Vec::Zero(nu), lb = in_vec("lb", nw), ub = in_vec("ub", nw);
  b.convertBounds(lb, ub, ul, uu);
  check_eqm("lower bounds are those of the model", ul, Vec(f.A.transpose() * lb));
  check_eqm("upper bounds are those of the model", uu, Vec(f.A.transpose() * ub));
  b.params(d, t, w);
  check_eqm("parameters are those of the model", Vec(d->u), Vec(f.A.transpose() * w + Vec::Constant(nu, t)));
}
struct Lin : Flat {  // x (-) y = M (y - x), x (+) dx = x + P dx
  Mat M, P;
  explicit Lin(long n) : Flat(n), M(in_mat("M", n, n)), P(in_mat("P", n, n)) {}
  void diff(const VR &a, const VR &b, Eigen::Ref<Vec> o) const override { Vec r = M * (b - a); o = r; }
  void integrate(const VR &x, const VR &dx, Eigen::Ref<Vec> o) const override { Vec r = x + P * dx; o = r; }
};
static void state(const Case &c) {
  const long n = c("n");
  auto s = std::make_shared<Lin>(n);
  StateNumDiffTpl<double> nd(s);
  St &b = nd;
  const double e = in("e");
  assume(gt(e, 0));
  nd.set_disturbance(e);
  Vec x = in_vec("x", n), y = in_vec("y", n), dx = in_vec("dx", n), o = Vec::Zero(n);
  b.diff(x, y, o);
  check_eqm("difference is that of the state", o, Vec(s->M * (y - x)));
  b.integrate(x, dx, o);
  check_eqm("integration is that of the state", o, Vec(x + s->P * dx));
  check_eqm("zero is that of the state", Vec(b.zero()), Vec(Vec::Zero(n)));
  const Mat J = s->M * s->P;
  const Jcomponent sel[3] = {crocoddyl::both, crocoddyl::first, crocoddyl::second};
  const Jcomponent w = sel[c("sel")];
  Mat A = in_mat("A", n, n), B = in_mat("B", n, n), A0 = A, B0 = B;
  b.Jdiff(x, y, A, B, w);
  check_eqm("first Jacobian of the difference", A, w == crocoddyl::second ? A0 : Mat(-J));
  check_eqm("second Jacobian of the difference", B, w == crocoddyl::first ? B0 : J);
  const AssignmentOp ops[3] = {setto, addto, rmfrom};
  const AssignmentOp op = ops[c("op")];
  A = A0; B = B0;
  b.Jintegrate(x, dx, A, B, w, op);
  if (w != crocoddyl::second) combine("first Jacobian of the integration", A0, J, A, op); else check_eqm("first Jacobian untouched", A, A0);
  if (w != crocoddyl::first) combine("second Jacobian of the integration", B0, J, B, op); else check_eqm("second Jacobian untouched", B, B0);
  Vec bad = Vec::Zero(n + 1);
  Mat badm = Mat::Zero(n, n + 1);
  check_true("wrong sizes rejected", throws([&]() { b.diff(bad, y, o); }) && throws([&]() { b.diff(x, bad, o); }) && throws([&]() { b.diff(x, y, bad); }) && throws([&]() { b.integrate(bad, dx, o); }) && throws([&]() { b.integrate(x, bad, o); }) && throws([&]() { b.integrate(x, dx, bad); }) &&
                                          throws([&]() { b.Jdiff(bad, y, A, B, w); }) && throws([&]() { b.Jdiff(x, bad, A, B, w); }) && throws([&]() { b.Jintegrate(bad, dx, A, B, w, op); }) && throws([&]() { b.Jintegrate(x, bad, A, B, w, op); }));
  if (w != crocoddyl::second) check_true("wrong first matrix rejected", throws([&]() { b.Jdiff(x, y, badm, B, w); }) && throws([&]() { b.Jintegrate(x, dx, badm, B, w, op); }));
  if (w != crocoddyl::first) check_true("wrong second matrix rejected", throws([&]() { b.Jdiff(x, y, A, badm, w); }) && throws([&]() { b.Jintegrate(x, dx, A, badm, w, op); }));
}
template <class M> static void disturbance(const std::string &what, M &m) {
  const double e = in("e_" + what), e0 = m.get_disturbance();
  check(what + ": default disturbance is positive", gt(e0, 0));
  const bool thrown = throws([&]() { m.set_disturbance(e); });
  check(what + ": exactly negative disturbances are rejected", thrown ? lt(e, 0) : ge(e, 0));
  check_eq(what + ": a rejected disturbance changes nothing", m.get_disturbance(), thrown ? e0 : e);
}
static void wraps(const Case &c) {
  const long n = 2, nu = 2;
  auto s = std::make_shared<Flat>(n);
  Vec xb = Vec::Zero(n + 1), x = in_vec("x", n), u = in_vec("u", nu), ub = Vec::Zero(nu + 1);
  Shared sh;
  if (c("what") == 0) {
    Fun g("g", 2, n, nu, false), h("h", 1, n, nu, false);
    const bool T = flag("T");
    auto m = std::make_shared<Con>(s, nu, 2, 1, g, h, false, T);
    Vec lb = in_vec("lb", 2), gub = in_vec("gub", 2);
    for (long i = 0; i < 2; ++i) { assume(lt(-1000000, lb(i))); assume(lt(lb(i), gub(i))); assume(lt(gub(i), 1000000)); }
    const bool bounded = flag("bounded"), removed = flag("removed");
    if (bounded) m->update_bounds(lb, gub);
    if (removed) m->remove_bounds();
    ConstraintModelNumDiffTpl<double> nd(m);
    check_true("constraint: dimensions", nd.get_ng() == m->get_ng() && nd.get_nh() == m->get_nh() && nd.get_nu() == 2 && nd.get_state() == s && nd.get_model() == m);
    check_true("constraint: kind", nd.get_type() == m->get_type());
    check_true("constraint: imposed at terminal nodes as the model", nd.get_T_constraint() == T);
    if (bounded && !removed) {
      check_eqm("constraint: lower bound kept", Vec(nd.get_lb()), lb);
      check_eqm("constraint: upper bound kept", Vec(nd.get_ub()), gub);
    }
    if (!removed) {
      auto d = nd.createData(&sh);
      check_true("constraint: wrong sizes rejected", throws([&]() { nd.calc(d, xb, u); }) && throws([&]() { nd.calc(d, xb); }) && throws([&]() { nd.calc(d, x, ub); }) && throws([&]() { nd.calcDiff(d, xb, u); }) && throws([&]() { nd.calcDiff(d, xb); }) && throws([&]() { nd.calcDiff(d, x, ub); }));
    }
    disturbance("constraint", nd);
  } else if (c("what") == 1) {
    Fun f("f", n, n, nu, false);
    auto m = std::make_shared<Act>(s, nu, f);
    ActuationModelNumDiffTpl<double> nd(m);
    check_true("actuation: dimensions", nd.get_nu() == 2 && nd.get_state() == s && nd.get_model() == m);
    auto d = nd.createData();
    check_true("actuation: wrong sizes rejected", throws([&]() { nd.calc(d, xb, u); }) && throws([&]() { nd.calc(d, xb); }) && throws([&]() { nd.calc(d, x, ub); }) && throws([&]() { nd.calcDiff(d, xb, u); }) && throws([&]() { nd.calcDiff(d, xb); }) && throws([&]() { nd.calcDiff(d, x, ub); }) &&
                                                     throws([&]() { nd.commands(d, xb, x); }) && throws([&]() { nd.commands(d, x, xb); }) && throws([&]() { nd.torqueTransform(d, xb, u); }) && throws([&]() { nd.torqueTransform(d, x, ub); }));
    disturbance("actuation", nd);
  } else {
    Fun f("f", 2, n, nu, false);
    auto m = std::make_shared<Res>(s, 2, nu, f, false);
    ResidualModelNumDiffTpl<double> nd(m);
    check_true("residual: dimensions", nd.get_nr() == 2 && nd.get_nu() == 2 && nd.get_state() == s && nd.get_model() == m);
    disturbance("residual", nd);
    Fun q("q", 1, n, 0, false);
    ActivationModelNumDiffTpl<double> a(std::make_shared<Quad>(n, q));
    disturbance("activation", a);
    ControlParametrizationModelNumDiffTpl<double> w(std::make_shared<Ctl>(2, n, f));
    disturbance("control", w);
    StateNumDiffTpl<double> sd(s);
    check_true("state: dimensions", sd.get_nx() == 2 && sd.get_ndx() == 2);
    disturbance("state", sd);
  }
}
#define SITE(name, fn, res) \
  for (long term = 0; term < res; ++term) for (long scaled = 0; scaled < 2; ++scaled) for (long re = 0; re < res; ++re) for (long hist = 0; hist < 2; ++hist) \
    add_case(name, fn, {{"term", term}, {"n", 2}, {"nu", scaled ? 2 : 1}, {"nr", 2}, {"scaled", scaled}, {"re", re}, {"terms", res - 1}, {"hist", hist}});
REGISTER(
  SITE("residual", residual, 2)
  SITE("cost", cost, 2)
  SITE("constraint", constraint, 2)
  SITE("actuation", actuation, 1)
  for (long n = 1; n < 4; ++n) for (long hist = 0; hist < 2; ++hist) add_case("activation", activation, {{"n", n}, {"hist", hist}});
  for (long nu = 1; nu < 3; ++nu) for (long hist = 0; hist < 2; ++hist) add_case("control", control, {{"nu", nu}, {"hist", hist}});
  for (long sel = 0; sel < 3; ++sel) for (long op = 0; op < 3; ++op) add_case("state", state, {{"n", 2}, {"sel", sel}, {"op", op}});
  for (long nc = 1; nc < 4; ++nc) for (long re = 0; re < 2; ++re) for (long hist = 0; hist < 2; ++hist) add_case("contact", contact, {{"nc", nc}, {"re", re}, {"hist", hist}}, nc == 2);
  for (long w = 0; w < 3; ++w) add_case("wraps", wraps, {{"what", w}});
)
