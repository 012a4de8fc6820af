// Control parametrizations: interpolation, exact Jacobian products, bounds and inversion.
// BOUNDS: constant, linear and quadratic (nodes of RK3 and RK4) parametrization; 1..3 controls; every parameter, time, matrix and bound; every assignment operation; data used before at another time
// OUTSIDE: floating-point rounding; the quadratic parametrization with nodes of RK2, which the library does not support
#include "harness/integ.hpp"
typedef ControlParametrizationDataAbstractTpl<double> CD;

static void products(const Case &c) {
  const long kind = c("ctrl"), sc = c("scheme"), nw = c("nw"), n = c("n");
  auto m = control(kind, nw, sc);
  const long nu = m->get_nu();
  check_true("dimensions", (long)m->get_nw() == nw && nu == nw * (kind + 1));
  auto d = m->createData();
  if (flag("used")) {
    double t0 = in("t0");
    Vec u0 = in_vec("u0", nu);
    m->calc(d, t0, u0);
    if (flag("diff0")) m->calcDiff(d, t0, u0);
  }
  double t = in("t");
  Vec u = in_vec("u", nu);
  m->calc(d, t, u);
  check_eqm("control at the given time", Vec(d->w), wat(kind, sc, t, u, nw));
  Vec w = d->w;
  const long op = choose("op", 3);
  const AssignmentOp ops[3] = {setto, addto, rmfrom};
  const double sg = op == 2 ? -1 : 1;
  Mat A = in_mat("A", n, nw), B = in_mat("B", nw, n), O = in_mat("O", n, nu), T = in_mat("T", nu, n), O2 = O, T2 = T;
  m->multiplyByJacobian(d, A, O2, ops[op]);
  m->multiplyJacobianTransposeBy(d, B, T2, ops[op]);
  m->calcDiff(d, t, u);
  check_jac("Jacobian of the control", "w", w, "u", d->dw_du);
  Mat J = d->dw_du, AJ = A * J, JB = J.transpose() * B, EO = O, ET = T;
  if (op == 0) { EO = AJ; ET = JB; }
  else { EO += AJ * sg; ET += JB * sg; }
  check_eqm("product with the Jacobian", O2, EO);
  check_eqm("product with the transposed Jacobian", T2, ET);
  check_eqm("returned product with the Jacobian", m->multiplyByJacobian_J(d, A, setto), AJ);
  check_eqm("returned product with the transposed Jacobian", m->multiplyJacobianTransposeBy_J(d, B, setto), JB);
  if (op) {
    check_eqm("returned increment with the Jacobian", m->multiplyByJacobian_J(d, A, ops[op]), Mat(AJ * sg));
    check_eqm("returned increment with the transposed Jacobian", m->multiplyJacobianTransposeBy_J(d, B, ops[op]), Mat(JB * sg));
  }
}
static void inverse(const Case &c) {
  const long kind = c("ctrl"), sc = c("scheme"), nw = c("nw");
  auto m = control(kind, nw, sc);
  auto d = m->createData();
  Vec w = in_vec("w", nw);
  double t = in("t"), t2 = in("t2");
  m->params(d, t, w);
  Vec u = d->u;
  m->calc(d, t2, u);
  check_eqm("parameters of a constant control reproduce it at any time", Vec(d->w), w);
}
// a control within the parameter bounds is within the control bounds at the nodes
static void bounds(const Case &c) {
  const long kind = c("ctrl"), sc = c("scheme"), nw = c("nw");
  auto m = control(kind, nw, sc);
  const long nu = m->get_nu();
  Vec lb = in_vec("lb", nw), ub = in_vec("ub", nw), ulb(nu), uub(nu), u = in_vec("u", nu), w = in_vec("w", nw);
  m->convertBounds(lb, ub, ulb, uub);
  auto d = m->createData();
  m->params(d, 0., w);
  std::vector<P> in_w, in_p;
  for (long i = 0; i < nw; ++i) { assume(le(lb(i), ub(i))); in_w.push_back(le(lb(i), w(i)) & le(w(i), ub(i))); }
  P all = P_bool(true), par = P_bool(true);
  for (auto &p : in_w) all = all & p;
  for (long i = 0; i < nu; ++i) par = par & le(ulb(i), d->u(i)) & le(d->u(i), uub(i));
  check("constant admissible control has admissible parameters", implies(all, par));
  P adm = P_bool(true);
  for (long i = 0; i < nu; ++i) adm = adm & le(ulb(i), u(i)) & le(u(i), uub(i));
  assume(adm);
  for (long k = 0; k < (kind == 0 ? 1 : kind == 1 ? 2 : 3); ++k) {
    const double t = kind == 2 && sc == 3 ? double(k) / 3 : double(k) / 2;
    m->calc(d, t, u);
    std::vector<P> ps;
    for (long i = 0; i < nw; ++i) { ps.push_back(le(lb(i), d->w(i))); ps.push_back(le(d->w(i), ub(i))); }
    check("admissible parameters give admissible controls at the nodes", ps);
  }
  if (kind == 1) {
    double t = in("t");
    assume(ge(t, 0) & le(t, 0.5));
    m->calc(d, t, u);
    std::vector<P> ps;
    for (long i = 0; i < nw; ++i) { ps.push_back(le(lb(i), d->w(i))); ps.push_back(le(d->w(i), ub(i))); }
    check("linear parametrization stays admissible between its nodes", ps);
  }
}
static void sizes(const Case &c) {
  const long kind = c("ctrl"), sc = c("scheme"), nw = c("nw"), off = flag("longer") ? 1 : -1;
  auto m = control(kind, nw, sc);
  const long nu = m->get_nu();
  auto d = m->createData();
  Vec wl(nw), wu(nw), ul(nu), uu(nu), wb = Vec::Zero(nw + off), ub = Vec::Zero(nu + off);
  wl.setZero(); wu.setZero(); ul.setZero(); uu.setZero();
  check_true("parameters of wrong size rejected", throws([&]() { m->calc(d, 0., ub); }));
  check_true("control of wrong size rejected", throws([&]() { m->params(d, 0., wb); }));
  check_true("bounds of wrong size rejected", throws([&]() { m->convertBounds(wb, wu, ul, uu); }) && throws([&]() { m->convertBounds(wl, wb, ul, uu); }) && throws([&]() { m->convertBounds(wl, wu, ub, uu); }) && throws([&]() { m->convertBounds(wl, wu, ul, ub); }));
  Mat A = Mat::Zero(2, nw), Ab = Mat::Zero(2, nw + off), O = Mat::Zero(2, nu), Ob = Mat::Zero(2, nu + off), Or = Mat::Zero(3, nu);
  check_true("matrices of wrong size rejected", throws([&]() { m->multiplyByJacobian(d, Ab, O); }) && throws([&]() { m->multiplyByJacobian(d, A, Ob); }) && throws([&]() { m->multiplyByJacobian(d, A, Or); }));
  Mat B = Mat::Zero(nw, 2), Bb = Mat::Zero(nw + off, 2), T = Mat::Zero(nu, 2), Tb = Mat::Zero(nu + off, 2), Tr = Mat::Zero(nu, 3);
  check_true("matrices of wrong size rejected in the transposed product", throws([&]() { m->multiplyJacobianTransposeBy(d, Bb, T); }) && throws([&]() { m->multiplyJacobianTransposeBy(d, B, Tb); }) && throws([&]() { m->multiplyJacobianTransposeBy(d, B, Tr); }));
}
REGISTER(
  for (long k = 0; k <= 2; ++k)
    for (long sc = 3; sc <= 4; ++sc) {
      if (k < 2 && sc == 3) continue;
      for (long nw = 1; nw <= 3; ++nw) {
        add_case("products", products, {{"ctrl", k}, {"scheme", sc}, {"nw", nw}, {"n", 3 - nw + 1}}, nw == 3);
        add_case("inverse", inverse, {{"ctrl", k}, {"scheme", sc}, {"nw", nw}}, nw == 3);
        if (nw < 3) add_case("bounds", bounds, {{"ctrl", k}, {"scheme", sc}, {"nw", nw}});
        add_case("sizes", sizes, {{"ctrl", k}, {"scheme", sc}, {"nw", nw}}, nw == 3);
      }
    })
