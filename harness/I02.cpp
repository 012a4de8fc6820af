// Integrators: exact derivatives of next state, cost and constraints.
// BOUNDS: symplectic Euler and Runge-Kutta 2, 3, 4; 1..2 positions, 1..2 inputs; constant, linear and quadratic control parametrization; one constraint row of each kind; every time step, state and parameter; affine dynamics and quadratic cost with arbitrary coefficients, independent at each stage; flat and curved state space; data used before in any way
// OUTSIDE: second derivatives of dynamics that are not affine (the library drops them); floating-point rounding
#include "harness/integ.hpp"

static void running(AM &a, const std::shared_ptr<AD> &d, const std::string &k, long nx, long nu, bool hess, bool con) {
  Vec x = in_vec("x" + k, nx), u = in_vec("u" + k, nu);
  a.calc(d, x, u);
  Vec xn = d->xnext, g = d->g, h = d->h;
  double cost = d->cost;
  a.calcDiff(d, x, u);
  check_eqm("derivatives leave the next state", Vec(d->xnext), xn);
  check_eq("derivatives leave the cost", d->cost, cost);
  check_jac("Fx is the derivative of the next state", "xnext" + k, xn, "x" + k, d->Fx);
  check_jac("Fu is the derivative of the next state", "xnext" + k, xn, "u" + k, d->Fu);
  check_jac1("Lx is the derivative of the cost", "cost" + k, cost, "x" + k, d->Lx);
  check_jac1("Lu is the derivative of the cost", "cost" + k, cost, "u" + k, d->Lu);
  if (hess) {
    check_jac("Lxx is the derivative of Lx", "Lx" + k, d->Lx, "x" + k, d->Lxx);
    check_jac("Lxu is the derivative of Lx", "Lx" + k, d->Lx, "u" + k, d->Lxu);
    check_jac("Luu is the derivative of Lu", "Lu" + k, d->Lu, "u" + k, d->Luu);
  }
  if (con) {
    check_jac("Gx", "g" + k, g, "x" + k, d->Gx);
    check_jac("Gu", "g" + k, g, "u" + k, d->Gu);
    check_jac("Hx", "h" + k, h, "x" + k, d->Hx);
    check_jac("Hu", "h" + k, h, "u" + k, d->Hu);
  }
  observe("cost", cost);
}
static void terminal(AM &a, const std::shared_ptr<AD> &d, StubModel &m, const std::string &k, long nx) {
  Vec x = in_vec("x" + k, nx);
  a.calc(d, x);
  Vec xn = d->xnext;
  a.calcDiff(d, x);
  check_jac("terminal Fx is the derivative of the kept state", "xnext" + k, xn, "x" + k, d->Fx);
  check_eqm("terminal Lx", Vec(d->Lx), Vec(m.term.Q * x + m.term.q));
  check_eqm("terminal Lxx", Mat(d->Lxx), m.term.Q);
  check_eqm("terminal Gx", Mat(d->Gx), m.term.Gx);
  check_eqm("terminal Hx", Mat(d->Hx), m.term.Hx);
}
static void derivatives(const Case &c) {
  const long sc = c("scheme"), kind = c("ctrl"), nv = c("nv"), nw = c("nw");
  std::shared_ptr<StateAbstractTpl<double>> st;
  if (c("curved")) st = std::make_shared<Curved>(2 * nv);
  else st = std::make_shared<Flat>(2 * nv);
  const long n = c("con");
  auto m = std::make_shared<StubModel>(st, nw, stages(sc), n, n, 2 * n, 0);
  auto ctl = control(kind, nw, sc);
  double dt = in("dt");
  assume(ge(dt, 0));
  auto im = make(sc, m, ctl, dt);
  AM &a = *im;
  auto d = a.createData();
  for (long t = 0; t < c("len"); ++t) {
    const std::string k = std::to_string(t);
    // second derivatives are exact for affine dynamics on a flat space
    if (t + 1 < c("len") && !c("curved") && flag("terminal" + k)) terminal(a, d, *m, k, 2 * nv);
    else running(a, d, k, 2 * nv, ctl->get_nu(), !c("curved"), n > 0);
  }
}
static void last(const Case &c) {
  const long sc = c("scheme"), nv = c("nv"), nw = 1;
  std::shared_ptr<StateAbstractTpl<double>> st;
  if (c("curved")) st = std::make_shared<Curved>(2 * nv);
  else st = std::make_shared<Flat>(2 * nv);
  auto m = std::make_shared<StubModel>(st, nw, stages(sc), 1, 1, 2, 0);
  auto im = make(sc, m, control(0, nw, sc), in("dt"));
  AM &a = *im;
  auto d = a.createData();
  if (flag("used")) {
    Vec x = in_vec("xu", 2 * nv), u = in_vec("uu", nw);
    a.calc(d, x, u);
    if (flag("diff")) a.calcDiff(d, x, u);
  }
  terminal(a, d, *m, "0", 2 * nv);
  terminal(a, d, *m, "1", 2 * nv);
}
REGISTER(
  for (long sc = 1; sc <= 4; ++sc)
    for (long k = 0; k <= 2; ++k) {
      if (k == 2 && sc == 2) continue;
      add_case("derivatives", derivatives, {{"scheme", sc}, {"ctrl", k}, {"nv", 1}, {"nw", 1}, {"con", 1}, {"curved", 0}, {"len", 2}});
      if (k < 2) add_case("derivatives", derivatives, {{"scheme", sc}, {"ctrl", k}, {"nv", 1}, {"nw", 1}, {"con", 0}, {"curved", 1}, {"len", 1}}, sc == 4 ? 1 : 0);
      add_case("derivatives", derivatives, {{"scheme", sc}, {"ctrl", k}, {"nv", 2}, {"nw", 2}, {"con", 0}, {"curved", 0}, {"len", 1}}, 1);
      if (k == 0) {
        add_case("last", last, {{"scheme", sc}, {"nv", 1}, {"curved", 0}});
        add_case("last", last, {{"scheme", sc}, {"nv", 2}, {"curved", 0}}, 1);
      }
    })
