// Integrators: the next state and the cost follow the scheme; constraints, residual, limits pass through.
// BOUNDS: symplectic Euler and Runge-Kutta 2, 3, 4; 1..2 positions, 1..2 inputs; constant, linear and quadratic control parametrization; 0..2 constraint rows, different at terminal nodes; every time step, state and parameter; affine dynamics and quadratic cost with arbitrary coefficients, independent at each stage; flat and curved state space; data used before in any way
// OUTSIDE: floating-point rounding; accuracy order of the schemes
#include "harness/integ.hpp"

struct Want { Vec xnext, g, h, r; double cost; };
static Want expected(long scheme, long kind, StubModel &m, long nw, double dt, const Vec &x, const Vec &u) {
  const long nv = m.get_state()->get_nv();
  Want e;
  Vec k, dx = Vec::Zero(2 * nv), y = x;
  e.cost = 0;
  for (long i = 0; i < stages(scheme); ++i) {
    const Stage &s = m.st[i];
    if (i > 0) m.get_state()->integrate(x, Vec(k * (dt * cnode(scheme, i))), y);
    Vec w = wat(kind, scheme, cnode(scheme, i), u, nw), a = acc(s, y, w);
    k.resize(2 * nv);
    k << y.tail(nv), a;
    if (scheme == 1) dx << Vec(x.tail(nv) + a * dt) * dt, a * dt;
    else dx += k * (dt * bweight(scheme, i));
    e.cost += dt * bweight(scheme, i) * lcost(s, y, w);
    if (i == 0) { e.g = s.Gx * y + s.Gu * w + s.g; e.h = s.Hx * y + s.Hu * w + s.h; e.r = s.rx * y + s.ru * w + s.r0; }
  }
  e.xnext.resize(2 * nv);
  m.get_state()->integrate(x, dx, e.xnext);
  return e;
}
static void running(AM &a, const std::shared_ptr<AD> &d, const Want &e, bool res, const Vec &x, const Vec &u) {
  Vec r0 = d->r;
  a.calc(d, x, u);
  check_eqm("next state", Vec(d->xnext), e.xnext);
  check_eq("cost", d->cost, e.cost);
  check_eqm("inequality", Vec(d->g), e.g);
  check_eqm("equality", Vec(d->h), e.h);
  check_eqm("residual", Vec(d->r), res ? e.r : r0);
  observe("cost", d->cost);
  observe("xnext", Vec(d->xnext));
}
static void terminal(AM &a, const std::shared_ptr<AD> &d, StubModel &m, bool res, const Vec &x) {
  Vec r0 = d->r;
  a.calc(d, x);
  check_eqm("terminal state is kept", Vec(d->xnext), x);
  check_eq("terminal cost is not scaled", d->cost, quad(x, m.term.Q, x) / 2 + m.term.q.dot(x) + m.term.c);
  check_eqm("terminal inequality", Vec(d->g), Vec(m.term.Gx * x + m.term.g));
  check_eqm("terminal equality", Vec(d->h), Vec(m.term.Hx * x + m.term.h));
  check_eqm("terminal residual", Vec(d->r), res ? Vec(m.term.rx * x + m.term.r0) : r0);
}
static void scheme_(const Case &c) {
  const long sc = c("scheme"), kind = c("ctrl"), nv = c("nv"), nw = c("nw"), ng = c("ng"), nh = c("nh"), ngT = c("ngT"), nhT = c("nhT");
  std::shared_ptr<StateAbstractTpl<double>> st;
  if (c("curved")) st = std::make_shared<Curved>(2 * nv);
  else st = std::make_shared<Flat>(2 * nv);
  auto m = std::make_shared<StubModel>(st, nw, stages(sc), ng, nh, ngT, nhT);
  auto ctl = control(kind, nw, sc);
  double dt = in("dt");
  assume(ge(dt, 0));
  const bool res = flag("with_residual");
  auto im = make(sc, m, ctl, dt, res);
  AM &a = *im;
  check_true("dimensions", (long)a.get_nu() == (long)ctl->get_nu() && a.get_nr() == 1 && (long)a.get_ng() == ng && (long)a.get_nh() == nh && (long)a.get_ng_T() == ngT && (long)a.get_nh_T() == nhT && a.get_state() == st);
  auto d = a.createData();
  for (long t = 0; t < c("len"); ++t) {
    const std::string k = std::to_string(t);
    Vec x = in_vec("x" + k, 2 * nv), u = in_vec("u" + k, ctl->get_nu());
    if (t && flag("newdt" + k)) {
      dt = in("dt" + k);
      assume(ge(dt, 0));
      im->set_dt(dt);
    }
    check_eq("time step", im->get_dt(), dt);
    if (flag("terminal" + k)) terminal(a, d, *m, res, x);
    else {
      running(a, d, expected(sc, kind, *m, nw, dt, x, u), res, x, u);
      if (flag("diff" + k)) a.calcDiff(d, x, u);
    }
  }
}
// limits, replacing the differential model, rejected arguments
static void configure(const Case &c) {
  may_repeat("x[");
  may_repeat("u[");
  set_option("max_paths", 20000);
  const long sc = c("scheme"), kind = c("ctrl"), nw = c("nw"), ng = c("ng");
  auto st = std::make_shared<Flat>(2);
  auto m = std::make_shared<StubModel>(st, nw, stages(sc), ng, 0, ng, 0), m2 = std::make_shared<StubModel>(st, nw, stages(sc), ng, 0, ng, 0, "other");
  const double inf = std::numeric_limits<double>::infinity();
  bool lim[2];
  Vec lb[2], ub[2], glb[2], gub[2];
  StubModel *ms[2] = {m.get(), m2.get()};
  for (long i = 0; i < 2; ++i) {
    const std::string k = std::to_string(i);
    lim[i] = flag("limited" + k);
    lb[i] = lim[i] ? in_vec("lb" + k, nw) : Vec(Vec::Constant(nw, -inf));
    ub[i] = lim[i] ? in_vec("ub" + k, nw) : Vec(Vec::Constant(nw, inf));
    glb[i] = in_vec("glb" + k, ng);
    gub[i] = in_vec("gub" + k, ng);
    ms[i]->set_u_lb(lb[i]);
    ms[i]->set_u_ub(ub[i]);
    ms[i]->set_g_lb(glb[i]);
    ms[i]->set_g_ub(gub[i]);
  }
  double dt = in("dt");
  auto ctl = control(kind, nw, sc);
  std::shared_ptr<IM> im;
  if (kind == 0 && flag("default_control")) {
    if (sc == 1) im = std::make_shared<IntegratedActionModelEulerTpl<double>>(m, dt);
    else im = std::make_shared<IntegratedActionModelRKTpl<double>>(m, rktype(sc), dt);
  } else {
    im = make(sc, m, ctl, dt);
  }
  if (flag("negative_step")) {
    assume(lt(dt, 0));
    check("a negative time step is replaced by a positive one", gt(im->get_dt(), 0));
    check_true("negative time step rejected", throws([&]() { im->set_dt(dt); }));
    return;
  }
  assume(ge(dt, 0));
  check_eq("time step", im->get_dt(), dt);
  const long nu = ctl->get_nu(), rep = nu / nw;
  for (long i = 0; i < 2; ++i) {
    if (i == 1) im->set_differential(m2);
    check_true("differential model", im->get_differential().get() == ms[i]);
    Vec elb(nu), eub(nu);
    for (long r = 0; r < rep; ++r) { elb.segment(r * nw, nw) = lb[i]; eub.segment(r * nw, nw) = ub[i]; }
    check_eqm("control lower limit", Mat(im->get_u_lb()), Mat(elb));
    check_eqm("control upper limit", Mat(im->get_u_ub()), Mat(eub));
    check_true("control limits are announced", im->get_has_control_limits() == lim[i]);
    check_eqm("constraint lower bound", Mat(im->get_g_lb()), Mat(glb[i]));
    check_eqm("constraint upper bound", Mat(im->get_g_ub()), Mat(gub[i]));
    auto d = im->createData();
    AM &a = *im;
    check_true("own data accepted", a.checkData(d));
    Vec x = in_vec("x", 2), u = in_vec("u", nu);
    running(a, d, expected(sc, kind, *ms[i], nw, dt, x, u), true, x, u);
    Vec q(nu);
    a.quasiStatic(d, q, x, 100, 1e-9);
    Vec w(nw);
    for (long j = 0; j < nw; ++j) w(j) = ms[i]->term.c + (j + 2) * x(0);
    for (long r = 0; r < 2; ++r) check_eqm("quasi-static parameters hold the quasi-static control", wat(kind, sc, double(r) / 2, q, nw), w);
    check_true("wrong sizes rejected", throws([&]() { a.calc(d, Vec::Zero(3), u); }) && throws([&]() { a.calc(d, x, Vec::Zero(nu + 1)); }) && throws([&]() { a.calcDiff(d, Vec::Zero(3), u); }) && throws([&]() { a.calcDiff(d, x, Vec::Zero(nu + 1)); }) && throws([&]() { a.calc(d, Vec::Zero(3)); }) && throws([&]() { a.calcDiff(d, Vec::Zero(3)); }) && throws([&]() { Vec z(nu + 1); a.quasiStatic(d, z, x, 100, 1e-9); }));
    auto foreign = std::make_shared<AD>(&a);
    check_true("foreign data refused", !a.checkData(foreign));
  }
  auto bad = std::make_shared<StubModel>(st, nw + 1, stages(sc), 0, 0, 0, 0, "bad");
  check_true("model with another input dimension rejected", throws([&]() { im->set_differential(bad); }) && throws([&]() { make(sc, bad, ctl, dt); }) && im->get_differential() == m2);
}
REGISTER(
  for (long sc = 1; sc <= 4; ++sc)
    for (long k = 0; k <= 2; ++k) {
      if (k == 2 && sc == 2) continue;
      add_case("scheme", scheme_, {{"scheme", sc}, {"ctrl", k}, {"nv", 1}, {"nw", 1}, {"ng", 1}, {"nh", 1}, {"ngT", 2}, {"nhT", 0}, {"curved", 0}, {"len", 2}});
      add_case("scheme", scheme_, {{"scheme", sc}, {"ctrl", k}, {"nv", 1}, {"nw", 2}, {"ng", 0}, {"nh", 1}, {"ngT", 0}, {"nhT", 2}, {"curved", 1}, {"len", 1}});
      add_case("scheme", scheme_, {{"scheme", sc}, {"ctrl", k}, {"nv", 2}, {"nw", 1}, {"ng", 2}, {"nh", 1}, {"ngT", 1}, {"nhT", 1}, {"curved", 0}, {"len", 2}}, 1);
      add_case("scheme", scheme_, {{"scheme", sc}, {"ctrl", k}, {"nv", 1}, {"nw", 1}, {"ng", 1}, {"nh", 1}, {"ngT", 1}, {"nhT", 1}, {"curved", 1}, {"len", 3}}, 1);
      add_case("configure", configure, {{"scheme", sc}, {"ctrl", k}, {"nw", 1}, {"ng", 1}});
      add_case("configure", configure, {{"scheme", sc}, {"ctrl", k}, {"nw", 2}, {"ng", 2}}, 1);
    })
