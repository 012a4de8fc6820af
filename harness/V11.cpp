// SOURCES: src/core/solvers/ipopt/ipopt-iface.cpp
// Nonlinear program handed to Ipopt: sizes, bounds, start, objective, constraints, exact sparse derivatives, solution read back.
// BOUNDS: horizon 1..2, state dimension 1..2, 0..2 controls differing per node, every affine or bilinear dynamics, quadratic cost, guess, iterate and multiplier scale; flat and curved states; evaluations in every order the interface allows, also after an evaluation elsewhere; one replaced node with a resize; control limits present, absent or infinite
// OUTSIDE: the Ipopt library itself and SolverIpopt::solve; longer horizons; curvature of the dynamics and of the state space in the Hessian (left out by the Gauss-Newton approximation); floating-point rounding
#include "harness/ocp.hpp"
#include "crocoddyl/core/solvers/ipopt/ipopt-iface.hpp"
// x (+) dx = x + D dx + E dx^2,  a (-) b = S (b - a) + W (b^2 - a^2), componentwise
struct Curved : Flat {
  Vec D, E, S, W;
  explicit Curved(long n) : Flat(n), D(in_vec("D", n)), E(in_vec("E", n)), S(in_vec("S", n)), W(in_vec("W", n)) {}
  void diff(const VR &a, const VR &b, Eigen::Ref<Vec> o) const override {
    Vec r = S.cwiseProduct(b - a) + W.cwiseProduct(b.cwiseProduct(b) - a.cwiseProduct(a));
    o = r;
  }
  void integrate(const VR &x, const VR &dx, Eigen::Ref<Vec> o) const override {
    Vec r = x + D.cwiseProduct(dx) + E.cwiseProduct(dx.cwiseProduct(dx));
    o = r;
  }
  void Jdiff(const VR &a, const VR &b, Eigen::Ref<Mat> Ja, Eigen::Ref<Mat> Jb, const Jcomponent c) const override {
    if (c != second) { Mat J = Mat::Zero(nx_, nx_); for (long i = 0; i < (long)nx_; ++i) J(i, i) = -S(i) - 2 * W(i) * a(i); Ja = J; }
    if (c != first) { Mat J = Mat::Zero(nx_, nx_); for (long i = 0; i < (long)nx_; ++i) J(i, i) = S(i) + 2 * W(i) * b(i); Jb = J; }
  }
  void Jintegrate(const VR &, const VR &dx, Eigen::Ref<Mat> Ja, Eigen::Ref<Mat> Jb, const Jcomponent c, const AssignmentOp op) const override {
    Mat A = Mat::Identity(nx_, nx_), B = Mat::Zero(nx_, nx_);
    for (long i = 0; i < (long)nx_; ++i) B(i, i) = D(i) + 2 * E(i) * dx(i);
    if (op == rmfrom) { A = -A; B = -B; }
    if (c != second) { if (op == setto) Ja = A; else Ja += A; }
    if (c != first) { if (op == setto) Jb = B; else Jb += B; }
  }
};
static const std::vector<std::vector<long>> nus = {{1}, {2}, {0}, {1, 2}, {0, 1}, {2, 0}, {1, 1}};
struct Set {
  long n, T, N, M;
  std::shared_ptr<St> s;
  std::vector<NodeP> m;
  NodeP term;
  std::shared_ptr<SP> p;
  Traj xs, us;
  std::vector<long> iu, off;  // offsets of the nodes
};
static void offsets(Set &z) {
  z.off.clear();
  z.N = 0;
  for (long t = 0; t < z.T; ++t) { z.off.push_back(z.N); z.N += z.n + z.m[t]->get_nu(); }
  z.off.push_back(z.N);
  z.N += z.n;
  z.M = z.n * (z.T + 1);
}
static Set set(const Case &c) {
  Set z;
  const std::vector<long> &nu = nus[c("nu")];
  z.n = c("n"); z.T = nu.size();
  z.s = c("state") ? std::shared_ptr<St>(std::make_shared<Curved>(z.n)) : std::make_shared<Flat>(z.n);
  for (long t = 0; t < z.T; ++t) z.m.push_back(std::make_shared<Node>("m" + num(t), z.s, nu[t], 0, 0, 0, 0, c("bilinear")));
  z.term = std::make_shared<Node>("T", z.s, 0, 0, 0, 0, 0, false, true);
  z.p = std::make_shared<SP>(in_vec("xi", z.n), std::vector<std::shared_ptr<AM>>(z.m.begin(), z.m.end()), z.term);
  return z;
}
static std::shared_ptr<IpoptInterface> iface(Set &z, const Case &c) {
  auto f = std::make_shared<IpoptInterface>(z.p);
  if (c("resize") == 1) f->resizeData();
  if (c("resize") == 2) {  // the last node is replaced by one with another number of controls
    const long k = z.T - 1, nu = z.m[k]->get_nu() ? 0 : 2;
    z.m[k] = std::make_shared<Node>("R", z.s, nu, 0, 0, 0, 0, c("bilinear"));
    z.p->updateModel(k, z.m[k]);
    f->resizeData();
    f->resizeData();
  }
  std::vector<long> nu;
  for (auto &m : z.m) nu.push_back(m->get_nu());
  z.xs = traj("x", std::vector<long>(z.T + 1, z.n));
  z.us = traj("u", nu);
  f->set_xs(z.xs);
  f->set_us(z.us);
  offsets(z);
  return f;
}
static Vec state(const Set &z, const Vec &v, long t) { Vec x(z.n); z.s->integrate(z.xs[t], v.segment(z.off[t], z.n), x); return x; }
static Vec control(const Set &z, const Vec &v, long t) { return v.segment(z.off[t] + z.n, z.m[t]->get_nu()); }
static double objective(const Set &z, const Vec &v) {
  double c = z.term->cost(state(z, v, z.T));
  for (long t = 0; t < z.T; ++t) c += z.m[t]->cost(state(z, v, t), control(z, v, t));
  return c;
}
static Vec defects(const Set &z, const Vec &v) {
  Vec g(z.M), d(z.n);
  for (long t = 0; t < z.T; ++t) {
    z.s->diff(z.m[t]->next(state(z, v, t), control(z, v, t)), state(z, v, t + 1), d);
    g.segment(t * z.n, z.n) = d;
  }
  z.s->diff(state(z, v, 0), z.p->get_x0(), d);
  g.tail(z.n) = d;
  return g;
}
struct Info { Ipopt::Index n, m, jac, hess; };
static Info info(IpoptInterface &f) {
  Info i{-1, -1, -1, -1};
  Ipopt::TNLP::IndexStyleEnum style = Ipopt::TNLP::FORTRAN_STYLE;
  check_true("problem size available", f.get_nlp_info(i.n, i.m, i.jac, i.hess, style));
  check_true("indices start at zero", style == Ipopt::TNLP::C_STYLE);
  return i;
}
// evaluations at another point that came before
static void history(IpoptInterface &f, const Set &z) {
  const int h = choose("history", 3);
  if (h == 0) return;
  const Vec w = in_vec("before", z.N);
  std::vector<double> g(z.M), d(z.N);
  double c = 0;
  f.eval_f(z.N, w.data(), true, c);
  if (h == 2) { f.eval_g(z.N, w.data(), false, z.M, g.data()); f.eval_grad_f(z.N, w.data(), false, d.data()); }
}
static void sizes(const Case &c) {
  Set z = set(c);
  const long lim = c("limits");
  auto f = iface(z, c);
  if (lim) for (long t = 0; t < z.T; ++t) {
    Vec l = in_vec("l" + num(t), z.m[t]->get_nu()), u = in_vec("h" + num(t), z.m[t]->get_nu());
    if (lim == 2 && l.size()) l(0) = -std::numeric_limits<double>::infinity();
    z.m[t]->set_u_lb(l);
    z.m[t]->set_u_ub(u);
  }
  const Info i = info(*f);
  check_true("number of variables", i.n == z.N && (long)f->get_nvar() == z.N);
  check_true("number of constraints", i.m == z.M && (long)f->get_nconst() == z.M);
  if (i.n != z.N || i.m != z.M) return;
  std::vector<double> xl(z.N, 7.), xu(z.N, 7.), gl(z.M, 7.), gu(z.M, 7.), x(z.N, 7.);
  check_true("bounds available", f->get_bounds_info(i.n, xl.data(), xu.data(), i.m, gl.data(), gu.data()));
  for (long k = 0; k < z.M; ++k) { check_eq("equality constraints", gl[k], 0); check_eq("equality constraints", gu[k], 0); }
  check_true("start available", f->get_starting_point(i.n, true, x.data(), false, nullptr, nullptr, i.m, false, nullptr));
  for (long t = 0; t <= z.T; ++t) {
    for (long k = 0; k < z.n; ++k) {
      check("states are free", le(xl[z.off[t] + k], -1e300) & ge(xu[z.off[t] + k], 1e300));
      check_eq("start at the guessed states", x[z.off[t] + k], 0);
    }
    if (t < z.T) for (long k = 0; k < (long)z.m[t]->get_nu(); ++k) {
      const long j = z.off[t] + z.n + k;
      if (lim && z.m[t]->get_has_control_limits()) {
        check_eq("lower control limit", xl[j], z.m[t]->get_u_lb()(k));
        check_eq("upper control limit", xu[j], z.m[t]->get_u_ub()(k));
      } else check("controls without limits are free", le(xl[j], -1e300) & ge(xu[j], 1e300));
      check_eq("start at the guessed controls", x[j], z.us[t](k));
    }
  }
}
static void values(const Case &c) {
  Set z = set(c);
  auto f = iface(z, c);
  if ((long)f->get_nvar() != z.N || (long)f->get_nconst() != z.M) { check_true("sizes", false); return; }
  history(*f, z);
  const Vec v = in_vec("v", z.N);
  const int order = choose("order", 2);
  double c0 = in("garbage");
  Vec g(z.M);
  if (order) check_true("constraints evaluated", f->eval_g(z.N, v.data(), true, z.M, g.data()));
  check_true("objective evaluated", f->eval_f(z.N, v.data(), !order, c0));
  if (!order) check_true("constraints evaluated", f->eval_g(z.N, v.data(), false, z.M, g.data()));
  check_eq("objective", c0, objective(z, v));
  check_eqm("constraints", g, defects(z, v));
  observe("objective", c0);
  observe("first constraint", g(0));
  // solution read back
  f->finalize_solution(Ipopt::SUCCESS, z.N, v.data(), nullptr, nullptr, z.M, g.data(), nullptr, c0, nullptr, nullptr);
  for (long t = 0; t <= z.T; ++t) {
    check_eqm("solution states", f->get_xs()[t], state(z, v, t));
    if (t < z.T) check_eqm("solution controls", f->get_us()[t], control(z, v, t));
  }
  check_eq("solution cost", f->get_cost(), objective(z, v));
}
static void derivatives(const Case &c) {
  Set z = set(c);
  auto f = iface(z, c);
  if ((long)f->get_nvar() != z.N || (long)f->get_nconst() != z.M) { check_true("sizes", false); return; }
  const Info i = info(*f);
  history(*f, z);
  const Vec v = in_vec("v", z.N);
  const int what = choose("what", 3);
  if (what == 0) {
    Vec g(z.N);
    check_true("gradient evaluated", f->eval_grad_f(z.N, v.data(), true, g.data()));
    check_jac1("objective gradient", "objective", objective(z, v), "v", g, z.N);
    return;
  }
  const long cnt = what == 1 ? i.jac : i.hess, rows = what == 1 ? z.M : z.N;
  std::vector<Ipopt::Index> r(cnt, -1), k(cnt, -1);
  std::vector<double> w(cnt, 7.);
  const double sigma = in("objective_factor");
  Vec lam = in_vec("lambda", z.M);
  Mat J = Mat::Zero(rows, z.N), seen = Mat::Zero(rows, z.N);
  if (what == 1) {
    check_true("Jacobian pattern", f->eval_jac_g(z.N, nullptr, false, z.M, cnt, r.data(), k.data(), nullptr));
    check_true("Jacobian evaluated", f->eval_jac_g(z.N, v.data(), true, z.M, cnt, nullptr, nullptr, w.data()));
  } else {
    check_true("Hessian pattern", f->eval_h(z.N, nullptr, false, sigma, z.M, nullptr, false, cnt, r.data(), k.data(), nullptr));
    check_true("Hessian evaluated", f->eval_h(z.N, v.data(), true, sigma, z.M, lam.data(), true, cnt, nullptr, nullptr, w.data()));
  }
  bool ok = true;
  for (long e = 0; e < cnt; ++e) {
    ok = ok && r[e] >= 0 && r[e] < rows && k[e] >= 0 && k[e] < z.N && (what == 1 || k[e] <= r[e]);
    if (!ok) break;
    J(r[e], k[e]) += w[e];
  }
  check_true("every entry of the pattern is set and inside the matrix", ok);
  if (!ok) return;
  if (what == 1) {
    check_jac("constraint Jacobian", "constraints", defects(z, v), "v", J, z.N);
    return;
  }
  Mat H = Mat::Zero(z.N, z.N);
  for (long t = 0; t <= z.T; ++t) {
    const Node &m = t < z.T ? *z.m[t] : *z.term;
    Mat I = Mat::Zero(z.n, z.n), tmp(z.n, z.n);
    z.s->Jintegrate(z.xs[t], v.segment(z.off[t], z.n), tmp, I, second, setto);
    H.block(z.off[t], z.off[t], z.n, z.n) = sigma * (I.transpose() * m.Q * I);
    if (t < z.T) {
      const long nu = m.get_nu();
      H.block(z.off[t] + z.n, z.off[t] + z.n, nu, nu) = sigma * m.R;
      H.block(z.off[t] + z.n, z.off[t], nu, z.n) = sigma * (m.N.transpose() * I);
    }
  }
  for (long a = 0; a < z.N; ++a) for (long b = a + 1; b < z.N; ++b) H(a, b) = 0;
  check_eqm("Gauss-Newton Hessian (lower part)", J, H);
}
REGISTER(for (long n = 1; n <= 2; ++n) for (long nu = 0; nu < 7; ++nu) for (long s = 0; s < 2; ++s) for (long e = 0; e < 3; ++e) {
  const bool big = n == 2 && nu >= 3;
  if (e && (n == 2 || s)) continue;
  if (!s) for (long l = 0; l < 3; ++l) if (l == (nu + e) % 3) add_case("sizes", sizes, {{"n", n}, {"nu", nu}, {"state", s}, {"bilinear", 0}, {"resize", e}, {"limits", l}}, big);
  const bool slow = big || (e && nu >= 3 && nu != 3) || (n == 2 && s && nu > 0);
  add_case("values", values, {{"n", n}, {"nu", nu}, {"state", s}, {"bilinear", 1}, {"resize", e}}, slow);
  add_case("derivatives", derivatives, {{"n", n}, {"nu", nu}, {"state", s}, {"bilinear", 1}, {"resize", e}}, slow);
})
