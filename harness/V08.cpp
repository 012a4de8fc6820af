// SOURCES: src/core/solver-base.cpp src/core/solvers/ddp.cpp src/core/solvers/fddp.cpp
// Feasibility measures of a guess: dynamics, inequality and equality constraints, both norms.
// BOUNDS: horizon 1..2, state dimension 1..2, 0..2 inequality and equality constraints per node (running and terminal numbers differing), every trajectory, node, initial state and bounds (finite or infinite), both norms, one replacement of the terminal model
// OUTSIDE: longer horizons; floating-point rounding
// ASSUMES: lower bounds not above upper bounds
#include "harness/solv.hpp"
static double norm_(const std::vector<double> &v, bool l1) {
  double s = 0;
  for (const double &x : v) { if (l1) s += abs1(x); else s = max2(s, abs1(x)); }
  return s;
}
static double outside(const double &g, const double &l, const double &u) { return max2(max2(l - g, g - u), double(0)); }
static void bounds(const std::string &p, Node &m, long kind) {
  const long n = std::max(m.get_ng(), m.get_ng_T());
  Vec l = m.get_g_lb(), u = m.get_g_ub();
  check_true("dimension of the bounds", l.size() == n && u.size() == n);
  for (long i = 0; i < n; ++i) {
    if (kind != 1) l(i) = in(p + "l" + num(i));
    if (kind != 2) u(i) = in(p + "u" + num(i));
    if (kind == 0) assume(le(l(i), u(i)));
  }
  m.set_g_lb(l);
  m.set_g_ub(u);
}
static void measures(const Case &c) {
  const std::vector<std::vector<long>> ngs = {{1, 1}, {2, 1}, {1, 2}, {0, 1}, {1, 0}, {2, 0, 1}, {1, 1, 2}};
  const long T = ngs[c("ng")].size() - 1, n = c("n"), extra = c("extra");
  const bool l1 = c("l1");
  std::vector<long> ng = ngs[c("ng")], nu(T, 1);
  std::shared_ptr<St> s = c("state") ? std::shared_ptr<St>(std::make_shared<Scaled>(n)) : std::make_shared<Flat>(n);
  std::vector<NodeP> m;
  // every node also declares another number of constraints for the other role
  for (long t = 0; t < T; ++t) m.push_back(std::make_shared<Node>("m" + num(t), s, 1, ng[t], ng[t], extra, extra));
  NodeP term = std::make_shared<Node>("T", s, 1, extra, extra, ng[T], ng[T], false, true);
  for (long t = 0; t < T; ++t) bounds("m" + num(t), *m[t], c("bnd"));
  bounds("T", *term, c("bnd"));
  const Traj xs = traj("x", std::vector<long>(T + 1, n)), us = traj("u", nu);
  NodeP first = term;
  if (c("edit")) first = std::make_shared<Node>("F", s, 1, 0, 0, 2, 1, false, true);
  auto p = std::make_shared<SP>(in_vec("xi", n), std::vector<std::shared_ptr<AM>>(m.begin(), m.end()), first);
  SolverFDDP sol(p);
  if (c("edit")) { p->set_terminalModel(term); sol.resizeData(); }
  sol.set_feasnorm(l1 ? L1 : LInf);
  sol.setCandidate(xs, us, false);
  p->calc(xs, us);
  std::vector<double> f, g, h;
  Vec d(n);
  s->diff(xs[0], p->get_x0(), d);
  for (long i = 0; i < n; ++i) f.push_back(d(i));
  for (long t = 0; t <= T; ++t) {
    const Node &k = t < T ? *m[t] : *term;
    if (t < T) {
      s->diff(xs[t + 1], k.next(xs[t], us[t]), d);
      for (long i = 0; i < n; ++i) f.push_back(d(i));
    }
    const Vec gv = t < T ? k.g(xs[t], us[t]) : k.g(xs[t]), hv = t < T ? k.h(xs[t], us[t]) : k.h(xs[t]);
    for (long i = 0; i < gv.size(); ++i) g.push_back(outside(gv(i), k.get_g_lb()(i), k.get_g_ub()(i)));
    for (long i = 0; i < hv.size(); ++i) h.push_back(hv(i));
  }
  check_eq("dynamics", sol.computeDynamicFeasibility(), norm_(f, l1));
  check_eq("inequality constraints", sol.computeInequalityFeasibility(), norm_(g, l1));
  check_eq("equality constraints", sol.computeEqualityFeasibility(), norm_(h, l1));
  check_eq("dynamics again", sol.computeDynamicFeasibility(), norm_(f, l1));
  if (c("dir")) {
    sol.set_preg(0);
    throws([&]() { sol.computeDirection(true); });
    check_eq("reported dynamics feasibility", sol.get_ffeas(), norm_(f, l1));
    check_eq("reported inequality feasibility", sol.get_gfeas(), norm_(g, l1));
    check_eq("reported equality feasibility", sol.get_hfeas(), norm_(h, l1));
  }
}
REGISTER(
  for (long l1 = 0; l1 < 2; ++l1) {
    for (long ng = 0; ng < 7; ++ng) add_case("measures", measures, {{"n", 1}, {"ng", ng}, {"l1", l1}, {"bnd", 0}, {"extra", 0}, {"state", 0}, {"edit", 0}, {"dir", 0}});
    for (long e = 1; e < 3; ++e) add_case("measures", measures, {{"n", 1}, {"ng", e}, {"l1", l1}, {"bnd", e}, {"extra", e}, {"state", 1}, {"edit", 0}, {"dir", 0}});
    add_case("measures", measures, {{"n", 2}, {"ng", 0}, {"l1", l1}, {"bnd", 0}, {"extra", 0}, {"state", 0}, {"edit", 0}, {"dir", 1}});
    add_case("measures", measures, {{"n", 1}, {"ng", 1}, {"l1", l1}, {"bnd", 1}, {"extra", 0}, {"state", 0}, {"edit", 1}, {"dir", 0}});
  })
