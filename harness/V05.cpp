// SOURCES: src/core/solver-base.cpp src/core/solvers/ddp.cpp src/core/solvers/fddp.cpp src/core/solvers/box-qp.cpp src/core/solvers/box-ddp.cpp src/core/solvers/box-fddp.cpp
// Box-DDP/Box-FDDP: gains solve the box-constrained problem, candidates respect the limits.
// BOUNDS: horizon 1..2, state dimension 1..2, control dimension 0..2 (differing per node), every derivative of dynamics and cost, every guess, control limits of every value (both, or one side infinite) present on all, some or no nodes, every step length; two-dimensional controls with up to 2 iterations of the box problem
// OUTSIDE: longer horizons; convergence of two-dimensional box problems in more iterations; floating-point rounding
// ASSUMES: lower limits not above upper limits; feasible guesses satisfy the dynamics
#include "harness/solv.hpp"
#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
template <class S>
struct OpenBox : Open<S> {
  explicit OpenBox(std::shared_ptr<SP> p) : Open<S>(p) {}
  using S::qp_;
};
static const std::vector<std::vector<long>> nus = {{1}, {2}, {1, 1}, {2, 1}, {0, 1}, {1, 0}, {1, 2}};
// limits of node t: bit t of lim; side 0 both finite, 1 one component of the lower limits infinite, 2 of the upper
static void limit(Prob &z, long lim, long side) {
  for (long t = 0; t < z.T; ++t) {
    const long m = z.m[t]->get_nu();
    if (!((lim >> t) & 1) || m == 0) continue;
    Vec l = in_vec("l" + num(t), m), u = in_vec("h" + num(t), m);
    for (long i = 0; i < m; ++i) assume(le(l(i), u(i)));
    if (side == 1) l(0) = -std::numeric_limits<double>::infinity();
    if (side == 2) u(0) = std::numeric_limits<double>::infinity();
    z.m[t]->set_u_lb(l);
    z.m[t]->set_u_ub(u);
  }
}
static void inside(Prob &z) {
  for (long t = 0; t < z.T; ++t) {
    if (!z.m[t]->get_has_control_limits()) continue;
    const Vec l = z.m[t]->get_u_lb(), u = z.m[t]->get_u_ub();
    for (long i = 0; i < l.size(); ++i) assume(le(l(i), z.us[t](i)) & le(z.us[t](i), u(i)));
  }
}
// two-dimensional controls: given control Hessians with exact factors; earlier nodes: given later nodes
static void simplify(Prob &z) {
  for (long t = 0; t < z.T; ++t)
    if (z.m[t]->get_nu() == 2) { z.m[t]->R << 4, 2, 2, 5; z.m[t]->B.setZero(); }
  if (z.T == 1) return;
  z.term->Q.setIdentity();
  for (long t = 0; t < z.T; ++t) {
    Node &o = *z.m[t];
    if (o.get_nu() == 1) { o.R(0, 0) = 3; o.B.setConstant(1); o.N.setConstant(t ? 2 : -1); }
    o.A.setConstant(t ? -2 : 3);
  }
}
static bool limited(const Prob &z, long t) { return z.m[t]->get_has_control_limits(); }
static Vec clamp(const Node &m, const Vec &u) {
  Vec y = u;
  for (long i = 0; i < u.size(); ++i) y(i) = min2(max2(u(i), m.get_u_lb()(i)), m.get_u_ub()(i));
  return y;
}
template <class S>
static void gains(const Case &c) {
  const long feas = c("feas");
  Prob z = problem(c("n"), nus[c("nu")], 0, feas);
  limit(z, c("lim"), c("side"));
  if (c("lim")) simplify(z);
  OpenBox<S> s(z.p);
  bool wide = false;
  for (long t = 0; t < z.T; ++t) wide = wide || z.m[t]->get_nu() > 1;
  if (wide && c("lim")) { s.qp_.set_maxiter(c("used") == 2 ? 2 : 1); if (c("used") < 2) { s.qp_.set_alphas({1}); inside(z); } }
  if (c("used") == 1) {
    s.setCandidate(traj("y", std::vector<long>(z.T + 1, z.n)), z.us, false);
    s.set_preg(0);
    if (throws([&]() { s.computeDirection(true); })) return;
  }
  double reg = 0;  // kept at zero for two-dimensional controls
  if (c("reg")) { reg = in("reg"); assume(ge(reg, 0)); }
  s.set_preg(reg);
  s.setCandidate(z.xs, z.us, feas);
  bool thrown = throws([&]() { s.computeDirection(true); });
  if (thrown && z.T == 1) {
    const Mat Q = s.get_Quu()[0];
    P why = le(Q(0, 0), 0);
    if (Q.rows() == 2) why = P_or(why, P_or(le(Q(1, 1), 0), le(Q(0, 0) * Q(1, 1) - Q(0, 1) * Q(0, 1), 0)));
    for (long i = 0; i < z.n; ++i) {
      why = P_or(why, ge(abs1(s.get_Vx()[0](i)), 1e30));
      for (long j = 0; j < z.n; ++j) why = P_or(why, ge(abs1(s.get_Vxx()[0](i, j)), 1e30));
    }
    check("refused only without a positive-definite control Hessian or on overflow", why);
  }
  if (thrown) return;
  for (long t = z.T; t >= 0; --t) {
    Vec vx; Mat vxx;
    if (t == z.T) {
      vx = z.term->Q * z.xs[t] + z.term->q; vxx = z.term->Q;
    } else {
      const Node &o = *z.m[t];
      const Vec Vx = s.get_Vx()[t + 1];
      const Mat Vxx = s.get_Vxx()[t + 1];
      const long m = o.get_nu();
      vx = o.Q * z.xs[t] + o.q + o.A.transpose() * Vx;
      if (m) vx += o.N * z.us[t];
      vxx = o.Q + o.A.transpose() * Vxx * o.A;
      check_eqm("Qx", s.get_Qx()[t], vx);
      check_eqm("Qxx", s.get_Qxx()[t], vxx);
      if (m) {
        const Mat Quu = s.get_Quu()[t], Qxu = s.get_Qxu()[t], K = s.get_K()[t];
        const Vec Qu = s.get_Qu()[t], k = s.get_k()[t];
        const Vec g = o.R * z.us[t] + o.N.transpose() * z.xs[t] + o.r + o.B.transpose() * Vx;
        check_eqm("Quu", Quu, Mat(o.R + o.B.transpose() * Vxx * o.B + reg * Mat::Identity(m, m)));
        check_eqm("Qxu", Qxu, Mat(o.N + o.A.transpose() * Vxx * o.B));
        if (!limited(z, t) || !feas) {
          check_eqm("Qu", Qu, g);
          check_eqm("unlimited feedforward gain", Vec(Quu * k), g);
          check_eqm("unlimited feedback gain", Mat(Quu * K), Mat(Qxu.transpose()));
        } else {
          const Vec l = o.get_u_lb(), u = o.get_u_ub(), v = z.us[t] - k;
          for (long i = 0; i < m; ++i) check("the feedforward step stays within the limits", P_and(le(l(i), v(i)), le(v(i), u(i))));
          // some split into free and clamped controls explains the gains
          P any = P_bool(false);
          for (long f = 0; f < (1 << m); ++f) {
            P p = P_bool(true);
            for (long i = 0; i < m; ++i) {
              const bool fi = (f >> i) & 1;
              if (!fi) {
                p = P_and(p, P_and(eq(Qu(i), 0), P_or(eq(v(i), l(i)), eq(v(i), u(i)))));
                for (long j = 0; j < z.n; ++j) p = P_and(p, eq(K(i, j), 0));
                continue;
              }
              p = P_and(p, eq(Qu(i), g(i)));
              for (long j = 0; j < z.n; ++j) {
                double r = 0;
                for (long h = 0; h < m; ++h) if ((f >> h) & 1) r += Quu(i, h) * K(h, j);
                p = P_and(p, eq(r, Qxu(j, i)));
              }
            }
            any = P_or(any, p);
          }
          check("feedback acts on the free controls only", any);
          if (m == 1 && !wide) {
            const double w = z.us[t](0) - g(0) / Quu(0, 0);  // unconstrained minimiser
            const P convex = gt(Quu(0, 0), 0);
            check("feedforward gain minimises within the limits", P_or(P_not(convex), eq(v(0), min2(max2(w, l(0)), u(0)))));
            check("a control strictly inside is free", P_or(P_not(P_and(convex, P_and(lt(l(0), w), lt(w, u(0))))), P_and(eq(Qu(0), g(0)), eq(Quu(0, 0) * K(0, 0), Qxu(0, 0)))));
            // beyond the gradient tolerance of the box problem
            const P out = P_or(lt(1e-5, Quu(0, 0) * (l(0) - w)), lt(1e-5, Quu(0, 0) * (w - u(0))));
            check("a control pushed against a limit is clamped", P_or(P_not(P_and(convex, out)), P_and(eq(Qu(0), 0), eq(K(0, 0), 0))));
          }
        }
        vx -= K.transpose() * Qu;
        vxx -= Mat(Qxu * K + (Qxu * K).transpose()) / 2;
      }
    }
    vxx += reg * Mat::Identity(z.n, z.n);
    if (!feas) vx += vxx * s.get_fs()[t];
    check_eqm("Vxx", s.get_Vxx()[t], vxx);
    check_eqm("Vx", s.get_Vx()[t], vx);
  }
}
template <class S> static bool contracts();
template <> bool contracts<SolverBoxDDP>() { return false; }
template <> bool contracts<SolverBoxFDDP>() { return true; }
template <class S>
static void forward(const Case &c) {
  const long feas = c("feas");
  Prob z = problem(c("n"), nus[c("nu")], c("state"), feas, c("bil"));
  limit(z, c("lim"), c("side"));
  if (c("lim")) simplify(z);
  OpenBox<S> s(z.p);
  bool wide = false;
  for (long t = 0; t < z.T; ++t) wide = wide || z.m[t]->get_nu() > 1;
  if (wide && c("lim")) s.qp_.set_maxiter(1);
  s.set_preg(0);
  s.setCandidate(z.xs, z.us, feas);
  if (throws([&]() { s.computeDirection(true); })) return;
  double al = 1;
  if (c("alpha")) { al = in("alpha"); assume(ge(al, 0) & lt(al, 1)); }
  if (throws([&]() { s.tryStep(al); })) return;
  const bool gap = !feas && c("alpha") && contracts<S>();
  Vec x = z.p->get_x0();
  double J = 0;
  for (long t = 0; t < z.T; ++t) {
    const Node &o = *z.m[t];
    if (gap) x = itg(z, x, s.get_fs()[t] * (al - 1));
    check_eqm("candidate state", s.xs_try_[t], x);
    const Vec X = s.xs_try_[t];
    Vec u(0);
    if (o.get_nu()) {
      u = z.us[t] - al * s.get_k()[t] - s.get_K()[t] * dif(z, z.xs[t], X);
      if (limited(z, t)) {
        for (long i = 0; i < u.size(); ++i) check("candidate control within the limits", P_and(le(o.get_u_lb()(i), s.us_try_[t](i)), le(s.us_try_[t](i), o.get_u_ub()(i))));
        u = clamp(o, u);
      }
      check_eqm("candidate control", s.us_try_[t], u);
    }
    u = s.us_try_[t];
    J += o.cost(X, u);
    x = next(z, t, X, u);
  }
  if (!feas && c("alpha")) x = itg(z, x, s.get_fs()[z.T] * (al - 1));
  check_eqm("candidate terminal state", s.xs_try_[z.T], x);
  J += z.term->cost(s.xs_try_[z.T]);
  check_eq("cost of the candidate", s.cost_try_, J);
}
// control dimensions differing between nodes: never refused, separable box problems are solved exactly
template <class S>
static void sized(const Case &c) {
  Prob z = problem(1, nus[c("nu")], 0, true);
  limit(z, c("lim"), 0);
  if (c("inside")) inside(z);
  z.term->Q.setZero();
  for (long t = 0; t < z.T; ++t) {
    Node &o = *z.m[t];
    const long m = o.get_nu();
    o.A.setZero(); o.B.setZero(); o.N.setZero(); o.Q.setZero();
    o.R = 2 * Mat::Identity(m, m);
  }
  z.term->q(0) = 0;
  for (long t = 0; t < z.T; ++t) { z.m[t]->q(0) = 0; z.m[t]->a = z.xs[t + 1]; }
  OpenBox<S> s(z.p);
  if (c("inside")) s.qp_.set_alphas({1});
  s.set_preg(0);
  s.setCandidate(z.xs, z.us, true);
  const bool thrown = throws([&]() { s.computeDirection(true); });
  check_true("direction computed", !thrown);
  if (thrown) return;
  for (long t = 0; t < z.T; ++t) {
    const Node &o = *z.m[t];
    if (o.get_nu() == 0) continue;
    Vec w = -o.r / 2;
    if (limited(z, t)) w = clamp(o, w);
    check_eqm("feedforward gain minimises within the limits", Vec(z.us[t] - s.get_k()[t]), w);
  }
}
template <class S>
static void solved(const Case &c) {
  Prob z = problem(1, nus[c("nu")], 0, c("feas"));
  limit(z, c("lim"), c("side"));
  if (c("lim")) simplify(z);
  OpenBox<S> s(z.p);
  bool wide = false;
  for (long t = 0; t < z.T; ++t) wide = wide || z.m[t]->get_nu() > 1;
  if (wide && c("lim")) s.qp_.set_maxiter(1);
  s.set_reg_min(0);
  s.set_reg_max(1e-9);
  s.set_alphas({1});
  const Traj us0 = z.us;
  if (throws([&]() { s.solve(z.xs, z.us, c("iter"), c("feas"), 0); })) return;
  check_eq("cost of the solution", s.get_cost(), cost(z, s.get_xs(), s.get_us()));
  for (long t = 0; t < z.T; ++t)
    if (limited(z, t)) {
      P in = P_bool(true), same = P_bool(true);
      for (long i = 0; i < us0[t].size(); ++i) {
        in = P_and(in, P_and(le(z.m[t]->get_u_lb()(i), s.get_us()[t](i)), le(s.get_us()[t](i), z.m[t]->get_u_ub()(i))));
        same = P_and(same, eq(s.get_us()[t](i), us0[t](i)));
      }
      check("the controls respect the limits or are those of the guess", P_or(in, same));
    }
}
#define COMMA ,
#define BOTH(name, fn, th, ...) \
  add_case(name "_ddp", fn<SolverBoxDDP>, __VA_ARGS__, th); \
  add_case(name "_fddp", fn<SolverBoxFDDP>, __VA_ARGS__, th)
// nus: 0 {1}, 1 {2}, 2 {1,1}, 3 {2,1}, 4 {0,1}, 5 {1,0}, 6 {1,2}
static void G(long n, long nu, long lim, long side, long feas, long reg, long used, long th) { BOTH("gains", gains, th, {{"n", n} COMMA {"nu", nu} COMMA {"lim", lim} COMMA {"side", side} COMMA {"feas", feas} COMMA {"reg", reg} COMMA {"used", used}}); }
static void F(long n, long nu, long lim, long side, long feas, long alpha, long state, long bil, long th) { BOTH("forward", forward, th, {{"n", n} COMMA {"nu", nu} COMMA {"lim", lim} COMMA {"side", side} COMMA {"feas", feas} COMMA {"alpha", alpha} COMMA {"state", state} COMMA {"bil", bil}}); }
static void V(long nu, long lim, long side, long feas, long iter, long th) { BOTH("solved", solved, th, {{"nu", nu} COMMA {"lim", lim} COMMA {"side", side} COMMA {"feas", feas} COMMA {"iter", iter}}); }
static void Z(long nu, long lim, long in, long th) { BOTH("sized", sized, th, {{"nu", nu} COMMA {"lim", lim} COMMA {"inside", in}}); }
REGISTER(
  Z(3, 2, 0, 0); Z(4, 3, 0, 0); Z(5, 3, 0, 0); Z(6, 2, 1, 0); Z(6, 2, 0, 1); Z(2, 3, 0, 1); Z(1, 1, 0, 1);
  G(1, 0, 1, 0, 1, 1, 0, 0); G(1, 0, 1, 1, 1, 0, 0, 0); G(1, 0, 1, 2, 1, 0, 0, 0); G(1, 0, 1, 0, 0, 1, 0, 0); G(1, 0, 0, 0, 1, 1, 0, 0); G(1, 0, 1, 0, 1, 0, 1, 0);
  G(2, 0, 1, 0, 1, 0, 0, 0); G(1, 4, 2, 0, 1, 0, 0, 0); G(1, 5, 1, 0, 1, 0, 0, 0);
  G(1, 1, 1, 0, 1, 0, 0, 0); G(1, 1, 1, 0, 1, 0, 2, 1); G(1, 6, 2, 0, 1, 0, 0, 1); G(1, 3, 2, 0, 1, 0, 0, 0); G(1, 2, 1, 0, 1, 0, 0, 0); G(1, 2, 2, 0, 1, 0, 0, 0); G(1, 2, 3, 0, 1, 0, 0, 1);
  for (long feas = 0; feas < 2; ++feas) for (long al = 0; al < 2; ++al) {
    F(1, 0, 1, 0, feas, al, 0, 0, 0); F(1, 0, 0, 0, feas, al, 0, 0, 0); F(1, 4, 2, 0, feas, al, 0, 0, 0); F(1, 5, 1, 0, feas, al, 0, 0, 0); F(1, 0, 1, 1, feas, al, 0, 1, 0);
    F(1, 1, 1, 0, feas, al, 0, 0, feas); F(1, 2, 3, 0, feas, al, 0, 0, 1); F(1, 2, 1, 0, feas, al, 0, 0, feas);
  }
  F(1, 0, 1, 2, 0, 1, 1, 1, 0);
  V(0, 1, 0, 0, 1, 1); V(0, 1, 0, 1, 1, 0); V(5, 1, 0, 0, 1, 0); V(0, 1, 0, 1, 2, 1);)
