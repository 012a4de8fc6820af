// SOURCES: src/core/solver-base.cpp src/core/solvers/ddp.cpp src/core/solvers/fddp.cpp src/core/solvers/intro.cpp
// Equality-constrained DDP: gains of the three elimination methods, value function, trial constraint violation, main loop.
// BOUNDS: horizon 1..2, state dimension 1, control dimension 1..3, 0..2 equality constraints per node, every derivative of dynamics, cost and constraints, every guess, initial state, step length and regularization
// OUTSIDE: constraint Jacobians the factorization judges rank-deficient; terminal equality constraints (not eliminated by the algorithm); longer horizons; floating-point rounding
// ASSUMES: constraint Jacobians have full row rank, their entries are zero or at least 1e-6 in magnitude when eliminated by QR
#include "harness/solv.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
typedef SolverIntro Intro;
struct OpenI : Open<Intro> {
  using Open<Intro>::Open;
  using Intro::hfeas_try_;
  using Intro::Vxx_tmp_;
};
static double det(const Mat &M) { return M.rows() == 0 ? double(1) : M.rows() == 1 ? M(0, 0) : M(0, 0) * M(1, 1) - M(1, 0) * M(0, 1); }
static P posdef(const Mat &M) {
  if (M.rows() == 0) return P_bool(true);
  return M.rows() == 1 ? gt(M(0, 0), 0) : P_and(gt(M(0, 0), 0), gt(det(M), 0));
}
// directions along which H u does not change (columns)
static Mat kernel(const Mat &H, long nu) {
  if (H.rows() == 0) return Mat::Identity(nu, nu);
  if (H.rows() == nu) return Mat(nu, 0);
  if (nu == 2) { Mat Z(2, 1); Z << -H(0, 1), H(0, 0); return Z; }
  if (H.rows() == 2) { Mat Z(3, 1); Z << H(0, 1) * H(1, 2) - H(0, 2) * H(1, 1), H(0, 2) * H(1, 0) - H(0, 0) * H(1, 2), H(0, 0) * H(1, 1) - H(0, 1) * H(1, 0); return Z; }
  Mat Z(3, 3); Z << -H(0, 1), -H(0, 2), 0, H(0, 0), 0, -H(0, 2), 0, H(0, 0), H(0, 1); return Z;
}
static P fullrank(const Mat &H) {
  P p = P_bool(H.rows() == 0);
  if (H.rows() == 1) { for (long j = 0; j < H.cols(); ++j) p = P_or(p, ne(H(0, j), 0)); }
  else if (H.rows() == 2) for (long j = 0; j < H.cols(); ++j) for (long i = 0; i < j; ++i) p = P_or(p, ne(H(0, i) * H(1, j) - H(0, j) * H(1, i), 0));
  return p;
}
static void gains(const Case &c) {
  const std::vector<std::vector<long>> nus = {{1}, {2}, {1, 1}, {2, 1}, {0, 1}, {3}}, nhs = {{1}, {1}, {1, 1}, {1, 1}, {0, 1}, {1}};
  const std::vector<long> nu = nus[c("nu")];
  std::vector<long> nh = nhs[c("nu")];
  if (c("nh") == 0) nh[0] = 0;
  if (c("nh") == 2) nh[0] = 2;
  nh.push_back(0);
  Prob z = problem(1, nus[c("nu")], c("state"), c("feas"), c("bil"), {}, nh);
  for (long t = 0; t < z.T; ++t) assume(fullrank(z.m[t]->Hu));
  if (c("eq") == 1) for (long t = 0; t < z.T; ++t) for (long i = 0; i < z.m[t]->Hu.rows(); ++i) for (long j = 0; j < z.m[t]->Hu.cols(); ++j) { const double e = z.m[t]->Hu(i, j); assume(P_or(eq(e, 0), ge(abs1(e), 1e-6))); }
  for (long t = 0; t < z.T; ++t) if (nu[t] && nh[t] && c("eq") < 2) {
    const long r = c("eq") == 0 ? Eigen::FullPivLU<Mat>(z.m[t]->Hu).rank() : Eigen::ColPivHouseholderQR<Mat>(z.m[t]->Hu.transpose()).rank();
    assume(P_bool(r == nh[t]));
  }
  if (c("free")) for (long t = 0; t < z.T; ++t) z.m[t]->B.setZero();  // controls act through cost and constraints only
  OpenI s(z.p);
  const EqualitySolverType kind = c("eq") == 0 ? LuNull : c("eq") == 1 ? QrNull : Schur;
  s.set_equality_solver(kind);
  check_true("method kept", s.get_equality_solver() == kind);
  double reg = 0;
  if (c("reg")) { reg = in("reg"); assume(ge(reg, 0)); }
  s.set_preg(reg);
  s.setCandidate(z.xs, z.us, c("feas"));
  const bool thrown = throws([&]() { s.computeDirection(true); });
  for (long t = 0; t < z.T; ++t) if (nu[t] && nh[t]) check_true("reported rank", (long)s.get_Hu_rank()[t] == nh[t]);
  double hf = 0;
  for (long t = 0; t < z.T; ++t) { const Vec h = z.m[t]->h(z.xs[t], z.us[t]); for (long i = 0; i < h.size(); ++i) hf = max2(hf, abs1(h(i))); }
  check_eq("cost of the guess", s.get_cost(), cost(z, z.xs, z.us));
  if (thrown) {
    if (z.T == 1) {
      const Mat Quu = s.get_Quu()[0], Z = kernel(z.m[0]->Hu, nu[0]);
      P why = kind == Schur ? P_not(posdef(Quu)) : Z.cols() <= 2 ? P_not(posdef(Z.transpose() * Quu * Z)) : P_bool(true);
      why = P_or(why, ge(abs1(s.get_Vx()[0](0)), 1e30));
      why = P_or(why, ge(abs1(s.get_Vxx()[0](0, 0)), 1e30));
      check("refused only without positive curvature along the constraints or on overflow", why);
    }
    return;
  }
  check_eq("reported equality feasibility", s.get_hfeas(), hf);
  const Mat I = Mat::Identity(z.n, z.n);
  for (long t = z.T; t >= 0; --t) {
    Vec vx; Mat vxx;
    if (t == z.T) { vx = z.term->Q * z.xs[t] + z.term->q; vxx = z.term->Q; }
    else {
      std::shared_ptr<AD> d = z.m[t]->createData();
      const Vec Vx = s.get_Vx()[t + 1];
      const Mat Vxx = s.get_Vxx()[t + 1];
      const long m = nu[t];
      z.m[t]->calcDiff(d, z.xs[t], z.us[t]);
      const Mat Fx = d->Fx, Fu = d->Fu;
      const Vec Lx = d->Lx, Lu = d->Lu;
      check_eqm("Qx", s.get_Qx()[t], Vec(Lx + Fx.transpose() * Vx));
      check_eqm("Qxx", s.get_Qxx()[t], Mat(z.m[t]->Q + Fx.transpose() * Vxx * Fx));
      vx = s.get_Qx()[t]; vxx = s.get_Qxx()[t];
      if (m) {
        const Mat Quu = s.get_Quu()[t], Qxu = s.get_Qxu()[t];
        const Vec Qu = s.get_Qu()[t];
        check_eqm("Qu", Qu, Vec(Lu + Fu.transpose() * Vx));
        check_eqm("Quu", Quu, Mat(z.m[t]->R + Fu.transpose() * Vxx * Fu + reg * Mat::Identity(m, m)));
        check_eqm("Qxu", Qxu, Mat(z.m[t]->N + Fx.transpose() * Vxx * Fu));
        const Mat K = s.get_K()[t], Hu = z.m[t]->Hu, Hx = z.m[t]->Hx;
        const Vec k = s.get_k()[t], h = z.m[t]->h(z.xs[t], z.us[t]);
        check_eqm("the step satisfies the linearised constraints", Vec(Hu * k), h);
        check_eqm("the feedback keeps the linearised constraints", Mat(Hu * K), Hx);
        const Mat Z = kernel(Hu, m);
        check_eqm("the step is stationary along the constraints", Vec(Z.transpose() * (Quu * k - Qu)), Vec(Vec::Zero(Z.cols())));
        check_eqm("the feedback is stationary along the constraints", Mat(Z.transpose() * (Quu * K - Qxu.transpose())), Mat(Mat::Zero(Z.cols(), z.n)));
        vx -= Qxu * k + K.transpose() * (Qu - Quu * k);
        const Mat W = K.transpose() * Quu * K - Qxu * K - (Qxu * K).transpose();
        vxx += (W + W.transpose()) / 2;
      }
    }
    vxx += reg * I;
    if (!c("feas")) vx += vxx * s.get_fs()[t];
    check_eqm("Vxx", s.get_Vxx()[t], vxx);
    check_eqm("Vx", s.get_Vx()[t], vx);
  }
  if (!c("try")) return;
  const double al = in("alpha");
  assume(gt(al, 0) & le(al, 1));
  double dv = 0;
  if (throws([&]() { dv = s.tryStep(al); })) return;
  double ht = 0;
  for (long t = 0; t < z.T; ++t) {
    const Vec u = z.us[t] - al * s.get_k()[t] - s.get_K()[t] * dif(z, z.xs[t], s.xs_try_[t]);
    check_eqm("control of the trial", s.us_try_[t], u);
    const Vec h = z.m[t]->h(s.xs_try_[t], s.us_try_[t]);
    for (long i = 0; i < h.size(); ++i) ht = max2(ht, abs1(h(i)));
  }
  check_eq("cost decrease of the trial", dv, cost(z, z.xs, z.us) - cost(z, s.xs_try_, s.us_try_));
  check_eq("constraint violation of the trial", s.hfeas_try_, ht);
}
// main loop with arbitrary outcomes of its parts
struct Stub : Intro {
  long iter = 0, tr = 0, attempt = 0, maxref;
  bool started = false, refused = false, fails = false;
  double c0, h0;
  std::vector<double> tried;
  std::vector<long> recalc;
  Stub(std::shared_ptr<SP> p, long r) : Intro(p), maxref(r), c0(in("c0")), h0(in("h0")) { assume(ge(h0, 0)); }
  static std::string id(const char *p, long i, long j) { return std::string(p) + num(i) + "_" + num(j); }
  bool dthrow(long i, long a) { return a < maxref && flag(id("refuse", i, a)); }
  bool tthrow(long i, long j) { return fails && flag(id("fail", i, j)); }
  double tcost(long i, long j) { return in(id("cost", i, j)); }
  double thfeas(long i, long j) { const double h = in(id("hfeas", i, j)); assume(ge(h, 0)); return h; }
  Vec tx(long i, long j, long t) { return in_vec(id("tx", i, j) + "_" + num(t), 1); }
  Vec tu(long i, long j, long t) { return in_vec(id("tu", i, j) + "_" + num(t), 1); }
  // the first expected improvement is asked for before any candidate
  double d0(long i, long j) { return in(id("d0", i, j)); }
  double d1(long i, long j) { return in(id("d1", i, j)); }
  void computeDirection(const bool r) override {
    if (!started) { started = true; cost_ = c0; hfeas_ = h0; }
    else if (!refused) { ++iter; attempt = 0; }
    tr = 0;
    recalc.push_back(r ? 1 : 0);
    refused = dthrow(iter, attempt++);
    if (refused) throw std::runtime_error("refused");
  }
  double tryStep(const double a) override {
    tried.push_back(a);
    const long j = tr++;
    if (tthrow(iter, j)) throw std::runtime_error("failed");
    for (long t = 0; t < 2; ++t) xs_try_[t] = tx(iter, j, t);
    us_try_[0] = tu(iter, j, 0);
    cost_try_ = tcost(iter, j);
    hfeas_try_ = thfeas(iter, j);
    return cost_ - cost_try_;
  }
  const Eigen::Vector2d &expectedImprovement() override {
    d_[0] = d0(iter, tr); d_[1] = d1(iter, tr);
    return d_;
  }
};
struct Count : CallbackAbstract {
  long n = 0;
  void operator()(SolverAbstract &) override { ++n; }
};
static void loop(const Case &c) {
  may_repeat("");
  Prob z = problem(1, {1}, 0, true, false, {}, {1, 0});
  Stub s(z.p, c("refuse"));
  s.fails = c("fails");
  set_option("max_paths", 40000);
  std::vector<double> al = {1, 0.01};
  double dec = 0.5, incr = 0.01, rho = 0.3;
  if (c("alphas") == 3) al = {1};
  if (c("alphas") < 2) {  // any step lengths, thresholds and merit parameters
    al.clear();
    for (long j = 0; j <= c("alphas"); ++j) { al.push_back(in("alpha" + num(j))); assume(gt(al[j], 0) & (j ? lt(al[j], al[j - 1]) : le(al[j], 1))); }
    dec = in("dec"); incr = in("inc");
    assume(gt(dec, 0) & le(dec, 1) & gt(incr, 0) & le(incr, 1));
    s.set_th_stepdec(dec); s.set_th_stepinc(incr);
  }
  if (c("rho")) {
    rho = in("rho");
    const bool bad = throws([&]() { s.set_rho(rho); });
    check("merit parameter between 0 and 1", bad ? P_or(le(rho, 0), gt(rho, 1)) : P_and(gt(rho, 0), le(rho, 1)));
    if (bad) { check_eq("refused merit parameter is not kept", s.get_rho(), double(0.3)); return; }
    assume(lt(rho, 1));
    check_eq("merit parameter kept", s.get_rho(), rho);
  }
  s.set_alphas(al);
  s.set_reg_min(1);
  s.set_reg_max(100);
  double ups = 0;
  const bool given = c("fails") && flag("given"), feas0 = flag("feas");
  double reg = 1;
  if (given) { reg = in("reg"); assume(ge(reg, 1) & le(reg, 100)); }
  auto cb = std::make_shared<Count>();
  s.setCallbacks({cb});
  const long maxiter = c("iter");
  const bool ret = s.solve(z.xs, z.us, maxiter, feas0, given ? reg : std::numeric_limits<double>::quiet_NaN());
  Traj X = z.xs, U = z.us;
  double cost = s.c0, hf = s.h0, step = 1;
  bool feas = feas0, result = false, accepted = true, stopped = false;
  long ncb = 0, ntry = 0, ndir = 0;
  std::vector<bool> need;
  for (long it = 0; it < maxiter && !stopped; ++it) {
    for (long a = 0;; ++a) {
      need.push_back(accepted && a == 0);
      ++ndir;
      if (!s.dthrow(it, a)) break;
      reg = min2(reg * 10, double(100));
      if (holds(ge(reg, 100))) { stopped = true; break; }
    }
    if (stopped) break;
    double d0 = s.d0(it, 0), d1 = s.d1(it, 0), dv = it ? double(0) : double(0);
    // the penalty grows so that a full step is expected to decrease the merit function
    if (it && holds(ne(hf, 0))) ups = max2(ups, (d0 + d1 / 2) / ((1 - rho) * hf));
    accepted = false;
    bool tried = false;
    for (std::size_t j = 0; j < al.size() && !accepted; ++j) {
      step = al[j];
      ++ntry;
      if (s.tthrow(it, j)) continue;
      tried = true;
      d0 = s.d0(it, j + 1); d1 = s.d1(it, j + 1);
      dv = cost - s.tcost(it, j);
      const double df = hf - s.thfeas(it, j), ve = step * (d0 + step * d1 / 2), pe = ve + step * ups * df;
      P ok = P_and(ge(pe, 0), P_or(lt(abs1(d0), s.get_th_grad()), gt(dv + ups * df, s.get_th_acceptstep() * pe)));
      ok = P_or(ok, P_and(lt(pe, 0), gt(dv, s.get_th_acceptnegstep() * ve)));
      if (holds(ok)) {
        accepted = true;
        feas = feas || holds(eq(al[j], 1));
        X = {s.tx(it, j, 0), s.tx(it, j, 1)};
        U = {s.tu(it, j, 0)};
        cost = s.tcost(it, j); hf = s.thfeas(it, j);
      }
    }
    ++ncb;
    if (!tried) return;  // every candidate failed: the regularization follows the previous outcome
    if (holds(P_and(gt(step, dec), ge(dv, 0)))) reg = max2(reg / 10, double(1));
    if (holds(P_or(le(step, incr), le(abs1(d1), s.get_th_feas())))) {
      if (holds(ge(reg, 100))) break;
      reg = min2(reg * 10, double(100));
    }
    if (feas && holds(lt(max2(hf, abs1(d0 + d1 / 2)), s.get_th_stop()))) { result = true; break; }
  }
  check_true("convergence reported exactly when feasible, constraints met and no improvement expected", ret == result);
  for (long t = 0; t < 2; ++t) check_eqm("states are those of the last accepted step", s.get_xs()[t], X[t]);
  check_eqm("controls are those of the last accepted step", s.get_us()[0], U[0]);
  if (ndir > 0) { check_eq("cost is that of the last accepted step", s.get_cost(), cost); check_eq("constraint violation is that of the last accepted step", s.get_hfeas(), hf); }
  check_true("feasibility of the guess", s.get_is_feasible() == feas);
  check_eq("regularization", s.get_preg(), reg);
  check_eq("penalty", s.get_upsilon(), ups);
  check_true("one callback per completed iteration", cb->n == ncb);
  check_true("number of candidates", (long)s.tried.size() == ntry);
  check_true("number of directions", (long)s.recalc.size() == ndir);
  for (std::size_t i = 0; i < s.recalc.size() && i < need.size(); ++i) if (need[i]) check_true("derivatives recomputed after an accepted step", s.recalc[i] == 1);
}
static void one(long eq, long nu, long nh, long feas, long reg, long th = 0, long state = 0, long bil = 0, long tr = 0, long fr = 0) {
  add_case("gains", gains, {{"eq", eq}, {"nu", nu}, {"nh", nh}, {"feas", feas}, {"reg", reg}, {"state", state}, {"bil", bil}, {"try", tr}, {"free", fr}}, th);
}
REGISTER(
  for (long e = 0; e < 3; ++e) {
    one(e, 0, 1, 0, 0); one(e, 0, 1, 1, 1); one(e, 2, 1, 1, 0); one(e, 4, 1, 0, 0); one(e, 1, 0, 0, 0, 0, 0, 0, 0, 1);
    one(e, 1, 1, 0, 0, e > 0); one(e, 1, 1, 0, 0, 0, 0, 0, 0, 1); one(e, 1, 1, 0, 1, 1);
    one(e, 1, 2, 0, 0, e > 0, 0, 0, 0, 1); one(e, 5, 1, 0, 0, 1, 0, 0, 0, 1); one(e, 5, 2, 0, 0, 1, 0, 0, 0, 1); one(e, 3, 1, 0, 0, 1);
    one(e, 0, 1, 0, 0, 0, 1, 1, 1); one(e, 1, 1, 1, 0, e > 0, 0, 0, 1); one(e, 1, 1, 1, 0, 0, 0, 0, 1, 1);
  }  for (long a = 0; a < 2; ++a) add_case("loop", loop, {{"iter", 1}, {"alphas", a}, {"refuse", 0}, {"rho", !a}, {"fails", !a}});
  add_case("loop", loop, {{"iter", 0}, {"alphas", 2}, {"refuse", 0}, {"rho", 0}, {"fails", 1}});
  add_case("loop", loop, {{"iter", 1}, {"alphas", 2}, {"refuse", 2}, {"rho", 0}, {"fails", 1}});
  add_case("loop", loop, {{"iter", 2}, {"alphas", 2}, {"refuse", 0}, {"rho", 0}, {"fails", 0}}, 1);
  add_case("loop", loop, {{"iter", 2}, {"alphas", 3}, {"refuse", 0}, {"rho", 0}, {"fails", 0}});
  add_case("loop", loop, {{"iter", 2}, {"alphas", 2}, {"refuse", 1}, {"rho", 1}, {"fails", 0}}, 1);
  add_case("loop", loop, {{"iter", 1}, {"alphas", 1}, {"refuse", 0}, {"rho", 1}, {"fails", 1}}, 1);)
