// SOURCES: src/core/solver-base.cpp src/core/solvers/ddp.cpp src/core/solvers/fddp.cpp
// DDP/FDDP main loop: accepted steps, feasibility, regularization, stopping, callbacks for every outcome of its parts.
// BOUNDS: up to 2 iterations, 2 step lengths (3 for one iteration; every step length and step threshold for one iteration of 1..2 step lengths), up to 2 refused directions, every cost of the candidates, expected improvement, stopping value and refused candidate; every initial regularization in a range of four decades
// OUTSIDE: more iterations; floating-point rounding
#include "harness/solv.hpp"
struct Script {  // outcomes of the parts of the loop, drawn when needed
  long kd = 0, kt = 0, refused = 0, maxref = 1;
  std::vector<bool> recalc;   // recalculation requests of the directions
  std::vector<bool> dirok;
  std::vector<double> alpha;  // step lengths tried
};
struct Result { bool ret; Traj xs, us; double cost, preg, dreg; bool feas; long ncall, iters, ntry; double step, stop; };
template <class S>
struct Stub : S {
  Script sc;
  bool fddp;
  long iter, tr, attempt;
  double c0;
  std::vector<double> tried;
  std::vector<long> recalc;
  std::vector<std::pair<long, long>> tries;
  Stub(std::shared_ptr<SP> p, bool f) : S(p), fddp(f), iter(-1), tr(0), attempt(0), c0(in("c0")) {}
  static std::string id(const char *p, long i, long j) { return std::string(p) + num(i) + "_" + num(j); }
  bool dthrow(long i, long a) { return a < sc.maxref && flag(id("refuse", i, a)); }
  bool tthrow(long i, long j) { return flag(id("fail", i, j)); }
  double tcost(long i, long j) { return in(id("cost", i, j)); }
  Vec tx(long i, long j, long t) { return in_vec(id("tx", i, j) + "_" + num(t), 1); }
  Vec tu(long i, long j, long t) { return in_vec(id("tu", i, j) + "_" + num(t), 1); }
  double d0(long i, long j) { return in(id("d0", i, fddp ? j : 0)); }
  double d1(long i, long j) { return in(id("d1", i, fddp ? j : 0)); }
  double st(long i) { return in("stop" + num(i)); }
  void computeDirection(const bool r) override {
    if (started) { if (attempt == 0 || !last_refused) { ++iter; attempt = 0; } }
    else { started = true; iter = 0; attempt = 0; this->cost_ = c0; }
    tr = 0;
    recalc.push_back(r ? 1 : 0);
    const bool t = dthrow(iter, attempt);
    ++attempt;
    last_refused = t;
    if (t) throw std::runtime_error("refused");
  }
  double tryStep(const double a) override {
    tried.push_back(a);
    const long j = tr++;
    if (tthrow(iter, j)) throw std::runtime_error("failed");
    for (long t = 0; t < 2; ++t) this->xs_try_[t] = tx(iter, j, t);
    this->us_try_[0] = tu(iter, j, 0);
    this->cost_try_ = tcost(iter, j);
    return this->cost_ - this->cost_try_;
  }
  const Eigen::Vector2d &expectedImprovement() override {
    const long j = tr > 0 ? tr - 1 : 0;
    this->d_[0] = d0(iter, j); this->d_[1] = d1(iter, j);
    return this->d_;
  }
  double stoppingCriteria() override { this->stop_ = st(iter); return this->stop_; }
  bool started = false, last_refused = false;
};
static double neg(const SolverFDDP &s) { return s.get_th_acceptnegstep(); }
static double neg(const SolverDDP &) { return 2; }
struct Count : CallbackAbstract {
  long n = 0;
  std::vector<double> cost;
  void operator()(SolverAbstract &s) override { ++n; cost.push_back(s.get_cost()); }
};
template <class S>
static void loop(const Case &c) {
  may_repeat("");
  const bool fddp = c("fddp");
  Prob z = problem(1, {1}, 0, true);
  Stub<S> s(z.p, fddp);
  s.sc.maxref = c("refuse");
  std::vector<double> al = c("alphas") == 2 ? std::vector<double>{1, 0.01} : std::vector<double>{1, 0.25, 0.01};
  double dec = 0.5, incr = 0.01;
  if (c("alphas") < 2) {  // any step lengths and thresholds
    al.clear();
    for (long j = 0; j <= c("alphas"); ++j) { al.push_back(in("alpha" + num(j))); assume(gt(al[j], 0) & (j ? lt(al[j], al[j - 1]) : le(al[j], 1))); }
    dec = in("dec"); incr = in("inc");
    assume(gt(dec, 0) & le(dec, 1) & gt(incr, 0) & le(incr, 1));
    s.set_th_stepdec(dec); s.set_th_stepinc(incr);
  }
  s.set_alphas(al);
  s.set_reg_min(1);
  s.set_reg_max(100);
  const bool given = flag("given"), feas0 = flag("feas");
  double reg = 1;
  if (given) { reg = in("reg"); assume(ge(reg, 1) & le(reg, 100)); }
  auto cb = std::make_shared<Count>();
  s.setCallbacks({cb});
  const long maxiter = c("iter");
  const bool ret = s.solve(z.xs, z.us, maxiter, feas0, given ? reg : std::numeric_limits<double>::quiet_NaN());
  // reference: what the loop has to do with these outcomes
  Traj X = z.xs, U = z.us;
  double cost = s.c0, step = 1;
  bool feas = feas0, was = false, result = false, stopped = false, accepted = true;
  long ncb = 0, ntry = 0, ndir = 0;
  std::vector<bool> need;
  for (long it = 0; it < maxiter && !stopped; ++it) {
    for (long a = 0;; ++a) {
      need.push_back(accepted && a == 0);
      ++ndir;
      if (!s.dthrow(it, a)) break;
      reg = min2(reg * 10, double(100));
      if (holds(ge(reg, 100))) { stopped = true; break; }
    }
    if (stopped) break;
    accepted = false;
    for (std::size_t j = 0; j < al.size() && !accepted; ++j) {
      step = al[j];
      ++ntry;
      if (s.tthrow(it, j)) continue;
      const double dv = cost - s.tcost(it, j), d0 = s.d0(it, j), ex = step * (d0 + step * s.d1(it, j) / 2);
      P ok = P_and(ge(ex, 0), P_or(lt(abs1(d0), s.get_th_grad()), gt(dv, s.get_th_acceptstep() * ex)));
      if (!feas) ok = P_or(ok, fddp ? P_and(lt(ex, 0), gt(dv, neg(s) * ex)) : ge(ex, 0));
      if (holds(ok)) {
        accepted = true;
        was = feas;
        feas = !fddp || was || holds(eq(al[j], 1));
        X = {s.tx(it, j, 0), s.tx(it, j, 1)};
        U = {s.tu(it, j, 0)};
        cost = s.tcost(it, j);
      }
    }
    if (holds(gt(step, dec))) reg = max2(reg / 10, double(1));
    if (holds(le(step, incr))) {
      reg = min2(reg * 10, double(100));
      if (holds(ge(reg, 100))) break;
    }
    ++ncb;
    if (was && holds(lt(s.st(it), s.get_th_stop()))) { result = true; break; }
  }
  check_true("convergence reported exactly when the stopping criterion holds after a feasible step", ret == result);
  for (long t = 0; t < 2; ++t) check_eqm("states are those of the last accepted step", s.get_xs()[t], X[t]);
  check_eqm("controls are those of the last accepted step", s.get_us()[0], U[0]);
  if (ndir > 0) check_eq("cost is that of the last accepted step", s.get_cost(), cost);
  check_true("feasibility of the guess", s.get_is_feasible() == feas);
  check_eq("regularization", s.get_preg(), reg);
  check_eq("dual regularization", s.get_dreg(), reg);
  check_true("one callback per completed iteration", cb->n == ncb);
  check_true("number of candidates", (long)s.tried.size() == ntry);
  check_true("number of directions", (long)s.recalc.size() == ndir);
  for (std::size_t i = 0; i < s.recalc.size() && i < need.size(); ++i) if (need[i]) check_true("derivatives recomputed after an accepted step", s.recalc[i] == 1);
}
REGISTER(
  for (long a = 0; a < 2; ++a) {
    add_case("ddp", loop<SolverDDP>, {{"fddp", 0}, {"iter", 1}, {"alphas", a}, {"refuse", 0}});
    add_case("fddp", loop<SolverFDDP>, {{"fddp", 1}, {"iter", 1}, {"alphas", a}, {"refuse", 0}});
  }
  for (long it = 0; it < 2; ++it) for (long a = 2; a < 4; ++a) {
    add_case("ddp", loop<SolverDDP>, {{"fddp", 0}, {"iter", it}, {"alphas", a}, {"refuse", 2}});
    add_case("fddp", loop<SolverFDDP>, {{"fddp", 1}, {"iter", it}, {"alphas", a}, {"refuse", 2}});
  }
  for (long r = 0; r < 2; ++r) {
    add_case("ddp", loop<SolverDDP>, {{"fddp", 0}, {"iter", 2}, {"alphas", 2}, {"refuse", r}}, r);
    add_case("fddp", loop<SolverFDDP>, {{"fddp", 1}, {"iter", 2}, {"alphas", 2}, {"refuse", r}}, r);
  })
