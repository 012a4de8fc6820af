// Activation bounds: validation, beta shrinkage, infinite sides.
// BOUNDS: dimension 1..2 (quick), 3 (thorough); every finite bound below 1e6 in magnitude or an infinite one, every real beta
// OUTSIDE: NaN bounds; floating-point rounding
#include "sym/harness.hpp"
#include "pinocchio/utils/static-if.hpp"
#include "crocoddyl/core/activation-base.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
using namespace vf;
using namespace crocoddyl;
typedef ActivationBoundsTpl<double> B;

static void build(const Case &c) {
  const long n = c("n");
  const double inf = std::numeric_limits<double>::infinity();
  Vec lb = in_vec("lb", n), ub = in_vec("ub", n);
  double beta = in("beta");
  std::vector<int> li(n), ui(n);
  P bad = lt(beta, 0) | gt(beta, 1);
  for (long i = 0; i < n; ++i) {
    assume(gt(lb(i), -1e6) & lt(lb(i), 1e6) & gt(ub(i), -1e6) & lt(ub(i), 1e6));
    li[i] = flag("lower_infinite" + std::to_string(i));
    ui[i] = flag("upper_infinite" + std::to_string(i));
    if (!li[i] && !ui[i]) bad = bad | gt(lb(i), ub(i));
    if (li[i]) lb(i) = -inf;
    if (ui[i]) ub(i) = inf;
  }
  B b;
  const bool t = throws([&]() { b = B(lb, ub, beta); });
  if (t) {
    check("rejected only when inconsistent", bad);
    return;
  }
  check("inconsistent bounds or beta rejected", !bad);
  check_true("dimension", b.lb.size() == n && b.ub.size() == n);
  check_eq("beta stored", b.beta, beta);
  for (long i = 0; i < n; ++i) {
    if (!li[i] && !ui[i]) {
      const double m = (lb(i) + ub(i)) / 2;
      check_eq("centre kept", (b.lb(i) + b.ub(i)) / 2, m);
      check_eq("width scaled by beta", b.ub(i) - b.lb(i), beta * (ub(i) - lb(i)));
      check("inside the original interval", le(lb(i), b.lb(i)) & le(b.ub(i), ub(i)) & le(b.lb(i), b.ub(i)));
      observe("lb" + std::to_string(i), b.lb(i));
      observe("ub" + std::to_string(i), b.ub(i));
    } else {
      if (!li[i]) check_eq("finite lower side kept when the upper is infinite", b.lb(i), lb(i));
      if (!ui[i]) check_eq("finite upper side kept when the lower is infinite", b.ub(i), ub(i));
      if (li[i]) check("infinite lower side stays unbounded", le(b.lb(i), -1e300) & gt(b.lb(i), -inf));
      if (ui[i]) check("infinite upper side stays unbounded", ge(b.ub(i), 1e300) & lt(b.ub(i), inf));
    }
  }
  B copy(b), assigned;
  assigned = b;
  check_eqm("copy lb", copy.lb, b.lb);
  check_eqm("copy ub", copy.ub, b.ub);
  check_eq("copy beta", copy.beta, b.beta);
  check_eqm("assigned lb", assigned.lb, b.lb);
  check_eqm("assigned ub", assigned.ub, b.ub);
  check_eq("assigned beta", assigned.beta, b.beta);
}
static void sizes(const Case &c) {
  const long n = c("n");
  check_true("different sizes rejected", throws([&]() { B b(Vec::Zero(n), Vec::Ones(n + 1)); }) && throws([&]() { B b(Vec::Zero(n + 1), Vec::Ones(n)); }));
  Vec lb = in_vec("lb", n), ub = in_vec("ub", n);
  for (long i = 0; i < n; ++i) assume(le(lb(i), ub(i)) & gt(lb(i), -1e6) & lt(ub(i), 1e6));
  B b(lb, ub);
  check_eqm("default beta keeps lb", b.lb, lb);
  check_eqm("default beta keeps ub", b.ub, ub);
}
REGISTER(for (long n = 1; n <= 3; ++n) {
  add_case("build", build, {{"n", n}}, n > 2);
  add_case("sizes", sizes, {{"n", n}}, n > 2);
})
