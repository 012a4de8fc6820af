// Common parts of the solver harnesses: problems with arbitrary nodes and
// solvers whose line-search candidates can be read.
#include "harness/ocp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
struct Dims { long n; std::vector<long> nu; };
struct Prob {
  std::shared_ptr<St> s;
  std::vector<NodeP> m;
  NodeP term;
  std::shared_ptr<SP> p;
  Traj xs, us;
  long T, n;
};
// kind of guess: 0 arbitrary trajectories, 1 the dynamics hold exactly (by choice of the drifts)
static Prob problem(long n, const std::vector<long> &nu, long state, bool feasible, bool bilinear = false, const std::vector<long> &ng = {}, const std::vector<long> &nh = {}) {
  Prob z;
  z.n = n; z.T = nu.size();
  z.s = state ? std::shared_ptr<St>(std::make_shared<Scaled>(n)) : std::make_shared<Flat>(n);
  for (long t = 0; t < z.T; ++t) z.m.push_back(std::make_shared<Node>("m" + num(t), z.s, nu[t], ng.empty() ? 0 : ng[t], nh.empty() ? 0 : nh[t], 0, 0, bilinear));
  z.term = std::make_shared<Node>("T", z.s, 0, 0, 0, ng.empty() ? 0 : ng[z.T], nh.empty() ? 0 : nh[z.T], false, true);
  z.xs = traj("x", std::vector<long>(z.T + 1, n));
  z.us = traj("u", nu);
  Vec x0 = feasible ? z.xs[0] : in_vec("xi", n);
  if (feasible) for (long t = 0; t < z.T; ++t) { z.m[t]->a = Vec::Zero(n); z.m[t]->a = z.xs[t + 1] - z.m[t]->next(z.xs[t], z.us[t]); }
  z.p = std::make_shared<SP>(x0, std::vector<std::shared_ptr<AM>>(z.m.begin(), z.m.end()), z.term);
  return z;
}
template <class S>
struct Open : S {
  explicit Open(std::shared_ptr<SP> p) : S(p) {}
  using S::xs_try_;
  using S::us_try_;
  using S::cost_try_;
};
static Vec dif(const Prob &z, const Vec &a, const Vec &b) { Vec d(z.n); z.s->diff(a, b, d); return d; }
static Vec itg(const Prob &z, const Vec &a, const Vec &d) { Vec x(z.n); z.s->integrate(a, d, x); return x; }
static Vec next(const Prob &z, long t, const Vec &x, const Vec &u) { return z.m[t]->next(x, u); }
static double cost(const Prob &z, const Traj &xs, const Traj &us) {
  double c = 0;
  for (long t = 0; t < z.T; ++t) c += z.m[t]->cost(xs[t], us[t]);
  return c + z.term->cost(xs[z.T]);
}
