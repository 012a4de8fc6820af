// Common parts of the optimal-control harnesses: nodes with arbitrary dynamics,
// cost and constraints (affine / quadratic with arbitrary coefficients plus an
// optional bilinear coupling), over a flat or curved state space.
#include "sym/harness.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
template class crocoddyl::ShootingProblemTpl<double>;
using namespace vf;
using namespace crocoddyl;
typedef Eigen::Ref<const Vec> VR;
typedef StateVectorTpl<double> Flat;
typedef StateAbstractTpl<double> St;
typedef ActionModelAbstractTpl<double> AM;
typedef ActionDataAbstractTpl<double> AD;
typedef ShootingProblemTpl<double> SP;
typedef std::vector<Vec> Traj;

static double quad(const Vec &x, const Mat &Q, const Vec &y) {
  double s = 0;
  for (long i = 0; i < Q.rows(); ++i) for (long j = 0; j < Q.cols(); ++j) s += x(i) * Q(i, j) * y(j);
  return s;
}
// x (-) y = D (y - x), x (+) dx = x + D^-1 dx with a diagonal D
struct Scaled : Flat {
  Vec D;
  explicit Scaled(long n) : Flat(n), D(in_vec("D", n)) { for (long i = 0; i < n; ++i) assume(ne(D(i), 0)); }
  void diff(const VR &a, const VR &b, Eigen::Ref<Vec> o) const override { Vec r = D.cwiseProduct(b - a); o = r; }
  void integrate(const VR &x, const VR &dx, Eigen::Ref<Vec> o) const override { Vec r = x + dx.cwiseQuotient(D); o = r; }
};
struct Node : AM {
  Vec a, q, r, g0, h0;
  Mat A, B, Q, R, N, Gx, Gu, Hx, Hu;
  double c, k;
  long ncalc, ndiff;
  Node(const std::string &p, std::shared_ptr<St> s, long nu, long ng = 0, long nh = 0, long ngT = 0, long nhT = 0, bool bilinear = false, bool terminal = false)
      : AM(s, nu, 0, ng, nh, ngT, nhT), ncalc(0), ndiff(0) {
    const long n = s->get_ndx();
    if (terminal) { ng = ngT; nh = nhT; }
    a = in_vec(p + "a", n); A = in_mat(p + "A", n, n); B = in_mat(p + "B", n, nu);
    Q = in_sym(p + "Q", n); R = in_sym(p + "R", nu); N = in_mat(p + "N", n, nu); q = in_vec(p + "q", n); r = in_vec(p + "r", nu); c = in(p + "c");
    g0 = in_vec(p + "g", ng); Gx = in_mat(p + "Gx", ng, n); Gu = in_mat(p + "Gu", ng, nu);
    h0 = in_vec(p + "h", nh); Hx = in_mat(p + "Hx", nh, n); Hu = in_mat(p + "Hu", nh, nu);
    k = bilinear ? in(p + "k") : double(0);
  }
  Vec next(const Vec &x, const Vec &u) const { return a + A * x + B * u + Vec::Constant(a.size(), k * x.sum() * u.sum()); }
  double cost(const Vec &x, const Vec &u) const { return quad(x, Q, x) / 2 + quad(u, R, u) / 2 + quad(x, N, u) + q.dot(x) + r.dot(u) + c; }
  double cost(const Vec &x) const { return quad(x, Q, x) / 2 + q.dot(x) + c; }
  Vec g(const Vec &x, const Vec &u) const { return Gx * x + Gu * u + g0; }
  Vec h(const Vec &x, const Vec &u) const { return Hx * x + Hu * u + h0; }
  Vec g(const Vec &x) const { return Gx * x + g0; }
  Vec h(const Vec &x) const { return Hx * x + h0; }
  void size(AD &d) {
    const long n = state_->get_ndx();
    d.g.conservativeResize(g0.size()); d.h.conservativeResize(h0.size());
    d.Gx.conservativeResize(g0.size(), n); d.Hx.conservativeResize(h0.size(), n);
    d.Gu.conservativeResize(g0.size(), nu_); d.Hu.conservativeResize(h0.size(), nu_);
  }
  void calc(const std::shared_ptr<AD> &d, const VR &x_, const VR &u_) override {
    Vec x = x_, u = u_;
    ++ncalc; size(*d);
    d->xnext = next(x, u); d->cost = cost(x, u);
    d->g = g(x, u); d->h = h(x, u);
  }
  void calc(const std::shared_ptr<AD> &d, const VR &x_) override {
    Vec x = x_;
    ++ncalc; size(*d);
    d->xnext = x; d->cost = cost(x);
    d->g = g(x); d->h = h(x);
  }
  void calcDiff(const std::shared_ptr<AD> &d, const VR &x_, const VR &u_) override {
    Vec x = x_, u = u_;
    ++ndiff; size(*d);
    const long n = a.size();
    d->Fx = A + Mat::Constant(n, n, k * u.sum()); d->Fu = B + Mat::Constant(n, nu_, k * x.sum());
    d->Lx = Q * x + N * u + q; d->Lu = R * u + N.transpose() * x + r;
    d->Lxx = Q; d->Luu = R; d->Lxu = N;
    d->Gx = Gx; d->Gu = Gu; d->Hx = Hx; d->Hu = Hu;
  }
  void calcDiff(const std::shared_ptr<AD> &d, const VR &x_) override {
    Vec x = x_;
    ++ndiff; size(*d);
    d->Fx = Mat::Identity(a.size(), a.size());
    d->Lx = Q * x + q; d->Lxx = Q; d->Gx = Gx; d->Hx = Hx;
  }
  bool checkData(const std::shared_ptr<AD> &d) override { return d && d->Fu.cols() == (long)nu_ && d->Lx.size() == (long)state_->get_ndx(); }
  void quasiStatic(const std::shared_ptr<AD> &, Eigen::Ref<Vec> u, const VR &x, const std::size_t, const double) override {
    for (long i = 0; i < u.size(); ++i) u(i) += c + (i + 2) * x(0);
  }
};
typedef std::shared_ptr<Node> NodeP;
static std::string num(long i) { return std::to_string(i); }
static Traj traj(const std::string &p, const std::vector<long> &n) {
  Traj t;
  for (std::size_t i = 0; i < n.size(); ++i) t.push_back(in_vec(p + num(i), n[i]));
  return t;
}
static Traj zeros(const std::vector<long> &n) {
  Traj t;
  for (std::size_t i = 0; i < n.size(); ++i) t.push_back(Vec::Zero(n[i]));
  return t;
}
