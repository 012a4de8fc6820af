// Common parts of the integrator harnesses: a differential model whose
// functions are arbitrary at each stage of the scheme, an optional curved state
// space, and the control parametrizations.
#include "sym/harness.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
using namespace vf;
using namespace crocoddyl;
typedef Eigen::Ref<const Vec> VR;
typedef StateVectorTpl<double> Flat;
typedef DifferentialActionDataAbstractTpl<double> DD;
typedef DifferentialActionModelAbstractTpl<double> DM;
typedef ActionModelAbstractTpl<double> AM;
typedef ActionDataAbstractTpl<double> AD;
typedef IntegratedActionModelAbstractTpl<double> IM;
typedef ControlParametrizationModelAbstractTpl<double> CM;

// x (+) dx = x + P dx + (sum of dx) K x
struct Curved : Flat {
  Mat P, K;
  explicit Curved(long nx) : Flat(nx) { P = in_mat("P", nx, nx); K = in_mat("K", nx, nx); }
  void integrate(const VR &x, const VR &dx, Eigen::Ref<Vec> o) const override { Vec r = x + P * dx + K * x * dx.sum(); o = r; }
  Mat first(const Vec &, const Vec &dx) const { return Mat::Identity(nx_, nx_) + K * dx.sum(); }
  Mat second_(const Vec &x, const Vec &) const { return P + (K * x) * Vec::Ones(nx_).transpose(); }
  static void put(const Mat &v, Eigen::Ref<Mat> o, const AssignmentOp op) {
    if (op == setto) o = v;
    else if (op == addto) o += v;
    else o -= v;
  }
  void Jintegrate(const VR &x, const VR &dx, Eigen::Ref<Mat> J1, Eigen::Ref<Mat> J2, const Jcomponent f, const AssignmentOp op) const override {
    if (f == crocoddyl::first || f == both) put(first(x, dx), J1, op);
    if (f == crocoddyl::second || f == both) put(second_(x, dx), J2, op);
  }
  void JintegrateTransport(const VR &x, const VR &dx, Eigen::Ref<Mat> J, const Jcomponent f) const override {
    Mat r = (f == crocoddyl::first ? first(x, dx) : second_(x, dx)) * J;
    J = r;
  }
};
// functions of one stage: affine dynamics and constraints, quadratic cost
struct Stage {
  Mat A, B, Q, R, N, Gx, Gu, Hx, Hu, rx, ru;
  Vec a, q, r, g, h, r0;
  double c;
};
static Stage stage(const std::string &p, long nv, long nx, long nw, long ng, long nh, bool constr) {
  Stage s;
  s.A = in_mat(p + "A", nv, nx); s.B = in_mat(p + "B", nv, nw); s.a = in_vec(p + "a", nv);
  s.Q = in_sym(p + "Q", nx); s.R = in_sym(p + "R", nw); s.N = in_mat(p + "N", nx, nw);
  s.q = in_vec(p + "q", nx); s.r = in_vec(p + "r", nw); s.c = in(p + "c");
  if (!constr) { ng = nh = 0; }
  s.Gx = in_mat(p + "Gx", ng, nx); s.Gu = in_mat(p + "Gu", ng, nw); s.g = in_vec(p + "g", ng);
  s.Hx = in_mat(p + "Hx", nh, nx); s.Hu = in_mat(p + "Hu", nh, nw); s.h = in_vec(p + "h", nh);
  s.rx = in_mat(p + "rx", 1, nx); s.ru = in_mat(p + "ru", 1, nw); s.r0 = in_vec(p + "r0", 1);
  return s;
}
static double quad(const Vec &x, const Mat &Q, const Vec &y) {
  double s = 0;
  for (long i = 0; i < Q.rows(); ++i) for (long j = 0; j < Q.cols(); ++j) s += x(i) * Q(i, j) * y(j);
  return s;
}
static Vec acc(const Stage &s, const Vec &x, const Vec &w) { return s.A * x + s.B * w + s.a; }
static double lcost(const Stage &s, const Vec &x, const Vec &w) { return quad(x, s.Q, x) / 2 + quad(w, s.R, w) / 2 + quad(x, s.N, w) + s.q.dot(x) + s.r.dot(w) + s.c; }
struct StubData : DD {
  long k;
  template <class M> StubData(M *m, long k_) : DD(m), k(k_) {}
};
struct StubModel : DM {
  std::vector<Stage> st;
  Stage term;
  long made = 0;
  StubModel(std::shared_ptr<StateAbstractTpl<double>> s, long nw, long stages, long ng, long nh, long ngT, long nhT, const std::string &p = "") : DM(s, nw, 1, ng, nh, ngT, nhT) {
    for (long i = 0; i < stages; ++i) st.push_back(stage(p + "s" + std::to_string(i), s->get_nv(), s->get_ndx(), nw, ng, nh, i == 0));
    term = stage(p + "T", s->get_nv(), s->get_ndx(), nw, ngT, nhT, true);
  }
  std::shared_ptr<DD> createData() override { return std::make_shared<StubData>((DM *)this, (long)(made++ % (long)st.size())); }
  const Stage &of(const std::shared_ptr<DD> &d) const { return st[static_cast<StubData *>(d.get())->k]; }
  bool checkData(const std::shared_ptr<DD> &d) override { return bool(std::dynamic_pointer_cast<StubData>(d)); }
  static void size(DD &d, const Stage &s) {
    d.g.resize(s.g.size()); d.Gx.resize(s.g.size(), s.Gx.cols()); d.Gu.resize(s.g.size(), s.Gu.cols());
    d.h.resize(s.h.size()); d.Hx.resize(s.h.size(), s.Hx.cols()); d.Hu.resize(s.h.size(), s.Hu.cols());
  }
  void calc(const std::shared_ptr<DD> &d, const VR &x_, const VR &w_) override {
    Vec x = x_, w = w_;
    const Stage &s = of(d);
    size(*d, s);
    d->xout = acc(s, x, w);
    d->cost = lcost(s, x, w);
    d->r = s.rx * x + s.ru * w + s.r0;
    d->g = s.Gx * x + s.Gu * w + s.g;
    d->h = s.Hx * x + s.Hu * w + s.h;
  }
  void calcDiff(const std::shared_ptr<DD> &d, const VR &x_, const VR &w_) override {
    Vec x = x_, w = w_;
    const Stage &s = of(d);
    size(*d, s);
    d->Fx = s.A; d->Fu = s.B;
    d->Lx = s.Q * x + s.N * w + s.q;
    d->Lu = s.R * w + s.N.transpose() * x + s.r;
    d->Lxx = s.Q; d->Luu = s.R; d->Lxu = s.N;
    d->Gx = s.Gx; d->Gu = s.Gu; d->Hx = s.Hx; d->Hu = s.Hu;
  }
  void calc(const std::shared_ptr<DD> &d, const VR &x_) override {
    Vec x = x_;
    size(*d, term);
    d->cost = quad(x, term.Q, x) / 2 + term.q.dot(x) + term.c;
    d->r = term.rx * x + term.r0;
    d->g = term.Gx * x + term.g;
    d->h = term.Hx * x + term.h;
  }
  void calcDiff(const std::shared_ptr<DD> &d, const VR &x_) override {
    Vec x = x_;
    size(*d, term);
    d->Lx = term.Q * x + term.q;
    d->Lxx = term.Q;
    d->Gx = term.Gx;
    d->Hx = term.Hx;
  }
  void quasiStatic(const std::shared_ptr<DD> &, Eigen::Ref<Vec> u, const VR &x, const std::size_t, const double) override {
    for (long i = 0; i < u.size(); ++i) u(i) = term.c + (i + 2) * x(0);
  }
};
// scheme 1: symplectic Euler; 2,3,4: Runge-Kutta of that order
static long stages(long scheme) { return scheme; }
static RKType rktype(long scheme) { return scheme == 2 ? RKType::two : scheme == 3 ? RKType::three : RKType::four; }
// parametrization 0: constant, 1: linear, 2: quadratic (only with the matching nodes)
static std::shared_ptr<CM> control(long kind, long nw, long scheme) {
  if (kind == 0) return std::make_shared<ControlParametrizationModelPolyZeroTpl<double>>(nw);
  if (kind == 1) return std::make_shared<ControlParametrizationModelPolyOneTpl<double>>(nw);
  return std::make_shared<ControlParametrizationModelPolyTwoRKTpl<double>>(nw, scheme == 3 ? RKType::three : RKType::four);
}
static double cnode(long scheme, long i) {
  if (i == 0) return 0;
  if (scheme == 2) return 1. / 2;
  if (scheme == 3) return double(i) / 3;
  return i < 3 ? 1. / 2 : 1.;
}
static double bweight(long scheme, long i) {
  if (scheme == 1) return 1.;
  if (scheme == 2) return i == 0 ? 0. : 1.;
  if (scheme == 3) return i == 0 ? 1. / 4 : i == 1 ? 0. : 3. / 4;
  return i == 0 || i == 3 ? 1. / 6 : 1. / 3;
}
// control at the fraction t of the step, from the parameters
static Vec wat(long kind, long scheme, double t, const Vec &u, long nw) {
  if (kind == 0) return u;
  if (kind == 1) return u.head(nw) * (1 - 2 * t) + u.tail(nw) * (2 * t);
  double n1 = scheme == 3 ? 1. / 3 : 1. / 2, n2 = 2 * n1;
  return u.head(nw) * ((t - n1) * (t - n2) / (n1 * n2)) + u.segment(nw, nw) * (t * (t - n2) / (n1 * (n1 - n2))) + u.tail(nw) * (t * (t - n1) / (n2 * (n2 - n1)));
}
static std::shared_ptr<IM> make(long scheme, std::shared_ptr<DM> m, std::shared_ptr<CM> c, double dt, bool res = true) {
  if (scheme == 1) return std::make_shared<IntegratedActionModelEulerTpl<double>>(m, c, dt, res);
  return std::make_shared<IntegratedActionModelRKTpl<double>>(m, c, rktype(scheme), dt, res);
}
