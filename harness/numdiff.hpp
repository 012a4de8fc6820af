// Common parts of the numerical-differentiation harnesses: arbitrary quadratic functions of state and
// control with their exact derivatives, and the error a one-sided difference quotient may have on them.
#include "sym/harness.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
using namespace vf;
using namespace crocoddyl;
typedef Eigen::Ref<const Vec> VR;
typedef StateVectorTpl<double> Flat;
typedef StateAbstractTpl<double> St;

// x (-) y = D (y - x), x (+) dx = x + D^-1 dx with a diagonal D
struct Scaled : Flat {
  Vec D;
  explicit Scaled(long n) : Flat(n), D(in_vec("D", n)) { for (long i = 0; i < n; ++i) assume(ne(D(i), 0)); }
  void diff(const VR &a, const VR &b, Eigen::Ref<Vec> o) const override { Vec r = D.cwiseProduct(b - a); o = r; }
  void integrate(const VR &x, const VR &dx, Eigen::Ref<Vec> o) const override { Vec r = x + dx.cwiseQuotient(D); o = r; }
};
static std::shared_ptr<St> space(long scaled, long n, Vec &D) {
  D = Vec::Ones(n);
  if (!scaled) return std::make_shared<Flat>(n);
  auto s = std::make_shared<Scaled>(n);
  D = s->D;
  return s;
}
// components f_k = a_k + (A x)_k + (B u)_k + (cx_k |x|^2 + cu_k |u|^2) / 2
struct Fun {
  Vec a, cx, cu;
  Mat A, B;
  Fun() {}
  Fun(const std::string &p, long m, long n, long nu, bool curved) : a(in_vec(p, m)), A(in_mat(p + "x", m, n)), B(in_mat(p + "u", m, nu)) {
    cx = curved ? in_vec(p + "xx", m) : Vec(Vec::Zero(m));
    cu = curved ? in_vec(p + "uu", m) : Vec(Vec::Zero(m));
  }
  Vec operator()(const Vec &x, const Vec &u) const {
    double sx = 0, su = 0;
    for (long i = 0; i < x.size(); ++i) sx += x(i) * x(i);
    for (long i = 0; i < u.size(); ++i) su += u(i) * u(i);
    return Vec(a + A * x + B * u + cx * (sx / 2) + cu * (su / 2));
  }
  Vec operator()(const Vec &x) const {
    double sx = 0;
    for (long i = 0; i < x.size(); ++i) sx += x(i) * x(i);
    return Vec(a + A * x + cx * (sx / 2));
  }
  Mat dx(const Vec &x) const { return Mat(A + cx * x.transpose()); }
  Mat du(const Vec &u) const { return Mat(B + cu * u.transpose()); }
};
static double norm(const Vec &v) {
  double s = 0;
  for (long i = 0; i < v.size(); ++i) s += v(i) * v(i);
  return sqrt(s);
}
static double step(double e, const Vec &v) { return e * max2(double(1), norm(v)); }
// |J - E| <= h/2 |curvature|
static void near(const std::string &what, double J, double E, double h, double curv) { check(what, le(abs1(J - E), h * abs1(curv) / 2)); }
