// Wrench cone and centre-of-pressure support: rows, bounds, physical meaning, settings.
// BOUNDS: 4 and 6 facets (quick), 8 and 12 (thorough), odd numbers 3 and 5 replaced; every real frame matrix, friction coefficient, finite support size and force limit (infinite ones too); contact forces at the four corners of the support, every force in the friction pyramid
// OUTSIDE: infinite support areas, for which the rows are not numbers (also in default-constructed objects); other numbers of facets; floating-point rounding of the trigonometric constants (replaced by their exact algebraic values)
#include "sym/harness.hpp"
#include "pinocchio/utils/static-if.hpp"
#include "crocoddyl/multibody/cop-support.hpp"
using namespace vf;
using namespace crocoddyl;
typedef WrenchConeTpl<double> Cone;
typedef CoPSupportTpl<double> Support;
typedef Cone::Matrix3s M3;
typedef Cone::Vector3s V3;
typedef Cone::Vector2s V2;

static double cosk(long k) {  // cos(k pi / 24)
  k = ((k % 48) + 48) % 48;
  if (k > 24) k = 48 - k;
  if (k > 12) return -cosk(24 - k);
  switch (k) {
    case 0: return 1;
    case 2: return (std::sqrt(double(6)) + std::sqrt(double(2))) / 4;
    case 3: return std::sqrt(2 + std::sqrt(double(2))) / 2;
    case 4: return std::sqrt(double(3)) / 2;
    case 6: return std::sqrt(double(2)) / 2;
    case 8: return double(1) / 2;
    case 9: return std::sqrt(2 - std::sqrt(double(2))) / 2;
    case 10: return (std::sqrt(double(6)) - std::sqrt(double(2))) / 4;
    default: return 0;
  }
}
// rows in the frame of the cone, turned by the transpose of R
static Mat rows(long nf, double mu, bool inner, double L, double W, const M3 &R) {
  if (inner) mu = mu * cosk(24 / nf);
  Mat B = Mat::Zero(nf + 13, 6);
  for (long i = 0; i < nf / 2; ++i) {
    const double c = cosk(48 / nf * i), s = cosk(12 - 48 / nf * i);
    B(2 * i, 0) = c;
    B(2 * i, 1) = s;
    B(2 * i + 1, 0) = -c;
    B(2 * i + 1, 1) = -s;
    B(2 * i, 2) = B(2 * i + 1, 2) = -mu;
  }
  B(nf, 2) = 1;
  B(nf + 1, 2) = B(nf + 2, 2) = -W;
  B(nf + 3, 2) = B(nf + 4, 2) = -L;
  B(nf + 1, 3) = B(nf + 3, 4) = 1;
  B(nf + 2, 3) = B(nf + 4, 4) = -1;
  long r = nf + 5;
  for (double t : {-1, 1})
    for (double a : {1, -1})
      for (double b : {1, -1}) {
        B(r, 0) = a * W;
        B(r, 1) = b * L;
        B(r, 2) = -mu * (L + W);
        B(r, 3) = t * a * mu;
        B(r, 4) = t * b * mu;
        B(r, 5) = t;
        ++r;
      }
  Mat A(nf + 13, 6);
  for (long i = 0; i < nf + 13; ++i)
    for (long j = 0; j < 3; ++j) {
      A(i, j) = B(i, 0) * R(j, 0) + B(i, 1) * R(j, 1) + B(i, 2) * R(j, 2);
      A(i, 3 + j) = B(i, 3) * R(j, 0) + B(i, 4) * R(j, 1) + B(i, 5) * R(j, 2);
    }
  return A;
}
struct Args { M3 R; V2 box; double mu, lo, hi; bool inner; };
static const double &infty() { static const double i = std::numeric_limits<double>::infinity(); return i; }
static Args args(const std::string &k, bool valid) {
  Args a;
  a.R = in_mat("R" + k, 3, 3);
  a.box = in_vec("box" + k, 2);
  assume(ge(a.box(0), 0) & ge(a.box(1), 0));
  a.mu = in("mu" + k);
  a.lo = in("min" + k);
  a.hi = in("max" + k);
  if (valid) assume(ge(a.mu, 0) & ge(a.lo, 0) & ge(a.hi, 0));
  a.inner = flag("inner" + k);
  if (flag("unlimited" + k)) a.hi = infty();
  return a;
}
static void replace(Args &a) {
  if (holds(lt(a.mu, 0))) a.mu = 1;
  if (holds(lt(a.lo, 0))) a.lo = 0;
  if (holds(lt(a.hi, 0))) a.hi = infty();
}
static void expect(const std::string &l, const Cone &c, long nf, const Args &a) {
  check_true(l + ": size", (long)c.get_nf() == nf && c.get_A().rows() == nf + 13 && c.get_lb().size() == nf + 13 && c.get_ub().size() == nf + 13);
  if ((long)c.get_nf() != nf || c.get_A().rows() != nf + 13) return;
  check_eqm(l + ": rows", Mat(c.get_A()), rows(nf, a.mu, a.inner, a.box(0) / 2, a.box(1) / 2, a.R));
  for (long i = 0; i < nf + 13; ++i) {
    check_eq(l + ": upper bound", c.get_ub()(i), i == nf ? a.hi : double(0));
    check_eq(l + ": lower bound", c.get_lb()(i), i == nf ? a.lo : double(-infty()));
  }
  check_eqm(l + ": frame", Mat(c.get_R()), Mat(a.R));
  check_eqm(l + ": support", Mat(c.get_box()), Mat(a.box));
  check_eq(l + ": coefficient", c.get_mu(), a.mu);
  check_eq(l + ": min", c.get_min_nforce(), a.lo);
  check_eq(l + ": max", c.get_max_nforce(), a.hi);
  check_true(l + ": approximation", c.get_inner_appr() == a.inner);
}
static void expect(const std::string &l, const Support &s, const M3 &R, const V2 &box) {
  const Mat A = rows(4, 1, false, box(0) / 2, box(1) / 2, R).middleRows(5, 4);
  check_eqm(l + ": rows", Mat(s.get_A()), A);
  for (long i = 0; i < 4; ++i) {
    check_eq(l + ": upper bound", s.get_ub()(i), 0);
    check_eq(l + ": lower bound", s.get_lb()(i), -infty());
  }
  check_eqm(l + ": frame", Mat(s.get_R()), Mat(R));
  check_eqm(l + ": support", Mat(s.get_box()), Mat(box));
}
static void matrix(const Case &cs) {
  const long nf = cs("nf");
  Args a = args("", true);
  Cone c(a.R, a.mu, a.box, nf, a.inner, a.lo, a.hi);
  expect("constructed", c, nf, a);
  for (long i = 0; i < nf + 13; ++i) observe("A" + std::to_string(i), c.get_A()(i, 1));
  Cone copy(c), assigned;
  assigned = c;
  expect("copied", copy, nf, a);
  expect("assigned", assigned, nf, a);
}
static void edited(const Case &cs) {
  const long nf = cs("nf");
  Args a = args("", true), b = args("_new", false);
  Cone c(a.R, a.mu, a.box, nf, a.inner, a.lo, a.hi);
  const int order = choose("order", 3);
  if (order == 0) {
    c.set_R(b.R);
    c.set_box(b.box);
    c.set_mu(b.mu);
    c.set_inner_appr(b.inner);
    c.set_min_nforce(b.lo);
    c.set_max_nforce(b.hi);
    c.update();
  } else if (order == 1) {
    c.update(b.R, b.mu, b.box, b.lo, b.hi);
    b.inner = a.inner;
  } else {
    c.set_box(b.box);
    c.update();
    c.set_mu(b.mu);
    c.update();
    b.R = a.R;
    b.lo = a.lo;
    b.hi = a.hi;
    b.inner = a.inner;
  }
  replace(b);
  expect("edited", c, nf, b);
}
static void invalid(const Case &cs) {
  const long nf = cs("nf");
  Args a = args("", false);
  if (flag("old_constructor")) {
    a.inner = true;
    Cone c(a.R, a.mu, a.box, (std::size_t)nf, a.lo, a.hi);
    replace(a);
    expect("constructed", c, nf % 2 ? 4 : nf, a);
    return;
  }
  Cone c(a.R, a.mu, a.box, nf, a.inner, a.lo, a.hi);
  replace(a);
  expect("constructed", c, nf % 2 ? 4 : nf, a);
}
// forces in the friction pyramid at the corners of the support give a wrench
// in the cone
static void corners(const Case &) {
  const double mu = in("mu");
  V2 box = in_vec("box", 2);
  assume(ge(mu, 0) & ge(box(0), 0) & ge(box(1), 0));
  Cone c(M3::Identity(), mu, box, 4, false);
  Support s(M3::Identity(), box);
  V3 F = V3::Zero(), T = V3::Zero();
  for (long k = 0; k < 4; ++k) {
    const Vec f = in_vec("force" + std::to_string(k), 3);
    assume(le(f(0), mu * f(2)) & le(-f(0), mu * f(2)) & le(f(1), mu * f(2)) & le(-f(1), mu * f(2)) & ge(f(2), 0));
    const double x = (k % 2 ? 1 : -1) * box(0) / 2, y = (k / 2 ? 1 : -1) * box(1) / 2;
    for (long i = 0; i < 3; ++i) F(i) = F(i) + f(i);
    T(0) = T(0) + y * f(2);
    T(1) = T(1) - x * f(2);
    T(2) = T(2) + x * f(1) - y * f(0);
  }
  Vec w(6);
  w << F, T;
  const Vec r = c.get_A() * w, q = s.get_A() * w;
  for (long i = 0; i < 17; ++i) check("wrench of admissible corner forces is in the cone", le(r(i), c.get_ub()(i)) & ge(r(i), c.get_lb()(i)));
  for (long i = 0; i < 4; ++i) check("centre of pressure is in the support", le(q(i), s.get_ub()(i)) & ge(q(i), s.get_lb()(i)));
}
// a wrench is accepted by the support exactly when its centre of pressure lies
// in the rectangle
static void cop(const Case &) {
  V2 box = in_vec("box", 2);
  assume(ge(box(0), 0) & ge(box(1), 0));
  Support s(M3::Identity(), box);
  const Vec w = in_vec("wrench", 6);
  assume(gt(w(2), 0));
  const double px = -w(4) / w(2), py = w(3) / w(2);
  const Vec q = s.get_A() * w;
  P ok = P_bool(true), in_box = le(2 * px, box(0)) & le(-2 * px, box(0)) & le(2 * py, box(1)) & le(-2 * py, box(1));
  for (long i = 0; i < 4; ++i) ok = ok & le(q(i), s.get_ub()(i)) & ge(q(i), s.get_lb()(i));
  check("accepted wrenches have their centre of pressure in the support", !ok | in_box);
  check("wrenches with their centre of pressure in the support are accepted", !in_box | ok);
}
static void support(const Case &) {
  Args a = args("", true), b = args("_new", true);
  Support s(a.R, a.box);
  expect("constructed", s, a.R, a.box);
  Support copy(s), assigned;
  assigned = s;
  expect("copied", copy, a.R, a.box);
  expect("assigned", assigned, a.R, a.box);
  Cone c(a.R, a.mu, a.box, 4, a.inner, a.lo, a.hi);
  expect("from a wrench cone", Support(c), a.R, a.box);
  s.set_R(b.R);
  s.update();
  expect("turned", s, b.R, a.box);
  s.set_box(b.box);
  s.update();
  expect("resized", s, b.R, b.box);
}
REGISTER(for (long nf : {4, 6, 8, 12}) {
  add_case("matrix", matrix, {{"nf", nf}}, nf > 6);
  add_case("edited", edited, {{"nf", nf}}, nf > 4);
} for (long nf : {3, 4, 5, 6}) add_case("invalid", invalid, {{"nf", nf}}, nf > 4);
         add_case("corners", corners, {}); add_case("cop", cop, {}); add_case("support", support, {});)
