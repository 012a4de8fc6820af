// Friction cone: facets, bounds, inner and outer approximation, settings.
// BOUNDS: 4, 6, 8 and 12 facets (odd numbers 3 and 5 replaced); every real cone frame matrix, friction coefficient and force limit (infinite ones too); every force; every unit normal with a non-negative vertical part (deprecated interface)
// OUTSIDE: other numbers of facets; floating-point rounding of the trigonometric constants (replaced by their exact algebraic values); nearly opposite normals of the deprecated interface
#include "sym/harness.hpp"
#include "pinocchio/utils/static-if.hpp"
#include "crocoddyl/multibody/friction-cone.hpp"
using namespace vf;
using namespace crocoddyl;
typedef FrictionConeTpl<double> Cone;
typedef Cone::Matrix3s M3;
typedef Cone::Vector3s V3;

static double cosk(long k) {  // cos(k pi / 24)
  k = ((k % 48) + 48) % 48;
  if (k > 24) k = 48 - k;
  if (k > 12) return -cosk(24 - k);
  switch (k) {
    case 0: return 1;
    case 2: return (std::sqrt(double(6)) + std::sqrt(double(2))) / 4;
    case 3: return std::sqrt(2 + std::sqrt(double(2))) / 2;
    case 4: return std::sqrt(double(3)) / 2;
    case 6: return std::sqrt(double(2)) / 2;
    case 8: return double(1) / 2;
    case 9: return std::sqrt(2 - std::sqrt(double(2))) / 2;
    case 10: return (std::sqrt(double(6)) - std::sqrt(double(2))) / 4;
    default: return 0;
  }
}
static Mat facets(long nf, double mu, bool inner, const M3 &R) {
  Mat A(nf + 1, 3);
  if (inner) mu = mu * cosk(24 / nf);
  for (long i = 0; i < nf / 2; ++i) {
    const double c = cosk(48 / nf * i), s = cosk(12 - 48 / nf * i);
    for (long j = 0; j < 3; ++j) {
      A(2 * i, j) = c * R(j, 0) + s * R(j, 1) - mu * R(j, 2);
      A(2 * i + 1, j) = -c * R(j, 0) - s * R(j, 1) - mu * R(j, 2);
    }
  }
  for (long j = 0; j < 3; ++j) A(nf, j) = R(j, 2);
  return A;
}
static void expect(const std::string &l, const Cone &c, long nf, double mu, bool inner, const M3 &R, double lo, double hi) {
  const double inf = std::numeric_limits<double>::infinity();
  check_true(l + ": number of facets", (long)c.get_nf() == nf && c.get_A().rows() == nf + 1 && c.get_lb().size() == nf + 1 && c.get_ub().size() == nf + 1);
  if ((long)c.get_nf() != nf || c.get_A().rows() != nf + 1) return;
  check_eqm(l + ": facets", Mat(c.get_A()), facets(nf, mu, inner, R));
  for (long i = 0; i < nf; ++i) {
    check_eq(l + ": facet upper bound", c.get_ub()(i), 0);
    check_eq(l + ": facet lower bound", c.get_lb()(i), -inf);
  }
  check_eq(l + ": normal force lower bound", c.get_lb()(nf), lo);
  check_eq(l + ": normal force upper bound", c.get_ub()(nf), hi);
  check_eqm(l + ": frame", Mat(c.get_R()), Mat(R));
  check_eq(l + ": coefficient", c.get_mu(), mu);
  check_eq(l + ": min", c.get_min_nforce(), lo);
  check_eq(l + ": max", c.get_max_nforce(), hi);
  check_true(l + ": approximation", c.get_inner_appr() == inner);
}
struct Args { M3 R; double mu, lo, hi; bool inner; };
static Args args(const std::string &k, bool valid) {
  Args a;
  a.R = in_mat("R" + k, 3, 3);
  a.mu = in("mu" + k);
  a.lo = in("min" + k);
  a.hi = in("max" + k);
  if (valid) assume(ge(a.mu, 0) & ge(a.lo, 0) & ge(a.hi, 0));
  a.inner = flag("inner" + k);
  if (flag("unlimited" + k)) a.hi = std::numeric_limits<double>::infinity();
  return a;
}
static void matrix(const Case &cs) {
  const long nf = cs("nf");
  Args a = args("", true);
  Cone c(a.R, a.mu, nf, a.inner, a.lo, a.hi);
  expect("constructed", c, nf, a.mu, a.inner, a.R, a.lo, a.hi);
  for (long i = 0; i < nf; ++i) observe("A" + std::to_string(i), c.get_A()(i, 1));
  Cone copy(c), assigned;
  expect("default", assigned, 4, 7. / 10, true, M3::Identity(), 0, std::numeric_limits<double>::infinity());
  assigned = c;
  expect("copied", copy, nf, a.mu, a.inner, a.R, a.lo, a.hi);
  expect("assigned", assigned, nf, a.mu, a.inner, a.R, a.lo, a.hi);
}
static void edited(const Case &cs) {
  const long nf = cs("nf");
  Args a = args("", true), b = args("_new", false);
  Cone c(a.R, a.mu, nf, a.inner, a.lo, a.hi);
  const int order = choose("order", 2);
  if (order == 0) {
    c.set_R(b.R);
    c.set_mu(b.mu);
    c.set_inner_appr(b.inner);
    c.set_min_nforce(b.lo);
    c.set_max_nforce(b.hi);
    c.update();
  } else {  // only some of them, updated in between
    c.set_max_nforce(b.hi);
    c.update();
    c.set_mu(b.mu);
    c.update();
    b.R = a.R;
    b.lo = a.lo;
    b.inner = a.inner;
  }
  const double inf = std::numeric_limits<double>::infinity();
  if (holds(lt(b.mu, 0))) b.mu = 1;
  if (holds(lt(b.lo, 0))) b.lo = 0;
  if (holds(lt(b.hi, 0))) b.hi = inf;
  expect("edited", c, nf, b.mu, b.inner, b.R, b.lo, b.hi);
}
static void invalid(const Case &cs) {
  const long nf = cs("nf");
  Args a = args("", false);
  Cone c(a.R, a.mu, nf, a.inner, a.lo, a.hi);
  const double inf = std::numeric_limits<double>::infinity();
  if (holds(lt(a.mu, 0))) a.mu = 1;
  if (holds(lt(a.lo, 0))) a.lo = 0;
  if (holds(lt(a.hi, 0))) a.hi = inf;
  expect("constructed", c, nf % 2 ? 4 : nf, a.mu, a.inner, a.R, a.lo, a.hi);
}
// deprecated interface: the cone is given by its normal
static void normal(const Case &cs) {
  Vec n = in_vec("n", 3);
  assume(eq(n(0) * n(0) + n(1) * n(1) + n(2) * n(2), 1) & ge(n(2), 0));
  Cone c;
  if (cs("set")) {
    c.set_nsurf(V3(n));
    c.update();
  } else {
    c.update(V3(n), 7. / 10);
  }
  check_eqm("normal force is measured along the normal", Mat(c.get_A().row(4).transpose()), Mat(n));
  check_eqm("normal reported", Mat(c.get_nsurf()), Mat(n));
  const Mat R = c.get_R();
  check_eqm("frame is orthogonal", Mat(R * R.transpose()), Mat(Mat::Identity(3, 3)));
  check_eqm("facets", Mat(c.get_A()), facets(4, 7. / 10, true, c.get_R()));
}
// in the frame of the cone: the inner polyhedron lies in the Coulomb cone, the
// outer one contains it
static void geometry(const Case &cs) {
  const long nf = cs("nf");
  const bool inner = cs("inner");
  const double mu = in("mu");
  assume(ge(mu, 0));
  Cone c(M3::Identity(), mu, nf, inner);
  Vec f = in_vec("f", 3);
  P inside = le(f(0) * f(0) + f(1) * f(1), mu * mu * f(2) * f(2)) & ge(f(2), 0), poly = P_bool(true);
  Vec r = c.get_A() * V3(f);
  for (long i = 0; i <= nf; ++i) poly = poly & le(r(i), c.get_ub()(i)) & ge(r(i), c.get_lb()(i));
  if (inner) {
    assume(poly);
    check("inner approximation stays in the cone", inside);
  } else {
    assume(inside);
    check("outer approximation contains the cone", poly);
  }
}
REGISTER(for (long nf : {4, 6, 8, 12}) {
  add_case("matrix", matrix, {{"nf", nf}}, nf > 8);
  add_case("edited", edited, {{"nf", nf}}, nf > 4);
  for (long i : {0, 1}) add_case("geometry", geometry, {{"nf", nf}, {"inner", i}}, nf > 6);
} for (long i : {0, 1}) add_case("normal", normal, {{"set", i}});
  for (long nf : {3, 4, 5, 6}) add_case("invalid", invalid, {{"nf", nf}}, nf > 4);)
