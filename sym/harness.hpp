// API used by the harnesses; the same harness text is compiled against the
// symbolic scalar (VERIF_SYMBOLIC) and against the real double (replay).
#ifndef VERIF_HARNESS_HPP_
#define VERIF_HARNESS_HPP_
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>

namespace vf {
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;

struct Case {
  std::string name;
  std::map<std::string, long> p;
  long operator()(const std::string &k) const {
    auto it = p.find(k);
    if (it == p.end()) throw std::logic_error("no parameter " + k);
    return it->second;
  }
};
typedef void (*Fn)(const Case &);
// tier 0: quick and thorough; tier 1: thorough only
void add_case(const std::string &harness, Fn fn, const std::map<std::string, long> &p, int tier = 0);
struct Reg {
  Reg(void (*f)()) { f(); }
};
#define VF_CONCAT2(a, b) a##b
#define VF_CONCAT(a, b) VF_CONCAT2(a, b)
#define REGISTER(...) static ::vf::Reg VF_CONCAT(vf_reg_, __LINE__)([]() { __VA_ARGS__; });

// --- inputs (solver variables) ------------------------------------------
double in(const std::string &name);
Vec in_vec(const std::string &name, long n);
Mat in_mat(const std::string &name, long r, long c);
Mat in_sym(const std::string &name, long n);  // symmetric
bool flag(const std::string &name);           // nondeterministic choice
long choose(const std::string &name, long n); // 0..n-1

// --- propositions -----------------------------------------------------------
struct P {
#ifdef VERIF_SYMBOLIC
  unsigned b;
#else
  bool t, s, r;  // t: true up to tolerance, s: true with a margin, r: exact
#endif
};
P eq(const double &a, const double &b);
P ne(const double &a, const double &b);
P le(const double &a, const double &b);
P lt(const double &a, const double &b);
P ge(const double &a, const double &b);
P gt(const double &a, const double &b);
P P_and(const P &a, const P &b);
P P_or(const P &a, const P &b);
P P_not(const P &a);
P P_bool(bool b);
inline P implies(const P &a, const P &b) { return P_or(P_not(a), b); }
inline P operator&(const P &a, const P &b) { return P_and(a, b); }
inline P operator|(const P &a, const P &b) { return P_or(a, b); }
inline P operator!(const P &a) { return P_not(a); }
// decides p on the current path (branches)
inline bool holds(const P &p) {
#ifdef VERIF_SYMBOLIC
  return sy::rt::decide(p.b);
#else
  return p.r;
#endif
}
double ite(const P &c, const double &a, const double &b);
double min2(const double &a, const double &b);
double max2(const double &a, const double &b);
double abs1(const double &a);

void assume(const P &p);
void check(const std::string &label, const P &p);
void check(const std::string &label, const std::vector<P> &ps);
void check_true(const std::string &label, bool b);
void fail(const std::string &label);
void reached(const std::string &label);  // reachability witness
void observe(const std::string &name, const double &v);
void observe(const std::string &name, const Vec &v);
void observe(const std::string &name, const Mat &m);

// Y was recorded under yname; J(i,j) must equal dY_i/d xname_j
void check_jac(const std::string &label, const std::string &yname, const Vec &Y, const std::string &xname, const Mat &J, long nx = -1);
void check_jac1(const std::string &label, const std::string &yname, const double &y, const std::string &xname, const Vec &g, long nx = -1);

// d y / d (input xinput) must equal v; y is recorded under yname
void check_jac_entry(const std::string &label, const std::string &yname, const double &y, const std::string &xinput, const double &v);
void may_repeat(const std::string &prefix);  // inputs whose name starts so are the same value whenever asked for
#ifdef VERIF_SYMBOLIC
#pragma push_macro("double")
#undef double
void set_option(const std::string &name, double v);  // engine options
#pragma pop_macro("double")
#else
void set_option(const std::string &name, double v);
#endif

inline void check_eq(const std::string &label, const double &a, const double &b) { check(label, eq(a, b)); }
template <class A, class B>
inline void check_eqm(const std::string &label, const A &a_, const B &b_) {
  Mat a = a_, b = b_;
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    fail(label + ": dimension " + std::to_string((long)a.rows()) + "x" + std::to_string((long)a.cols()) + " instead of " + std::to_string((long)b.rows()) + "x" + std::to_string((long)b.cols()));
    return;
  }
  std::vector<P> ps;
  for (long i = 0; i < a.rows(); ++i)
    for (long j = 0; j < a.cols(); ++j) ps.push_back(eq(a(i, j), b(i, j)));
  check(label, ps);
}
// true iff f throws a std::exception
template <class F>
inline bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
}  // namespace vf
#endif
