#include "sym/alloc.hpp"
// Harness API on top of the symbolic engine (compiled with the prelude:
// `double` is the symbolic scalar here).
#include "sym/harness.hpp"
#undef double
#include <set>
#include "sym/explorer.hpp"
namespace vf {
using sy::Sym;
typedef ::sy::Sym S;
static S mk(sy::nid i) { return S::mk(i); }
// An input is named once per path: two inputs sharing a name would silently be one value.
static std::set<std::string> in_names, in_repeats;
static bool repeated(const std::string &name) {
  for (auto &p : in_repeats) if (name.compare(0, p.size(), p) == 0) return true;
  return false;
}
void may_repeat(const std::string &prefix) { in_repeats.insert(prefix); }
S in(const std::string &name) {
  if (!in_names.insert(name).second && !repeated(name)) { fprintf(stderr, "input %s is named twice\n", name.c_str()); std::_Exit(3); }
  return mk(sy::rt::mk_var(name));
}
Vec in_vec(const std::string &name, long n) {
  Vec v(n);
  for (long i = 0; i < n; ++i) v(i) = in(name + "[" + std::to_string(i) + "]");
  return v;
}
Mat in_mat(const std::string &name, long r, long c) {
  Mat v(r, c);
  for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) v(i, j) = in(name + "[" + std::to_string(i) + "," + std::to_string(j) + "]");
  return v;
}
Mat in_sym(const std::string &name, long n) {
  Mat v(n, n);
  for (long i = 0; i < n; ++i) for (long j = 0; j <= i; ++j) v(i, j) = v(j, i) = in(name + "[" + std::to_string(i) + "," + std::to_string(j) + "]");
  return v;
}
bool flag(const std::string &name) { return sy::rt::decide(sy::rt::lt(0, sy::rt::mk_var(name))); }
long choose(const std::string &name, long n) {
  for (long i = 0; i + 1 < n; ++i) if (flag(name + "?" + std::to_string(i))) return i;
  return n - 1;
}
static P mkp(sy::bid b) { P p; p.b = b; return p; }
P eq(const S &a, const S &b) { return mkp(sy::rt::eq(a.id(), b.id())); }
P ne(const S &a, const S &b) { return mkp(sy::rt::bnot(sy::rt::eq(a.id(), b.id()))); }
P le(const S &a, const S &b) { return mkp(sy::rt::le(a.id(), b.id())); }
P lt(const S &a, const S &b) { return mkp(sy::rt::lt(a.id(), b.id())); }
P ge(const S &a, const S &b) { return mkp(sy::rt::le(b.id(), a.id())); }
P gt(const S &a, const S &b) { return mkp(sy::rt::lt(b.id(), a.id())); }
P P_and(const P &a, const P &b) { return mkp(sy::rt::band(a.b, b.b)); }
P P_or(const P &a, const P &b) { return mkp(sy::rt::bor(a.b, b.b)); }
P P_not(const P &a) { return mkp(sy::rt::bnot(a.b)); }
P P_bool(bool b) { return mkp(b ? 0u : 1u); }
S ite(const P &c, const S &a, const S &b) { return mk(sy::rt::ite(c.b, a.id(), b.id())); }
S min2(const S &a, const S &b) { return mk(sy::rt::ite(sy::rt::le(a.id(), b.id()), a.id(), b.id())); }
S max2(const S &a, const S &b) { return mk(sy::rt::ite(sy::rt::le(b.id(), a.id()), a.id(), b.id())); }
S abs1(const S &a) { return mk(sy::rt::ite(sy::rt::le(0, a.id()), a.id(), sy::rt::neg(a.id()))); }
void assume(const P &p) { sy::ex::assume(p.b); }
void check(const std::string &label, const P &p) { sy::ex::check(label, {p.b}); }
void check(const std::string &label, const std::vector<P> &ps) {
  std::vector<sy::bid> v;
  for (auto &p : ps) v.push_back(p.b);
  sy::ex::check(label, v);
}
void check_true(const std::string &label, bool b) {
  if (b) sy::ex::check(label, {0u});
  else sy::ex::fail(label);
}
void fail(const std::string &label) { sy::ex::fail(label); }
void reached(const std::string &label) { sy::ex::reached(label); }
void observe(const std::string &name, const S &v) { sy::ex::observe(name, v.id()); }
void observe(const std::string &name, const Vec &v) { for (long i = 0; i < v.size(); ++i) observe(name + "[" + std::to_string(i) + "]", v(i)); }
void observe(const std::string &name, const Mat &m) {
  for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) observe(name + "[" + std::to_string(i) + "," + std::to_string(j) + "]", m(i, j));
}
void check_jac(const std::string &label, const std::string &yname, const Vec &Y, const std::string &xname, const Mat &J, long nx) {
  if (nx < 0) nx = J.cols();
  if (J.rows() != Y.size() || J.cols() != nx) { fail(label + ": dimension"); return; }
  observe(yname, Y);
  std::vector<sy::nid> y, x, j;
  for (long i = 0; i < Y.size(); ++i) y.push_back(Y(i).id());
  for (long k = 0; k < J.cols(); ++k) x.push_back(sy::rt::var_of(xname + "[" + std::to_string(k) + "]"));
  for (long i = 0; i < Y.size(); ++i) for (long k = 0; k < J.cols(); ++k) j.push_back(J(i, k).id());
  sy::ex::check_jac(label, y, x, j);
}
void check_jac1(const std::string &label, const std::string &yname, const S &y, const std::string &xname, const Vec &g, long nx) {
  Vec Y(1);
  Y(0) = y;
  Mat J = g.transpose();
  check_jac(label, yname, Y, xname, J, nx);
}
void check_jac_entry(const std::string &label, const std::string &yname, const S &y, const std::string &xinput, const S &v) {
  observe(yname, y);
  sy::ex::check_jac(label, {y.id()}, {sy::rt::var_of(xinput)}, {v.id()});
}
void set_option(const std::string &name, double v) { sy::ex::set_option(name, v); }
struct Entry { Case c; Fn fn; int tier; };
static std::vector<Entry> &reg() { static std::vector<Entry> r; return r; }
void add_case(const std::string &harness, Fn fn, const std::map<std::string, long> &p, int tier) {
  Case c;
  c.p = p;
  c.name = harness;
  for (auto &kv : p) c.name += "_" + kv.first + std::to_string(kv.second);
  reg().push_back(Entry{c, fn, tier});
}
}  // namespace vf
int main(int argc, char **argv) {
  std::vector<sy::ex::CaseRef> cs;
  for (auto &e : vf::reg()) {
    vf::Entry *p = &e;
    cs.push_back(sy::ex::CaseRef{e.c.name, e.tier, [p]() { vf::in_names.clear(); vf::in_repeats.clear(); p->fn(p->c); }});
  }
  return sy::ex::main_(argc, argv, cs);
}
