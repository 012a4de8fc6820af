#include "sym/alloc.hpp"
// Harness API for the real double build: replays solver models.
#include <cxxabi.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <unistd.h>
#include "sym/harness.hpp"
namespace vf {
static std::map<std::string, double> inputs, used;
static std::vector<std::pair<std::string, double>> obs;
struct CheckRes { std::string label; bool ok; };
static std::vector<CheckRes> checks;
struct Jac { std::string label; std::vector<std::string> y, x; Vec Y; Mat J; };
static std::vector<Jac> jacs;
static bool nofd = false;
static bool quiet = false;  // finite-difference re-run
struct Abort {};
struct AssertFail {};
static double default_value(const std::string &name) {
  if (name.compare(0, 3, "d0.") == 0) return 0;
  unsigned long long h = 1469598103934665603ull;
  for (char c : name) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  return (static_cast<long>((h >> 20) % 33) - 16) / 8.0;
}
double in(const std::string &name) {
  auto it = inputs.find(name);
  double v = it == inputs.end() ? default_value(name) : it->second;
  used[name] = v;
  return v;
}
Vec in_vec(const std::string &name, long n) {
  Vec v(n);
  for (long i = 0; i < n; ++i) v(i) = in(name + "[" + std::to_string(i) + "]");
  return v;
}
Mat in_mat(const std::string &name, long r, long c) {
  Mat v(r, c);
  for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) v(i, j) = in(name + "[" + std::to_string(i) + "," + std::to_string(j) + "]");
  return v;
}
Mat in_sym(const std::string &name, long n) {
  Mat v(n, n);
  for (long i = 0; i < n; ++i) for (long j = 0; j <= i; ++j) v(i, j) = v(j, i) = in(name + "[" + std::to_string(i) + "," + std::to_string(j) + "]");
  return v;
}
bool flag(const std::string &name) { return in(name) > 0; }
long choose(const std::string &name, long n) {
  for (long i = 0; i + 1 < n; ++i) if (flag(name + "?" + std::to_string(i))) return i;
  return n - 1;
}
static double tol(double a, double b, double e) { return e * (1 + std::fabs(a) + std::fabs(b)); }
P eq(const double &a, const double &b) {
  if (std::isinf(a) || std::isinf(b)) return P{a == b, a == b, a == b};
  return P{a == b || std::fabs(a - b) <= tol(a, b, 1e-6), a == b, a == b};
}
P ne(const double &a, const double &b) { return P_not(eq(a, b)); }
P lt(const double &a, const double &b) { double e = (std::isinf(a) || std::isinf(b)) ? 0 : tol(a, b, 1e-7); return P{a < b + e || (a < b), a < b - e, a < b}; }
P le(const double &a, const double &b) { double e = (std::isinf(a) || std::isinf(b)) ? 0 : tol(a, b, 1e-7); return P{a <= b + e, a <= b - e, a <= b}; }
P ge(const double &a, const double &b) { return le(b, a); }
P gt(const double &a, const double &b) { return lt(b, a); }
P P_and(const P &a, const P &b) { return P{a.t && b.t, a.s && b.s, a.r && b.r}; }
P P_or(const P &a, const P &b) { return P{a.t || b.t, a.s || b.s, a.r || b.r}; }
P P_not(const P &a) { return P{!a.s, !a.t, !a.r}; }
P P_bool(bool b) { return P{b, b, b}; }
double ite(const P &c, const double &a, const double &b) { return c.r ? a : b; }
double min2(const double &a, const double &b) { return a <= b ? a : b; }
double max2(const double &a, const double &b) { return b <= a ? a : b; }
double abs1(const double &a) { return std::fabs(a); }
void assume(const P &p) { if (!p.t) throw Abort(); }
void check(const std::string &label, const P &p) { if (!quiet) checks.push_back(CheckRes{label, p.t}); }
void check(const std::string &label, const std::vector<P> &ps) {
  bool ok = true;
  for (auto &p : ps) ok = ok && p.t;
  if (!quiet) checks.push_back(CheckRes{label, ok});
}
void check_true(const std::string &label, bool b) { if (!quiet) checks.push_back(CheckRes{label, b}); }
void fail(const std::string &label) { if (!quiet) checks.push_back(CheckRes{label, false}); }
void reached(const std::string &) {}
void observe(const std::string &name, const double &v) { obs.emplace_back(name, v); }
void observe(const std::string &name, const Vec &v) { for (long i = 0; i < v.size(); ++i) observe(name + "[" + std::to_string(i) + "]", v(i)); }
void observe(const std::string &name, const Mat &m) {
  for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) observe(name + "[" + std::to_string(i) + "," + std::to_string(j) + "]", m(i, j));
}
void check_jac(const std::string &label, const std::string &yname, const Vec &Y, const std::string &xname, const Mat &J, long nx) {
  if (nx < 0) nx = J.cols();
  if (J.rows() != Y.size() || J.cols() != nx) { fail(label + ": dimension"); return; }
  observe(yname, Y);
  if (quiet) return;
  Jac q;
  q.label = label;
  q.Y = Y;
  q.J = J;
  for (long i = 0; i < Y.size(); ++i) q.y.push_back(yname + "[" + std::to_string(i) + "]");
  for (long i = 0; i < J.cols(); ++i) q.x.push_back(xname + "[" + std::to_string(i) + "]");
  jacs.push_back(q);
}
void check_jac1(const std::string &label, const std::string &yname, const double &y, const std::string &xname, const Vec &g, long nx) {
  Vec Y(1);
  Y(0) = y;
  Mat J = g.transpose();
  check_jac(label, yname, Y, xname, J, nx);
}
void check_jac_entry(const std::string &label, const std::string &yname, const double &y, const std::string &xinput, const double &v) {
  observe(yname, y);
  if (quiet) return;
  Jac q;
  q.label = label;
  q.Y = Vec::Constant(1, y);
  q.J = Mat::Constant(1, 1, v);
  q.y = {yname};
  q.x = {xinput};
  jacs.push_back(q);
}
void may_repeat(const std::string &) {}
void set_option(const std::string &, double) {}
struct Entry { Case c; Fn fn; int tier; };
static std::vector<Entry> &reg() { static std::vector<Entry> r; return r; }
void add_case(const std::string &harness, Fn fn, const std::map<std::string, long> &p, int tier) {
  Case c;
  c.p = p;
  c.name = harness;
  for (auto &kv : p) c.name += "_" + kv.first + std::to_string(kv.second);
  reg().push_back(Entry{c, fn, tier});
}
static std::string esc(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (static_cast<unsigned char>(c) < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}
static std::string num(double v) {
  if (std::isnan(v)) return "\"nan\"";
  if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
static bool run_once(Entry *e, std::string &exc) {
  obs.clear();
  try {
    e->fn(e->c);
  } catch (const Abort &) {
    exc = "assumption";
    return false;
  } catch (const AssertFail &) {
    return true;
  } catch (const std::exception &ex) {
    exc = std::string("exception: ") + ex.what();
    for (auto &ch : exc) if (ch == '\n') ch = ' ';
    if (!quiet) checks.push_back(CheckRes{"no unexpected exception: " + exc.substr(11), false});
    return true;
  }
  return true;
}
static bool outputs_of(Entry *e, const std::string &xn, double v, const Jac &j, Vec &y) {
  auto save = inputs;
  inputs[xn] = v;
  std::string exc;
  bool ok = run_once(e, exc) && exc.empty();
  inputs = save;
  if (!ok) return false;
  y.resize(j.Y.size());
  std::map<std::string, double> o;
  for (auto &kv : obs) if (!o.count(kv.first)) o[kv.first] = kv.second;
  for (long i = 0; i < y.size(); ++i) {
    auto it = o.find(j.y[i]);
    if (it == o.end()) return false;
    y(i) = it->second;
  }
  return true;
}
static void emit(std::ostream &f, Entry *e) {
  used.clear();
  checks.clear();
  jacs.clear();
  quiet = false;
  std::string exc;
  bool valid = run_once(e, exc);
  auto obs0 = obs;
  if (valid && !nofd && !jacs.empty()) {
    quiet = true;
    std::vector<Jac> js = jacs;
    auto used0 = used;
    for (auto &j : js) {
      bool ok = true;
      std::string where;
      for (long c = 0; c < j.J.cols(); ++c) {
        std::string xn = j.x[c];
        if (!used0.count(xn)) continue;
        double x0 = used0[xn];
        double h = 1e-4 * (1 + std::fabs(x0));
        Vec p1, m1, p2, m2;
        if (!outputs_of(e, xn, x0 + h, j, p1) || !outputs_of(e, xn, x0 - h, j, m1) || !outputs_of(e, xn, x0 + h / 4, j, p2) || !outputs_of(e, xn, x0 - h / 4, j, m2)) continue;
        for (long r = 0; r < j.J.rows(); ++r) {
          double d1 = (p1(r) - m1(r)) / (2 * h), d2 = (p2(r) - m2(r)) / (h / 2);
          double f1 = (p2(r) - j.Y(r)) / (h / 4), b1 = (j.Y(r) - m2(r)) / (h / 4);
          double sc = 1 + std::fabs(d2) + (std::isfinite(j.J(r, c)) ? std::fabs(j.J(r, c)) : 0);
          if (!(std::fabs(d1 - d2) < 2e-5 * sc)) continue;   // not differentiable here / inaccurate
          if (!(std::fabs(f1 - b1) < 2e-2 * sc)) continue;   // kink
          if (!(std::fabs(d2 - j.J(r, c)) < 1e-4 * sc)) { ok = false; where = " entry (" + std::to_string(r) + "," + std::to_string(c) + "): difference quotient " + num(d2) + " returned " + num(j.J(r, c)); }
        }
      }
      checks.push_back(CheckRes{j.label, ok});
      (void)where;
    }
    used = used0;
    quiet = false;
  }
  f << "{\"valid\":" << (valid ? "true" : "false") << ",\"exc\":" << esc(exc) << ",\"failed\":[";
  bool first = true;
  long n = 0;
  for (auto &c : checks) {
    n++;
    if (c.ok) continue;
    f << (first ? "" : ",") << esc(c.label);
    first = false;
  }
  f << "],\"nchecks\":" << n << ",\"obs\":{";
  first = true;
  for (auto &o : obs0) { f << (first ? "" : ",") << esc(o.first) << ":" << num(o.second); first = false; }
  f << "},\"used\":{";
  first = true;
  for (auto &o : used) { f << (first ? "" : ",") << esc(o.first) << ":" << num(o.second); first = false; }
  f << "}}\n";
}
}  // namespace vf
void verif_eigen_assert_fail(const char *expr, const char *file, int line) {
  std::string f = file;
  size_t p = f.rfind('/');
  vf::fail(std::string("eigen_assert ") + expr + " (" + (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(line) + ")");
  throw vf::AssertFail();
}
int main(int argc, char **argv) {
  std::string name, inf, outf;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--case") name = argv[++i];
    else if (a == "--in") inf = argv[++i];
    else if (a == "--out") outf = argv[++i];
    else if (a == "--nofd") vf::nofd = true;
    else if (a == "--list") { for (auto &e : vf::reg()) std::cout << e.c.name << "\n"; return 0; }
  }
  vf::Entry *e = nullptr;
  for (auto &x : vf::reg()) if (x.c.name == name) e = &x;
  if (!e) { std::cerr << "unknown case\n"; return 3; }
  std::ifstream f(inf);
  std::ofstream o(outf);
  std::string line;
  bool any = false;
  while (std::getline(f, line)) {
    if (line == "---") {
      vf::emit(o, e);
      o.flush();
      vf::inputs.clear();
      any = false;
      continue;
    }
    size_t p = line.find('\t');
    if (p == std::string::npos) continue;
    vf::inputs[line.substr(0, p)] = strtod(line.c_str() + p + 1, nullptr);
    any = true;
  }
  if (any) vf::emit(o, e);
  return 0;
}
