// Symbolic execution runtime: expression DAG, SMT-LIB encoding, path explorer.
// Compiled with the real `double`.
#include "runtime.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <gmpxx.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

namespace sy {
namespace rt {

// ---------------------------------------------------------------------------
// arithmetic nodes
enum Op : uint8_t { CONST, VAR, ADD, MUL, DIV, SQRT, ITE, SIN, COS, EXP, LOG, NAN_, PINF, NINF };
struct Node {
  Op op;
  uint32_t a, b, c;
};
static std::vector<Node> N;
static std::vector<mpq_class> consts;
static std::map<mpq_class, nid> const_ids;
static std::vector<std::string> var_names;
static std::unordered_map<std::string, nid> var_ids;
struct K4 {
  uint32_t o, a, b, c;
  bool operator==(const K4 &k) const { return o == k.o && a == k.a && b == k.b && c == k.c; }
};
struct K4H {
  size_t operator()(const K4 &k) const {
    uint64_t h = k.o;
    h = h * 0x9E3779B97F4A7C15ull + k.a;
    h ^= h >> 29;
    h = h * 0xBF58476D1CE4E5B9ull + k.b;
    h ^= h >> 31;
    h = h * 0x94D049BB133111EBull + k.c;
    h ^= h >> 30;
    return h;
  }
};
static std::unordered_map<K4, nid, K4H> node_ids;
static nid NANID, PINFID, NINFID;

enum BOp : uint8_t { BT, BF, BLT, BLE, BEQ, BNOT, BAND, BOR };
struct BNode {
  BOp op;
  uint32_t a, b;
};
static std::vector<BNode> B;
static std::unordered_map<K4, bid, K4H> bnode_ids;

static nid mk(Op op, uint32_t a = 0, uint32_t b = 0, uint32_t c = 0) {
  K4 k{op, a, b, c};
  auto it = node_ids.find(k);
  if (it != node_ids.end()) return it->second;
  N.push_back(Node{op, a, b, c});
  nid i = static_cast<nid>(N.size() - 1);
  node_ids.emplace(k, i);
  return i;
}
static nid mkq(const mpq_class &q) {
  auto it = const_ids.find(q);
  if (it != const_ids.end()) return it->second;
  consts.push_back(q);
  N.push_back(Node{CONST, static_cast<uint32_t>(consts.size() - 1), 0, 0});
  nid i = static_cast<nid>(N.size() - 1);
  const_ids.emplace(q, i);
  return i;
}
static bool isc(nid a) { return N[a].op == CONST; }
static const mpq_class &cv(nid a) { return consts[N[a].a]; }
static bool special(nid a) { return N[a].op == NAN_ || N[a].op == PINF || N[a].op == NINF; }

static struct Init {
  Init() {
    mkq(mpq_class(0));  // id 0
    NANID = mk(NAN_);
    PINFID = mk(PINF);
    NINFID = mk(NINF);
    B.push_back(BNode{BT, 0, 0});
    B.push_back(BNode{BF, 0, 0});
  }
} init_;

bid btrue() { return 0; }
bid bfalse() { return 1; }
nid eps() { return mkq(mpq_class(1) / (mpz_class(1) << 52)); }
nid dblmax() { return mkq(mpq_class(std::numeric_limits<double>::max())); }
nid dblmin() { return mkq(mpq_class(std::numeric_limits<double>::min())); }
nid inf() { return PINFID; }
nid nan() { return NANID; }
bool is_nan(nid a) { return a == NANID; }
bool is_inf(nid a) { return a == PINFID || a == NINFID; }

// constants written in /repo as doubles: read as the simple rational they stand for
static mpq_class simple_rational(double v) {
  if (v == std::floor(v) && std::fabs(v) < 1e15) return mpq_class(v);
  double s = v < 0 ? -1 : 1, x = std::fabs(v);
  // continued fraction with denominators up to 1e6
  {
    mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    double r = x;
    for (int i = 0; i < 24; ++i) {
      double f = std::floor(r);
      mpz_class a(f);
      mpz_class p2 = a * p1 + p0, q2 = a * q1 + q0;
      if (q2 > 1000000) break;
      p0 = p1; q0 = q1; p1 = p2; q1 = q2;
      mpq_class c(p1, q1);
      c.canonicalize();
      if (c.get_d() == x || static_cast<double>(p1.get_d() / q1.get_d()) == x) return s < 0 ? mpq_class(-c) : c;
      double fr = r - f;
      if (fr < 1e-18) break;
      r = 1.0 / fr;
    }
  }
  // m * 10^e with few digits
  {
    char buf[64];
    snprintf(buf, sizeof buf, "%.6e", x);
    if (strtod(buf, nullptr) == x) {
      std::string t(buf);
      size_t e = t.find('e');
      int ex = atoi(t.c_str() + e + 1);
      std::string m = t.substr(0, e);
      m.erase(m.find('.'), 1);
      ex -= 6;
      mpz_class mi(m, 10), ten;
      mpz_ui_pow_ui(ten.get_mpz_t(), 10, static_cast<unsigned>(std::abs(ex)));
      mpq_class q = ex < 0 ? mpq_class(mi, ten) : mpq_class(mi * ten);
      q.canonicalize();
      return s < 0 ? mpq_class(-q) : q;
    }
  }
  return mpq_class(v);
}
nid mk_const(double v) {
  if (v == 0) return 0;
  if (std::isnan(v)) return NANID;
  if (std::isinf(v)) return v > 0 ? PINFID : NINFID;
  static std::unordered_map<double, nid> memo;
  auto it = memo.find(v);
  if (it != memo.end()) return it->second;
  return memo[v] = mkq(simple_rational(v));
}
nid mk_const_i(long long v) { return mkq(mpq_class(static_cast<long>(v))); }
nid mk_const_u(unsigned long long v) { return mkq(mpq_class(static_cast<unsigned long>(v))); }
bool is_const(nid a) { return isc(a); }
double const_val(nid a) {
  if (isc(a)) return cv(a).get_d();
  if (a == NANID) return std::numeric_limits<double>::quiet_NaN();
  if (a == PINFID) return std::numeric_limits<double>::infinity();
  if (a == NINFID) return -std::numeric_limits<double>::infinity();
  engine_error("conversion of a symbolic value to a machine number");
  return 0;
}

static nid neg_raw(nid a) {
  if (isc(a)) return mkq(-cv(a));
  return mk(MUL, std::min(mkq(mpq_class(-1)), a), std::max(mkq(mpq_class(-1)), a));
}
nid neg(nid a) {
  if (a == NANID) return a;
  if (a == PINFID) return NINFID;
  if (a == NINFID) return PINFID;
  if (N[a].op == MUL) {  // -( -1 * x ) -> x ; fold constant
    nid x = N[a].a, y = N[a].b;
    if (isc(x)) return mul(mkq(-cv(x)), y);
    if (isc(y)) return mul(mkq(-cv(y)), x);
  }
  return neg_raw(a);
}
nid add(nid a, nid b) {
  if (special(a) || special(b)) {
    if (a == NANID || b == NANID) return NANID;
    if (is_inf(a) && is_inf(b)) return a == b ? a : NANID;
    return is_inf(a) ? a : b;
  }
  if (isc(a) && isc(b)) return mkq(cv(a) + cv(b));
  if (a == 0) return b;
  if (b == 0) return a;
  if (neg(a) == b) return 0;
  if (a > b) std::swap(a, b);
  return mk(ADD, a, b);
}
nid sub(nid a, nid b) {
  if (a == b && !special(a)) return 0;
  return add(a, neg(b));
}
static int sign_decide(nid x) {  // finite x
  if (isc(x)) return sgn(cv(x));
  if (decide(lt(0, x))) return 1;
  if (decide(eq(x, 0))) return 0;
  return -1;
}
nid mul(nid a, nid b) {
  if (special(a) || special(b)) {
    if (a == NANID || b == NANID) return NANID;
    int s = 1;
    for (nid x : {a, b}) s *= x == PINFID ? 1 : x == NINFID ? -1 : sign_decide(x);
    return s == 0 ? NANID : s > 0 ? PINFID : NINFID;
  }
  if (isc(a) && isc(b)) return mkq(cv(a) * cv(b));
  if (a == 0 || b == 0) return 0;
  if (isc(a) && cv(a) == 1) return b;
  if (isc(b) && cv(b) == 1) return a;
  if (isc(b)) std::swap(a, b);
  if (isc(a) && N[b].op == MUL && isc(N[b].a)) return mul(mkq(cv(a) * cv(N[b].a)), N[b].b);
  if (isc(a) && N[b].op == MUL && isc(N[b].b)) return mul(mkq(cv(a) * cv(N[b].b)), N[b].a);
  if (a > b) std::swap(a, b);
  return mk(MUL, a, b);
}
nid div(nid a, nid b) {
  if (special(a) || special(b)) {
    if (a == NANID || b == NANID) return NANID;
    if (is_inf(b)) return is_inf(a) ? NANID : 0;
    int s = sign_decide(b);
    if (s == 0) s = 1;
    return (a == PINFID) == (s > 0) ? PINFID : NINFID;
  }
  if (isc(b)) {
    if (cv(b) == 0) {
      int s = sign_decide(a);
      return s == 0 ? NANID : s > 0 ? PINFID : NINFID;
    }
    return mul(a, mkq(1 / cv(b)));
  }
  if (opt("div_fork") != 0) {
    if (decide(eq(b, 0))) {
      int s = sign_decide(a);
      return s == 0 ? NANID : s > 0 ? PINFID : NINFID;
    }
  } else {
    assume_implicit(bnot(eq(b, 0)), "division by zero excluded");
  }
  if (a == 0) return 0;
  if (a == b) return mkq(mpq_class(1));
  return mk(DIV, a, b);
}
nid fsqrt(nid a) {
  if (a == NANID || a == NINFID) return NANID;
  if (a == PINFID) return a;
  if (isc(a)) {
    if (sgn(cv(a)) < 0) return NANID;
    mpz_class n = cv(a).get_num(), d = cv(a).get_den(), rn, rd;
    rn = ::sqrt(n);
    rd = ::sqrt(d);
    if (rn * rn == n && rd * rd == d) return mkq(mpq_class(rn, rd));
  } else {
    // sqrt(x*x) = |x|
    if (N[a].op == MUL && N[a].a == N[a].b) return fabs_(N[a].a);
    assume_implicit(le(0, a), "square root of a negative number excluded");
  }
  return mk(SQRT, a);
}
nid fexp(nid a) {
  if (a == NANID) return a;
  if (a == PINFID) return a;
  if (a == NINFID) return 0;
  if (a == 0) return mkq(mpq_class(1));
  return mk(EXP, a);
}
nid flog(nid a) {
  if (a == NANID || a == NINFID) return NANID;
  if (a == PINFID) return a;
  if (isc(a) && cv(a) == 1) return 0;
  if (isc(a) && sgn(cv(a)) < 0) return NANID;
  if (a == 0) return NINFID;
  if (!isc(a)) assume_implicit(lt(0, a), "logarithm of a non-positive number excluded");
  return mk(LOG, a);
}
// Exact algebraic value of cos(k pi / 24), for k a multiple of 2 or 3.
static nid cos24(long k) {
  k = ((k % 48) + 48) % 48;
  if (k > 24) k = 48 - k;
  if (k > 12) return neg(cos24(24 - k));
  auto q = [](long n, long d) { return mkq(mpq_class(n, d)); };
  const nid r2 = fsqrt(q(2, 1)), r3 = fsqrt(q(3, 1)), r6 = fsqrt(q(6, 1));
  switch (k) {
    case 0: return q(1, 1);
    case 2: return mul(q(1, 4), add(r6, r2));
    case 3: return mul(q(1, 2), fsqrt(add(q(2, 1), r2)));
    case 4: return mul(q(1, 2), r3);
    case 6: return mul(q(1, 2), r2);
    case 8: return q(1, 2);
    case 9: return mul(q(1, 2), fsqrt(add(q(2, 1), neg(r2))));
    case 10: return mul(q(1, 4), add(r6, neg(r2)));
    default: return 0;
  }
}
// A constant angle that is a double next to a multiple of pi/12 or pi/8 stands
// for that multiple: returns true and its index in pi/24.
static bool angle24(nid a, long &k) {
  if (!isc(a)) return false;
  const double v = cv(a).get_d(), pi = 3.14159265358979323846;
  const double r = std::round(v * 24 / pi);
  if (std::fabs(r) > 480 || std::fabs(v - r * pi / 24) > 1e-13) return false;
  k = (long)r;
  return k % 2 == 0 || k % 3 == 0;
}
nid fsin(nid a) {
  if (special(a)) return NANID;
  if (a == 0) return 0;
  long k;
  if (angle24(a, k)) return cos24(12 - k);
  return mk(SIN, a);
}
nid fcos(nid a) {
  if (special(a)) return NANID;
  if (a == 0) return mkq(mpq_class(1));
  long k;
  if (angle24(a, k)) return cos24(k);
  return mk(COS, a);
}
nid ffloor(nid a) {
  if (special(a)) return a;
  if (isc(a)) {
    mpz_class q;
    mpz_fdiv_q(q.get_mpz_t(), cv(a).get_num().get_mpz_t(), cv(a).get_den().get_mpz_t());
    return mkq(mpq_class(q));
  }
  engine_error("floor of a symbolic value");
  return 0;
}
nid fpow(nid a, nid b) {
  if (!isc(b)) {
    if (special(b) || special(a)) return NANID;
    engine_error("pow with a symbolic exponent");
  }
  mpq_class e = cv(b);
  if (e == 0) return mkq(mpq_class(1));
  if (special(a)) return a;
  bool inv = sgn(e) < 0;
  if (inv) e = -e;
  nid base = a;
  if (e.get_den() == 2) {
    base = fsqrt(a);
    e *= 2;
  }
  if (e.get_den() != 1 || e > 64) engine_error("pow with an unsupported exponent");
  long k = e.get_num().get_si();
  nid r = base;
  for (long i = 1; i < k; ++i) r = mul(r, base);
  return inv ? div(mkq(mpq_class(1)), r) : r;
}
nid ite(bid c, nid a, nid b) {
  if (c == 0) return a;
  if (c == 1) return b;
  if (a == b) return a;
  if (special(a) || special(b)) return decide(c) ? a : b;
  int k = known(c);
  if (k >= 0) return k ? a : b;
  return mk(ITE, c, a, b);
}
nid fabs_(nid a) {
  if (isc(a)) return mkq(abs(cv(a)));
  if (a == NANID) return a;
  if (is_inf(a)) return PINFID;
  if (N[a].op == SQRT || N[a].op == EXP) return a;
  if (N[a].op == MUL && N[a].a == N[a].b) return a;
  if (N[a].op == ITE) {  // |c ? x : -x| is already non-negative
    nid x = N[a].b, y = N[a].c;
    if (neg(x) == y || neg(y) == x) {
      const BNode &n = B[N[a].a];
      if (n.op == BLT && n.a == 0 && n.b == x) return a;
      if (n.op == BLE && n.a == 0 && n.b == x) return a;
    }
  }
  if (opt("fork_minmax") != 0) return decide(le(0, a)) ? a : neg(a);
  return ite(le(0, a), a, neg(a));
}
nid fmax_(nid a, nid b) {  // std::max: (a<b) ? b : a
  bid c = lt(a, b);
  if (opt("fork_minmax") != 0) return decide(c) ? b : a;
  return ite(c, b, a);
}
nid fmin_(nid a, nid b) {
  bid c = lt(b, a);
  if (opt("fork_minmax") != 0) return decide(c) ? b : a;
  return ite(c, b, a);
}

static bid mkb(BOp op, uint32_t a, uint32_t b = 0) {
  K4 k{static_cast<uint32_t>(100 + op), a, b, 0};
  auto it = bnode_ids.find(k);
  if (it != bnode_ids.end()) return it->second;
  B.push_back(BNode{op, a, b});
  bid i = static_cast<bid>(B.size() - 1);
  bnode_ids.emplace(k, i);
  return i;
}
static bid mkbool(bool v) { return v ? 0 : 1; }
static std::unordered_map<nid, bool> nonneg_memo;
// terms that no value of the inputs makes negative
static bool nonneg(nid a) {
  const Node n = N[a];
  switch (n.op) {
    case CONST: return cv(a) >= 0;
    case SQRT: case EXP: return true;
    case ADD: case MUL: case DIV: case ITE: break;
    default: return false;
  }
  if (n.op == MUL && n.a == n.b) return true;
  auto it = nonneg_memo.find(a);
  if (it != nonneg_memo.end()) return it->second;
  const bool r = n.op == ITE ? nonneg(n.b) && nonneg(n.c) : nonneg(n.a) && nonneg(n.b);
  nonneg_memo[a] = r;
  return r;
}
bid lt(nid a, nid b) {
  if (special(a) || special(b)) {
    if (a == NANID || b == NANID) return 1;
    if (a == b) return 1;
    return mkbool(a == NINFID || b == PINFID);
  }
  if (a == b) return 1;
  if (isc(a) && isc(b)) return mkbool(cv(a) < cv(b));
  if (b == 0 && nonneg(a)) return 1;
  return mkb(BLT, a, b);
}
bid le(nid a, nid b) {
  if (special(a) || special(b)) {
    if (a == NANID || b == NANID) return 1;
    if (a == b) return 0;
    return mkbool(a == NINFID || b == PINFID);
  }
  if (a == b) return 0;
  if (isc(a) && isc(b)) return mkbool(cv(a) <= cv(b));
  if (a == 0 && nonneg(b)) return 0;
  return bnot(lt(b, a));
}
bid eq(nid a, nid b) {
  if (special(a) || special(b)) return mkbool(a == b && a != NANID);
  if (a == b) return 0;
  if (isc(a) && isc(b)) return mkbool(cv(a) == cv(b));
  if (a > b) std::swap(a, b);
  return mkb(BEQ, a, b);
}
bid bnot(bid a) {
  if (a == 0) return 1;
  if (a == 1) return 0;
  if (B[a].op == BNOT) return B[a].a;
  return mkb(BNOT, a);
}
bid band(bid a, bid b) {
  if (a == 1 || b == 1) return 1;
  if (a == 0) return b;
  if (b == 0) return a;
  if (a == b) return a;
  if (bnot(a) == b) return 1;
  if (a > b) std::swap(a, b);
  return mkb(BAND, a, b);
}
bid bor(bid a, bid b) {
  if (a == 0 || b == 0) return 0;
  if (a == 1) return b;
  if (b == 1) return a;
  if (a == b) return a;
  if (bnot(a) == b) return 0;
  if (a > b) std::swap(a, b);
  return mkb(BOR, a, b);
}

static std::set<nid> at_zero;
nid mk_var(const std::string &name) {
  auto it = var_ids.find(name);
  if (it != var_ids.end()) return it->second;
  var_names.push_back(name);
  N.push_back(Node{VAR, static_cast<uint32_t>(var_names.size() - 1), 0, 0});
  nid i = static_cast<nid>(N.size() - 1);
  var_ids.emplace(name, i);
  if (name.compare(0, 3, "d0.") == 0) at_zero.insert(i);
  return i;
}
nid var_of(const std::string &name) {
  auto it = var_ids.find(name);
  if (it == var_ids.end()) engine_error("unknown input " + name);
  return it->second;
}

static void str_rec(nid a, int depth, std::string &o) {
  const Node n = N[a];
  if (o.size() > 400) { o += "..."; return; }
  switch (n.op) {
    case CONST: o += cv(a).get_str(); return;
    case VAR: o += var_names[n.a]; return;
    case NAN_: o += "nan"; return;
    case PINF: o += "inf"; return;
    case NINF: o += "-inf"; return;
    default: break;
  }
  if (depth > 6) { o += "#" + std::to_string(a); return; }
  static const char *nm[] = {"", "", "+", "*", "/", "sqrt", "ite", "sin", "cos", "exp", "log"};
  o += "(";
  o += nm[n.op];
  if (n.op == ITE) { o += " #b" + std::to_string(n.a) + " "; str_rec(n.b, depth + 1, o); o += " "; str_rec(n.c, depth + 1, o); }
  else { o += " "; str_rec(n.a, depth + 1, o); if (n.op == ADD || n.op == MUL || n.op == DIV) { o += " "; str_rec(n.b, depth + 1, o); } }
  o += ")";
}
std::string str(nid a) { std::string o; str_rec(a, 0, o); return o; }

// ---------------------------------------------------------------------------
// differentiation
static bool bool_depends(bid c, nid x);
static std::unordered_map<uint64_t, char> dep_memo;
bool depends(nid y, nid x) {
  if (y == x) return true;
  const Node n = N[y];
  if (n.op == CONST || n.op == VAR || n.op >= NAN_) return false;
  uint64_t k = (static_cast<uint64_t>(y) << 32) | x;
  auto it = dep_memo.find(k);
  if (it != dep_memo.end()) return it->second;
  bool r;
  if (n.op == ITE) r = depends(n.b, x) || depends(n.c, x) || bool_depends(n.a, x);
  else if (n.op == ADD || n.op == MUL || n.op == DIV) r = depends(n.a, x) || depends(n.b, x);
  else r = depends(n.a, x);
  dep_memo[k] = r;
  return r;
}
static bool bool_depends(bid c, nid x) {
  const BNode n = B[c];
  switch (n.op) {
    case BT: case BF: return false;
    case BLT: case BLE: case BEQ: return depends(n.a, x) || depends(n.b, x);
    case BNOT: return bool_depends(n.a, x);
    default: return bool_depends(n.a, x) || bool_depends(n.b, x);
  }
}
static std::unordered_map<uint64_t, nid> diff_memo;
static nid ddiv(nid a, nid b) { return isc(a) && isc(b) && b != 0 ? mkq(cv(a) / cv(b)) : a == 0 ? 0 : mk(DIV, a, b); }
nid diff(nid y, nid x) {
  if (y == x) return mkq(mpq_class(1));
  if (special(y)) return NANID;
  if (!depends(y, x)) return 0;
  uint64_t k = (static_cast<uint64_t>(y) << 32) | x;
  auto it = diff_memo.find(k);
  if (it != diff_memo.end()) return it->second;
  const Node n = N[y];
  nid r = 0;
  switch (n.op) {
    case ADD: r = add(diff(n.a, x), diff(n.b, x)); break;
    case MUL: r = add(mul(diff(n.a, x), n.b), mul(n.a, diff(n.b, x))); break;
    case DIV: r = sub(ddiv(diff(n.a, x), n.b), ddiv(mul(n.a, diff(n.b, x)), mul(n.b, n.b))); break;
    case SQRT: r = ddiv(diff(n.a, x), mul(mkq(mpq_class(2)), y)); break;
    case ITE: { nid p = diff(n.b, x), q = diff(n.c, x); r = p == q ? p : mk(ITE, n.a, p, q); break; }
    case SIN: r = mul(mk(COS, n.a), diff(n.a, x)); break;
    case COS: r = neg(mul(mk(SIN, n.a), diff(n.a, x))); break;
    case EXP: r = mul(y, diff(n.a, x)); break;
    case LOG: r = ddiv(diff(n.a, x), n.a); break;
    default: engine_error("diff");
  }
  diff_memo[k] = r;
  return r;
}
// Inputs named "d0.*" are perturbations around zero: conditions are taken at zero.
static std::unordered_map<uint32_t, nid> at0_memo;
static std::unordered_map<uint32_t, bid> at0b_memo;
nid at0(nid y) {
  if (at_zero.empty()) return y;
  auto it = at0_memo.find(y);
  if (it != at0_memo.end()) return it->second;
  const Node n = N[y];
  nid r = y;
  switch (n.op) {
    case CONST: case NAN_: case PINF: case NINF: break;
    case VAR: if (at_zero.count(y)) r = 0; break;
    case ADD: { nid a = at0(n.a), b = at0(n.b); if (a != n.a || b != n.b) r = add(a, b); break; }
    case MUL: { nid a = at0(n.a), b = at0(n.b); if (a != n.a || b != n.b) r = mul(a, b); break; }
    case DIV: { nid a = at0(n.a), b = at0(n.b); if (a != n.a || b != n.b) r = ddiv(a, b); break; }
    case SQRT: { nid a = at0(n.a); if (a != n.a) r = fsqrt(a); break; }
    case ITE: { bid c = at0b(n.a); nid a = at0(n.b), b = at0(n.c); if (c != n.a || a != n.b || b != n.c) r = c == 0 ? a : c == 1 ? b : a == b ? a : mk(ITE, c, a, b); break; }
    case SIN: { nid a = at0(n.a); if (a != n.a) r = fsin(a); break; }
    case COS: { nid a = at0(n.a); if (a != n.a) r = fcos(a); break; }
    case EXP: { nid a = at0(n.a); if (a != n.a) r = fexp(a); break; }
    case LOG: { nid a = at0(n.a); if (a != n.a) r = flog(a); break; }
  }
  at0_memo[y] = r;
  return r;
}
bid at0b(bid c) {
  if (at_zero.empty()) return c;
  auto it = at0b_memo.find(c);
  if (it != at0b_memo.end()) return it->second;
  const BNode n = B[c];
  bid r = c;
  switch (n.op) {
    case BT: case BF: break;
    case BLT: r = lt(at0(n.a), at0(n.b)); break;
    case BLE: r = le(at0(n.a), at0(n.b)); break;
    case BEQ: r = eq(at0(n.a), at0(n.b)); break;
    case BNOT: r = bnot(at0b(n.a)); break;
    case BAND: r = band(at0b(n.a), at0b(n.b)); break;
    case BOR: r = bor(at0b(n.a), at0b(n.b)); break;
  }
  at0b_memo[c] = r;
  return r;
}
static void kinks_b(bid c, nid x, std::set<bid> &out, std::unordered_set<uint32_t> &seen);
static void kinks_n(nid y, nid x, std::set<bid> &out, std::unordered_set<uint32_t> &seen) {
  if (!depends(y, x) || !seen.insert(y).second) return;
  const Node n = N[y];
  if (n.op == ITE) {
    kinks_b(n.a, x, out, seen);
    kinks_n(n.b, x, out, seen);
    kinks_n(n.c, x, out, seen);
  } else if (n.op == ADD || n.op == MUL || n.op == DIV) {
    kinks_n(n.a, x, out, seen);
    kinks_n(n.b, x, out, seen);
  } else if (n.op == SQRT) {
    out.insert(bnot(eq(n.a, 0)));
    kinks_n(n.a, x, out, seen);
  } else if (n.op != VAR) {
    kinks_n(n.a, x, out, seen);
  }
}
static void kinks_b(bid c, nid x, std::set<bid> &out, std::unordered_set<uint32_t> &seen) {
  if (!bool_depends(c, x)) return;
  const BNode n = B[c];
  switch (n.op) {
    case BLT: case BLE: case BEQ:
      out.insert(bnot(eq(n.a, n.b)));
      kinks_n(n.a, x, out, seen);
      kinks_n(n.b, x, out, seen);
      return;
    case BNOT: kinks_b(n.a, x, out, seen); return;
    case BAND: case BOR: kinks_b(n.a, x, out, seen); kinks_b(n.b, x, out, seen); return;
    default: return;
  }
}
void kinks(nid y, nid x, std::vector<bid> &out) {
  std::set<bid> s;
  std::unordered_set<uint32_t> seen;
  kinks_n(y, x, s, seen);
  out.insert(out.end(), s.begin(), s.end());
}
void kinks_bool(bid c, nid x, std::vector<bid> &out) {
  std::set<bid> s;
  std::unordered_set<uint32_t> seen;
  kinks_b(c, x, s, seen);
  out.insert(out.end(), s.begin(), s.end());
}
bool bdepends(bid c, nid x) { return bool_depends(c, x); }

// ---------------------------------------------------------------------------
// evaluation in machine arithmetic
struct Eval {
  const std::map<std::string, double> &m;
  std::unordered_map<nid, double> memo;
  std::unordered_map<bid, bool> bmemo;
  double margin = 1e300;  // smallest |lhs-rhs| seen in a comparison
  double ev(nid a) {
    const Node n = N[a];
    switch (n.op) {
      case CONST: return cv(a).get_d();
      case VAR: { auto it = m.find(var_names[n.a]); return it == m.end() ? default_value(var_names[n.a]) : it->second; }
      case NAN_: return std::numeric_limits<double>::quiet_NaN();
      case PINF: return std::numeric_limits<double>::infinity();
      case NINF: return -std::numeric_limits<double>::infinity();
      default: break;
    }
    auto it = memo.find(a);
    if (it != memo.end()) return it->second;
    double r = 0;
    switch (n.op) {
      case ADD: r = ev(n.a) + ev(n.b); break;
      case MUL: r = ev(n.a) * ev(n.b); break;
      case DIV: r = ev(n.a) / ev(n.b); break;
      case SQRT: r = std::sqrt(ev(n.a)); break;
      case ITE: {  // a tie between equal values decides nothing
        const double m0 = margin;
        const bool c = evb(n.a);
        const double m1 = margin;
        r = ev(c ? n.b : n.c);
        if (m1 < 1e-6 && m1 < m0) {
          const double m2 = margin, o = ev(c ? n.c : n.b);
          margin = m2;
          if (std::fabs(o - r) <= 1e-9 * (1 + std::fabs(r))) margin = std::min(m0, m2 < m1 ? m2 : 1e300);
        }
        break;
      }
      case SIN: r = std::sin(ev(n.a)); break;
      case COS: r = std::cos(ev(n.a)); break;
      case EXP: r = std::exp(ev(n.a)); break;
      case LOG: r = std::log(ev(n.a)); break;
      default: break;
    }
    memo[a] = r;
    return r;
  }
  bool evb(bid c) {
    const BNode n = B[c];
    switch (n.op) {
      case BT: return true;
      case BF: return false;
      case BNOT: return !evb(n.a);
      case BAND: return evb(n.a) && evb(n.b);
      case BOR: return evb(n.a) || evb(n.b);
      default: break;
    }
    double x = ev(n.a), y = ev(n.b);
    double g = std::fabs(x - y) / (1 + std::fabs(x) + std::fabs(y));
    if (!(g >= margin)) margin = g;
    return n.op == BLT ? x < y : n.op == BLE ? x <= y : x == y;
  }
};
double eval(nid a, const std::map<std::string, double> &m) { Eval e{m, {}, {}}; return e.ev(a); }
bool eval_bools(const std::vector<bid> &bs, const std::map<std::string, double> &m, double &margin) {
  Eval e{m, {}, {}};
  bool ok = true;
  for (bid b : bs) ok = e.evb(b) && ok;
  margin = e.margin;
  return ok;
}
std::vector<double> eval_many(const std::vector<nid> &as, const std::map<std::string, double> &m) {
  Eval e{m, {}, {}};
  std::vector<double> r;
  for (nid a : as) r.push_back(e.ev(a));
  return r;
}
double default_value(const std::string &name) {
  if (name.compare(0, 3, "d0.") == 0) return 0;
  uint64_t h = 1469598103934665603ull;
  for (char c : name) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  return (static_cast<long>((h >> 20) % 33) - 16) / 8.0;
}

// ---------------------------------------------------------------------------
// polynomial layer and SMT-LIB emission
typedef uint32_t pid;
struct PTerm { mpq_class k; pid p; };
struct PNode {
  enum Kind : uint8_t { ATOM, MULK, ADDK, ITEK } kind;
  mpq_class c;                               // ADDK constant
  std::vector<std::pair<mpq_class, pid>> t;  // ADDK terms
  std::vector<std::pair<pid, int>> f;        // MULK factors
  nid atom;                                  // ATOM: VAR/SQRT/SIN/COS/EXP/LOG node
  bid cond; pid x, y;                        // ITEK
};
static std::vector<PNode> PS;
static std::unordered_map<std::string, pid> p_ids;
static pid p_intern(PNode &&n) {
  std::string k;
  k += static_cast<char>('A' + n.kind);
  switch (n.kind) {
    case PNode::ATOM: k += std::to_string(n.atom); break;
    case PNode::MULK: for (auto &f : n.f) k += std::to_string(f.first) + "^" + std::to_string(f.second) + ","; break;
    case PNode::ADDK: k += n.c.get_str(36) + "|"; for (auto &t : n.t) k += t.first.get_str(36) + "*" + std::to_string(t.second) + ","; break;
    case PNode::ITEK: k += std::to_string(n.cond) + "?" + std::to_string(n.x) + ":" + std::to_string(n.y); break;
  }
  auto it = p_ids.find(k);
  if (it != p_ids.end()) return it->second;
  PS.push_back(std::move(n));
  pid i = static_cast<pid>(PS.size() - 1);
  p_ids.emplace(std::move(k), i);
  return i;
}
static pid p_addmap(const mpq_class &c, const std::map<pid, mpq_class> &m) {
  PNode n;
  n.kind = PNode::ADDK;
  n.c = c;
  for (auto &kv : m) if (sgn(kv.second) != 0) n.t.emplace_back(kv.second, kv.first);
  if (sgn(c) == 0 && n.t.size() == 1 && n.t[0].first == 1) return n.t[0].second;
  return p_intern(std::move(n));
}
static pid p_const(const mpq_class &c) { return p_addmap(c, {}); }
static void p_acc(pid p, const mpq_class &k, mpq_class &c, std::map<pid, mpq_class> &m) {
  const PNode n = PS[p];
  if (n.kind == PNode::ADDK) {
    c += k * n.c;
    for (auto &t : n.t) m[t.second] += k * t.first;
  } else {
    m[p] += k;
  }
}
static pid p_lin(pid a, const mpq_class &ka, pid b, const mpq_class &kb) {
  mpq_class c = 0;
  std::map<pid, mpq_class> m;
  p_acc(a, ka, c, m);
  p_acc(b, kb, c, m);
  return p_addmap(c, m);
}
static pid p_scale(pid a, const mpq_class &k) {
  mpq_class c = 0;
  std::map<pid, mpq_class> m;
  p_acc(a, k, c, m);
  return p_addmap(c, m);
}
static bool p_isconst(pid p, mpq_class &c) {
  if (PS[p].kind == PNode::ADDK && PS[p].t.empty()) { c = PS[p].c; return true; }
  return false;
}
typedef std::map<pid, int> FMap;
// p = k * prod f^e
static void p_factor(pid p, mpq_class &k, FMap &f, int e = 1) {
  const PNode n = PS[p];
  auto kp = [&](const mpq_class &v) { for (int i = 0; i < e; ++i) k *= v; };
  if (n.kind == PNode::MULK) {
    for (auto &x : n.f) f[x.first] += x.second * e;
  } else if (n.kind == PNode::ADDK) {
    if (n.t.empty()) { kp(n.c); return; }
    if (sgn(n.c) == 0 && n.t.size() == 1) {
      kp(n.t[0].first);
      p_factor(n.t[0].second, k, f, e);
      return;
    }
    // make the leading coefficient one; pull out common factors
    mpq_class lead = n.t[0].first;
    kp(lead);
    FMap common;
    if (sgn(n.c) == 0) {
      bool first = true;
      for (auto &t : n.t) {
        FMap g;
        if (PS[t.second].kind == PNode::MULK) for (auto &x : PS[t.second].f) g[x.first] = x.second;
        else g[t.second] = 1;
        if (first) { common = g; first = false; }
        else {
          for (auto it = common.begin(); it != common.end();) {
            auto jt = g.find(it->first);
            if (jt == g.end()) it = common.erase(it);
            else { it->second = std::min(it->second, jt->second); ++it; }
          }
        }
      }
    }
    pid q = p_scale(p, 1 / lead);
    if (!common.empty()) {
      std::map<pid, mpq_class> m;
      mpq_class c = 0;
      const PNode qn = PS[q];
      for (auto &t : qn.t) {
        FMap g;
        if (PS[t.second].kind == PNode::MULK) for (auto &x : PS[t.second].f) g[x.first] = x.second;
        else g[t.second] = 1;
        PNode mm;
        mm.kind = PNode::MULK;
        for (auto &x : g) {
          int r = x.second - (common.count(x.first) ? common[x.first] : 0);
          if (r > 0) mm.f.emplace_back(x.first, r);
        }
        if (mm.f.empty()) c += t.first;
        else if (mm.f.size() == 1 && mm.f[0].second == 1) p_acc(mm.f[0].first, t.first, c, m);
        else m[p_intern(std::move(mm))] += t.first;
      }
      pid rest = p_addmap(c, m);
      for (auto &x : common) f[x.first] += x.second * e;
      mpq_class k2;
      if (p_isconst(rest, k2)) kp(k2);
      else f[rest] += e;
    } else {
      f[q] += e;
    }
  } else {
    f[p] += e;
  }
}
static pid p_build(const mpq_class &k, const FMap &f) {
  PNode n;
  n.kind = PNode::MULK;
  for (auto &x : f) if (x.second > 0) n.f.emplace_back(x.first, x.second);
  if (n.f.empty()) return p_const(k);
  pid p;
  if (n.f.size() == 1 && n.f[0].second == 1) p = n.f[0].first;
  else p = p_intern(std::move(n));
  return k == 1 ? p : p_scale(p, k);
}
static pid p_mul(pid a, pid b) {
  mpq_class k = 1;
  FMap f;
  p_factor(a, k, f);
  p_factor(b, k, f);
  if (sgn(k) == 0) return p_const(0);
  return p_build(k, f);
}
struct R { pid n; FMap d; };  // n / prod d^e
static std::unordered_map<nid, R> r_memo;
static R r_of(nid a);
static pid p_atom(nid a) { PNode n; n.kind = PNode::ATOM; n.atom = a; return p_intern(std::move(n)); }
static R r_norm(mpq_class k, FMap nf, FMap df) {
  // reduce even powers of square roots, cancel common factors
  for (int guard = 0; guard < 50; ++guard) {
    bool changed = false;
    for (auto it = nf.begin(); it != nf.end(); ++it) {
      if (it->second >= 2 && PS[it->first].kind == PNode::ATOM && N[PS[it->first].atom].op == SQRT) {
        nid rad = N[PS[it->first].atom].a;
        it->second -= 2;
        if (it->second == 0) nf.erase(it);
        R r = r_of(rad);
        p_factor(r.n, k, nf);
        for (auto &x : r.d) df[x.first] += x.second;
        changed = true;
        break;
      }
    }
    if (changed) continue;
    for (auto it = df.begin(); it != df.end(); ++it) {
      if (it->second >= 2 && PS[it->first].kind == PNode::ATOM && N[PS[it->first].atom].op == SQRT) {
        nid rad = N[PS[it->first].atom].a;
        it->second -= 2;
        if (it->second == 0) df.erase(it);
        R r = r_of(rad);
        mpq_class kd = 1;
        p_factor(r.n, kd, df);
        k /= kd;
        for (auto &x : r.d) nf[x.first] += x.second;
        changed = true;
        break;
      }
    }
    if (changed) continue;
    for (auto it = nf.begin(); it != nf.end();) {
      auto jt = df.find(it->first);
      if (jt != df.end()) {
        int m = std::min(it->second, jt->second);
        it->second -= m;
        jt->second -= m;
        if (jt->second == 0) df.erase(jt);
        if (it->second == 0) { it = nf.erase(it); continue; }
      }
      ++it;
    }
    break;
  }
  return R{sgn(k) == 0 ? p_const(0) : p_build(k, nf), df};
}
static pid p_den(const FMap &d) { return p_build(1, d); }
static R r_mul(const R &a, const R &b) {
  mpq_class k = 1;
  FMap nf, df = a.d;
  p_factor(a.n, k, nf);
  p_factor(b.n, k, nf);
  if (sgn(k) == 0) return R{p_const(0), {}};
  for (auto &x : b.d) df[x.first] += x.second;
  return r_norm(k, nf, df);
}
static R r_inv(const R &a) {
  mpq_class k = 1;
  FMap nf = a.d, df;
  p_factor(a.n, k, df);
  return r_norm(1 / k, nf, df);
}
static void r_common(const R &a, const R &b, FMap &L, pid &na, pid &nb) {
  L = a.d;
  for (auto &x : b.d) L[x.first] = std::max(L.count(x.first) ? L[x.first] : 0, x.second);
  FMap fa, fb;
  for (auto &x : L) {
    int ea = x.second - (a.d.count(x.first) ? a.d.at(x.first) : 0);
    int eb = x.second - (b.d.count(x.first) ? b.d.at(x.first) : 0);
    if (ea) fa[x.first] = ea;
    if (eb) fb[x.first] = eb;
  }
  na = fa.empty() ? a.n : p_mul(a.n, p_den(fa));
  nb = fb.empty() ? b.n : p_mul(b.n, p_den(fb));
}
static R r_renorm(pid n, const FMap &L) {
  if (L.empty()) return R{n, {}};
  mpq_class k = 1;
  FMap nf;
  p_factor(n, k, nf);
  if (sgn(k) == 0) return R{p_const(0), {}};
  return r_norm(k, nf, L);
}
static R r_of(nid a) {
  auto it = r_memo.find(a);
  if (it != r_memo.end()) return it->second;
  const Node n = N[a];
  R r;
  switch (n.op) {
    case CONST: r = R{p_const(cv(a)), {}}; break;
    case ADD: {
      R x = r_of(n.a), y = r_of(n.b);
      FMap L;
      pid na, nb;
      r_common(x, y, L, na, nb);
      r = r_renorm(p_lin(na, 1, nb, 1), L);
      break;
    }
    case MUL: r = r_mul(r_of(n.a), r_of(n.b)); break;
    case DIV: r = r_mul(r_of(n.a), r_inv(r_of(n.b))); break;
    case ITE: {
      R x = r_of(n.b), y = r_of(n.c);
      FMap L;
      pid na, nb;
      r_common(x, y, L, na, nb);
      if (na == nb) { r = R{na, L}; break; }
      PNode p;
      p.kind = PNode::ITEK;
      p.cond = n.a; p.x = na; p.y = nb;
      r = R{p_intern(std::move(p)), L};
      break;
    }
    case NAN_: case PINF: case NINF: engine_error("non-finite value in a formula");
    default: r = R{p_atom(a), {}};
  }
  r_memo[a] = r;
  return r;
}

struct Emit {
  std::ostringstream decl, defs, side;
  std::unordered_set<pid> pdone;
  std::unordered_set<bid> bdone;
  std::unordered_set<nid> atoms;
  std::set<pid> nz;          // denominators to be non-zero
  std::vector<nid> invars;   // input variables
  std::vector<nid> pending;  // atoms with axioms still to emit
  static std::string q(const mpq_class &v) {
    mpz_class n = abs(v.get_num());
    std::string s = n.get_str() + ".0";
    if (v.get_den() != 1) s = "(/ " + s + " " + v.get_den().get_str() + ".0)";
    return sgn(v) < 0 ? "(- " + s + ")" : s;
  }
  static std::string an(nid a) { return (N[a].op == VAR ? "v" : "w") + std::to_string(a); }
  void atom(nid a) {
    if (!atoms.insert(a).second) return;
    decl << "(declare-fun " << an(a) << " () Real)\n";
    if (N[a].op == VAR) invars.push_back(a);
    else pending.push_back(a);
  }
  std::string pn(pid p) {
    mpq_class c;
    if (p_isconst(p, c)) return q(c);
    if (PS[p].kind == PNode::ATOM) { atom(PS[p].atom); return an(PS[p].atom); }
    def(p);
    return "p" + std::to_string(p);
  }
  void def(pid p) {
    if (!pdone.insert(p).second) return;
    const PNode n = PS[p];
    std::string s;
    if (n.kind == PNode::MULK) {
      s = "(*";
      int cnt = 0;
      for (auto &x : n.f) { std::string y = pn(x.first); for (int i = 0; i < x.second; ++i) { s += " " + y; ++cnt; } }
      s += ")";
      (void)cnt;
    } else if (n.kind == PNode::ADDK) {
      std::vector<std::string> ts;
      if (sgn(n.c) != 0) ts.push_back(q(n.c));
      for (auto &t : n.t) ts.push_back(t.first == 1 ? pn(t.second) : "(* " + q(t.first) + " " + pn(t.second) + ")");
      if (ts.size() == 1) s = ts[0];
      else { s = "(+"; for (auto &t : ts) s += " " + t; s += ")"; }
    } else {
      std::string c = bn(n.cond), x = pn(n.x), y = pn(n.y);
      s = "(ite " + c + " " + x + " " + y + ")";
    }
    defs << "(define-fun p" << p << " () Real " << s << ")\n";
  }
  std::string bn(bid b) {
    if (b == 0) return "true";
    if (b == 1) return "false";
    if (bdone.insert(b).second) {
      const BNode n = B[b];
      std::string s;
      switch (n.op) {
        case BNOT: s = "(not " + bn(n.a) + ")"; break;
        case BAND: { std::string x = bn(n.a), y = bn(n.b); s = "(and " + x + " " + y + ")"; break; }
        case BOR: { std::string x = bn(n.a), y = bn(n.b); s = "(or " + x + " " + y + ")"; break; }
        default: {
          R x = r_of(n.a), y = r_of(n.b);
          FMap L;
          pid na, nb;
          r_common(x, y, L, na, nb);
          pid d = p_lin(na, 1, nb, -1);
          for (auto &f : L) nz.insert(f.first);
          if (n.op == BEQ) {
            // factored form: a product is zero iff one factor is
            s = "(= " + pn(d) + " 0.0)";
          } else {
            FMap odd;
            for (auto &f : L) if (f.second % 2) {
              const PNode &pp = PS[f.first];
              bool pos = pp.kind == PNode::ATOM && (N[pp.atom].op == SQRT || N[pp.atom].op == EXP);
              if (!pos) odd[f.first] = 1;
            }
            if (!odd.empty()) d = p_mul(d, p_den(odd));
            s = std::string("(") + (n.op == BLT ? "<" : "<=") + " " + pn(d) + " 0.0)";
          }
        }
      }
      defs << "(define-fun b" << b << " () Bool " << s << ")\n";
    }
    return "b" + std::to_string(b);
  }
  void axioms() {
    while (!pending.empty()) {
      nid a = pending.back();
      pending.pop_back();
      const Node n = N[a];
      std::string w = an(a);
      switch (n.op) {
        case SQRT: {
          R r = r_of(n.a);
          std::string num = pn(r.n);
          side << "(assert (>= " << w << " 0.0))\n";
          if (r.d.empty()) side << "(assert (= (* " << w << " " << w << ") " << num << "))\n";
          else {
            std::string den = pn(p_den(r.d));
            for (auto &f : r.d) nz.insert(f.first);
            side << "(assert (= (* " << w << " " << w << " " << den << ") " << num << "))\n";
          }
          break;
        }
        case SIN: case COS: {
          nid s = mk(SIN, n.a), c = mk(COS, n.a);
          atom(s);
          atom(c);
          std::string S = an(s), C = an(c);
          if (n.op == SIN || !sc_done.count(n.a)) if (sc_done.insert(n.a).second) side << "(assert (= (+ (* " << S << " " << S << ") (* " << C << " " << C << ")) 1.0))\n";
          break;
        }
        case EXP: {
          bid neg_ = lt(n.a, 0), zero = eq(n.a, 0);
          std::string x = bn(neg_), z = bn(zero);
          side << "(assert (> " << w << " 0.0))\n(assert (= " << x << " (< " << w << " 1.0)))\n(assert (= " << z << " (= " << w << " 1.0)))\n";
          break;
        }
        case LOG: {
          bid lo = lt(n.a, mkq(mpq_class(1))), one = eq(n.a, mkq(mpq_class(1)));
          std::string x = bn(lo), z = bn(one);
          side << "(assert (= " << x << " (< " << w << " 0.0)))\n(assert (= " << z << " (= " << w << " 0.0)))\n";
          break;
        }
        default: break;
      }
      drain_nz();
    }
  }
  std::set<nid> sc_done;
  std::set<pid> nz_done;
  void drain_nz() {
    for (bool again = true; again;) {
      again = false;
      std::set<pid> cur = nz;
      for (pid p : cur) if (nz_done.insert(p).second) {
        side << "(assert (not (= " << pn(p) << " 0.0)))\n";
        again = true;
      }
    }
  }
  // full query text without check-sat
  std::string query(const std::vector<bid> &as, const std::vector<std::string> &extra) {
    std::string body;
    for (bid b : as) body += "(assert " + bn(b) + ")\n";
    drain_nz();
    axioms();
    for (auto &e : extra) body += e;
    return decl.str() + defs.str() + side.str() + body;
  }
};

// ---------------------------------------------------------------------------
// solver processes
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
Stats stats;
struct Proc {
  pid_t pid = -1;
  int in = -1, out = -1;
  std::string buf;
  bool start(const std::vector<std::string> &argv) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) return false;
    pid = fork();
    if (pid == 0) {
      dup2(a[0], 0);
      dup2(b[1], 1);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 2);
      for (int f = 3; f < 256; ++f) close(f);
      std::vector<char *> av;
      for (auto &s : argv) av.push_back(const_cast<char *>(s.c_str()));
      av.push_back(nullptr);
      execvp(av[0], av.data());
      _exit(127);
    }
    close(a[0]);
    close(b[1]);
    in = a[1];
    out = b[0];
    return pid > 0;
  }
  void stop() {
    if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); }
    if (in >= 0) close(in);
    if (out >= 0) close(out);
    pid = -1; in = out = -1; buf.clear();
  }
  bool write_all(const std::string &s, double deadline) {
    size_t o = 0;
    fcntl(in, F_SETFL, O_NONBLOCK);
    while (o < s.size()) {
      struct pollfd p{in, POLLOUT, 0};
      int ms = static_cast<int>((deadline - now()) * 1000);
      if (ms <= 0) return false;
      int pr = poll(&p, 1, ms);
      if (pr <= 0) return false;
      ssize_t k = ::write(in, s.data() + o, s.size() - o);
      if (k <= 0) return false;
      o += static_cast<size_t>(k);
    }
    return true;
  }
  // read until the sentinel line
  bool read_until(const std::string &sentinel, std::string &res, double deadline) {
    for (;;) {
      size_t p = buf.find(sentinel);
      if (p != std::string::npos) {
        res = buf.substr(0, p);
        buf.erase(0, p + sentinel.size());
        return true;
      }
      struct pollfd pf{out, POLLIN, 0};
      int ms = static_cast<int>((deadline - now()) * 1000);
      if (ms <= 0) return false;
      if (poll(&pf, 1, ms) <= 0) return false;
      char tmp[65536];
      ssize_t k = ::read(out, tmp, sizeof tmp);
      if (k <= 0) return false;
      buf.append(tmp, static_cast<size_t>(k));
    }
  }
};
static Proc z3p;
static std::vector<std::string> z3cmd = {"z3-new", "-in"};

static bool parse_num(const std::string &s, size_t &i, double &v) {
  while (i < s.size() && isspace(static_cast<unsigned char>(s[i]))) ++i;
  if (i >= s.size()) return false;
  if (s[i] == '(') {
    ++i;
    while (i < s.size() && isspace(static_cast<unsigned char>(s[i]))) ++i;
    size_t j = i;
    while (j < s.size() && !isspace(static_cast<unsigned char>(s[j])) && s[j] != '(' && s[j] != ')') ++j;
    std::string op = s.substr(i, j - i);
    i = j;
    double a, b;
    if (op == "-") {
      if (!parse_num(s, i, a)) return false;
      v = -a;
    } else if (op == "/") {
      if (!parse_num(s, i, a) || !parse_num(s, i, b)) return false;
      v = a / b;
    } else {
      return false;
    }
    while (i < s.size() && s[i] != ')') ++i;
    ++i;
    return true;
  }
  size_t j = i;
  while (j < s.size() && (isdigit(static_cast<unsigned char>(s[j])) || s[j] == '.' || s[j] == 'e' || s[j] == 'E' || s[j] == '-')) ++j;
  if (j == i) return false;
  v = strtod(s.substr(i, j - i).c_str(), nullptr);
  if (j < s.size() && s[j] == '?') ++j;
  i = j;
  return true;
}
static void parse_model(const std::string &txt, const std::vector<nid> &vars, std::map<std::string, double> &model) {
  for (nid a : vars) {
    std::string key = "(v" + std::to_string(a) + " ";
    size_t p = txt.find(key);
    if (p == std::string::npos) continue;
    p += key.size();
    double v;
    if (parse_num(txt, p, v)) model[var_names[N[a].a]] = v;
  }
}
static std::string getvalue(const std::vector<nid> &vars) {
  if (vars.empty()) return "";
  std::string s = "(get-value (";
  for (nid a : vars) s += "v" + std::to_string(a) + " ";
  return s + "))\n";
}
static int dump_count = 0;

Res run_z3(const std::string &text, const std::vector<nid> &vars, double tmo, const std::string &checksat, std::map<std::string, double> *model) {
  double t0 = now();
  stats.queries++;
  Res r = UNKNOWN;
  for (int attempt = 0; attempt < 2; ++attempt) {
    if (z3p.pid < 0 && !z3p.start(z3cmd)) engine_error("cannot start z3-new");
    std::string s = "(reset)\n(set-option :timeout " + std::to_string(static_cast<long>(tmo * 1000)) + ")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 24)\n(set-logic QF_NRA)\n" + text + checksat + "\n(echo \"#1\")\n";
    if (const char *d = getenv("VERIF_DUMP")) {
      std::ofstream f(std::string(d) + "/q" + std::to_string(getpid()) + "_" + std::to_string(dump_count++) + ".smt2");
      f << s;
    }
    double deadline = now() + tmo + 6;
    std::string out;
    bool ok = z3p.write_all(s, deadline) && z3p.read_until("#1\n", out, deadline);
    if (!ok) {
      bool died = z3p.pid > 0 && waitpid(z3p.pid, nullptr, WNOHANG) != 0;
      if (died) z3p.pid = -1;
      z3p.stop();
      if (died && attempt == 0) continue;
      break;
    }
    if (out.find("(error") != std::string::npos) { stats.errors++; if (getenv("VERIF_DEBUG")) std::cerr << out << "\n"; break; }
    if (out.find("unsat") != std::string::npos) r = UNSAT;
    else if (out.find("sat") != std::string::npos) {
      r = SAT;
      if (model) {
        std::string mo;
        if (z3p.write_all(getvalue(vars) + "(echo \"#2\")\n", now() + 20) && z3p.read_until("#2\n", mo, now() + 20)) parse_model(mo, vars, *model);
        else z3p.stop();
      }
    }
    break;
  }
  stats.time += now() - t0;
  (r == SAT ? stats.sat : r == UNSAT ? stats.unsat : stats.unknown)++;
  return r;
}
// one-shot solver on a file
Res run_file(const std::vector<std::string> &cmd, const std::string &text, const std::vector<nid> &vars, double tmo, std::map<std::string, double> *model) {
  double t0 = now();
  stats.queries++;
  char path[] = "/tmp/vfqXXXXXX";
  int fd = mkstemp(path);
  std::string s = "(set-option :produce-models true)\n(set-logic QF_NRA)\n" + text + "(check-sat)\n" + (model ? getvalue(vars) : std::string()) + "(echo \"#1\")\n(exit)\n";
  if (::write(fd, s.data(), s.size()) < 0) {}
  close(fd);
  Proc p;
  std::vector<std::string> c = cmd;
  c.push_back(path);
  std::string out;
  Res r = UNKNOWN;
  if (p.start(c)) {
    bool ok = p.read_until("#1\n", out, now() + tmo);
    if (!ok) { out = p.buf; }
    if (out.compare(0, 5, "unsat") == 0) r = UNSAT;
    else if (out.compare(0, 3, "sat") == 0) { r = SAT; if (model) parse_model(out, vars, *model); }
    p.stop();
  }
  unlink(path);
  stats.time += now() - t0;
  (r == SAT ? stats.sat : r == UNSAT ? stats.unsat : stats.unknown)++;
  return r;
}

static std::map<std::vector<bid>, std::pair<Res, std::map<std::string, double>>> qcache;
Res solve(std::vector<bid> as, double tmo, std::map<std::string, double> *model) {
  std::sort(as.begin(), as.end());
  as.erase(std::unique(as.begin(), as.end()), as.end());
  as.erase(std::remove(as.begin(), as.end(), 0u), as.end());
  for (bid b : as) if (b == 1) return UNSAT;
  auto it = qcache.find(as);
  if (it != qcache.end() && it->second.first != UNKNOWN) {
    if (model) *model = it->second.second;
    stats.cached++;
    return it->second.first;
  }
  Emit e;
  std::string q = e.query(as, {});
  std::map<std::string, double> m;
  Res r = run_z3(q, e.invars, tmo, "(check-sat)", &m);
  qcache[as] = {r, m};
  if (model) *model = m;
  return r;
}

// negation that keeps a distance of delta from the boundary
static bid robust(bid b, bool pol, nid delta) {
  const BNode n = B[b];
  switch (n.op) {
    case BT: return pol ? 0 : 1;
    case BF: return pol ? 1 : 0;
    case BNOT: return robust(n.a, !pol, delta);
    case BAND: return pol ? band(robust(n.a, true, delta), robust(n.b, true, delta)) : bor(robust(n.a, false, delta), robust(n.b, false, delta));
    case BOR: return pol ? bor(robust(n.a, true, delta), robust(n.b, true, delta)) : band(robust(n.a, false, delta), robust(n.b, false, delta));
    case BLT: return pol ? le(add(n.a, delta), n.b) : le(add(n.b, delta), n.a);
    case BLE: return pol ? le(add(n.a, delta), n.b) : le(add(n.b, delta), n.a);
    case BEQ: return pol ? b : bor(le(add(n.a, delta), n.b), le(add(n.b, delta), n.a));
  }
  return b;
}
bid robust_neg(bid b, double delta) { return robust(b, false, mk_const(delta)); }
bid robust_pos(bid b, double delta) {
  const BNode n = B[b];
  (void)n;
  return robust(b, true, mk_const(delta));
}

Res solve_bounded(const std::vector<bid> &as, double bound, const std::map<std::string, double> &fix, double tmo, std::map<std::string, double> *model) {
  for (bid b : as) if (b == 1) return UNSAT;
  Emit e;
  std::vector<bid> v = as;
  std::string q = e.query(v, {});
  std::string extra;
  std::ostringstream bs;
  for (nid a : e.invars) {
    auto it = fix.find(var_names[N[a].a]);
    if (it != fix.end()) {
      mpq_class qv(it->second);
      extra += "(assert (= v" + std::to_string(a) + " " + Emit::q(qv) + "))\n";
    } else if (bound > 0) {
      std::string B_ = Emit::q(mpq_class(bound));
      extra += "(assert (<= v" + std::to_string(a) + " " + B_ + "))\n(assert (>= v" + std::to_string(a) + " (- " + B_ + ")))\n";
    }
  }
  return run_z3(q + extra, e.invars, tmo, "(check-sat)", model);
}
std::vector<std::string> formula_inputs(const std::vector<bid> &as) {
  Emit e;
  e.query(as, {});
  std::vector<std::string> r;
  for (nid a : e.invars) r.push_back(var_names[N[a].a]);
  return r;
}
Res solve_hard(const std::vector<bid> &as, int which, double tmo, std::map<std::string, double> *model) {
  Emit e;
  std::string q = e.query(as, {});
  switch (which) {
    case 0: return run_z3(q, e.invars, tmo, "(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr purify-arith simplify solve-eqs tseitin-cnf nlsat))", model);
    case 1: return run_file({"cvc5", "--nl-cov", "--tlimit=" + std::to_string(static_cast<long>(tmo * 1000))}, q, e.invars, tmo + 2, model);
    case 2: return run_file({"z3", "-T:" + std::to_string(static_cast<long>(tmo))}, q, e.invars, tmo + 2, model);
    case 3: return run_z3(q, e.invars, tmo, "(check-sat-using (then simplify (using-params simplify :som true) solve-eqs smt))", model);
    default: return run_z3(q, e.invars, tmo, "(check-sat)", model);
  }
}
bool is_equality(bid b) {
  const BNode n = B[b];
  if (n.op == BEQ) return true;
  if (n.op == BAND) return is_equality(n.a) || is_equality(n.b);
  return false;
}
double eval_margin(const std::vector<nid> &as, const std::map<std::string, double> &m) {
  Eval e{m, {}, {}};
  for (nid a : as) e.ev(a);
  return e.margin;
}
size_t node_count() { return N.size(); }
void shutdown() { z3p.stop(); }
std::string bstr(bid b) {
  const BNode n = B[b];
  switch (n.op) {
    case BT: return "true";
    case BF: return "false";
    case BNOT: return "!" + bstr(n.a);
    case BAND: return "(" + bstr(n.a) + " & " + bstr(n.b) + ")";
    case BOR: return "(" + bstr(n.a) + " | " + bstr(n.b) + ")";
    case BLT: return str(n.a) + " < " + str(n.b);
    case BLE: return str(n.a) + " <= " + str(n.b);
    default: return str(n.a) + " = " + str(n.b);
  }
}
}  // namespace rt
}  // namespace sy
