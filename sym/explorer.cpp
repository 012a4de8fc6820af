// Path exploration by re-execution, check pipeline, report.
#include "explorer.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

namespace sy {
typedef std::map<std::string, double> Model;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
namespace ex {
struct Dec { bid b; bool v; };
static std::vector<char> prefix;          // decisions to replay
static std::vector<Dec> trail;            // decisions of the current path (branching only)
static std::vector<char> trail_v;
static std::vector<bid> pc;               // path condition
static std::unordered_map<bid, char> truth;
static std::vector<std::vector<char>> work;
static std::vector<std::pair<std::string, nid>> obs;
static std::set<std::string> assumptions;
static std::map<std::string, long> reached_n;
struct LabelStat { long checks = 0, folded = 0, unsat = 0, sat = 0, unknown = 0, memo = 0; };
static std::map<std::string, LabelStat> labels;
struct Viol { std::string label, detail; std::vector<Model> models; };
static std::vector<Viol> viols;
static std::map<std::string, int> viol_per_label;
struct Unres { std::string label, detail; };
static std::vector<Unres> unres;
struct Wit { Model in; std::vector<std::pair<std::string, double>> ob; double margin; bool uninit; };
static std::vector<Wit> wits;
static std::map<std::string, double> options, def_options = {
  {"div_fork", 0}, {"fork_minmax", 0}, {"tmo", 10}, {"feas_tmo", 3}, {"hard_tmo", 20}, {"max_paths", 4000}, {"max_decisions", 3000}, {"bound", 20}, {"witnesses", 4}, {"kink_eq", 1}};
static long n_paths = 0, n_vacuous = 0, n_aborted = 0, n_trunc = 0, n_dec = 0, n_implied = 0, n_fork = 0, n_jac = 0, n_jac_skip = 0;
static std::string out_file, case_name;
static bool uninit_on_path = false;
static int tier_ = 0;
static double t_start = 0, t_limit = 1e18;
static std::string stop_reason;

void set_option(const std::string &n, double v) { options[n] = v; }

static int lookup(bid b) {
  if (b == 0) return 1;
  if (b == 1) return 0;
  auto it = truth.find(b);
  if (it != truth.end()) return it->second;
  it = truth.find(rt::bnot(b));
  if (it != truth.end()) return !it->second;
  return -1;
}
static void learn(bid b) {
  if (b == 0) return;
  truth[b] = 1;
  pc.push_back(b);
}
}  // namespace ex
using namespace ex;
namespace rt {
double opt(const std::string &n) {
  auto it = options.find(n);
  if (it != options.end()) return it->second;
  auto jt = def_options.find(n);
  return jt == def_options.end() ? 0 : jt->second;
}
int known(bid b) { return lookup(b); }
void assume_implicit(bid b, const char *why) {
  int k = lookup(b);
  if (k == 1) return;
  assumptions.insert(why);
  if (k == 0) throw PathAbort{why};
  learn(b);
}
static std::unordered_map<uint64_t, nid> uninit_ids;
nid uninit(uint64_t raw) {
  uninit_on_path = true;
  auto it = uninit_ids.find(raw);
  if (it != uninit_ids.end()) return it->second;
  char buf[64];
  snprintf(buf, sizeof buf, "uninit#%llx", static_cast<unsigned long long>(raw));
  return uninit_ids[raw] = mk_var(buf);
}
bool decide(bid b) {
  b = at0b(b);
  int k = lookup(b);
  if (k >= 0) return k;
  n_dec++;
  if (now() > t_limit) { stop_reason = "time limit"; throw EngineError{"time limit"}; }
  size_t pos = trail_v.size();
  bool v;
  if (pos < prefix.size()) {
    v = prefix[pos] & 1;
    bool implied = prefix[pos] & 2;
    trail_v.push_back(prefix[pos]);
    (void)implied;
  } else {
    if (trail_v.size() > static_cast<size_t>(opt("max_decisions"))) { n_trunc++; stop_reason = "decision bound"; throw PathAbort{"decision bound"}; }
    std::vector<bid> q = pc;
    q.push_back(b);
    Res rtt = solve(q, opt("feas_tmo"), nullptr);
    q.back() = bnot(b);
    Res rff = rtt == UNSAT ? UNKNOWN : solve(q, opt("feas_tmo"), nullptr);
    if (rtt == UNSAT) {
      v = false;
      trail_v.push_back(2);
      n_implied++;
    } else if (rff == UNSAT) {
      v = true;
      trail_v.push_back(3);
      n_implied++;
    } else {
      v = true;
      n_fork++;
      std::vector<char> alt = trail_v;
      alt.push_back(0);
      work.push_back(alt);
      trail_v.push_back(1);
    }
  }
  trail.push_back(Dec{b, v});
  learn(v ? b : bnot(b));
  return v;
}
void eigen_assert_fail(const char *expr, const char *file, int line) {
  std::string f = file;
  size_t p = f.rfind('/');
  ex::fail(std::string("eigen_assert ") + expr + " (" + (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(line) + ")");
  throw PathAbort{"eigen_assert"};
}
}  // namespace rt

namespace ex {
using namespace rt;
// sat search + fallbacks.  Returns the verdict on the conjunction `as`.
static Res full_solve(const std::vector<bid> &as, Model *m) {
  Res r = solve(as, opt("tmo"), m);
  if (r != UNKNOWN) return r;
  // look for a model with most inputs fixed
  Model base;
  std::vector<bid> path(as.begin(), as.end() - 1);
  if (solve_bounded(path, 4, {}, 3, &base) == SAT) {
    std::vector<std::string> inputs = formula_inputs(as);
    uint64_t s = 88172645463325252ull;
    auto rnd = [&]() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; };
    for (int round = 0; round < 6; ++round) {
      Model fix;
      for (auto &n : inputs) if (rnd() % inputs.size() >= static_cast<size_t>(2 + round / 3)) {
        auto it = base.find(n);
        fix[n] = it == base.end() ? default_value(n) : std::round(it->second * 64) / 64;
      }
      Model mm;
      Res q = solve_bounded(as, 50, fix, 2, &mm);
      if (q == SAT) {
        for (auto &kv : fix) mm[kv.first] = kv.second;
        if (m) *m = mm;
        return SAT;
      }
    }
  }
  for (int w : {0, 3, 1, 2}) {
    if (now() > t_limit) break;
    r = solve_hard(as, w, opt("hard_tmo"), m);
    if (r != UNKNOWN) return r;
  }
  return UNKNOWN;
}
static bool try_model(std::vector<Model> &ms, const std::vector<bid> &as, double bound, double tmo) {
  Model m;
  if (solve_bounded(as, bound, {}, tmo, &m) == SAT) { ms.push_back(m); return true; }
  return false;
}
static void add_violation(const std::string &label, const std::string &detail, const std::vector<bid> &path, const std::vector<bid> &robust2, const std::vector<bid> &robust4, const Model *plain) {
  if (viol_per_label[label]++ >= 2) return;
  Viol v;
  v.label = label;
  v.detail = detail;
  double t = 4;
  std::vector<bid> a = path;
  a.insert(a.end(), robust2.begin(), robust2.end());
  bool ok = try_model(v.models, a, opt("bound"), t);
  if (!ok) ok = try_model(v.models, a, 1000, t);
  a = path;
  a.insert(a.end(), robust4.begin(), robust4.end());
  if (!ok) ok = try_model(v.models, a, opt("bound"), t) || try_model(v.models, a, 1000, t);
  if (plain) v.models.push_back(*plain);
  viols.push_back(v);
}
struct MemoKeyHash { size_t operator()(const std::string &s) const { return std::hash<std::string>()(s); } };
static std::unordered_map<std::string, Res> check_memo;
static std::string memo_key(const std::vector<bid> &q) {
  std::vector<bid> s = q;
  std::sort(s.begin(), s.end());
  s.erase(std::unique(s.begin(), s.end()), s.end());
  return std::string(reinterpret_cast<const char *>(s.data()), s.size() * sizeof(bid));
}
static void check_time() { if (now() > t_limit) { stop_reason = "time limit"; throw EngineError{"time limit"}; } }
static std::vector<bid> robust_path(double d) {
  std::vector<bid> r;
  for (bid b : pc) { bid q = rt::robust_pos(b, d); r.push_back(q); }
  return r;
}
static bool one_check(const std::string &label, bid b, const std::string &detail, const std::vector<bid> &extra0) {
  b = at0b(b);
  std::vector<bid> extra;
  for (bid e : extra0) if ((e = at0b(e)) != btrue()) extra.push_back(e);
  check_time();
  LabelStat &ls = labels[label];
  ls.checks++;
  if (b == 0) { ls.folded++; return true; }
  std::vector<bid> q = pc;
  q.insert(q.end(), extra.begin(), extra.end());
  q.push_back(bnot(b));
  std::string key = memo_key(q);
  auto it = check_memo.find(key);
  if (it != check_memo.end()) { ls.memo++; return it->second == UNSAT; }
  Model m;
  Res r = full_solve(q, &m);
  check_memo[key] = r;
  if (r == UNSAT) { ls.unsat++; return true; }
  if (r == UNKNOWN) {
    ls.unknown++;
    unres.push_back(Unres{label, detail});
    return false;
  }
  ls.sat++;
  if (viol_per_label[label] < 2) {
    std::vector<bid> r2 = extra, r4 = extra, p2;
    for (auto &e : r2) e = robust_pos(e, 0.01);
    for (auto &e : r4) e = robust_pos(e, 1e-4);
    std::vector<bid> rp2 = robust_path(0.01), rp4 = robust_path(1e-4);
    r2.insert(r2.end(), rp2.begin(), rp2.end());
    r4.insert(r4.end(), rp4.begin(), rp4.end());
    r2.push_back(robust_neg(b, 0.01));
    r4.push_back(robust_neg(b, 1e-4));
    // also: violation robust, path not
    std::vector<Model> none;
    size_t before = viols.size();
    add_violation(label, detail, pc, r2, r4, &m);
    if (viols.size() > before && viols.back().models.size() == 1) {
      std::vector<bid> a = pc;
      a.insert(a.end(), extra.begin(), extra.end());
      a.push_back(robust_neg(b, 0.01));
      if (!try_model(viols.back().models, a, 100, 4)) {
        a.back() = robust_neg(b, 1e-4);
        try_model(viols.back().models, a, 1000, 4);
      }
      std::rotate(viols.back().models.begin(), viols.back().models.begin() + 1, viols.back().models.end());
    }
  } else viol_per_label[label]++;
  return false;
}
void check(const std::string &label, const std::vector<bid> &bs) {
  std::vector<bid> todo;
  for (bid b : bs) {
    if (b == 0) { labels[label].checks++; labels[label].folded++; }
    else todo.push_back(b);
  }
  if (bs.empty()) labels[label].checks++, labels[label].folded++;
  if (todo.size() > 1) {
    bid all = 0;
    for (bid b : todo) all = band(all, b);
    std::vector<bid> q = pc;
    q.push_back(bnot(all));
    Res r;
    std::string key = memo_key(q);
    auto it = check_memo.find(key);
    if (it != check_memo.end() && it->second == UNSAT) { labels[label].checks += static_cast<long>(todo.size()); labels[label].memo += static_cast<long>(todo.size()); return; }
    check_time();
    r = solve(q, std::min(5.0, opt("tmo")), nullptr);
    if (r == UNSAT) {
      check_memo[key] = r;
      labels[label].checks += static_cast<long>(todo.size());
      labels[label].unsat += static_cast<long>(todo.size());
      return;
    }
  }
  for (bid b : todo) one_check(label, b, "", {});
}
void fail(const std::string &label) {
  labels[label].checks++;
  Model m;
  Res r = solve_bounded(pc, opt("bound"), {}, 5, &m);
  if (r == UNKNOWN) r = full_solve(pc, &m);
  if (r == UNSAT) {
    if (solve(pc, 10, &m) != SAT) { labels[label].unsat++; return; }
    r = SAT;
  }
  if (r == UNKNOWN) { labels[label].unknown++; unres.push_back(Unres{label, "path feasibility unknown"}); return; }
  labels[label].sat++;
  add_violation(label, "", pc, robust_path(0.01), robust_path(1e-4), &m);
}
// equalities imposed by the harness: they hold with no margin by construction
static std::set<bid> assumed_eq;
void assume(bid b) {
  b = at0b(b);
  int k = lookup(b);
  if (k == 1) return;
  if (k == 0) throw PathAbort{"assumption"};
  // split conjunctions so that lookups profit
  const size_t n0 = pc.size();
  learn(b);
  for (size_t i = n0; i < pc.size(); ++i) if (rt::is_equality(pc[i])) assumed_eq.insert(pc[i]);
}
void reached(const std::string &label) { reached_n[label]++; }
void observe(const std::string &name, nid v) { obs.emplace_back(name, v); }

void check_jac(const std::string &label, const std::vector<nid> &Y, const std::vector<nid> &X, const std::vector<nid> &J) {
  std::vector<char> skip(X.size(), 0);
  std::vector<std::vector<bid>> pk(X.size());
  for (size_t j = 0; j < X.size(); ++j) {
    for (bid b : pc) {
      if (!bdepends(b, X[j])) continue;
      if (rt::is_equality(b)) skip[j] = 1;
      kinks_bool(b, X[j], pk[j]);
    }
  }
  for (size_t i = 0; i < Y.size(); ++i)
    for (size_t j = 0; j < X.size(); ++j) {
      if (skip[j]) { n_jac_skip++; continue; }
      n_jac++;
      if (rt::is_nan(Y[i]) || rt::is_inf(Y[i])) { n_jac_skip++; continue; }
      nid D = diff(Y[i], X[j]);
      std::vector<bid> ks = pk[j];
      kinks(Y[i], X[j], ks);
      one_check(label, eq(D, J[i * X.size() + j]), "entry (" + std::to_string(i) + "," + std::to_string(j) + ")", ks);
    }
}

// ---------------------------------------------------------------------------
static std::string esc(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (static_cast<unsigned char>(c) < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string num(double v) {
  if (std::isnan(v)) return "\"nan\"";
  if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
static std::string jmodel(const Model &m) {
  std::string s = "{";
  for (auto &kv : m) { if (s.size() > 1) s += ","; s += esc(kv.first) + ":" + num(kv.second); }
  return s + "}";
}
std::set<std::string> encoded_functions();
static void report(const std::string &status) {
  std::ofstream f(out_file);
  f << "{\"case\":" << esc(case_name) << ",\"status\":" << esc(status) << ",\"stop\":" << esc(stop_reason);
  f << ",\"paths\":" << n_paths << ",\"vacuous\":" << n_vacuous << ",\"aborted\":" << n_aborted << ",\"truncated\":" << n_trunc << ",\"decisions\":" << n_dec << ",\"forks\":" << n_fork << ",\"implied\":" << n_implied << ",\"nodes\":" << node_count() << ",\"jac_entries\":" << n_jac << ",\"jac_skipped\":" << n_jac_skip;
  f << ",\"queries\":" << stats.queries << ",\"sat\":" << stats.sat << ",\"unsat\":" << stats.unsat << ",\"unknown\":" << stats.unknown << ",\"cached\":" << stats.cached << ",\"solver_errors\":" << stats.errors << ",\"solver_s\":" << num(stats.time) << ",\"wall_s\":" << num(now() - t_start);
  f << ",\"labels\":{";
  bool first = true;
  for (auto &kv : labels) {
    f << (first ? "" : ",") << esc(kv.first) << ":{\"checks\":" << kv.second.checks << ",\"folded\":" << kv.second.folded << ",\"unsat\":" << kv.second.unsat << ",\"sat\":" << kv.second.sat << ",\"unknown\":" << kv.second.unknown << ",\"memo\":" << kv.second.memo << "}";
    first = false;
  }
  f << "},\"reached\":{";
  first = true;
  for (auto &kv : reached_n) { f << (first ? "" : ",") << esc(kv.first) << ":" << kv.second; first = false; }
  f << "},\"assumptions\":[";
  first = true;
  for (auto &a : assumptions) { f << (first ? "" : ",") << esc(a); first = false; }
  f << "],\"violations\":[";
  first = true;
  for (auto &v : viols) {
    f << (first ? "" : ",") << "{\"label\":" << esc(v.label) << ",\"detail\":" << esc(v.detail) << ",\"models\":[";
    for (size_t i = 0; i < v.models.size(); ++i) f << (i ? "," : "") << jmodel(v.models[i]);
    f << "]}";
    first = false;
  }
  f << "],\"unresolved\":[";
  first = true;
  for (auto &v : unres) { f << (first ? "" : ",") << "{\"label\":" << esc(v.label) << ",\"detail\":" << esc(v.detail) << "}"; first = false; }
  f << "],\"witnesses\":[";
  first = true;
  for (auto &w : wits) {
    f << (first ? "" : ",") << "{\"in\":" << jmodel(w.in) << ",\"margin\":" << num(w.margin) << ",\"uninit\":" << (w.uninit ? "true" : "false") << ",\"obs\":{";
    for (size_t i = 0; i < w.ob.size(); ++i) f << (i ? "," : "") << esc(w.ob[i].first) << ":" << num(w.ob[i].second);
    f << "}}";
    first = false;
  }
  f << "],\"functions\":[";
  first = true;
  for (auto &a : encoded_functions()) { f << (first ? "" : ",") << esc(a); first = false; }
  f << "]}\n";
}

static void on_signal(int sig) {
  signal(sig, SIG_DFL);
  Viol v;
  v.label = std::string("no crash (") + strsignal(sig) + ")";
  Model m;
  if (solve_bounded(pc, 20, {}, 5, &m) == SAT) v.models.push_back(m);
  else if (solve(pc, 10, &m) == SAT) v.models.push_back(m);
  else v.models.push_back(Model());
  viols.push_back(v);
  labels[v.label].checks++;
  labels[v.label].sat++;
  stop_reason = "crash";
  report("crash");
  shutdown();
  _exit(0);
}

static void witness() {
  // a model of the path condition: cross-validation input
  if (static_cast<double>(wits.size()) >= opt("witnesses") && n_paths % 37 != 0) return;
  if (wits.size() > 24) return;
  Model m;
  Res r = solve_bounded(robust_path(0.05), 3, {}, 2, &m);
  if (r != SAT) r = solve_bounded(robust_path(1e-3), 50, {}, 2, &m);
  if (r != SAT) {
    m.clear();
    r = solve(pc, opt("tmo"), &m);
    if (r == UNSAT) { n_vacuous++; return; }
    if (r != SAT) return;
  }
  Wit w;
  w.in = m;
  if (getenv("VERIF_PC")) for (bid b : pc) { double mg; bool okb = eval_bools({b}, m, mg); fprintf(stderr, "PC %d %g %s\n", okb, mg, rt::bstr(b).substr(0, 300).c_str()); }
  std::vector<bid> strict;
  for (bid b : pc) if (!assumed_eq.count(b)) strict.push_back(b);
  eval_bools(strict, m, w.margin);
  std::vector<nid> ids;
  for (auto &o : obs) ids.push_back(o.second);
  std::vector<double> vs = eval_many(ids, m);
  // min margin over the observed terms' own comparisons as well
  w.margin = std::min(w.margin, rt::eval_margin(ids, m));
  w.uninit = uninit_on_path;
  for (size_t i = 0; i < obs.size(); ++i) w.ob.emplace_back(obs[i].first, vs[i]);
  wits.push_back(w);
}

int main_(int argc, char **argv, const std::vector<CaseRef> &cases) {
  std::string name;
  bool list = false;
  double limit = 1e9;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--list") list = true;
    else if (a == "--case") name = argv[++i];
    else if (a == "--tier") tier_ = std::string(argv[++i]) == "thorough";
    else if (a == "--out") out_file = argv[++i];
    else if (a == "--limit") limit = atof(argv[++i]);
    else if (a == "--seed") ++i;
  }
  if (list) {
    for (auto &c : cases) if (c.tier <= tier_) std::cout << c.name << "\n";
    return 0;
  }
  const CaseRef *c = nullptr;
  for (auto &x : cases) if (x.name == name) c = &x;
  if (!c) { std::cerr << "unknown case " << name << "\n"; return 3; }
  case_name = name;
  t_start = now();
  t_limit = t_start + limit;
  if (tier_) { def_options["tmo"] = 30; def_options["hard_tmo"] = 90; }
  signal(SIGPIPE, SIG_IGN);
  stack_t ss;
  ss.ss_sp = malloc(1 << 22);
  ss.ss_size = 1 << 22;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(s, &sa, nullptr);
  }
  work.push_back({});
  std::string status = "done";
  while (!work.empty()) {
    if (n_paths >= opt("max_paths")) { status = "incomplete"; stop_reason = "path bound"; break; }
    prefix = work.back();
    work.pop_back();
    trail.clear();
    trail_v.clear();
    pc.clear();
    assumed_eq.clear();
    truth.clear();
    obs.clear();
    options.clear();
    uninit_on_path = false;
    bool counted = false;
    try {
      c->run();
      n_paths++;
      counted = true;
      witness();
    } catch (const PathAbort &p) {
      n_aborted++;
      if (getenv("VERIF_DEBUG")) std::cerr << "path abort: " << p.why << "\n";
    } catch (const EngineError &e) {
      status = "engine: " + e.what;
      break;
    } catch (const std::exception &e) {
      n_paths++;
      counted = true;
      std::string w = e.what();
      size_t p = w.find("what()");
      for (auto &ch : w) if (ch == '\n') ch = ' ';
      (void)p;
      try {
        fail("no unexpected exception: " + w);
      } catch (const EngineError &e2) { status = "engine: " + e2.what; break; }
    }
    (void)counted;
    if (now() > t_limit) { if (!work.empty()) { status = "incomplete"; stop_reason = "time limit"; } break; }
    long nv = 0;
    for (auto &kv : viol_per_label) nv += kv.second;
    if (nv >= 12) { stop_reason = "enough violations"; break; }
  }
  if (n_trunc) status = "incomplete";
  report(status);
  shutdown();
  return 0;
}

// ---------------------------------------------------------------------------
static const size_t FN = 1 << 16;
static void *fn_tab[FN];
extern "C" void __attribute__((no_instrument_function)) __cyg_profile_func_enter(void *f, void *) {
  size_t h = (reinterpret_cast<uintptr_t>(f) >> 2) * 0x9E3779B97F4A7C15ull >> 48;
  for (size_t i = 0; i < FN; ++i) {
    void *&s = fn_tab[(h + i) & (FN - 1)];
    if (s == f) return;
    if (!s) { s = f; return; }
  }
}
extern "C" void __attribute__((no_instrument_function)) __cyg_profile_func_exit(void *, void *) {}
std::set<std::string> encoded_functions() {
  std::set<std::string> r;
  for (size_t i = 0; i < FN; ++i) if (fn_tab[i]) {
    Dl_info di;
    if (!dladdr(fn_tab[i], &di) || !di.dli_sname) continue;
    int st;
    char *d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
    if (!d) continue;
    std::string s = d;
    free(d);
    size_t p = s.find('(');
    std::string h = s;
    if (h.compare(0, 11, "crocoddyl::") != 0 && h.find(" crocoddyl::") == std::string::npos) continue;
    // strip arguments and the scalar template argument
    std::string o;
    for (size_t k = 0; k < h.size(); ++k) {
      if (h.compare(k, 12, "sy::SymT<0> ") == 0) k += 11;
      else if (h.compare(k, 11, "sy::SymT<0>") == 0) { o += "double"; k += 10; }
      else o += h[k];
    }
    p = o.find('(');
    if (p != std::string::npos && o.compare(p, 10, "(anonymous") != 0) o = o.substr(0, p);
    if (o.find("{lambda") != std::string::npos || o.find("std::") == 0) continue;
    p = o.rfind(" crocoddyl::");
    if (p != std::string::npos) o = o.substr(p + 1);
    r.insert(o);
  }
  return r;
}
}  // namespace ex
}  // namespace sy
