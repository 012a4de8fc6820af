#ifndef VERIF_RUNTIME_HPP_
#define VERIF_RUNTIME_HPP_
#include <map>
#include <string>
#include <vector>
#include "sym.hpp"
namespace sy {
namespace rt {
enum Res { SAT, UNSAT, UNKNOWN };
struct Stats {
  long queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, errors = 0;
  double time = 0;
};
extern Stats stats;
struct EngineError { std::string what; };
struct PathAbort { std::string why; };
[[noreturn]] inline void engine_error(const std::string &s) { throw EngineError{s}; }
double opt(const std::string &name);
void assume_implicit(bid b, const char *why);
int known(bid b);  // 1/0 when decided on the current path, -1 otherwise
nid mk_var(const std::string &name);
nid var_of(const std::string &name);
nid diff(nid y, nid x);
nid at0(nid y);  // at zero perturbations
bid at0b(bid c);
bool depends(nid y, nid x);
bool bdepends(bid c, nid x);
void kinks(nid y, nid x, std::vector<bid> &out);
void kinks_bool(bid c, nid x, std::vector<bid> &out);
double eval(nid a, const std::map<std::string, double> &m);
std::vector<double> eval_many(const std::vector<nid> &as, const std::map<std::string, double> &m);
bool eval_bools(const std::vector<bid> &bs, const std::map<std::string, double> &m, double &margin);
double default_value(const std::string &name);
Res solve(std::vector<bid> as, double tmo, std::map<std::string, double> *model);
Res solve_bounded(const std::vector<bid> &as, double bound, const std::map<std::string, double> &fix, double tmo, std::map<std::string, double> *model);
Res solve_hard(const std::vector<bid> &as, int which, double tmo, std::map<std::string, double> *model);
std::vector<std::string> formula_inputs(const std::vector<bid> &as);
bid robust_neg(bid b, double delta);
bid robust_pos(bid b, double delta);
bool is_equality(bid b);
double eval_margin(const std::vector<nid> &as, const std::map<std::string, double> &m);
std::string bstr(bid b);
size_t node_count();
void shutdown();
}  // namespace rt
}  // namespace sy
#endif
