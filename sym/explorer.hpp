// Path exploration and the check pipeline (engine side, real `double`).
#ifndef VERIF_EXPLORER_HPP_
#define VERIF_EXPLORER_HPP_
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "runtime.hpp"
namespace sy {
namespace ex {
void assume(bid b);
void check(const std::string &label, const std::vector<bid> &bs);
void fail(const std::string &label);
void reached(const std::string &label);
void observe(const std::string &name, nid v);
void check_jac(const std::string &label, const std::vector<nid> &Y, const std::vector<nid> &X, const std::vector<nid> &J);
void set_option(const std::string &name, double v);
struct CaseRef {
  std::string name;
  int tier;
  std::function<void()> run;
};
int main_(int argc, char **argv, const std::vector<CaseRef> &cases);
}  // namespace ex
}  // namespace sy
#endif
