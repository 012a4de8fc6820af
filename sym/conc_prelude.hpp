// Force-included in the concrete (real double) build.
#ifndef VERIF_CONC_PRELUDE_HPP_
#define VERIF_CONC_PRELUDE_HPP_
void verif_eigen_assert_fail(const char *, const char *, int);
#define eigen_assert(x) do { if (!(x)) ::verif_eigen_assert_fail(#x, __FILE__, __LINE__); } while (false)
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <vector>
#include <boost/core/demangle.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
#include <Eigen/Dense>
#include "crocoddyl/core/macros.hpp"
#include "sym/macros_override.hpp"
#endif
