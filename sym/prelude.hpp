// Force-included in front of every translation unit of the symbolic build.
// All system headers that /repo uses are included first (with the real
// `double`); then `double` becomes the symbolic scalar for /repo's own text.
#ifndef VERIF_PRELUDE_HPP_
#define VERIF_PRELUDE_HPP_
#include "sym/sym.hpp"
#define EIGEN_DONT_VECTORIZE
#define EIGEN_DONT_PARALLELIZE
namespace Eigen { }
namespace sy { namespace rt { void eigen_assert_fail(const char *, const char *, int); } }
#define eigen_assert(x) do { if (!(x)) ::sy::rt::eigen_assert_fail(#x, __FILE__, __LINE__); } while (false)
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <ostream>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sys/time.h>
#include <boost/core/demangle.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
namespace Eigen {
template <int K>
struct NumTraits<sy::SymT<K>> : GenericNumTraits<sy::SymT<K>> {
  typedef sy::SymT<K> Real;
  typedef sy::SymT<K> NonInteger;
  typedef sy::SymT<K> Nested;
  typedef sy::SymT<K> Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 1, MulCost = 1 };
  static inline Real epsilon() { return Real::mk(sy::rt::eps()); }
  static inline Real dummy_precision() { return Real(1e-12); }
  static inline Real highest() { return Real::mk(sy::rt::dblmax()); }
  static inline Real lowest() { return Real::mk(sy::rt::neg(sy::rt::dblmax())); }
  static inline Real infinity() { return Real::mk(sy::rt::inf()); }
  static inline Real quiet_NaN() { return Real::mk(sy::rt::nan()); }
  static inline int digits10() { return 15; }
  static inline int digits() { return 53; }
};
// comparison functors inside numext must not need specialisation

#define VERIF_MT(Size, Suffix)                                   \
  typedef Matrix<sy::Sym, Size, Size> Matrix##Suffix##Sy_;       \
  typedef Matrix<sy::Sym, Size, 1> Vector##Suffix##Sy_;          \
  typedef Matrix<sy::Sym, 1, Size> RowVector##Suffix##Sy_;
VERIF_MT(2, 2) VERIF_MT(3, 3) VERIF_MT(4, 4) VERIF_MT(Dynamic, X)
typedef Array<sy::Sym, Dynamic, 1> ArrayXSy_;
typedef Matrix<sy::Sym, 6, 1> Vector6Sy_;
typedef Quaternion<sy::Sym> QuaternionSy_;
namespace internal {
template <int K> struct cast_impl<sy::SymT<K>, double> { static inline double run(const sy::SymT<K> &x) { return static_cast<double>(x); } };
}
}  // namespace Eigen
#include <Eigen/Cholesky>
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/QR>
#include <Eigen/SVD>
#include <Eigen/StdVector>
#include <Eigen/SparseCore>
#include <unsupported/Eigen/MatrixFunctions>
#include "verif_stubs.hpp"

#define VectorXd VectorXSy_
#define MatrixXd MatrixXSy_
#define RowVectorXd RowVectorXSy_
#define Vector2d Vector2Sy_
#define Vector3d Vector3Sy_
#define Vector4d Vector4Sy_
#define Matrix2d Matrix2Sy_
#define Matrix3d Matrix3Sy_
#define Matrix4d Matrix4Sy_
#define ArrayXd ArrayXSy_
#define Quaterniond QuaternionSy_
typedef ::sy::Sym VerifSym;
#define double VerifSym
#include "crocoddyl/core/macros.hpp"
#include "sym/macros_override.hpp"
#endif
