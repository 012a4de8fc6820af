// Symbolic scalar that stands for `double` in the symbolic build of /repo.
// A value is a reference to a node of a hash-consed expression DAG over the
// exact reals.  Comparisons that must yield a C++ bool go through
// rt::decide(), which drives path exploration (see runtime.cpp).
#ifndef VERIF_SYM_HPP_
#define VERIF_SYM_HPP_
#include <cmath>
#include <cstdint>
#include <cstring>
#include <iosfwd>
#include <limits>
#include <string>
#include <type_traits>

namespace sy {
template <int K> struct SymT;
}
namespace std {
template <> struct is_floating_point<sy::SymT<0>> : true_type {};
template <> struct is_floating_point<sy::SymT<1>> : true_type {};
template <int K> struct is_signed<sy::SymT<K>> : true_type {};
}  // namespace std
namespace sy {
template <class T> struct is_fp : std::integral_constant<bool, std::is_same<T, double>::value || std::is_same<T, float>::value || std::is_same<T, long double>::value> {};
typedef uint32_t nid;  // arithmetic node
typedef uint32_t bid;  // boolean node

namespace rt {
nid mk_const(double v);
nid mk_const_i(long long v);
nid mk_const_u(unsigned long long v);
nid add(nid a, nid b);
nid sub(nid a, nid b);
nid mul(nid a, nid b);
nid div(nid a, nid b);
nid neg(nid a);
nid fsqrt(nid a);
nid fexp(nid a);
nid flog(nid a);
nid fsin(nid a);
nid fcos(nid a);
nid fpow(nid a, nid b);
nid fabs_(nid a);
nid fmax_(nid a, nid b);
nid fmin_(nid a, nid b);
nid ite(bid c, nid a, nid b);
bid lt(nid a, nid b);
bid le(nid a, nid b);
bid eq(nid a, nid b);
bid bnot(bid a);
bid band(bid a, bid b);
bid bor(bid a, bid b);
bid btrue();
bid bfalse();
bool decide(bid b);
bool is_nan(nid a);
bool is_inf(nid a);
nid uninit(uint64_t raw);
bool is_const(nid a);
double const_val(nid a);
std::string str(nid a);
nid eps();
nid dblmax();
nid dblmin();
nid inf();
nid nan();
nid ffloor(nid a);
void eigen_assert_fail(const char *expr, const char *file, int line);
}  // namespace rt

inline uint32_t tag_of(uint32_t id) { return id == 0 ? 0u : (0x5D1CA000u ^ (id * 2654435761u)); }

template <int K>
struct SymT {
  uint32_t id_;
  uint32_t tag_;
  double cv_;  // value of a constant that was folded at compile time
  static constexpr uint32_t CE_ID = 0xC0DEF01Du, CE_TAG = 0x0DDBA11Cu;
  SymT() = default;
  struct FromId {};
  SymT(FromId, nid i) : id_(i), tag_(tag_of(i)), cv_(0) {}
  template <class T, typename std::enable_if<is_fp<T>::value, int>::type = 0>
  constexpr SymT(T v) : id_(CE_ID), tag_(CE_TAG), cv_(static_cast<double>(v)) {
    if (!__builtin_is_constant_evaluated()) set(rt::mk_const(static_cast<double>(v)));
  }
  template <class T, typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value, int>::type = 0>
  constexpr SymT(T v) : id_(CE_ID), tag_(CE_TAG), cv_(static_cast<double>(v)) {
    if (!__builtin_is_constant_evaluated()) set(rt::mk_const_i(v));
  }
  template <class T, typename std::enable_if<std::is_integral<T>::value && !std::is_signed<T>::value, int>::type = 0>
  constexpr SymT(T v) : id_(CE_ID), tag_(CE_TAG), cv_(static_cast<double>(v)) {
    if (!__builtin_is_constant_evaluated()) set(rt::mk_const_u(v));
  }
  template <class T, typename std::enable_if<std::is_enum<T>::value, int>::type = 0>
  SymT(T v) { set(rt::mk_const_i(static_cast<long long>(v))); }
  template <int J, typename std::enable_if<J != K, int>::type = 0>
  explicit SymT(const SymT<J> &o) { set(o.id()); }
  void set(nid i) { id_ = i; tag_ = tag_of(i); }
  nid id() const {
    if (tag_ == tag_of(id_)) return id_;
    if (id_ == CE_ID && tag_ == CE_TAG) return rt::mk_const(cv_);
    uint64_t raw = (static_cast<uint64_t>(tag_) << 32) | id_;
    return rt::uninit(raw);
  }
  static SymT mk(nid i) { return SymT(FromId(), i); }
  explicit operator double() const { return rt::const_val(id()); }
  explicit operator float() const { return static_cast<float>(rt::const_val(id())); }
  explicit operator int() const { return static_cast<int>(rt::const_val(id())); }
  explicit operator long() const { return static_cast<long>(rt::const_val(id())); }
  explicit operator unsigned long() const { return static_cast<unsigned long>(rt::const_val(id())); }
  explicit operator bool() const { return !rt::decide(rt::eq(id(), 0)); }
  SymT &operator+=(const SymT &o) { set(rt::add(id(), o.id())); return *this; }
  SymT &operator-=(const SymT &o) { set(rt::sub(id(), o.id())); return *this; }
  SymT &operator*=(const SymT &o) { set(rt::mul(id(), o.id())); return *this; }
  SymT &operator/=(const SymT &o) { set(rt::div(id(), o.id())); return *this; }
  SymT operator-() const { return mk(rt::neg(id())); }
  SymT operator+() const { return *this; }
  friend SymT operator+(const SymT &a, const SymT &b) { return mk(rt::add(a.id(), b.id())); }
  friend SymT operator-(const SymT &a, const SymT &b) { return mk(rt::sub(a.id(), b.id())); }
  friend SymT operator*(const SymT &a, const SymT &b) { return mk(rt::mul(a.id(), b.id())); }
  friend SymT operator/(const SymT &a, const SymT &b) { return mk(rt::div(a.id(), b.id())); }
  friend bool operator<(const SymT &a, const SymT &b) { return rt::decide(rt::lt(a.id(), b.id())); }
  friend bool operator>(const SymT &a, const SymT &b) { return rt::decide(rt::lt(b.id(), a.id())); }
  friend bool operator<=(const SymT &a, const SymT &b) { return rt::decide(rt::le(a.id(), b.id())); }
  friend bool operator>=(const SymT &a, const SymT &b) { return rt::decide(rt::le(b.id(), a.id())); }
  friend bool operator==(const SymT &a, const SymT &b) { return rt::decide(rt::eq(a.id(), b.id())); }
  friend bool operator!=(const SymT &a, const SymT &b) { return !rt::decide(rt::eq(a.id(), b.id())); }
  friend SymT sqrt(const SymT &a) { return mk(rt::fsqrt(a.id())); }
  friend SymT exp(const SymT &a) { return mk(rt::fexp(a.id())); }
  friend SymT log(const SymT &a) { return mk(rt::flog(a.id())); }
  friend SymT sin(const SymT &a) { return mk(rt::fsin(a.id())); }
  friend SymT cos(const SymT &a) { return mk(rt::fcos(a.id())); }
  friend SymT tan(const SymT &a) { return mk(rt::div(rt::fsin(a.id()), rt::fcos(a.id()))); }
  friend SymT abs(const SymT &a) { return mk(rt::fabs_(a.id())); }
  friend SymT fabs(const SymT &a) { return mk(rt::fabs_(a.id())); }
  friend SymT abs2(const SymT &a) { return mk(rt::mul(a.id(), a.id())); }
  friend SymT floor(const SymT &a) { return mk(rt::ffloor(a.id())); }
  friend SymT conj(const SymT &a) { return a; }
  friend SymT real(const SymT &a) { return a; }
  friend SymT imag(const SymT &) { return mk(0); }
  friend SymT max(const SymT &a, const SymT &b) { return mk(rt::fmax_(a.id(), b.id())); }
  friend SymT min(const SymT &a, const SymT &b) { return mk(rt::fmin_(a.id(), b.id())); }
  friend SymT pow(const SymT &a, const SymT &b) { return mk(rt::fpow(a.id(), b.id())); }
  friend SymT fmax(const SymT &a, const SymT &b) { return max(a, b); }
  friend SymT fmin(const SymT &a, const SymT &b) { return min(a, b); }
  friend SymT hypot(const SymT &a, const SymT &b) { return sqrt(a * a + b * b); }
  friend SymT fma(const SymT &a, const SymT &b, const SymT &c) { return a * b + c; }
  friend SymT ceil(const SymT &a) { return -floor(-a); }
  friend SymT log1p(const SymT &a) { return log(SymT(1) + a); }
  friend SymT expm1(const SymT &a) { return exp(a) - SymT(1); }
  friend SymT sinh(const SymT &a) { return (exp(a) - exp(-a)) / SymT(2); }
  friend SymT cosh(const SymT &a) { return (exp(a) + exp(-a)) / SymT(2); }
  friend SymT tanh(const SymT &a) { return SymT(1) - SymT(2) / (exp(a + a) + SymT(1)); }
  friend bool signbit(const SymT &a) { return rt::decide(rt::lt(a.id(), 0)); }
  friend SymT copysign(const SymT &a, const SymT &b) { return mk(rt::ite(rt::lt(b.id(), 0), rt::neg(rt::fabs_(a.id())), rt::fabs_(a.id()))); }
  friend bool isnan(const SymT &a) { return rt::is_nan(a.id()); }
  friend bool isinf(const SymT &a) { return rt::is_inf(a.id()); }
  friend bool isfinite(const SymT &a) { return !rt::is_nan(a.id()) && !rt::is_inf(a.id()); }
};
#define SY_F1(f) template <class S> inline S f_##f(const S &a) { return f(a); }
#define SY_F2(f) template <class S> inline S f_##f(const S &a, const S &b) { return f(a, b); }
SY_F1(tan) SY_F1(ceil) SY_F1(log1p) SY_F1(expm1) SY_F1(sinh) SY_F1(cosh) SY_F1(tanh)
SY_F2(fmax) SY_F2(fmin) SY_F2(hypot) SY_F2(copysign)
typedef SymT<0> Sym;
typedef SymT<1> SymF;
template <int K>
inline const SymT<K> &keep(const SymT<K> &v) {  // stable storage for reference-returning functions
  return *new SymT<K>(v);
}
template <class C, class T, int K>
std::basic_ostream<C, T> &operator<<(std::basic_ostream<C, T> &os, const SymT<K> &s) { os << rt::str(s.id()).c_str(); return os; }
}  // namespace sy

namespace std {
template <int K>
class sym_limits {
 public:
  typedef sy::SymT<K> S;
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false;
  static constexpr bool has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false;
  static constexpr bool is_iec559 = true, is_bounded = true, is_modulo = false, traps = false, tinyness_before = false;
  static constexpr float_denorm_style has_denorm = denorm_present;
  static constexpr bool has_denorm_loss = false;
  static constexpr float_round_style round_style = round_to_nearest;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2;
  static constexpr int min_exponent = -1021, min_exponent10 = -307, max_exponent = 1024, max_exponent10 = 308;
  static S min() { return S::mk(sy::rt::dblmin()); }
  static S max() { return S::mk(sy::rt::dblmax()); }
  static S lowest() { return S::mk(sy::rt::neg(sy::rt::dblmax())); }
  static S epsilon() { return S::mk(sy::rt::eps()); }
  static S infinity() { return S::mk(sy::rt::inf()); }
  static S quiet_NaN() { return S::mk(sy::rt::nan()); }
  static S round_error() { return S(0.5); }
};
template <> class numeric_limits<sy::Sym> : public sym_limits<0> {};
template <> class numeric_limits<sy::SymF> : public sym_limits<1> {};
template <> class numeric_limits<const sy::Sym> : public sym_limits<0> {};
template <> class numeric_limits<const sy::SymF> : public sym_limits<1> {};
template <int K> inline bool isnan(const sy::SymT<K> &a) { return sy::rt::is_nan(a.id()); }
template <int K> inline bool isinf(const sy::SymT<K> &a) { return sy::rt::is_inf(a.id()); }
template <int K> inline bool isfinite(const sy::SymT<K> &a) { return !sy::rt::is_nan(a.id()) && !sy::rt::is_inf(a.id()); }
template <int K> inline sy::SymT<K> sqrt(const sy::SymT<K> &a) { return sy::SymT<K>::mk(sy::rt::fsqrt(a.id())); }
template <int K> inline sy::SymT<K> exp(const sy::SymT<K> &a) { return sy::SymT<K>::mk(sy::rt::fexp(a.id())); }
template <int K> inline sy::SymT<K> log(const sy::SymT<K> &a) { return sy::SymT<K>::mk(sy::rt::flog(a.id())); }
template <int K> inline sy::SymT<K> sin(const sy::SymT<K> &a) { return sy::SymT<K>::mk(sy::rt::fsin(a.id())); }
template <int K> inline sy::SymT<K> cos(const sy::SymT<K> &a) { return sy::SymT<K>::mk(sy::rt::fcos(a.id())); }
template <int K> inline sy::SymT<K> abs(const sy::SymT<K> &a) { return sy::SymT<K>::mk(sy::rt::fabs_(a.id())); }
template <int K> inline sy::SymT<K> fabs(const sy::SymT<K> &a) { return sy::SymT<K>::mk(sy::rt::fabs_(a.id())); }
template <int K> inline sy::SymT<K> floor(const sy::SymT<K> &a) { return sy::SymT<K>::mk(sy::rt::ffloor(a.id())); }
template <int K> inline sy::SymT<K> pow(const sy::SymT<K> &a, const sy::SymT<K> &b) { return sy::SymT<K>::mk(sy::rt::fpow(a.id(), b.id())); }
template <int K, class T, typename enable_if<is_arithmetic<T>::value, int>::type = 0>
inline sy::SymT<K> pow(const sy::SymT<K> &a, T b) { return sy::SymT<K>::mk(sy::rt::fpow(a.id(), sy::SymT<K>(b).id())); }
template <int K, class T, typename enable_if<is_arithmetic<T>::value, int>::type = 0>
inline sy::SymT<K> pow(T a, const sy::SymT<K> &b) { return sy::SymT<K>::mk(sy::rt::fpow(sy::SymT<K>(a).id(), b.id())); }
#define SY_STD1(f) template <int K> inline sy::SymT<K> f(const sy::SymT<K> &a) { return sy::f_##f(a); }
#define SY_STD2(f) \
  template <int K> inline sy::SymT<K> f(const sy::SymT<K> &a, const sy::SymT<K> &b) { return sy::f_##f(a, b); } \
  template <int K, class T, typename enable_if<is_arithmetic<T>::value, int>::type = 0> inline sy::SymT<K> f(const sy::SymT<K> &a, T b) { return sy::f_##f(a, sy::SymT<K>(b)); } \
  template <int K, class T, typename enable_if<is_arithmetic<T>::value, int>::type = 0> inline sy::SymT<K> f(T a, const sy::SymT<K> &b) { return sy::f_##f(sy::SymT<K>(a), b); }
SY_STD1(tan) SY_STD1(ceil) SY_STD1(log1p) SY_STD1(expm1) SY_STD1(sinh) SY_STD1(cosh) SY_STD1(tanh)
SY_STD2(fmax) SY_STD2(fmin) SY_STD2(hypot) SY_STD2(copysign)
#define SY_MM(f) \
  template <int K, class T, typename enable_if<is_arithmetic<T>::value && !is_class<T>::value, int>::type = 0> inline sy::SymT<K> f(const sy::SymT<K> &a, T b) { return sy::f_f##f(a, sy::SymT<K>(b)); } \
  template <int K, class T, typename enable_if<is_arithmetic<T>::value && !is_class<T>::value, int>::type = 0> inline sy::SymT<K> f(T a, const sy::SymT<K> &b) { return sy::f_f##f(sy::SymT<K>(a), b); }
SY_MM(max) SY_MM(min)
template <int K, class A, class B, typename enable_if<is_arithmetic<A>::value || is_arithmetic<B>::value, int>::type = 0>
inline sy::SymT<K> clamp(const sy::SymT<K> &x, const A &a, const B &b) { return sy::f_fmin(sy::f_fmax(x, sy::SymT<K>(a)), sy::SymT<K>(b)); }
template <int K> inline bool signbit(const sy::SymT<K> &a) { return sy::rt::decide(sy::rt::lt(a.id(), 0)); }
template <int K> inline sy::SymT<K> fma(const sy::SymT<K> &a, const sy::SymT<K> &b, const sy::SymT<K> &c) { return a * b + c; }
template <> inline const sy::Sym &max<sy::Sym>(const sy::Sym &a, const sy::Sym &b) { return sy::keep(sy::Sym::mk(sy::rt::fmax_(a.id(), b.id()))); }
template <> inline const sy::Sym &min<sy::Sym>(const sy::Sym &a, const sy::Sym &b) { return sy::keep(sy::Sym::mk(sy::rt::fmin_(a.id(), b.id()))); }
template <> inline const sy::SymF &max<sy::SymF>(const sy::SymF &a, const sy::SymF &b) { return sy::keep(sy::SymF::mk(sy::rt::fmax_(a.id(), b.id()))); }
template <> inline const sy::SymF &min<sy::SymF>(const sy::SymF &a, const sy::SymF &b) { return sy::keep(sy::SymF::mk(sy::rt::fmin_(a.id(), b.id()))); }
template <int K> inline string to_string(const sy::SymT<K> &a) { return sy::rt::str(a.id()); }
}  // namespace std
#endif
