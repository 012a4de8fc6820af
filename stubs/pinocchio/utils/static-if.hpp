// Stand-in for the header of the same name of pinocchio (not installed here):
// same meaning of if_then_else for ordinary scalars.
#ifndef VERIF_STUB_STATIC_IF_HPP_
#define VERIF_STUB_STATIC_IF_HPP_
namespace pinocchio {
namespace internal {
enum ComparisonOperators { LT, LE, EQ, GE, GT };
#ifdef VERIF_SYMBOLIC
template <int K, class A, class B>
inline sy::SymT<K> if_then_else(const ComparisonOperators op, const sy::SymT<K> &l, const sy::SymT<K> &r, const A &t, const B &e) {
  typedef sy::SymT<K> S;
  using namespace sy::rt;
  sy::bid c = 0;
  switch (op) {
    case LT: c = lt(l.id(), r.id()); break;
    case LE: c = le(l.id(), r.id()); break;
    case EQ: c = eq(l.id(), r.id()); break;
    case GE: c = le(r.id(), l.id()); break;
    default: c = lt(r.id(), l.id()); break;
  }
  return S::mk(ite(c, S(t).id(), S(e).id()));
}
#else
template <class S, class A, class B>
inline S if_then_else(const ComparisonOperators op, const S &l, const S &r, const A &t, const B &e) {
  switch (op) {
    case LT: return l < r ? S(t) : S(e);
    case LE: return l <= r ? S(t) : S(e);
    case EQ: return l == r ? S(t) : S(e);
    case GE: return l >= r ? S(t) : S(e);
    default: return l > r ? S(t) : S(e);
  }
}
#endif
}  // namespace internal
}  // namespace pinocchio
#endif
