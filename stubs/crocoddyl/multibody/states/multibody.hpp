// Stand-in for the multibody state: a vector state that carries joint sizes.
#ifdef VERIF_REAL_STATE
#include_next <crocoddyl/multibody/states/multibody.hpp>
#elif !defined(VERIF_STUB_STATE_MULTIBODY_HPP_)
#define VERIF_STUB_STATE_MULTIBODY_HPP_
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/multibody/fwd.hpp"
namespace crocoddyl {
template <typename _Scalar>
class StateMultibodyTpl : public StateVectorTpl<_Scalar> {
 public:
  typedef pinocchio::ModelStub PinocchioModel;
  explicit StateMultibodyTpl(std::shared_ptr<PinocchioModel> m) : StateVectorTpl<_Scalar>(2 * size(*m)), m_(m) {}
  const std::shared_ptr<PinocchioModel> &get_pinocchio() const { return m_; }

  template <typename NewScalar> StateMultibodyTpl<NewScalar> cast() const { return StateMultibodyTpl<NewScalar>(m_); }

 private:
  static std::size_t size(const PinocchioModel &m) {
    std::size_t n = 0;
    for (auto &j : m.joints) n += j.nv();
    return n;
  }
  std::shared_ptr<PinocchioModel> m_;
};
}  // namespace crocoddyl
#endif
