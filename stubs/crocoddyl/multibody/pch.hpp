// Stand-in: pinocchio is not installed here. Only what the multibody files
// that the harnesses compile need from it.
#ifndef VERIF_STUB_MULTIBODY_PCH_HPP_
#define VERIF_STUB_MULTIBODY_PCH_HPP_
#include <functional>
#include <stdexcept>
#include <Eigen/Dense>
#include <ostream>
#include <string>
#include <vector>
namespace pinocchio {
typedef std::size_t FrameIndex;
typedef std::size_t JointIndex;
namespace quaternion {
template <typename Q, typename M> void assignQuaternion(Q &, const M &) {}
}
enum ReferenceFrame { WORLD = 0, LOCAL = 1, LOCAL_WORLD_ALIGNED = 2 };
namespace container {
template <typename T> using aligned_vector = std::vector<T, Eigen::aligned_allocator<T>>;
}
template <typename _Scalar>
struct ForceTpl {
  typedef Eigen::Matrix<_Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<_Scalar, 6, 1> Vector6;
  Vector6 d;
  ForceTpl() {}
  explicit ForceTpl(const Vector6 &v) : d(v) {}
  ForceTpl(const Vector3 &l, const Vector3 &a) { d << l, a; }
  static ForceTpl Zero() { return ForceTpl(Vector6(Vector6::Zero())); }
  void setZero() { d.setZero(); }
  Eigen::VectorBlock<Vector6, 3> linear() { return d.template head<3>(); }
  Eigen::VectorBlock<Vector6, 3> angular() { return d.template tail<3>(); }
  Vector3 linear() const { return d.template head<3>(); }
  Vector3 angular() const { return d.template tail<3>(); }
  const Vector6 &toVector() const { return d; }
  Vector6 &toVector() { return d; }
  ForceTpl operator+(const ForceTpl &o) const { return ForceTpl(Vector6(d + o.d)); }
  ForceTpl operator-(const ForceTpl &o) const { return ForceTpl(Vector6(d - o.d)); }
  ForceTpl operator-() const { return ForceTpl(Vector6(-d)); }
  ForceTpl &operator+=(const ForceTpl &o) { d += o.d; return *this; }
  ForceTpl &operator-=(const ForceTpl &o) { d -= o.d; return *this; }
  bool operator==(const ForceTpl &o) const { return d == o.d; }
  template <typename NewScalar> ForceTpl<NewScalar> cast() const { return ForceTpl<NewScalar>(Eigen::Matrix<NewScalar, 6, 1>(d.template cast<NewScalar>())); }
  friend std::ostream &operator<<(std::ostream &os, const ForceTpl &) { return os; }
};
template <typename _Scalar>
struct MotionTpl {
  typedef Eigen::Matrix<_Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<_Scalar, 6, 1> Vector6;
  Vector6 d;
  MotionTpl() {}
  explicit MotionTpl(const Vector6 &v) : d(v) {}
  MotionTpl(const Vector3 &l, const Vector3 &a) { d << l, a; }
  static MotionTpl Zero() { return MotionTpl(Vector6(Vector6::Zero())); }
  void setZero() { d.setZero(); }
  Eigen::VectorBlock<Vector6, 3> linear() { return d.template head<3>(); }
  Eigen::VectorBlock<Vector6, 3> angular() { return d.template tail<3>(); }
  Eigen::VectorBlock<const Vector6, 3> linear() const { return d.template head<3>(); }
  Eigen::VectorBlock<const Vector6, 3> angular() const { return d.template tail<3>(); }
  const Vector6 &toVector() const { return d; }
  Vector6 &toVector() { return d; }
  MotionTpl operator+(const MotionTpl &o) const { return MotionTpl(Vector6(d + o.d)); }
  MotionTpl operator-(const MotionTpl &o) const { return MotionTpl(Vector6(d - o.d)); }
  MotionTpl &operator+=(const MotionTpl &o) { d += o.d; return *this; }
  MotionTpl &operator-=(const MotionTpl &o) { d -= o.d; return *this; }
  friend MotionTpl operator*(const _Scalar &s, const MotionTpl &m) { return MotionTpl(Vector6(s * m.d)); }
  MotionTpl operator*(const _Scalar &s) const { return MotionTpl(Vector6(s * d)); }
  template <typename NewScalar> MotionTpl<NewScalar> cast() const { return MotionTpl<NewScalar>(Eigen::Matrix<NewScalar, 6, 1>(d.template cast<NewScalar>())); }
  friend std::ostream &operator<<(std::ostream &os, const MotionTpl &) { return os; }
};
template <typename _Scalar>
struct SE3Tpl {
  typedef Eigen::Matrix<_Scalar, 6, 6> ActionMatrixType;
  typedef Eigen::Quaternion<_Scalar> Quaternion;
  SE3Tpl inverse() const { return SE3Tpl(R.transpose(), Vector3(-(R.transpose() * p))); }
  ForceTpl<_Scalar> act(const ForceTpl<_Scalar> &f) const {
    const Vector3 l = R * f.linear();
    return ForceTpl<_Scalar>(l, Vector3(R * f.angular() + p.cross(l)));
  }
  ForceTpl<_Scalar> actInv(const ForceTpl<_Scalar> &f) const { return inverse().act(f); }
  MotionTpl<_Scalar> act(const MotionTpl<_Scalar> &m) const {
    const Vector3 w = R * m.angular();
    return MotionTpl<_Scalar>(Vector3(R * m.linear() + p.cross(w)), w);
  }
  MotionTpl<_Scalar> actInv(const MotionTpl<_Scalar> &m) const { return inverse().act(m); }
  SE3Tpl act(const SE3Tpl &o) const { return SE3Tpl(Matrix3(R * o.R), Vector3(p + R * o.p)); }
  SE3Tpl actInv(const SE3Tpl &o) const { return inverse().act(o); }
  SE3Tpl operator*(const SE3Tpl &o) const { return act(o); }
  ActionMatrixType toActionMatrix() const {
    ActionMatrixType X = ActionMatrixType::Zero();
    X.template topLeftCorner<3, 3>() = X.template bottomRightCorner<3, 3>() = R;
    for (int j = 0; j < 3; ++j) X.template block<3, 1>(0, 3 + j) = p.cross(R.col(j));
    return X;
  }
  typedef Eigen::Matrix<_Scalar, 3, 3> Matrix3;
  typedef Eigen::Matrix<_Scalar, 3, 1> Vector3;
  Matrix3 R;
  Vector3 p;
  SE3Tpl() {}
  SE3Tpl(const Matrix3 &R_, const Vector3 &p_) : R(R_), p(p_) {}
  static SE3Tpl Identity() { return SE3Tpl(Matrix3::Identity(), Vector3::Zero()); }
  const Matrix3 &rotation() const { return R; }
  const Vector3 &translation() const { return p; }
  void rotation(const Matrix3 &R_) { R = R_; }
  void translation(const Vector3 &p_) { p = p_; }
  bool operator==(const SE3Tpl &o) const { return R == o.R && p == o.p; }
  template <typename NewScalar> SE3Tpl<NewScalar> cast() const { return SE3Tpl<NewScalar>(R.template cast<NewScalar>(), p.template cast<NewScalar>()); }
  friend std::ostream &operator<<(std::ostream &os, const SE3Tpl &) { return os; }
};
struct JointStub {
  int nv_;
  int nq_ = -1;
  int nv() const { return nv_; }
  int nq() const { return nq_ < 0 ? nv_ : nq_; }
};
enum ArgumentPosition { ARG0 = 0, ARG1 = 1 };
enum AssignmentOperatorType { SETTO, ADDTO, RMTO };
// configuration manifold, chosen by the harness
struct Manifold {
  typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> Mat;
  typedef Eigen::Matrix<double, Eigen::Dynamic, 1> Vec;
  Vec neutral;
  std::function<Vec(const Vec &, const Vec &)> difference, integrate;
  std::function<Mat(const Vec &, const Vec &, int)> dDifference, dIntegrate;
  std::function<Mat(const Vec &, const Vec &, const Mat &, int)> transport;
};
struct FrameStub {
  JointIndex parentJoint;
  SE3Tpl<double> placement;
  std::string name;
};
// A robot to first order around q0 (velocities and accelerations enter linearly):
// M(q) a + g(q) + C(q) v - sum_j J_j(q)^T f_j, with f_j the first component of
// the external force of joint j.
struct Terms {
  typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> Mat;
  typedef Eigen::Matrix<double, Eigen::Dynamic, 1> Vec;
  Vec q0, g;
  Mat M, C, Gq;
  std::vector<Mat> Mq, Cq;             // per coordinate
  std::vector<Vec> J;                  // per joint
  std::vector<std::vector<Vec>> Jq;    // per joint, per coordinate
  Mat Mat_at(const Mat &A, const std::vector<Mat> &D, const Vec &q) const {
    Mat R = A;
    for (std::size_t k = 0; k < D.size(); ++k) R += D[k] * (q((long)k) - q0((long)k));
    return R;
  }
  Mat M_at(const Vec &q) const { return Mat_at(M, Mq, q); }
  Mat C_at(const Vec &q) const { return Mat_at(C, Cq, q); }
  Vec g_at(const Vec &q) const { return g + Gq * (q - q0); }
  Vec J_at(std::size_t j, const Vec &q) const {
    Vec R = J[j];
    for (std::size_t k = 0; k < Jq[j].size(); ++k) R += Jq[j][k] * (q((long)k) - q0((long)k));
    return R;
  }
  static double det(const Mat &A) {
    if (A.rows() == 0) return 1;
    if (A.rows() == 1) return A(0, 0);
    double s = 0;
    for (long j = 0; j < A.cols(); ++j) {
      const double m = A(0, j) * det(minor_(A, 0, j));
      if (j % 2) s = s - m; else s = s + m;
    }
    return s;
  }
  static Mat minor_(const Mat &A, long r, long c) {
    Mat B(A.rows() - 1, A.cols() - 1);
    for (long i = 0, k = 0; i < A.rows(); ++i) {
      if (i == r) continue;
      for (long j = 0, l = 0; j < A.cols(); ++j) if (j != c) B(k, l++) = A(i, j);
      ++k;
    }
    return B;
  }
  static Mat inverse(const Mat &A) {
    Mat B(A.rows(), A.cols());
    const double d = det(A);
    for (long i = 0; i < A.rows(); ++i) for (long j = 0; j < A.cols(); ++j) {
      const double m = A.rows() == 1 ? double(1) : det(minor_(A, j, i));
      B(i, j) = ((i + j) % 2 ? -m : m) / d;
    }
    return B;
  }
};
struct ModelStub {
  int njoints = 0, nframes = 0, nq = 0, nv = 0;
  std::vector<int> idx_vs, nvs;
  Manifold manifold;
  Eigen::Matrix<double, Eigen::Dynamic, 1> lowerPositionLimit, upperPositionLimit, velocityLimit;
  template <typename NewScalar> ModelStub cast() const { return *this; }
  friend std::ostream &operator<<(std::ostream &os, const ModelStub &) { return os; }
  Terms terms;
  MotionTpl<double> gravity = MotionTpl<double>::Zero();
  std::vector<Eigen::Matrix<double, 6, Eigen::Dynamic>> static_J;
  Eigen::Matrix<double, Eigen::Dynamic, 1> effortLimit;
  std::vector<FrameStub> frames;
  std::vector<JointStub> joints;
  std::vector<std::string> names;
  bool existJointName(const std::string &n) const { return getJointId(n) < names.size(); }
  JointIndex getJointId(const std::string &n) const {
    for (std::size_t i = 0; i < names.size(); ++i) if (names[i] == n) return i;
    return names.size();
  }
};
// What the harness says about the motion of a frame and of a joint.
template <typename _Scalar>
struct FrameMotion {
  SE3Tpl<_Scalar> oMf;
  Eigen::Matrix<_Scalar, 6, Eigen::Dynamic> J;  // local frame
  MotionTpl<_Scalar> v, a;                      // local frame, spatial
  Eigen::Matrix<_Scalar, 6, Eigen::Dynamic> Vq; // local frame, derivative of v
};
template <typename _Scalar>
struct JointMotion {
  Eigen::Matrix<_Scalar, 6, Eigen::Dynamic> Vq, Vv, Aq, Av, Aa;  // local joint frame
};
template <typename S> struct ModelOf { typedef ModelStub type; };
template <typename S> using ModelTpl = typename ModelOf<S>::type;
template <typename _Scalar>
struct DataTpl {
  DataTpl() {}
  explicit DataTpl(const ModelStub &m) {
    const long n = m.terms.M.rows();
    M = Minv = dtau_dq = dtau_dv = MatrixXs::Zero(n, n);
    nle = ddq = dq_after = tau = q = v = a = VectorXs::Zero(n);
  }
  typedef Eigen::Matrix<_Scalar, Eigen::Dynamic, 1> VectorXs;
  Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> M, Minv, dtau_dv, decomposed;
  VectorXs nle, ddq, lambda_c, dq_after, impulse_c, tau;
  VectorXs q, v, a;  // of the last kinematics pass
  _Scalar damping = _Scalar(0);
  typedef Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> MatrixXs;
  MatrixXs dtau_dq;
  std::vector<SE3Tpl<_Scalar>> oMf;
  typedef Eigen::Matrix<_Scalar, 3, 1> Vector3;
  std::vector<Vector3> com, vcom;
  Eigen::Matrix<_Scalar, 3, Eigen::Dynamic> Jcom;
  ForceTpl<_Scalar> hg;
  VectorXs g;
  std::vector<FrameMotion<_Scalar>> frame_motion;
  std::vector<JointMotion<_Scalar>> joint_motion;
};
template <typename S>
void updateFramePlacement(const ModelStub &, DataTpl<S> &d, FrameIndex id) {
  d.oMf.at(id) = d.frame_motion.at(id).oMf;
}
template <typename S, typename M>
void getFrameJacobian(const ModelStub &, DataTpl<S> &d, FrameIndex id, ReferenceFrame rf, M &J) {
  const FrameMotion<S> &k = d.frame_motion.at(id);
  SE3Tpl<S> X = SE3Tpl<S>::Identity();
  if (rf != LOCAL) X.R = k.oMf.R;
  if (rf == WORLD) X.p = k.oMf.p;
  J = X.toActionMatrix() * k.J;
}
template <typename S>
MotionTpl<S> in_frame(const FrameMotion<S> &k, const MotionTpl<S> &m, ReferenceFrame rf) {
  SE3Tpl<S> X = SE3Tpl<S>::Identity();
  if (rf != LOCAL) X.R = k.oMf.R;
  if (rf == WORLD) X.p = k.oMf.p;
  return rf == LOCAL ? m : X.act(m);
}
template <typename S>
MotionTpl<S> getFrameVelocity(const ModelStub &, const DataTpl<S> &d, FrameIndex id, ReferenceFrame rf = LOCAL) {
  return in_frame(d.frame_motion.at(id), d.frame_motion.at(id).v, rf);
}
template <typename S>
MotionTpl<S> getFrameAcceleration(const ModelStub &, const DataTpl<S> &d, FrameIndex id, ReferenceFrame rf = LOCAL) {
  return in_frame(d.frame_motion.at(id), d.frame_motion.at(id).a, rf);
}
template <typename S>
MotionTpl<S> getFrameClassicalAcceleration(const ModelStub &, const DataTpl<S> &d, FrameIndex id, ReferenceFrame rf = LOCAL) {
  const FrameMotion<S> &k = d.frame_motion.at(id);
  typedef typename MotionTpl<S>::Vector3 V3;
  const V3 l = k.a.linear() + V3(k.v.angular()).cross(V3(k.v.linear()));
  return in_frame(k, MotionTpl<S>(l, V3(k.a.angular())), rf);
}
template <typename S, typename A, typename B, typename C, typename D>
void getJointAccelerationDerivatives(const ModelStub &, const DataTpl<S> &d, JointIndex id, ReferenceFrame rf, A &Vq, B &Aq, C &Av, D &Aa) {
  if (rf != LOCAL) throw std::logic_error("stand-in: only local");
  const JointMotion<S> &k = d.joint_motion.at(id);
  Vq = k.Vq; Aq = k.Aq; Av = k.Av; Aa = k.Aa;
}
template <typename S, typename A, typename B>
void getJointVelocityDerivatives(const ModelStub &, const DataTpl<S> &d, JointIndex id, ReferenceFrame rf, A &Vq, B &Vv) {
  if (rf != LOCAL) throw std::logic_error("stand-in: only local");
  const JointMotion<S> &k = d.joint_motion.at(id);
  Vq = k.Vq; Vv = k.Vv;
}
template <typename V, typename M>
void skew(const Eigen::MatrixBase<V> &v, const Eigen::MatrixBase<M> &m_) {
  M &m = const_cast<M &>(m_.derived());
  const Eigen::Matrix<typename V::Scalar, 3, 1> a = v;
  m(0, 0) = m(1, 1) = m(2, 2) = typename V::Scalar(0);
  m(0, 1) = -a(2); m(1, 0) = a(2);
  m(0, 2) = a(1); m(2, 0) = -a(1);
  m(1, 2) = -a(0); m(2, 1) = a(0);
}
// some function of the placement, chosen by the harness
template <typename S>
struct Log6 {
  static std::function<Eigen::Matrix<S, 6, 1>(const SE3Tpl<S> &)> &f() { static std::function<Eigen::Matrix<S, 6, 1>(const SE3Tpl<S> &)> g; return g; }
  static std::function<Eigen::Matrix<S, 6, 6>(const SE3Tpl<S> &)> &J() { static std::function<Eigen::Matrix<S, 6, 6>(const SE3Tpl<S> &)> g; return g; }
};
template <typename S> MotionTpl<S> log6(const SE3Tpl<S> &M) { return MotionTpl<S>(Log6<S>::f()(M)); }
template <typename S, typename M6> void Jlog6(const SE3Tpl<S> &M, const Eigen::MatrixBase<M6> &J) { const_cast<M6 &>(J.derived()) = Log6<S>::J()(M); }
// ---- dynamics of the first-order robot, as Pinocchio documents them ----
template <typename S> struct Dyn {
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Mat;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> Vec;
};
template <typename S, typename Q, typename V, typename A>
void kinematics_(DataTpl<S> &d, const Q &q, const V &v, const A &a) { d.q = q; d.v = v; d.a = a; }
template <typename S> void set_upper_(DataTpl<S> &d, const typename Dyn<S>::Mat &M) {
  for (long i = 0; i < M.rows(); ++i) for (long j = i; j < M.cols(); ++j) d.M(i, j) = M(i, j);
}
template <typename S> typename Dyn<S>::Mat full_(const typename Dyn<S>::Mat &M) {
  typename Dyn<S>::Mat R = M;
  for (long i = 0; i < M.rows(); ++i) for (long j = 0; j < i; ++j) R(i, j) = M(j, i);
  return R;
}
template <typename S, typename Q, typename V>
void computeAllTerms(const ModelStub &m, DataTpl<S> &d, const Q &q_, const V &v_) {
  const typename Dyn<S>::Vec q = q_, v = v_;
  kinematics_(d, q, v, Dyn<S>::Vec::Zero(v.size()));
  set_upper_(d, m.terms.M_at(q));
  d.nle = m.terms.g_at(q) + m.terms.C_at(q) * v;
}
template <typename S> void computeCentroidalMomentum(const ModelStub &, DataTpl<S> &) {}
template <typename S> void updateGlobalPlacements(const ModelStub &, DataTpl<S> &) {}
template <typename S> void computeJointJacobians(const ModelStub &, DataTpl<S> &) {}
template <typename S, typename Q> void computeJointJacobians(const ModelStub &, DataTpl<S> &, const Q &) {}
template <typename S, typename Q, typename V, typename A> void centerOfMass(const ModelStub &, DataTpl<S> &, const Q &, const V &, const A &) {}
// centre of mass c(q) and momentum, to first order
struct Com {
  typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> Mat;
  Mat J, hq, hv, dq, dv;    // Jacobian, momentum and its rate
  std::vector<Mat> Jq;
  static Com &of() { static Com c; return c; }
  Mat J_at(const Mat &q) const {
    Mat R = J;
    for (std::size_t k = 0; k < Jq.size(); ++k) R += Jq[k] * q((long)k, 0);
    return R;
  }
};
template <typename S> void jacobianCenterOfMass(const ModelStub &m, DataTpl<S> &d, bool) { if (d.q.size() && Com::of().J.size()) d.Jcom = Com::of().J_at(typename Dyn<S>::Vec(d.q - m.terms.q0)); }
template <typename S, typename Q, typename V>
void centerOfMass(const ModelStub &m, DataTpl<S> &d, const Q &q, const V &v) {
  d.q = q; d.v = v;
  d.vcom.assign(1, Com::of().J_at(typename Dyn<S>::Vec(d.q - m.terms.q0)) * d.v);
}
template <typename S, typename M>
void getCenterOfMassVelocityDerivatives(const ModelStub &, DataTpl<S> &d, const Eigen::MatrixBase<M> &out) {
  M &o = const_cast<M &>(out.derived());
  for (std::size_t k = 0; k < Com::of().Jq.size(); ++k) o.col((long)k) = Com::of().Jq[k] * d.v;
}
template <typename S, typename A, typename B, typename C, typename D>
void getCentroidalDynamicsDerivatives(const ModelStub &, DataTpl<S> &, const Eigen::MatrixBase<A> &hq, const Eigen::MatrixBase<B> &dq, const Eigen::MatrixBase<C> &dv, const Eigen::MatrixBase<D> &da) {
  const_cast<A &>(hq.derived()) = Com::of().hq;
  const_cast<B &>(dq.derived()) = Com::of().dq;
  const_cast<C &>(dv.derived()) = Com::of().dv;
  const_cast<D &>(da.derived()) = Com::of().hv;
}
template <typename S, typename A, typename B>
void getFrameVelocityDerivatives(const ModelStub &, DataTpl<S> &d, FrameIndex id, ReferenceFrame rf, const Eigen::MatrixBase<A> &vq_, const Eigen::MatrixBase<B> &vv_) {
  const FrameMotion<S> &k = d.frame_motion.at(id);
  A &vq = const_cast<A &>(vq_.derived());
  B &vv = const_cast<B &>(vv_.derived());
  SE3Tpl<S> X = SE3Tpl<S>::Identity();
  if (rf != LOCAL) X.R = k.oMf.R;
  if (rf == WORLD) X.p = k.oMf.p;
  typename SE3Tpl<S>::ActionMatrixType XX = X.toActionMatrix();
  typedef Eigen::Matrix<S, 3, 1> V3;
  for (long j = 0; j < k.J.cols(); ++j) {
    Eigen::Matrix<S, 6, 1> c = Eigen::Matrix<S, 6, 1>::Zero();
    const V3 jl = k.J.col(j).template head<3>(), jw = k.J.col(j).template tail<3>(), vl = k.v.linear(), vw = k.v.angular();
    if (rf != LOCAL) { c.template head<3>() = jw.cross(vl); c.template tail<3>() = jw.cross(vw); }
    if (rf == WORLD) c.template head<3>() += jl.cross(vw);
    vq.col(j) = XX * (k.Vq.col(j) + c);
    vv.col(j) = XX * k.J.col(j);
  }
}
template <typename S, typename Q>
const typename Dyn<S>::Vec &computeGeneralizedGravity(const ModelStub &m, DataTpl<S> &d, const Q &q) { d.g = m.terms.g_at(q); return d.g; }
// forces expressed in the joints
template <typename S, typename Q, typename F>
const typename Dyn<S>::Vec &computeStaticTorque(const ModelStub &m, DataTpl<S> &d, const Q &q, const F &f) {
  d.tau = m.terms.g_at(q);
  for (std::size_t j = 0; j < m.static_J.size(); ++j) d.tau -= m.static_J[j].transpose() * f.at(j).toVector();
  return d.tau;
}
template <typename S, typename Q, typename F, typename M>
void computeStaticTorqueDerivatives(const ModelStub &m, DataTpl<S> &, const Q &, const F &, const Eigen::MatrixBase<M> &out) { const_cast<M &>(out.derived()) = m.terms.Gq; }
template <typename S, typename Q, typename M>
void computeGeneralizedGravityDerivatives(const ModelStub &m, DataTpl<S> &, const Q &, const Eigen::MatrixBase<M> &out) { const_cast<M &>(out.derived()) = m.terms.Gq; }
// the configuration manifold
template <typename A, typename B, typename C>
void difference(const ModelStub &m, const A &q0, const B &q1, const Eigen::MatrixBase<C> &o) { const_cast<C &>(o.derived()) = m.manifold.difference(q0, q1); }
template <typename A, typename B, typename C>
void integrate(const ModelStub &m, const A &q, const B &v, const Eigen::MatrixBase<C> &o) { const_cast<C &>(o.derived()) = m.manifold.integrate(q, v); }
template <typename A, typename B, typename C>
void dDifference(const ModelStub &m, const A &q0, const B &q1, const Eigen::MatrixBase<C> &o, ArgumentPosition a) { const_cast<C &>(o.derived()) = m.manifold.dDifference(q0, q1, a); }
template <typename A, typename B, typename C>
void dIntegrate(const ModelStub &m, const A &q, const B &v, const Eigen::MatrixBase<C> &o, ArgumentPosition a, AssignmentOperatorType op = SETTO) {
  C &J = const_cast<C &>(o.derived());
  const Manifold::Mat D = m.manifold.dIntegrate(q, v, a);
  if (op == SETTO) J = D;
  else if (op == ADDTO) J += D;
  else J -= D;
}
template <typename A, typename B, typename C>
void dIntegrateTransport(const ModelStub &m, const A &q, const B &v, const Eigen::MatrixBase<C> &o, ArgumentPosition a) {
  C &J = const_cast<C &>(o.derived());
  J = Manifold::Mat(m.manifold.transport(q, v, J, a));
}
inline Manifold::Vec neutral(const ModelStub &m) { return m.manifold.neutral; }
inline Manifold::Vec randomConfiguration(const ModelStub &m) { return m.manifold.neutral; }
template <typename S> struct Log3 {
  static std::function<Eigen::Matrix<S, 3, 1>(const Eigen::Matrix<S, 3, 3> &)> &f() { static std::function<Eigen::Matrix<S, 3, 1>(const Eigen::Matrix<S, 3, 3> &)> g; return g; }
  static std::function<Eigen::Matrix<S, 3, 3>(const Eigen::Matrix<S, 3, 3> &)> &J() { static std::function<Eigen::Matrix<S, 3, 3>(const Eigen::Matrix<S, 3, 3> &)> g; return g; }
};
template <typename M> Eigen::Matrix<typename M::Scalar, 3, 1> log3(const Eigen::MatrixBase<M> &R) { return Log3<typename M::Scalar>::f()(R); }
template <typename M, typename M3> void Jlog3(const Eigen::MatrixBase<M> &R, const Eigen::MatrixBase<M3> &J) { const_cast<M3 &>(J.derived()) = Log3<typename M::Scalar>::J()(R); }
template <typename S, typename Q, typename V, typename A>
void forwardKinematics(const ModelStub &, DataTpl<S> &d, const Q &q, const V &v, const A &a) { kinematics_(d, q, v, a); }
template <typename S, typename Q, typename V, typename A>
void computeForwardKinematicsDerivatives(const ModelStub &, DataTpl<S> &d, const Q &q, const V &v, const A &a) { kinematics_(d, q, v, a); }
namespace cholesky {
template <typename S> void decompose(const ModelStub &, DataTpl<S> &d) { d.decomposed = full_<S>(d.M); }
template <typename S, typename M> void computeMinv(const ModelStub &, DataTpl<S> &d, M &Minv) { Minv = Terms::inverse(d.decomposed); }
}  // namespace cholesky
template <typename S>
typename Dyn<S>::Mat kkt_(const DataTpl<S> &d, const typename Dyn<S>::Mat &J) {
  const long nv = d.decomposed.rows(), nc = J.rows();
  typename Dyn<S>::Mat K = Dyn<S>::Mat::Zero(nv + nc, nv + nc);
  K.topLeftCorner(nv, nv) = d.decomposed;
  K.topRightCorner(nv, nc) = J.transpose();
  K.bottomLeftCorner(nc, nv) = J;
  for (long i = 0; i < nc; ++i) K(nv + i, nv + i) = -d.damping;
  return K;
}
template <typename S, typename T, typename J_, typename G>
void forwardDynamics(const ModelStub &m, DataTpl<S> &d, const T &tau, const J_ &J, const G &gamma, const S &damping) {
  cholesky::decompose(m, d);
  d.damping = damping;
  const long nv = d.M.rows(), nc = J.rows();
  typename Dyn<S>::Vec b(nv + nc);
  b.head(nv) = tau - d.nle;
  b.tail(nc) = -gamma;
  const typename Dyn<S>::Vec s = Terms::inverse(kkt_<S>(d, J)) * b;
  d.ddq = s.head(nv);
  d.lambda_c = -s.tail(nc);
}
template <typename S, typename V, typename J_>
void impulseDynamics(const ModelStub &m, DataTpl<S> &d, const V &v, const J_ &J, const S &r, const S &damping) {
  cholesky::decompose(m, d);
  d.damping = damping;
  const long nv = d.M.rows(), nc = J.rows();
  typename Dyn<S>::Vec b(nv + nc);
  b.head(nv) = d.decomposed * v;
  b.tail(nc) = -r * (J * v);
  const typename Dyn<S>::Vec s = Terms::inverse(kkt_<S>(d, J)) * b;
  d.dq_after = s.head(nv);
  d.impulse_c = -s.tail(nc);
}
template <typename S, typename J_, typename K>
void getKKTContactDynamicMatrixInverse(const ModelStub &, DataTpl<S> &d, const J_ &J, K &Kinv) {
  if (Kinv.rows() != d.M.rows() + J.rows()) throw std::logic_error("stand-in: size of the KKT inverse");
  Kinv = Terms::inverse(kkt_<S>(d, J));
}
template <typename S, typename Q, typename V, typename A>
void computeRNEADerivatives(const ModelStub &m, DataTpl<S> &d, const Q &q_, const V &v_, const A &a_) {
  const typename Dyn<S>::Vec q = q_, v = v_, a = a_;
  kinematics_(d, q, v, a);
  set_upper_(d, m.terms.M_at(q));
  d.tau = m.terms.M_at(q) * a + m.terms.g_at(q) + m.terms.C_at(q) * v;
  d.dtau_dq = m.terms.Gq;
  for (std::size_t k = 0; k < m.terms.Mq.size(); ++k) d.dtau_dq.col((long)k) += m.terms.Mq[k] * a + m.terms.Cq[k] * v;
  d.dtau_dv = m.terms.C_at(q);
}
template <typename S, typename Q, typename V, typename A, typename F>
void computeRNEADerivatives(const ModelStub &m, DataTpl<S> &d, const Q &q_, const V &v, const A &a, const F &f) {
  const typename Dyn<S>::Vec q = q_;
  computeRNEADerivatives(m, d, q, v, a);
  for (std::size_t j = 0; j < m.terms.J.size(); ++j) {
    const S f0 = f.at(j).toVector()(0);
    d.tau -= m.terms.J_at(j, q) * f0;
    for (std::size_t k = 0; k < m.terms.Jq[j].size(); ++k) d.dtau_dq.col((long)k) -= m.terms.Jq[j][k] * f0;
  }
}
template <typename S, typename Q, typename V, typename A>
const typename Dyn<S>::Vec &rnea(const ModelStub &m, DataTpl<S> &d, const Q &q_, const V &v_, const A &a_) {
  const typename Dyn<S>::Vec q = q_, v = v_, a = a_;
  kinematics_(d, q, v, a);
  d.tau = m.terms.M_at(q) * a + m.terms.g_at(q) + m.terms.C_at(q) * v;
  return d.tau;
}
template <typename S, typename Q, typename V, typename A, typename F>
const typename Dyn<S>::Vec &rnea(const ModelStub &m, DataTpl<S> &d, const Q &q_, const V &v_, const A &a_, const F &f) {
  const typename Dyn<S>::Vec q = q_;
  rnea(m, d, q, v_, a_);
  for (std::size_t j = 0; j < m.terms.J.size(); ++j) d.tau -= m.terms.J_at(j, q) * f.at(j).toVector()(0);
  return d.tau;
}
template <typename S, typename Q, typename M>
void computeGeneralizedGravityDerivatives(const ModelStub &m, DataTpl<S> &, const Q &, M &G) { G = m.terms.Gq; }
template <typename S, typename Q, typename V, typename T>
const typename Dyn<S>::Vec &aba(const ModelStub &m, DataTpl<S> &d, const Q &q_, const V &v_, const T &tau) {
  const typename Dyn<S>::Vec q = q_, v = v_;
  d.ddq = Terms::inverse(m.terms.M_at(q)) * (tau - m.terms.g_at(q) - m.terms.C_at(q) * v);
  return d.ddq;
}
template <typename S, typename Q, typename V, typename T, typename A, typename B, typename C>
void computeABADerivatives(const ModelStub &m, DataTpl<S> &d, const Q &q_, const V &v_, const T &tau, const Eigen::MatrixBase<A> &fq_, const Eigen::MatrixBase<B> &fv_, const Eigen::MatrixBase<C> &Minv_) {
  const typename Dyn<S>::Vec q = q_, v = v_;
  const typename Dyn<S>::Mat I = Terms::inverse(m.terms.M_at(q));
  d.ddq = I * (tau - m.terms.g_at(q) - m.terms.C_at(q) * v);
  typename Dyn<S>::Mat D = m.terms.Gq;
  for (std::size_t k = 0; k < m.terms.Mq.size(); ++k) D.col((long)k) += m.terms.Mq[k] * d.ddq + m.terms.Cq[k] * v;
  const_cast<A &>(fq_.derived()) = -I * D;
  const_cast<B &>(fv_.derived()) = -I * m.terms.C_at(q);
  const_cast<C &>(Minv_.derived()) = I;
}
}  // namespace pinocchio
#endif
