// Positive-semidefinite cost blocks [Q N; N' R] = M' M, and the
// positive-semidefiniteness test, which the encoding replaces by its
// specification (an eigenvalue decomposition is outside the solvers' reach).
#ifndef VERIF_PSD_HPP_
#define VERIF_PSD_HPP_
namespace vf {
inline bool &psd_answer() { static bool a = true; return a; }
inline void psd_blocks(const std::string &p, long nx, long nu, Mat &Q, Mat &R, Mat &N) {
  Mat M = in_mat(p + "M", nx + nu, nx + nu), L(nx + nu, nx + nu);
  for (long i = 0; i < nx + nu; ++i)
    for (long j = 0; j < nx + nu; ++j) {
      double s = 0;
      for (long k = 0; k < nx + nu; ++k) s += M(k, i) * M(k, j);
      L(i, j) = s;
    }
  Q = L.topLeftCorner(nx, nx);
  R = L.bottomRightCorner(nu, nu);
  N = L.topRightCorner(nx, nu);
}
}  // namespace vf
#ifdef VERIF_SYMBOLIC
namespace crocoddyl {
template <>
inline bool checkPSD<double>(const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> &a) {
  if (vf::psd_answer()) return true;
  // certainly indefinite: a negative diagonal entry, or a zero one next to a nonzero
  for (long i = 0; i < a.rows(); ++i)
    if (a(i, i) < -1e-3) return false;
  for (long i = 0; i < a.rows(); ++i)
    for (long j = 0; j < a.cols(); ++j)
      if (i != j && a(i, i) == 0 && a(i, j) > 0.4 && a(j, j) < 100) return false;
  return true;
}
}  // namespace crocoddyl
#endif
#endif
