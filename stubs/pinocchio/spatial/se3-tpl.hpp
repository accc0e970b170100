#pragma once
#include <pinocchio/stub.hpp>
namespace pinocchio {
// x -> R x + t
template <typename S, int O = 0> struct SE3Tpl {
  using Quaternion = Eigen::Quaternion<S, O>;
  using Vector3 = Eigen::Matrix<S, 3, 1>;
  using Matrix3 = Eigen::Matrix<S, 3, 3>;
  Matrix3 R;
  Vector3 t;
  template <class Q, class V> SE3Tpl(const Eigen::QuaternionBase<Q> &q, const Eigen::MatrixBase<V> &t) : R(q.matrix()), t(t) {}
  template <class M, class V> SE3Tpl(const Eigen::MatrixBase<M> &R, const Eigen::MatrixBase<V> &t) : R(R), t(t) {}
  const Matrix3 &rotation() const { return R; }
  const Vector3 &translation() const { return t; }
  template <class V> Vector3 actOnEigenObject(const Eigen::MatrixBase<V> &p) const { return R * p + t; }
  template <class V> Vector3 act(const Eigen::MatrixBase<V> &p) const { return R * p + t; }
};
template <class V> Eigen::Matrix<typename V::Scalar, 3, 3> skew(const Eigen::MatrixBase<V> &v) {
  Eigen::Matrix<typename V::Scalar, 3, 3> m;
  m << 0., -v[2], v[1], v[2], 0., -v[0], -v[1], v[0], 0.;
  return m;
}
} // namespace pinocchio
