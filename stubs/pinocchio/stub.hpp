// A stand-in for the part of Pinocchio that the wrappers of this repository
// call (Pinocchio itself is not installed): a one-parameter family of
// non-commutative groups on R^3, represented with a fourth, constant,
// coordinate, with the interface of Pinocchio's Lie groups and configuration
// functions.  In these coordinates exp is the identity and everything is
// polynomial.  Only the wrappers are under test.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <stdexcept>
namespace pinocchio {
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2, ARG3 = 3, ARG4 = 4 };
enum AssignmentOperatorType { SETTO, ADDTO, RMTO };
namespace stub {
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
inline V integrate(double c, const V &x, const V &v) {
  V o(4);
  o << x[0] + v[0], x[1] + v[1], x[2] + v[2] + c * (x[0] * v[1] - x[1] * v[0]), 1.;
  return o;
}
inline V difference(double c, const V &x, const V &y) {
  V o(3);
  o << y[0] - x[0], y[1] - x[1], y[2] - x[2] - c * (x[0] * y[1] - x[1] * y[0]);
  return o;
}
inline M dIntegrate(double c, const V &, const V &v, int arg) {
  M J = M::Identity(3, 3);
  const double k = arg == 0 ? 2. * c : c;
  J(2, 0) = k * v[1];
  J(2, 1) = -k * v[0];
  return J;
}
inline M dDifference(double c, const V &x, const V &y, int arg) {
  M J = M::Identity(3, 3);
  if (arg == 0) J = -J;
  J(2, 0) = -c * (y[1] - x[1]);
  J(2, 1) = c * (y[0] - x[0]);
  return J;
}
inline V neutral() { V o(4); o << 0., 0., 0., 1.; return o; }
inline V random(double c) { V o(4); o << 3., 5., c, 1.; return o; }
} // namespace stub
} // namespace pinocchio
