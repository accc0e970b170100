// A user-defined curved manifold with nx != ndx: the Heisenberg group (R^3
// with a non-commutative product) in a representation that carries one extra
// constant coordinate.  exp is the identity in these coordinates, so every
// operation and every derivative is polynomial and has an exact closed form.
#pragma once
#include <proxsuite-nlp/manifold-base.hpp>
#include <proxsuite-nlp/modelling/spaces/vector-space.hpp>
struct Heis : ManifoldAbstractTpl<double> {
  int nx() const override { return 4; }
  int ndx() const override { return 3; }
  VectorXs neutral() const override { VectorXs o(4); o << 0., 0., 0., 1.; return o; }
  VectorXs rand() const override { VectorXs o(4); o << 3., 5., 7., 1.; return o; }
  bool isNormalized(const ConstVectorRef &x) const override { return x[3] == 1.; }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef o) const override {
    double z = x[2] + v[2] + 0.5 * (x[0] * v[1] - x[1] * v[0]);
    o[0] = x[0] + v[0]; o[1] = x[1] + v[1]; o[2] = z; o[3] = 1.;
  }
  void difference_impl(const ConstVectorRef &x, const ConstVectorRef &y, VectorRef o) const override {
    double z = y[2] - x[2] - 0.5 * (x[0] * y[1] - x[1] * y[0]);
    o[0] = y[0] - x[0]; o[1] = y[1] - x[1]; o[2] = z;
  }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    J.setIdentity();
    if (arg == 0) { J(2, 0) = v[1]; J(2, 1) = -v[0]; }
    else { J(2, 0) = 0.5 * v[1]; J(2, 1) = -0.5 * v[0]; }
  }
  void Jdifference_impl(const ConstVectorRef &x, const ConstVectorRef &y, MatrixRef J, int arg) const override {
    double d0 = y[0] - x[0], d1 = y[1] - x[1];
    J.setZero();
    for (int i = 0; i < 3; i++) J(i, i) = arg == 0 ? -1. : 1.;
    J(2, 0) = -0.5 * d1; J(2, 1) = 0.5 * d0;
  }
  void JintegrateTransport(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    MX T(3, 3);
    Jintegrate_impl(x, v, T, arg);
    J = (T * J).eval();
  }
};
static VX heis_point(const std::string &p) {
  VX x(4);
  for (int i = 0; i < 3; i++) x[i] = sx::real(p + std::to_string(i));
  x[3] = 1.;
  return x;
}
