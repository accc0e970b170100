#pragma once
#include <pinocchio/multibody/model.hpp>
namespace pinocchio {
template <typename S, int O> stub::V neutral(const ModelTpl<S, O> &) { return stub::neutral(); }
template <typename S, int O> stub::V randomConfiguration(const ModelTpl<S, O> &m) { return stub::random(m.c); }
template <typename S, int O> bool isNormalized(const ModelTpl<S, O> &, const stub::V &x, double = 0) { return x[3] == 1.; }
template <typename S, int O> stub::V integrate(const ModelTpl<S, O> &m, const stub::V &x, const stub::V &v) { return stub::integrate(m.c, x, v); }
template <typename S, int O, class R> void integrate(const ModelTpl<S, O> &m, const stub::V &x, const stub::V &v, R &&o) { o = stub::integrate(m.c, x, v); }
template <typename S, int O> stub::V difference(const ModelTpl<S, O> &m, const stub::V &x, const stub::V &y) { return stub::difference(m.c, x, y); }
template <typename S, int O, class R> void difference(const ModelTpl<S, O> &m, const stub::V &x, const stub::V &y, R &&o) { o = stub::difference(m.c, x, y); }
template <typename S, int O> stub::V interpolate(const ModelTpl<S, O> &m, const stub::V &x, const stub::V &y, double u) { return stub::integrate(m.c, x, u * stub::difference(m.c, x, y)); }
template <typename S, int O, class R> void interpolate(const ModelTpl<S, O> &m, const stub::V &x, const stub::V &y, double u, R &&o) { o = interpolate(m, x, y, u); }
template <typename S, int O, class R> void dIntegrate(const ModelTpl<S, O> &m, const stub::V &x, const stub::V &v, R &&J, ArgumentPosition a) { J = stub::dIntegrate(m.c, x, v, a); }
template <typename S, int O, class R> void dIntegrateTransport(const ModelTpl<S, O> &m, const stub::V &x, const stub::V &v, R &&J, ArgumentPosition a) { J = (stub::dIntegrate(m.c, x, v, a) * J).eval(); }
template <typename S, int O, class R> void dDifference(const ModelTpl<S, O> &m, const stub::V &x, const stub::V &y, R &&J, ArgumentPosition a) { J = stub::dDifference(m.c, x, y, a); }
} // namespace pinocchio
