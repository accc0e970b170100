#pragma once
#include <pinocchio/stub.hpp>
namespace pinocchio {
template <class Derived> struct LieGroupBase {};
struct StubGroup : LieGroupBase<StubGroup> {
  using Scalar = double;
  using Index = int;
  enum { Options = 0, NQ = 4, NV = 3 };
  using V = stub::V;
  using M = stub::M;
  double c = 0.5;
  StubGroup() {}
  explicit StubGroup(double c) : c(c) {}
  int nq() const { return 4; }
  int nv() const { return 3; }
  V neutral() const { return stub::neutral(); }
  V random() const { return stub::random(c); }
  template <class O> void random(O &&o) const { o = random(); }
  bool isNormalized(const V &x, double = 0) const { return x[3] == 1.; }
  V integrate(const V &x, const V &v) const { return stub::integrate(c, x, v); }
  template <class O> void integrate(const V &x, const V &v, O &&o) const { o = stub::integrate(c, x, v); }
  V difference(const V &x, const V &y) const { return stub::difference(c, x, y); }
  template <class O> void difference(const V &x, const V &y, O &&o) const { o = stub::difference(c, x, y); }
  V interpolate(const V &x, const V &y, double u) const { return stub::integrate(c, x, u * stub::difference(c, x, y)); }
  template <class O> void interpolate(const V &x, const V &y, double u, O &&o) const { o = interpolate(x, y, u); }
  template <class O> void dIntegrate_dq(const V &x, const V &v, O &&J) const { J = stub::dIntegrate(c, x, v, 0); }
  template <class O> void dIntegrate_dv(const V &x, const V &v, O &&J) const { J = stub::dIntegrate(c, x, v, 1); }
  template <class O> void dIntegrate(const V &x, const V &v, O &&J, ArgumentPosition a) const { J = stub::dIntegrate(c, x, v, a); }
  template <class O> void dIntegrateTransport(const V &x, const V &v, O &&J, ArgumentPosition a) const { J = (stub::dIntegrate(c, x, v, a) * J).eval(); }
  template <ArgumentPosition a, class O> void dDifference(const V &x, const V &y, O &&J) const { J = stub::dDifference(c, x, y, a); }
  template <class O> void dDifference(const V &x, const V &y, O &&J, ArgumentPosition a) const { J = stub::dDifference(c, x, y, a); }
};
#define STUB_GROUP(NAME)                                                                              \
  template <int D, typename S, int O = 0> struct NAME : LieGroupBase<NAME<D, S, O>> {                  \
    using Scalar = S;                                                                                 \
    enum { Options = O };                                                                             \
    StubGroup g;                                                                                      \
    int nq() const { return 4; }                                                                      \
    int nv() const { return 3; }                                                                      \
    stub::V neutral() const { return g.neutral(); }                                                   \
    stub::V random() const { return g.random(); }                                                     \
    template <class... A> bool isNormalized(A &&...a) const { return g.isNormalized(a...); }          \
    template <class... A> void integrate(A &&...a) const { g.integrate(a...); }                       \
    template <class... A> void difference(A &&...a) const { g.difference(a...); }                     \
    template <class... A> void interpolate(A &&...a) const { g.interpolate(a...); }                   \
    template <class... A> void dIntegrate_dq(A &&...a) const { g.dIntegrate_dq(a...); }               \
    template <class... A> void dIntegrate_dv(A &&...a) const { g.dIntegrate_dv(a...); }               \
    template <class... A> void dIntegrate(A &&...a) const { g.dIntegrate(a...); }                     \
    template <class... A> void dIntegrateTransport(A &&...a) const { g.dIntegrateTransport(a...); }   \
    template <ArgumentPosition p, class... A> void dDifference(A &&...a) const { g.dDifference<p>(a...); } \
    template <class... A> void dDifference(A &&...a) const { g.dDifference(a...); }                   \
  };
STUB_GROUP(SpecialEuclideanOperationTpl)
STUB_GROUP(SpecialOrthogonalOperationTpl)
} // namespace pinocchio
