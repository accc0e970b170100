// C40: wrappers of Lie groups, multibody models and rigid transformations.
// Pinocchio is replaced by a stand-in (stubs/pinocchio): an arbitrary member of
// a family of non-commutative groups; the wrappers are the real code.
#include "common.hpp"
#include <proxsuite-nlp/modelling/spaces/vector-space.hpp>
#include <proxsuite-nlp/modelling/spaces/cartesian-product.hpp>
#include <proxsuite-nlp/modelling/spaces/pinocchio-groups.hpp>
#include <proxsuite-nlp/modelling/spaces/multibody.hpp>
#include <proxsuite-nlp/modelling/residuals/rigid-transform-point.hpp>
using M = ManifoldAbstractTpl<double>;
using PM = xyz::polymorphic<M>;
using Grp = PinocchioLieGroup<pinocchio::StubGroup>;
using Conf = MultibodyConfiguration<double>;
using Phase = MultibodyPhaseSpace<double>;
using Model = pinocchio::ModelTpl<double>;
namespace ps = pinocchio::stub;

// 0..4: ways of getting at the same group; 5, 6: the phase space
static PM make_wrapped(int how, double c) {
  Model m;
  m.c = c;
  switch (how) {
  case 0: return PM(Grp(pinocchio::StubGroup(c)));
  case 1: { pinocchio::StubGroup g(c); const Grp w(g); Grp w2(w); return PM(w2); }
  case 2: return PM(Grp(c)); // forwarded constructor arguments
  case 3: return PM(Conf(m));
  case 4: { Conf a(m), b(Model{}); b = a; m.c = 7.; return PM(b); }
  case 5: return PM(Phase(m));
  default: { Phase a(m), b(Model{}); b = a; m.c = 7.; Phase d(b); return PM(d); }
  }
}
SX_HARNESS(wrappers) {
  const int how = sx::choice("space", 7);
  const bool phase = how >= 5;
  double c = sx::real("c");
  PM sp = make_wrapped(how, c);
  const int nx = phase ? 7 : 4, nv = phase ? 6 : 3;
  sx::check("dims", sp->nx() == nx && sp->ndx() == nv);
  VX x = sym_vec(nx, "x"), y = sym_vec(nx, "y"), v = sym_vec(nv, "v"), e = sym_vec(nv, "e");
  x[3] = y[3] = 1.;
  double u = sx::real("u");
  VX xb = x.head(4), yb = y.head(4), vb = v.head(3), o(nx), d(nv), in(nx);
  sp->integrate(x, v, o);
  sp->difference(x, y, d);
  sp->interpolate(x, y, u, in);
  // against the group itself
  sx::check_mat_eq("integrate", o.head(4).eval(), ps::integrate(c, xb, vb));
  sx::check_mat_eq("difference", d.head(3).eval(), ps::difference(c, xb, yb));
  sx::check_mat_eq("interpolate", in.head(4).eval(), ps::integrate(c, xb, (u * ps::difference(c, xb, yb)).eval()));
  sx::check_mat_eq("neutral", sp->neutral().head(4).eval(), ps::neutral());
  sx::check_mat_eq("random", sp->rand().head(4).eval(), ps::random(c));
  if (phase) {
    sx::check_mat_eq("integrate velocity", o.tail(3).eval(), (x.tail(3) + v.tail(3)).eval());
    sx::check_mat_eq("difference velocity", d.tail(3).eval(), (y.tail(3) - x.tail(3)).eval());
    sx::check_mat_eq("interpolate velocity", in.tail(3).eval(), ((1. - u) * x.tail(3) + u * y.tail(3)).eval());
  }
  for (int a = 0; a < 2; a++) {
    MX J(nv, nv), D(nv, nv), T0 = sym_mat(nv, 2, "T" + S(a)), T = T0, Jr = MX::Identity(nv, nv), Dr = MX::Identity(nv, nv);
    sp->Jintegrate(x, v, J, a);
    sp->Jdifference(x, y, D, a);
    sp->JintegrateTransport(x, v, T, a);
    Jr.topLeftCorner(3, 3) = ps::dIntegrate(c, xb, vb, a);
    if (a == 0) Dr = -Dr;
    Dr.topLeftCorner(3, 3) = ps::dDifference(c, xb, yb, a);
    sx::check_mat_eq("Jintegrate" + S(a), J, Jr);
    sx::check_mat_eq("Jdifference" + S(a), D, Dr);
    sx::check_mat_eq("transport" + S(a), T.topRows(3).eval(), (ps::dIntegrate(c, xb, vb, a) * T0.topRows(3)).eval());
    if (phase) sx::check_mat_eq("transport velocity" + S(a), T.bottomRows(3).eval(), T0.bottomRows(3).eval());
    // derivatives of the wrapper's own operations (exact: the group has step two)
    VX xe = sp->integrate(x, e), ye = sp->integrate(y, e), ve = v + e;
    sx::check_mat_eq("derivative of integrate" + S(a), (J * e).eval(), sp->difference(o, a == 0 ? sp->integrate(xe, v) : sp->integrate(x, ve)));
    sx::check_mat_eq("derivative of difference" + S(a), (D * e).eval(), ((a == 0 ? sp->difference(xe, y) : sp->difference(x, ye)) - d).eval());
  }
  VX q = sym_vec(nx, "q");
  sx::check("normalized", sx::iff(sx::B::c(sp->isNormalized(q)), sx::eq(q[3], 1.)));
  if (how <= 2) sx::check("too short", !sp->isNormalized(VX::Ones(3)));
  // inside a product
  CartesianProductTpl<double> pr(sp, PM(VectorSpaceTpl<double>(1)));
  VX xp(nx + 1), vp(nv + 1);
  xp << x, sx::real("p");
  vp << v, sx::real("w");
  VX op = static_cast<const M &>(pr).integrate(xp, vp), oe(nx + 1);
  oe << o, xp[nx] + vp[nv];
  sx::check_mat_eq("in a product", op, oe);
  sx::reach("end");
}
SX_HARNESS(models) { // the model a space was built from is kept, whatever happens to the original
  double c = sx::real("c");
  Model m;
  m.c = c;
  Conf q(m);
  Phase p(m);
  m.c = 9.;
  sx::check_eq("configuration", q.getModel().c, c);
  sx::check_eq("phase", p.getModel().c, c);
  sx::check("phase dims", p.nx() == 7 && p.ndx() == 6);
  VX x = sym_vec(7, "x"), v = sym_vec(6, "v");
  sx::check_mat_eq("base point", VX(p.getBasePoint(x)), x.head(4).eval());
  sx::check_mat_eq("base tangent", VX(p.getBaseTangent(v)), v.head(3).eval());
  sx::reach("end");
}
static VX quat(int k) { // unit quaternions with exact coordinates (x, y, z, w)
  VX q(4);
  if (k < 8) { q << (k & 1 ? -.5 : .5), (k & 2 ? -.5 : .5), (k & 4 ? -.5 : .5), .5; return q; }
  q.setZero();
  q[k - 8] = 1.;
  return q;
}
SX_HARNESS(rigid_transform) {
  VX p = sym_vec(3, "p"), t = sym_vec(3, "t"), w = sym_vec(3, "w"), r = sym_vec(3, "r");
  RigidTransformationPointActionTpl<double> f0{Eigen::Vector3d(p)};
  const C2FunctionTpl<double> &f = f0;
  sx::check("dims", f.nx() == 7 && f.ndx() == 6 && f.nr() == 3);
  auto rot = [](const VX &q, const VX &a) -> VX { // a + 2 w (q x a) + 2 q x (q x a)
    Eigen::Vector3d qv(q[0], q[1], q[2]), av(a[0], a[1], a[2]);
    Eigen::Vector3d c1 = qv.cross(av), c2 = qv.cross(c1);
    return VX(av + 2. * q[3] * c1 + 2. * c2);
  };
  MX J(3, 6);
  VX x(7), d(6);
  d << w, r;
  // any quaternion coordinates: value, and the Jacobian's defining products
  VX q = sym_vec(4, "q");
  x << t, q;
  sx::check_mat_eq("value", f(x), (rot(q, p) + t).eval());
  f.computeJacobian(x, J);
  VX rp = Eigen::Vector3d(r).cross(Eigen::Vector3d(p));
  sx::check_mat_eq("jacobian", (J * d).eval(), (rot(q, w) + rot(q, rp)).eval());
  sx::check_mat_eq("alloc", f0.C2FunctionTpl<double>::C1FunctionTpl<double>::computeJacobian(x), J);
  // unit quaternions: the Jacobian is the derivative of the value along
  // t + R s w, q * (s r / 2, 1)
  VX q1 = quat(sx::choice("rotation", 12));
  x << t, q1;
  f.computeJacobian(x, J);
  auto at = [&](double s) -> VX {
    Eigen::Vector3d a(q1[0], q1[1], q1[2]), b(0.5 * s * r[0], 0.5 * s * r[1], 0.5 * s * r[2]);
    Eigen::Vector3d im = q1[3] * b + a + a.cross(b);
    VX z(7);
    z << t + rot(q1, VX(s * w)), im, q1[3] - a.dot(b);
    return f(z);
  };
  VX dv = (at(-2.) - 8. * at(-1.) + 8. * at(1.) - at(2.)) / 12.;
  sx::check_mat_eq("derivative", (J * d).eval(), dv);
  sx::reach("end");
}
