// C08, C09, C10: manifolds.
#include "common.hpp"
#include <proxsuite-nlp/modelling/spaces/vector-space.hpp>
#include <proxsuite-nlp/modelling/spaces/cartesian-product.hpp>
#include <proxsuite-nlp/modelling/spaces/tangent-bundle.hpp>
using M = ManifoldAbstractTpl<double>;
using PM = xyz::polymorphic<M>;
using V = VectorSpaceTpl<double>;
using V2s = VectorSpaceTpl<double, 2>;
using CP = CartesianProductTpl<double>;
#include "heis.hpp"

// A manifold with nx != ndx whose operations are distinguishable functions of
// everything they are given; a product or bundle has to hand each component
// exactly its own data.
struct Probe : M {
  int nx_, ndx_;
  double a;
  Probe(int nx, int ndx, double a) : nx_(nx), ndx_(ndx), a(a) {}
  int nx() const override { return nx_; }
  int ndx() const override { return ndx_; }
  VectorXs neutral() const override { VectorXs o(nx_); for (int i = 0; i < nx_; i++) o[i] = a + i; return o; }
  VectorXs rand() const override { VectorXs o(nx_); for (int i = 0; i < nx_; i++) o[i] = 7 * a + i; return o; }
  bool isNormalized(const ConstVectorRef &x) const override { return x[0] > a; }
  static double mix(const ConstVectorRef &x, double c) {
    double r = c;
    for (int i = 0; i < x.size(); i++) r = 2. * r + (i + 1 + c) * x[i];
    return r;
  }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef out) const override {
    for (int i = 0; i < nx_; i++) out[i] = mix(x, a + i) + a * mix(v, i);
  }
  void difference_impl(const ConstVectorRef &x, const ConstVectorRef &y, VectorRef out) const override {
    for (int i = 0; i < ndx_; i++) out[i] = mix(x, a + 3 * i) - 3. * mix(y, 2 * a + i);
  }
  void Jintegrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    for (int i = 0; i < J.rows(); i++)
      for (int j = 0; j < J.cols(); j++) J(i, j) = mix(x, i + 10. * arg) + a * mix(v, j);
  }
  void JintegrateTransport(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    for (int i = 0; i < J.rows(); i++)
      for (int j = 0; j < J.cols(); j++) J(i, j) = (a + arg) * J(i, j) + mix(x, i) + mix(v, j);
  }
  void Jdifference_impl(const ConstVectorRef &x, const ConstVectorRef &y, MatrixRef J, int arg) const override {
    for (int i = 0; i < J.rows(); i++)
      for (int j = 0; j < J.cols(); j++) J(i, j) = mix(x, i - 10. * arg) + a * mix(y, j + 1);
  }
  void interpolate_impl(const ConstVectorRef &x, const ConstVectorRef &y, const double &u, VectorRef out) const override {
    for (int i = 0; i < nx_; i++) out[i] = mix(x, a + i) + u * mix(y, i);
  }
};

static const int NK = 8;
static PM make_space(int k) {
  switch (k) {
  case 0: return PM(V(2));
  case 1: return PM(V2s());
  case 2: return PM(CP(PM(V(1)), PM(V(2))));
  case 3: return PM(TangentBundleTpl<V>(2));
  case 4: return PM(CP(PM(TangentBundleTpl<V2s>()), PM(V(1))));
  case 5: return PM(CP(PM(CP(PM(V(1)), PM(V(2)))), PM(V(1))));
  case 6: return PM(TangentBundleTpl<CP>(CP(PM(V(1)), PM(V(1)))));
  default: return PM(TangentBundleTpl<TangentBundleTpl<V>>(TangentBundleTpl<V>(1)));
  }
}

SX_HARNESS(laws) {
  int k = sx::choice("space", NK);
  PM sp = make_space(k);
  int nx = sp->nx(), nv = sp->ndx();
  sx::check("dims", nx == nv && nx == (k <= 1 ? 2 : k == 2 ? 3 : k == 4 ? 5 : 4));
  VX x = sym_vec(nx, "x"), y = sym_vec(nx, "y"), v = sym_vec(nv, "v"), w = sym_vec(nv, "w");
  VX o(nx), d(nv), o2(nx), d2(nv), z0 = VX::Zero(nv);
  sp->integrate(x, v, o);
  sx::check_mat_eq("alloc_form", sp->integrate(x, v), o);
  sp->difference(x, o, d);
  sx::check_mat_eq("diff_integrate", d, v);
  sx::check_mat_eq("diff_alloc", sp->difference(x, o), d);
  sp->difference(x, y, d);
  sp->integrate(x, d, o2);
  sx::check_mat_eq("integrate_diff", o2, y);
  sp->integrate(x, z0, o2);
  sx::check_mat_eq("zero_step", o2, x);
  sp->difference(x, x, d2);
  sx::check_mat_eq("self_diff", d2, z0);
  sp->difference(y, x, d2);
  sx::check_mat_eq("antisym", d2, (-d).eval());
  VX o3(nx), o4(nx);
  sp->integrate(o, w, o3);
  sp->integrate(x, (v + w).eval(), o4);
  sx::check_mat_eq("additive", o3, o4);
  double u = sx::real("u");
  VX m(nx);
  sp->interpolate(x, y, u, m);
  sx::check_mat_eq("interp", m, sp->integrate(x, (u * d).eval()));
  sx::check_mat_eq("interp_alloc", sp->interpolate(x, y, u), m);
  sx::check_mat_eq("interp0", sp->interpolate(x, y, 0.), x);
  sx::check_mat_eq("interp1", sp->interpolate(x, y, 1.), y);
  VX n = sp->neutral();
  sx::check("neutral.size", n.size() == nx);
  sx::check_mat_eq("neutral", n, VX::Zero(nx).eval());
  sx::check("normalized", sp->isNormalized(x));
  auto ts = sp->tangentSpace();
  sx::check("tspace", ts.nx() == nv && ts.ndx() == nv);
  PM cp(sp);
  sx::check_mat_eq("copy", cp->integrate(x, v), o);
  sx::reach("end");
}

SX_HARNESS(jacobians) {
  int k = sx::choice("space", NK);
  PM sp = make_space(k);
  int nx = sp->nx(), nv = sp->ndx();
  VX x = sym_vec(nx, "x"), y = sym_vec(nx, "y"), v = sym_vec(nv, "v"), e = sym_vec(nv, "e");
  for (int arg = 0; arg < 2; arg++) {
    MX Ji(nv, nv), Jd(nv, nv); // left uninitialised on purpose
    sp->Jintegrate(x, v, Ji, arg);
    sp->Jdifference(x, y, Jd, arg);
    // the spaces are flat: the first-order expansion is exact
    VX xe = sp->integrate(x, e), ye = sp->integrate(y, e), ve = v + e;
    VX di = sp->difference(sp->integrate(x, v), arg == 0 ? sp->integrate(xe, v) : sp->integrate(x, ve));
    sx::check_mat_eq("Jintegrate" + S(arg), (Ji * e).eval(), di);
    VX dd = (arg == 0 ? sp->difference(xe, y) : sp->difference(x, ye)) - sp->difference(x, y);
    sx::check_mat_eq("Jdifference" + S(arg), (Jd * e).eval(), dd);
    // transport: x+v is reached from x by a translation, vectors are unchanged
    MX T = sym_mat(nv, 2, "T" + S(arg)), T0 = T;
    sp->JintegrateTransport(x, v, T, arg);
    sx::check_mat_eq("transport" + S(arg), T, T0);
    for (int i = 0; i < nv; i++)
      for (int j = 0; j < nv; j++) {
        sx::check_eq("Ji" + S(arg), Ji(i, j), i == j ? 1. : 0.);
        sx::check_eq("Jd" + S(arg), Jd(i, j), i == j ? (arg ? 1. : -1.) : 0.);
      }
  }
  if (k <= 1) {
    bool thrown = false;
    MX J(nv, nv);
    try { sp->Jdifference(x, y, J, 2); } catch (const std::runtime_error &) { thrown = true; }
    sx::check("wrong_arg", thrown);
  }
  sx::reach("end");
}

// The same laws on spaces built over a curved, non-commutative manifold with
// nx != ndx, given by the user: the library's wrappers and default operations
// have to keep base points, tangent vectors and their order apart.
static PM make_curved(int k) {
  switch (k) {
  case 0: return PM(Heis());
  case 1: return PM(CP(PM(Heis()), PM(V(1))));
  case 2: return PM(TangentBundleTpl<Heis>(Heis()));
  case 3: return PM(TangentBundleTpl<CP>(CP(PM(V(1)), PM(Heis()))));
  case 4: return PM(CP(PM(V(1)), PM(TangentBundleTpl<Heis>(Heis()))));
  default: return PM(TangentBundleTpl<TangentBundleTpl<Heis>>(TangentBundleTpl<Heis>(Heis())));
  }
}
// index of the constant coordinate
static int curved_one(int k) { return k == 0 || k == 1 || k == 2 || k == 5 ? 3 : 4; }
static VX curved_point(int k, const PM &sp, const std::string &p) {
  VX x = sym_vec(sp->nx(), p);
  x[curved_one(k)] = 1.;
  return x;
}
SX_HARNESS(curved) {
  int k = sx::choice("space", 6);
  PM sp = make_curved(k);
  static const int NX[] = {4, 5, 7, 9, 8, 13}, NV[] = {3, 4, 6, 8, 7, 12};
  int nx = sp->nx(), nv = sp->ndx();
  sx::check("dims", nx == NX[k] && nv == NV[k]);
  VX x = curved_point(k, sp, "x"), y = curved_point(k, sp, "y"), v = sym_vec(nv, "v"), e = sym_vec(nv, "e");
  VX z0 = VX::Zero(nv), o(nx), d(nv), d2(nv), m(nx);
  sp->integrate(x, v, o);
  sx::check_mat_eq("alloc_form", sp->integrate(x, v), o);
  sx::check("stays", sp->isNormalized(o) && sp->isNormalized(x) && sp->isNormalized(sp->neutral()) && sp->isNormalized(sp->rand()));
  sp->difference(x, o, d);
  sx::check_mat_eq("diff_integrate", d, v);
  sp->difference(x, y, d);
  sx::check_mat_eq("diff_alloc", sp->difference(x, y), d);
  sx::check_mat_eq("integrate_diff", sp->integrate(x, d), y);
  sx::check_mat_eq("zero_step", sp->integrate(x, z0), x);
  sx::check_mat_eq("self_diff", sp->difference(x, x), z0);
  sx::check_mat_eq("antisym", sp->difference(y, x), (-d).eval());
  double u = sx::real("u"), w = sx::real("w");
  sx::check_mat_eq("one_parameter", sp->integrate(sp->integrate(x, (u * v).eval()), (w * v).eval()), sp->integrate(x, ((u + w) * v).eval()));
  sp->interpolate(x, y, u, m);
  sx::check_mat_eq("interp", m, sp->integrate(x, (u * d).eval()));
  sx::check_mat_eq("interp_alloc", sp->interpolate(x, y, u), m);
  sx::check_mat_eq("interp0", sp->interpolate(x, y, 0.), x);
  sx::check_mat_eq("interp1", sp->interpolate(x, y, 1.), y);
  VX n = sp->neutral(), nr = VX::Zero(nx);
  nr[curved_one(k)] = 1.;
  sx::check_mat_eq("neutral", n, nr);
  auto ts = sp->tangentSpace();
  sx::check("tspace", ts.nx() == nv && ts.ndx() == nv);
  PM cp(sp);
  sx::check_mat_eq("copy", cp->integrate(x, v), o);
  sx::reach("end");
}
SX_HARNESS(curved_jacobians) {
  int k = sx::choice("space", 6);
  PM sp = make_curved(k);
  int nv = sp->ndx();
  VX x = curved_point(k, sp, "x"), y = curved_point(k, sp, "y"), v = sym_vec(nv, "v"), e = sym_vec(nv, "e");
  for (int arg = 0; arg < 2; arg++) {
    MX Ji(nv, nv), Jd(nv, nv);
    sp->Jintegrate(x, v, Ji, arg);
    sp->Jdifference(x, y, Jd, arg);
    // the group has step two: these differences are affine in e, the expansion is exact
    VX xe = sp->integrate(x, e), ye = sp->integrate(y, e), ve = v + e;
    VX di = sp->difference(sp->integrate(x, v), arg == 0 ? sp->integrate(xe, v) : sp->integrate(x, ve));
    sx::check_mat_eq("Jintegrate" + S(arg), (Ji * e).eval(), di);
    VX dd = (arg == 0 ? sp->difference(xe, y) : sp->difference(x, ye)) - sp->difference(x, y);
    sx::check_mat_eq("Jdifference" + S(arg), (Jd * e).eval(), dd);
  }
  sx::reach("end");
}

struct Comp { int nx, nv; double a; };
static const std::vector<std::vector<Comp>> PAT = {
    {{2, 1, 2.}, {1, 2, 3.}}, {{1, 2, 3.}, {2, 1, 2.}, {1, 1, 5.}}, {{3, 2, 4.}}, {{1, 1, 2.}, {2, 2, 7.}, {3, 1, 4.}}};

// every way of building a product keeps the components in the order given
static CP build(const std::vector<Comp> &c, int how) {
  std::vector<PM> ps;
  for (auto &q : c) ps.push_back(PM(Probe(q.nx, q.nv, q.a)));
  if (how == 0) return CP(ps);
  if (how == 1) { CP p; for (auto &q : c) p.addComponent(Probe(q.nx, q.nv, q.a)); return p; }
  if (how == 2) { CP p; for (auto &q : ps) p.addComponent(q); return p; }
  if (ps.size() == 1) { CP e; return e * ps[0]; }
  if (how == 3) { CP p = ps[0] * ps[1]; for (size_t i = 2; i < ps.size(); i++) p = p * ps[i]; return p; }
  if (how == 4) { // poly * product
    CP tail;
    for (size_t i = 1; i < ps.size(); i++) tail.addComponent(ps[i]);
    return ps[0] * tail;
  }
  if (how == 5) { // product * product
    CP h, t;
    h.addComponent(ps[0]);
    for (size_t i = 1; i < ps.size(); i++) t.addComponent(ps[i]);
    return h * t;
  }
  CP h, t; // addComponent(product) splices
  h.addComponent(ps[0]);
  for (size_t i = 1; i < ps.size(); i++) t.addComponent(ps[i]);
  h.addComponent(t);
  return h;
}

SX_HARNESS(product) {
  int p = sx::choice("pattern", PAT.size());
  auto &c = PAT[p];
  int how = sx::choice("how", 7);
  CP sp = build(c, how);
  CP copy(sp);
  int nx = 0, nv = 0;
  for (auto &q : c) nx += q.nx, nv += q.nv;
  sx::check("dims", sp.nx() == nx && sp.ndx() == nv && sp.numComponents() == c.size() && copy.nx() == nx);
  VX x = sym_vec(nx, "x"), y = sym_vec(nx, "y"), v = sym_vec(nv, "v");
  VX xi(nx), d(nv);
  sp.integrate(x, v, xi);
  sp.difference(x, y, d);
  MX J[2], D[2], T[2], T0[2];
  for (int a = 0; a < 2; a++) {
    J[a].resize(nv, nv);
    D[a].resize(nv, nv);
    T0[a] = sym_mat(nv, 2, "T" + S(a));
    T[a] = T0[a];
    sp.Jintegrate(x, v, J[a], a);
    sp.Jdifference(x, y, D[a], a);
    sp.JintegrateTransport(x, v, T[a], a);
  }
  VX ne = sp.neutral();
  sx::check("neutral.size", ne.size() == nx);
  VX ra = sp.rand();
  sx::check("rand.size", ra.size() == nx);
  auto sx_ = sp.split(static_cast<const M::ConstVectorRef &>(M::ConstVectorRef(x)));
  auto sv = sp.split_vector(static_cast<const M::ConstVectorRef &>(M::ConstVectorRef(v)));
  std::vector<VX> xs, vs;
  int ox = 0, ov = 0;
  bool anyzero = false;
  for (size_t k = 0; k < c.size(); k++) {
    const M &m = sp.getComponent(k);
    Probe q(c[k].nx, c[k].nv, c[k].a);
    sx::check("comp_dim" + S(k), m.nx() == c[k].nx && m.ndx() == c[k].nv);
    VX xk = x.segment(ox, q.nx_), yk = y.segment(ox, q.nx_), vk = v.segment(ov, q.ndx_);
    VX o(q.nx_), dd(q.ndx_);
    q.integrate(xk, vk, o);
    q.difference(xk, yk, dd);
    sx::check_mat_eq("integrate" + S(k), xi.segment(ox, q.nx_).eval(), o);
    sx::check_mat_eq("difference" + S(k), d.segment(ov, q.ndx_).eval(), dd);
    sx::check_mat_eq("neutral" + S(k), ne.segment(ox, q.nx_).eval(), q.neutral());
    sx::check_mat_eq("rand" + S(k), ra.segment(ox, q.nx_).eval(), q.rand());
    sx::check_mat_eq("copy" + S(k), copy.integrate(x, v).segment(ox, q.nx_).eval(), o);
    for (int a = 0; a < 2; a++) {
      MX Jk(q.ndx_, q.ndx_), Dk(q.ndx_, q.ndx_), Tk = T0[a].middleRows(ov, q.ndx_);
      q.Jintegrate(xk, vk, Jk, a);
      q.Jdifference(xk, yk, Dk, a);
      q.JintegrateTransport(xk, vk, Tk, a);
      for (int i = 0; i < q.ndx_; i++)
        for (int j = 0; j < nv; j++) {
          bool in = j >= ov && j < ov + q.ndx_;
          sx::check_eq("Jintegrate" + S(k), J[a](ov + i, j), in ? Jk(i, j - ov) : 0.);
          sx::check_eq("Jdifference" + S(k), D[a](ov + i, j), in ? Dk(i, j - ov) : 0.);
        }
      sx::check_mat_eq("transport" + S(k), T[a].middleRows(ov, q.ndx_).eval(), Tk);
    }
    sx::check_mat_eq("split" + S(k), VX(sx_[k]), xk);
    sx::check_mat_eq("split_vector" + S(k), VX(sv[k]), vk);
    xs.push_back(xk);
    vs.push_back(vk);
    ox += q.nx_;
    ov += q.ndx_;
  }
  (void)anyzero;
  sx::check("split.count", sx_.size() == c.size() && sv.size() == c.size());
  sx::check_mat_eq("merge_split", sp.merge(xs), x);
  sx::check_mat_eq("merge_split_vector", sp.merge_vector(vs), v);
  // writable views write into the argument, block by block
  VX xw = x, vw = v;
  {
    auto wx = sp.split(M::VectorRef(xw));
    auto wv = sp.split_vector(M::VectorRef(vw));
    for (size_t k = 0; k < c.size(); k++) { wx[k] = 2. * wx[k]; wv[k] = 3. * wv[k]; }
  }
  sx::check_mat_eq("split_write", xw, (2. * x).eval());
  sx::check_mat_eq("split_vector_write", vw, (3. * v).eval());
  // the default interpolation of a product
  double u = sx::real("u");
  VX m = sp.interpolate(x, y, u);
  sx::check_mat_eq("interp", m, sp.integrate(x, (u * d).eval()));
  sx::reach("end");
}

SX_HARNESS(normalized) {
  int p = sx::choice("pattern", PAT.size());
  auto &c = PAT[p];
  CP sp = build(c, 0);
  VX x = sym_vec(sp.nx(), "x");
  bool r = sp.isNormalized(x);
  sx::B all = sx::B::c(true);
  int o = 0;
  for (auto &q : c) { all = all && sx::gt(x[o], q.a); o += q.nx; }
  sx::check("all_components", sx::iff(sx::B::c(r), all));
  TangentBundleTpl<CP> tb(sp);
  VX xt(sp.nx() + sp.ndx());
  xt.head(sp.nx()) = x;
  xt.tail(sp.ndx()) = sym_vec(sp.ndx(), "t");
  sx::check("bundle", tb.isNormalized(xt) == r);
  // wrong dimensions are rejected by the splitting functions
  bool thrown = false, thrown2 = false;
  VX bad = VX::Zero(sp.nx() + 1), badv = VX::Zero(sp.ndx() + 1);
  try { sp.split(M::VectorRef(bad)); } catch (const std::exception &) { thrown = true; }
  try { sp.split_vector(M::VectorRef(badv)); } catch (const std::exception &) { thrown2 = true; }
  sx::check("dim_check", thrown && thrown2);
  sx::reach("end");
}

SX_HARNESS(bundle) {
  // base with nx=3, ndx=2: points are (base point, velocity), tangent = (base tangent, dv)
  Probe b(3, 2, 2.);
  TangentBundleTpl<Probe> tb(b);
  const M &m = tb;
  sx::check("dims", m.nx() == 5 && m.ndx() == 4);
  VX x = sym_vec(5, "x"), y = sym_vec(5, "y"), v = sym_vec(4, "v");
  VX o(5), d(4), bo(3), bd(2);
  m.integrate(x, v, o);
  m.difference(x, y, d);
  b.integrate(x.head(3), v.head(2), bo);
  b.difference(x.head(3), y.head(3), bd);
  sx::check_mat_eq("base_integrate", o.head(3).eval(), bo);
  sx::check_mat_eq("fibre_integrate", o.tail(2).eval(), (x.tail(2) + v.tail(2)).eval());
  sx::check_mat_eq("base_difference", d.head(2).eval(), bd);
  sx::check_mat_eq("fibre_difference", d.tail(2).eval(), (y.tail(2) - x.tail(2)).eval());
  for (int a = 0; a < 2; a++) {
    MX J(4, 4), D(4, 4), T = sym_mat(4, 3, "T" + S(a)), T0 = T, Jb(2, 2), Db(2, 2), Tb = T.topRows(2);
    m.Jintegrate(x, v, J, a);
    m.Jdifference(x, y, D, a);
    m.JintegrateTransport(x, v, T, a);
    b.Jintegrate(x.head(3), v.head(2), Jb, a);
    b.Jdifference(x.head(3), y.head(3), Db, a);
    b.JintegrateTransport(x.head(3), v.head(2), Tb, a);
    MX Jr = MX::Zero(4, 4), Dr = MX::Zero(4, 4);
    Jr.topLeftCorner(2, 2) = Jb;
    Jr.bottomRightCorner(2, 2).setIdentity();
    Dr.topLeftCorner(2, 2) = Db;
    Dr(2, 2) = Dr(3, 3) = a == 0 ? -1. : 1.;
    sx::check_mat_eq("J" + S(a), J, Jr);
    sx::check_mat_eq("D" + S(a), D, Dr);
    sx::check_mat_eq("Tbase" + S(a), T.topRows(2).eval(), Tb);
    sx::check_mat_eq("Tfibre" + S(a), T.bottomRows(2).eval(), T0.bottomRows(2).eval());
  }
  double u = sx::real("u");
  VX in(5), bi(3);
  m.interpolate(x, y, u, in);
  b.interpolate(x.head(3), y.head(3), u, bi);
  sx::check_mat_eq("interp_base", in.head(3).eval(), bi);
  sx::check_mat_eq("interp_fibre", in.tail(2).eval(), ((1. - u) * x.tail(2) + u * y.tail(2)).eval());
  VX n = m.neutral(), nr = VX::Zero(5);
  nr.head(3) = b.neutral();
  sx::check_mat_eq("neutral", n, nr);
  VX ra = m.rand();
  sx::check("rand.size", ra.size() == 5);
  sx::check_mat_eq("rand", ra.head(3).eval(), b.rand());
  sx::check("normalized", m.isNormalized(x) == b.isNormalized(x.head(3)));
  sx::check_mat_eq("base_point", VX(tb.getBasePoint(x)), x.head(3).eval());
  sx::check_mat_eq("base_tangent", VX(tb.getBaseTangent(v)), v.head(2).eval());
  sx::reach("end");
}
