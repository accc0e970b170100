// C11..C14: costs, functions, finite differences.
#include "common.hpp"
#include <proxsuite-nlp/modelling/spaces/vector-space.hpp>
#include <proxsuite-nlp/modelling/spaces/cartesian-product.hpp>
#include <proxsuite-nlp/cost-function.hpp>
#include <proxsuite-nlp/cost-sum.hpp>
#include <proxsuite-nlp/function-ops.hpp>
#include <proxsuite-nlp/modelling/costs/quadratic-residual.hpp>
#include <proxsuite-nlp/modelling/costs/squared-distance.hpp>
#include <proxsuite-nlp/modelling/residuals/linear.hpp>
#include <proxsuite-nlp/modelling/residuals/state-residual.hpp>
#include <proxsuite-nlp/modelling/autodiff/finite-difference.hpp>
using M = ManifoldAbstractTpl<double>;
using PM = xyz::polymorphic<M>;
using V = VectorSpaceTpl<double>;
using F2 = C2FunctionTpl<double>;
using Cost = CostFunctionBaseTpl<double>;
using CostP = std::shared_ptr<Cost>;
using Sum = CostSumTpl<double>;
using CVR = Eigen::Ref<const VX>;
#include <proxsuite-nlp/modelling/spaces/tangent-bundle.hpp>
#include "heis.hpp"

// user function r_k(x) = b_k + A_k x + x' Q_k x / 2 (symbolic coefficients)
struct QuadFn : F2 {
  MX A; VX b; std::vector<MX> Q;
  QuadFn(int n, int nr, const std::string &p, bool quad) : F2(n, n, nr), A(sym_mat(nr, n, p + "A")), b(sym_vec(nr, p + "b")) {
    for (int k = 0; k < nr; k++) {
      MX q = MX::Zero(n, n);
      if (quad) for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) q(i, j) = q(j, i) = sx::real(p + "Q" + S(k) + S(i) + S(j));
      Q.push_back(q);
    }
  }
  VectorXs operator()(const ConstVectorRef &x) const override {
    VX r(nr_);
    for (int k = 0; k < nr_; k++) { r[k] = b[k] + A.row(k).dot(x); VX t = Q[k] * x; r[k] += 0.5 * x.dot(t); }
    return r;
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    for (int k = 0; k < nr_; k++) { VX t = Q[k] * x; J.row(k) = A.row(k) + t.transpose(); }
  }
  void vectorHessianProduct(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef H) const override {
    H.setZero();
    for (int k = 0; k < nr_; k++) H += v[k] * Q[k];
  }
};
// exact first / second derivatives along d of a polynomial of degree <= 4
template <class Fn> double d1(Fn f, const VX &x, const VX &d) {
  return (f((x - 2. * d).eval()) - 8. * f((x - d).eval()) + 8. * f((x + d).eval()) - f((x + 2. * d).eval())) / 12.;
}
template <class Fn> double d2(Fn f, const VX &x, const VX &d) {
  return (16. * f((x - d).eval()) - f((x - 2. * d).eval()) - 30. * f(x) + 16. * f((x + d).eval()) - f((x + 2. * d).eval())) / 12.;
}
// an arbitrary earlier use of the object at other points
static void history(const Cost &c, const char *tag) {
  int n = c.nx(), nv = c.ndx();
  int h = sx::choice(tag, 5);
  VX y = sym_vec(n, std::string(tag) + "y");
  VX g(nv); MX H(nv, nv);
  if (h == 1) c.call(y);
  if (h == 2) c.computeGradient(y, g);
  if (h == 3) c.computeHessian(y, H);
  if (h == 4) { c.call(y); VX z = sym_vec(n, std::string(tag) + "z"); c.computeGradient(z, g); c.computeHessian(y, H); }
}
static MX sym_sym(int n, const std::string &p) {
  MX q(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) q(i, j) = q(j, i) = sx::real(p + S(i) + S(j));
  return q;
}
static void check_deriv(const std::string &l, const Cost &c, const VX &x, bool hess, int order) {
  int n = c.ndx();
  VX d = sym_vec(n, l + "d");
  VX g(n); MX H(n, n);
  auto f = [&](const VX &y) { return c.call(y); };
  // queries in either order, without call() first
  if (order == 0) { c.computeGradient(x, g); c.computeHessian(x, H); }
  else { c.computeHessian(x, H); c.computeGradient(x, g); }
  sx::check_mat_eq(l + "galloc", c.computeGradient(x), g);
  sx::check_mat_eq(l + "Halloc", c.computeHessian(x), H);
  sx::check_eq(l + "grad", g.dot(d), d1(f, x, d));
  if (hess) {
    VX t = H * d;
    sx::check_eq(l + "hess", d.dot(t), d2(f, x, d));
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx::check_eq(l + "sym", H(i, j), H(j, i));
  }
}

SX_HARNESS(quad_residual) {
  int n = 2, nr = sx_int_param("nr", 2);
  int gn = sx::choice("gauss_newton", 2), quad = sx::choice("quadratic", 2), order = sx::choice("order", 2);
  auto r = std::make_shared<QuadFn>(n, nr, "r", quad);
  MX Wt = sym_sym(nr, "W");
  VX s = sym_vec(nr, "s");
  double c0 = sx::real("c0");
  QuadraticResidualCostTpl<double> c(r, Wt, s, c0);
  c.gauss_newton_ = gn;
  history(c, "h");
  VX x = sym_vec(n, "x");
  VX e = (*r)(x), We = Wt * e;
  if (order == 0) sx::check_eq("value", c.call(x), 0.5 * e.dot(We) + e.dot(s) + c0);
  check_deriv("", c, x, !gn || !quad, order);
  if (order == 1) sx::check_eq("value", c.call(x), 0.5 * e.dot(We) + e.dot(s) + c0);
  if (gn) { // Gauss-Newton Hessian J'WJ
    MX J = r->F2::Base::computeJacobian(x), H(n, n), WJ = Wt * J;
    c.computeHessian(x, H);
    sx::check_mat_eq("gn", H, (J.transpose() * WJ).eval());
  }
  sx::check_eq("again", c.call(x), 0.5 * e.dot(We) + e.dot(s) + c0);
  sx::reach("end");
}
SX_HARNESS(distance) {
  int k = sx::choice("space", 2), ctor = sx::choice("ctor", 3), order = sx::choice("order", 2);
  PM sp = k == 0 ? PM(V(2)) : PM(CartesianProductTpl<double>(PM(V(1)), PM(V(1))));
  VX t = sym_vec(2, "t");
  MX Wt = sym_sym(2, "W");
  using QD = QuadraticDistanceCostTpl<double>;
  QD c = ctor == 0 ? QD(sp, t, Wt) : ctor == 1 ? QD(sp, t) : QD(sp);
  if (ctor) Wt.setIdentity();
  if (ctor == 2) t.setZero();
  history(c, "h");
  VX x = sym_vec(2, "x");
  sx::check_mat_eq("target", VX(c.getTarget()), t);
  VX e = x - t, We = Wt * e;
  if (order) sx::check_eq("value", c.call(x), 0.5 * e.dot(We));
  check_deriv("", c, x, true, order);
  // moving the target takes effect at once, on every query
  VX t2 = sym_vec(2, "t2");
  c.updateTarget(t2);
  sx::check_mat_eq("target2", VX(c.getTarget()), t2);
  VX g(2), e2 = x - t2, We2 = Wt * e2;
  c.computeGradient(x, g);
  sx::check_mat_eq("grad2", g, We2);
  sx::check_eq("value2", c.call(x), 0.5 * e2.dot(We2));
  sx::reach("end");
}
SX_HARNESS(sum_deriv) { // derivatives of a sum with stateful components, and of nested sums
  int order = sx::choice("order", 2), nested = sx::choice("nested", 2);
  auto r1 = std::make_shared<QuadFn>(2, 1, "r", true);
  auto c1 = std::make_shared<QuadraticResidualCostTpl<double>>(r1, sym_sym(1, "W1"), sym_vec(1, "s1"));
  c1->gauss_newton_ = false;
  auto c2 = std::make_shared<QuadraticDistanceCostTpl<double>>(PM(V(2)), sym_vec(2, "t"), sym_sym(2, "W2"));
  auto s = std::make_shared<Sum>(2, 2);
  s->addComponent(c1, sx::real("w1"));
  s->addComponent(c2, sx::real("w2"));
  Sum top(2, 2);
  top.addComponent(s, sx::real("w3"));
  top.addComponent(c2, sx::real("w4"));
  const Cost &c = nested ? (const Cost &)top : (const Cost &)*s;
  history(c, "h");
  VX x = sym_vec(2, "x");
  check_deriv("", c, x, true, order);
  sx::reach("end");
}

// C12: algebra of costs.  Plain symbolic costs with recognisable values.
struct LinCost : Cost {
  VX g; MX H; double k;
  LinCost(const std::string &p) : Cost(2, 2), g(sym_vec(2, p + "g")), H(sym_mat(2, 2, p + "H")), k(sx::real(p + "k")) {}
  double call(const ConstVectorRef &x) const override { return k + g.dot(x); }
  void computeGradient(const ConstVectorRef &x, VectorRef o) const override { o = g + H * x; }
  void computeHessian(const ConstVectorRef &x, MatrixRef o) const override { o = x[0] * H; }
};
SX_HARNESS(algebra) {
  auto a = std::make_shared<LinCost>("a"), b = std::make_shared<LinCost>("b"), c = std::make_shared<LinCost>("c");
  CostP pa = a, pb = b, pc = c;
  double w = sx::real("w"), u = sx::real("u");
  int op = sx::choice("op", 15);
  double wa = 0, wb = 0, wc = 0;
  std::shared_ptr<Sum> s, orig;
  double oa = 0, ob = 0; // weights the operand must still have
  size_t ncomp = 0;
  switch (op) {
  case 0: s = pa + pb; wa = wb = 1; ncomp = 2; break;
  case 1: s = w * pa; wa = w; ncomp = 1; break;
  case 2: { auto t = w * pa; s = std::move(t) + pb; wa = w; wb = 1; ncomp = 2; break; }
  case 3: orig = pa + pb; s = (*orig) * w; wa = wb = w; oa = ob = 1; ncomp = 2; break;
  case 4: orig = pa + pb; s = w * (*orig); wa = wb = w; oa = ob = 1; ncomp = 2; break;
  case 5: orig = u * pa; *orig += pb; s = -(*orig); wa = -u; wb = -1; oa = u; ob = 1; ncomp = 2; break;
  case 6: orig = w * pb; s = pa + pc; *s += *orig; wa = wc = 1; wb = w; ob = w; ncomp = 3; break;
  case 7: s = w * pa; *s *= u; wa = w * u; ncomp = 1; break;
  case 8: s = std::make_shared<Sum>(2, 2, std::vector<CostP>{pa, pb, pc}, std::vector<double>{w, u, 3.}); wa = w; wb = u; wc = 3; ncomp = 3; break;
  case 9: orig = w * pa; s = orig->clone(); *s += pb; *s *= u; wa = w * u; wb = u; oa = w; ncomp = 2; break; // clones are independent
  case 10: s = std::make_shared<Sum>(2, 2); break; // empty sum
  case 11: s = w * pa; *s += pa; wa = w + 1; ncomp = 2; break; // the same cost twice
  case 12: s = w * pa; *s += pb; *s += *s; wa = 2 * w; wb = 2; ncomp = 4; break; // sum added to itself
  case 13: { Sum t(2, 2); t.addComponent(pa, w); t.addComponent(pb); Sum t2 = t; t2 *= u; s = std::make_shared<Sum>(t2); orig = std::make_shared<Sum>(t); wa = w * u; wb = u; oa = w; ob = 1; ncomp = 2; break; }
  default: { auto t = w * pa; auto t2 = std::move(t) + pb; s = std::move(t2) + pc; *s *= u; *s *= w; wa = w * u * w; wb = wc = u * w; ncomp = 3; }
  }
  VX x = sym_vec(2, "x");
  VX g(2); MX H(2, 2);
  sx::check("count", s->numComponents() == ncomp);
  sx::check_eq("value", s->call(x), wa * a->call(x) + wb * b->call(x) + wc * c->call(x));
  s->computeGradient(x, g);
  s->computeHessian(x, H);
  VX ga(2), gb(2), gc(2); MX Ha(2, 2), Hb(2, 2), Hc(2, 2);
  a->computeGradient(x, ga); b->computeGradient(x, gb); c->computeGradient(x, gc);
  a->computeHessian(x, Ha); b->computeHessian(x, Hb); c->computeHessian(x, Hc);
  sx::check_mat_eq("grad", g, (wa * ga + wb * gb + wc * gc).eval());
  sx::check_mat_eq("hess", H, (wa * Ha + wb * Hb + wc * Hc).eval());
  const Cost &sc = *s;
  sx::check_mat_eq("galloc", sc.computeGradient(x), g);
  sx::check_mat_eq("Halloc", sc.computeHessian(x), H);
  if (orig) sx::check_eq("operand", orig->call(x), oa * a->call(x) + ob * b->call(x));
  sx::check("dims", s->nx() == 2 && s->ndx() == 2 && s->nr() == 1);
  sx::reach("end");
}

// C13: composition, linear residuals, cost <-> function adapters
SX_HARNESS(compose_fn) {
  int quadl = sx::choice("quadl", 2), quadr = sx::choice("quadr", 2);
  auto g = std::make_shared<QuadFn>(3, 2, "g", quadr);
  auto f = std::make_shared<QuadFn>(2, 2, "f", quadl);
  std::shared_ptr<F2> fp = f, gp = g;
  auto h = compose(fp, gp);
  sx::check("dims", h->nx() == 3 && h->ndx() == 3 && h->nr() == 2);
  VX x = sym_vec(3, "x"), d = sym_vec(3, "d");
  sx::check_mat_eq("value", (*h)(x), (*f)((*g)(x)));
  MX J(2, 3);
  h->computeJacobian(x, J);
  VX Jd = J * d;
  for (int i = 0; i < 2; i++) sx::check_eq("chain" + S(i), Jd[i], d1([&](const VX &y) { return (*h)(y)[i]; }, x, d));
  sx::check_mat_eq("alloc", h->F2::Base::computeJacobian(x), J);
  // queried again at another point
  VX x2 = sym_vec(3, "x2");
  h->computeJacobian(x2, J);
  sx::check_mat_eq("value again", (*h)(x2), (*f)((*g)(x2)));
  Jd = J * d;
  for (int i = 0; i < 2; i++) sx::check_eq("chain again" + S(i), Jd[i], d1([&](const VX &y) { return (*f)((*g)(y))[i]; }, x2, d));
  bool thrown = false;
  try { compose(gp, fp); } catch (const std::exception &) { thrown = true; }
  sx::check("incompatible", thrown);
  sx::reach("end");
}
SX_HARNESS(linear_fn) {
  int k = sx::choice("space", 2);
  PM sp = k == 0 ? PM(V(3)) : PM(CartesianProductTpl<double>(PM(V(1)), PM(V(2))));
  MX A = sym_mat(2, 3, "A"), J(2, 3), Jd(3, 3), Hv(3, 3);
  VX b = sym_vec(2, "b"), x = sym_vec(3, "x"), t = sym_vec(3, "t"), v = sym_vec(2, "v");
  LinearFunctionTpl<double> lin(A, b), lin0(A);
  const F2 &L = lin;
  sx::check("dims", L.nx() == 3 && L.ndx() == 3 && L.nr() == 2);
  sx::check_mat_eq("value", L(x), (A * x + b).eval());
  sx::check_mat_eq("value0", lin0(x), (A * x).eval());
  L.computeJacobian(x, J);
  sx::check_mat_eq("jac", J, A);
  L.vectorHessianProduct(x, v, Hv);
  sx::check_mat_eq("vhp", Hv, MX::Zero(3, 3).eval());
  ManifoldDifferenceToPoint<double> diff(sp, t);
  sx::check_mat_eq("diff", diff(x), (x - t).eval());
  static_cast<const F2 &>(diff).computeJacobian(x, Jd);
  sx::check_mat_eq("diffjac", Jd, MX::Identity(3, 3).eval());
  LinearFunctionDifferenceToPoint<double> ld(sp, t, A, b);
  const F2 &LD = ld;
  sx::check_mat_eq("lindiff", LD(x), (A * (x - t) + b).eval());
  MX J2(2, 3);
  LD.computeJacobian(x, J2);
  sx::check_mat_eq("lindiffjac", J2, A);
  sx::reach("end");
}
SX_HARNESS(adapters) {
  auto f = std::make_shared<QuadFn>(2, 1, "f", true);
  std::shared_ptr<F2> fp = f;
  CostP c = downcast_function_to_cost<double>(fp);
  VX x = sym_vec(2, "x"), g(2);
  MX H(2, 2), J(1, 2), Jf(1, 2), Hf(2, 2), Hv(2, 2);
  f->computeJacobian(x, Jf);
  f->vectorHessianProduct(x, VX::Ones(1), Hf);
  sx::check("dims", c->nx() == 2 && c->ndx() == 2 && c->nr() == 1);
  sx::check_eq("call", c->call(x), (*f)(x)[0]);
  c->computeGradient(x, g);
  sx::check_mat_eq("grad", g, Jf.transpose().eval());
  c->computeHessian(x, H);
  sx::check_mat_eq("hess", H, Hf);
  // a cost used as a function again
  const F2 &fc = *c;
  VX val = fc(x);
  sx::check("val.size", val.size() == 1);
  sx::check_eq("val", val[0], (*f)(x)[0]);
  fc.computeJacobian(x, J);
  sx::check_mat_eq("jac", J, Jf);
  VX v = sym_vec(1, "v");
  fc.vectorHessianProduct(x, v, Hv);
  sx::check_mat_eq("vhp", Hv, (v[0] * Hf).eval());
  bool thrown = false;
  std::shared_ptr<F2> f2 = std::make_shared<QuadFn>(2, 2, "q", false);
  try { downcast_function_to_cost<double>(f2); } catch (const std::exception &) { thrown = true; }
  sx::check("reject", thrown);
  sx::reach("end");
}

// C14: finite differences
SX_HARNESS(finite_diff) {
  int quad = sx::choice("quad", 2), k = sx::choice("space", 2);
  PM sp = k == 0 ? PM(V(2)) : PM(CartesianProductTpl<double>(PM(V(1)), PM(V(1))));
  QuadFn f(2, 2, "f", quad);
  double eps = sx::real("eps");
  sx::assume(sx::gt(eps, 0.));
  using namespace proxsuite::nlp::autodiff;
  finite_difference_wrapper<double, TOC1> w1(*sp, f, eps);
  finite_difference_wrapper<double, TOC2> w2(*sp, f, eps);
  VX x = sym_vec(2, "x"), v = sym_vec(2, "v");
  sx::check("dims", w1.nx() == 2 && w1.ndx() == 2 && w1.nr() == 2 && w2.nr() == 2);
  sx::check_mat_eq("value1", w1(x), f(x));
  sx::check_mat_eq("value2", w2(x), f(x));
  MX J(2, 2), Jf(2, 2), J2(2, 2), H(2, 2), Hf(2, 2);
  f.computeJacobian(x, Jf);
  w1.computeJacobian(x, J);
  sx::check_mat_eq("jac_exact_on_quadratics", J, Jf);
  w2.computeJacobian(x, J2);
  sx::check_mat_eq("jac2", J2, Jf);
  w2.vectorHessianProduct(x, v, H);
  f.vectorHessianProduct(x, v, Hf);
  sx::check_mat_eq("vhp_exact_on_quadratics", H, Hf);
  sx::check_mat_eq("jac_again", w1.F2::C1FunctionTpl<double>::computeJacobian(x), J);
  sx::reach("end");
}
struct CubicFn : F2 { // r_i = sum_j c_ij x_j^3 + m x_0^2 x_1
  MX C; double m;
  CubicFn(int nr) : F2(2, 2, nr), C(sym_mat(nr, 2, "C")), m(sx::real("m")) {}
  VectorXs operator()(const ConstVectorRef &x) const override {
    VX r(nr_);
    for (int i = 0; i < nr_; i++) r[i] = C(i, 0) * x[0] * x[0] * x[0] + C(i, 1) * x[1] * x[1] * x[1] + m * x[0] * x[0] * x[1];
    return r;
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    for (int i = 0; i < nr_; i++) {
      J(i, 0) = 3. * C(i, 0) * x[0] * x[0] + 2. * m * x[0] * x[1];
      J(i, 1) = 3. * C(i, 1) * x[1] * x[1] + m * x[0] * x[0];
    }
  }
};
SX_HARNESS(finite_diff_error) { // second-order accuracy on cubics: the error is exactly eps^2 * third derivative / 6
  CubicFn f(3);
  V sp(2);
  double eps = sx::real("eps");
  sx::assume(sx::gt(eps, 0.));
  using namespace proxsuite::nlp::autodiff;
  finite_difference_wrapper<double, TOC1> w1(sp, f, eps);
  finite_difference_wrapper<double, TOC2> w2(sp, f, eps);
  VX x = sym_vec(2, "x"), v = sym_vec(3, "v");
  MX J(3, 2), Jf(3, 2), H(2, 2), Hf = MX::Zero(2, 2);
  f.computeJacobian(x, Jf);
  w1.computeJacobian(x, J);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 2; j++) sx::check_eq("err" + S(i) + S(j), J(i, j) - Jf(i, j), eps * eps * f.C(i, j));
  w2.vectorHessianProduct(x, v, H);
  for (int i = 0; i < 3; i++) {
    Hf(0, 0) += v[i] * (6. * f.C(i, 0) * x[0] + 2. * f.m * x[1]);
    Hf(1, 1) += v[i] * 6. * f.C(i, 1) * x[1];
    Hf(0, 1) += v[i] * 2. * f.m * x[0];
    Hf(1, 0) += v[i] * 2. * f.m * x[0];
  }
  sx::check_mat_eq("vhp", H, Hf);
  sx::reach("end");
}

// Residuals, costs and finite differences over a curved, non-commutative
// manifold with nx != ndx (heis.hpp).  Derivatives are along x (+) t d, where
// everything below is a polynomial of degree <= 4 in t.
static const int NCURVED = 4;
static PM curved_space(int k) {
  using CP = CartesianProductTpl<double>;
  switch (k) {
  case 0: return PM(Heis());
  case 1: return PM(CP(PM(Heis()), PM(V(1))));
  case 2: return PM(CP(PM(V(1)), PM(Heis())));
  default: return PM(TangentBundleTpl<Heis>(Heis()));
  }
}
static VX curved_point(int k, const PM &sp, const std::string &p) {
  VX x = sym_vec(sp->nx(), p);
  x[k == 2 ? 4 : 3] = 1.;
  return x;
}
template <class Fn> double g1(const M &sp, Fn f, const VX &x, const VX &d) {
  auto at = [&](double t) { return f(sp.integrate(x, (t * d).eval())); };
  return (at(-2.) - 8. * at(-1.) + 8. * at(1.) - at(2.)) / 12.;
}
template <class Fn> double g2(const M &sp, Fn f, const VX &x, const VX &d) {
  auto at = [&](double t) { return f(sp.integrate(x, (t * d).eval())); };
  return (16. * at(-1.) - at(-2.) - 30. * at(0.) + 16. * at(1.) - at(2.)) / 12.;
}
SX_HARNESS(curved_distance) {
  int k = sx::choice("space", NCURVED), ctor = sx::choice("ctor", 3), order = sx::choice("order", 2), h = sx::choice("history", 4);
  PM sp = curved_space(k);
  int nx = sp->nx(), n = sp->ndx();
  VX t = curved_point(k, sp, "t");
  MX Wt = sym_sym(n, "W");
  using QD = QuadraticDistanceCostTpl<double>;
  QD c = ctor == 0 ? QD(sp, t, Wt) : ctor == 1 ? QD(sp, t) : QD(sp);
  if (ctor) Wt.setIdentity();
  if (ctor == 2) t = sp->neutral();
  sx::check("dims", c.nx() == nx && c.ndx() == n && c.nr() == 1);
  VX g(n); MX H(n, n);
  auto probe = [&](const std::string &l, const VX &x, const VX &tg) {
    VX d = sym_vec(n, l + "d"), e = sp->difference(tg, x), We = Wt * e;
    auto f = [&](const VX &y) { VX q = sp->difference(tg, y), Wq = Wt * q; return 0.5 * q.dot(Wq); };
    sx::check_mat_eq(l + "target", VX(c.getTarget()), tg);
    if (order) sx::check_eq(l + "value", c.call(x), 0.5 * e.dot(We));
    if (order) c.computeHessian(x, H);
    c.computeGradient(x, g);
    if (!order) c.computeHessian(x, H);
    sx::check_eq(l + "grad", g.dot(d), g1(*sp, f, x, d));
    VX Hd = H * d;
    sx::check_eq(l + "hess", d.dot(Hd), g2(*sp, f, x, d));
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx::check_eq(l + "sym", H(i, j), H(j, i));
    sx::check_eq(l + "value2", c.call(x), 0.5 * e.dot(We));
  };
  if (h) { // an earlier use at another point
    VX y = curved_point(k, sp, "y");
    if (h == 1) c.call(y);
    if (h == 2) c.computeGradient(y, g);
    if (h == 3) c.computeHessian(y, H);
  }
  probe("", curved_point(k, sp, "x"), t);
  VX t2 = curved_point(k, sp, "t2");
  c.updateTarget(t2);
  probe("moved", curved_point(k, sp, "z"), t2);
  sx::reach("end");
}
// f(x) = a + b'x + x'Qx/2 in the coordinates of the representation
struct CoordFn : F2 {
  PM sp; MX A; VX b; std::vector<MX> Q;
  CoordFn(const PM &s, int nr, const std::string &p) : F2(s->nx(), s->ndx(), nr), sp(s), A(sym_mat(nr, s->nx(), p + "A")), b(sym_vec(nr, p + "b")) {
    for (int k = 0; k < nr; k++) Q.push_back(sym_sym(s->nx(), p + "Q" + S(k)));
  }
  VectorXs operator()(const ConstVectorRef &x) const override {
    VX r(nr_);
    for (int k = 0; k < nr_; k++) { VX t = Q[k] * x; r[k] = b[k] + A.row(k).dot(x) + 0.5 * x.dot(t); }
    return r;
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override { // exact: columns are derivatives along x (+) t e_j
    for (int j = 0; j < ndx_; j++) {
      VX e = VX::Zero(ndx_);
      e[j] = 1.;
      for (int k = 0; k < nr_; k++) J(k, j) = g1(*sp, [&](const VX &y) { return (*this)(y)[k]; }, x, e);
    }
  }
};
SX_HARNESS(curved_residuals) { // difference residuals, linear functions of them, and compositions
  int k = sx::choice("space", NCURVED), again = sx::choice("again", 2);
  PM sp = curved_space(k);
  int nx = sp->nx(), n = sp->ndx();
  VX t = curved_point(k, sp, "t"), x = curved_point(k, sp, "x"), d = sym_vec(n, "d"), y = curved_point(k, sp, "y");
  MX A = sym_mat(2, n, "A");
  VX b = sym_vec(2, "b");
  auto diff = std::make_shared<ManifoldDifferenceToPoint<double>>(sp, t);
  LinearFunctionDifferenceToPoint<double> ld(sp, t, A, b);
  auto q = std::make_shared<QuadFn>(n, 2, "q", true);
  std::shared_ptr<F2> qp = q, dp = diff;
  auto comp = compose(qp, dp);
  const F2 &D = *diff, &L = ld, &Cc = *comp;
  sx::check("dims", D.nx() == nx && D.ndx() == n && D.nr() == n && L.nx() == nx && L.ndx() == n && L.nr() == 2 && Cc.nx() == nx && Cc.ndx() == n && Cc.nr() == 2);
  MX JD(n, n), JL(2, n), JC(2, n);
  if (again) { D(y); L(y); Cc(y); D.computeJacobian(y, JD); L.computeJacobian(y, JL); Cc.computeJacobian(y, JC); }
  VX e = sp->difference(t, x);
  sx::check_mat_eq("diff", D(x), e);
  sx::check_mat_eq("lin", L(x), (A * e + b).eval());
  sx::check_mat_eq("comp", Cc(x), (*q)(e));
  D.computeJacobian(x, JD);
  L.computeJacobian(x, JL);
  Cc.computeJacobian(x, JC);
  VX JDd = JD * d, JLd = JL * d, JCd = JC * d;
  auto ev = [&](const VX &z) { return sp->difference(t, z); };
  for (int i = 0; i < n; i++) sx::check_eq("diffjac" + S(i), JDd[i], g1(*sp, [&](const VX &z) { return ev(z)[i]; }, x, d));
  for (int i = 0; i < 2; i++) {
    sx::check_eq("linjac" + S(i), JLd[i], g1(*sp, [&](const VX &z) { VX r = A * ev(z) + b; return r[i]; }, x, d));
    sx::check_eq("compjac" + S(i), JCd[i], g1(*sp, [&](const VX &z) { return (*q)(ev(z))[i]; }, x, d));
  }
  sx::check_mat_eq("alloc", L.F2::Base::computeJacobian(x), JL);
  sx::reach("end");
}
SX_HARNESS(curved_fd) {
  int k = sx::choice("space", 2);
  PM sp = curved_space(k);
  int nx = sp->nx(), n = sp->ndx();
  CoordFn f(sp, 2, "f");
  double eps = sx::real("eps");
  sx::assume(sx::gt(eps, 0.));
  using namespace proxsuite::nlp::autodiff;
  finite_difference_wrapper<double, TOC1> w1(*sp, f, eps);
  finite_difference_wrapper<double, TOC2> w2(*sp, f, eps);
  sx::check("dims", w1.nx() == nx && w1.ndx() == n && w1.nr() == 2 && w2.nx() == nx && w2.ndx() == n && w2.nr() == 2);
  for (int it = 0; it < 2; it++) {
    VX x = curved_point(k, sp, "x" + S(it)), v = sym_vec(2, "v" + S(it)), d = sym_vec(n, "d" + S(it)), x0 = x;
    MX J(2, n), J2(2, n), Jf(2, n), H(n, n);
    f.computeJacobian(x, Jf);
    w1.computeJacobian(x, J);
    w2.computeJacobian(x, J2);
    w2.vectorHessianProduct(x, v, H);
    sx::check_mat_eq("value1", w1(x), f(x));
    sx::check_mat_eq("value2", w2(x), f(x));
    // f is quadratic in t along x (+) t e_j: central differences are exact
    sx::check_mat_eq("jac", J, Jf);
    sx::check_mat_eq("jac2", J2, Jf);
    VX Hd = H * d;
    sx::check_eq("vhp", d.dot(Hd), g2(*sp, [&](const VX &y) { return v.dot(f(y)); }, x, d));
  }
  sx::reach("end");
}
