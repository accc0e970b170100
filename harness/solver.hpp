#pragma once
// Fixture for the solver harnesses: problems over R^n whose cost and
// constraint functions return harness-controlled (symbolic) values.
#include "common.hpp"
#include "block-kind.cpp"
#include <proxsuite-nlp/prox-solver.hpp>
#include <proxsuite-nlp/modelling/constraints.hpp>
#include <proxsuite-nlp/modelling/spaces/vector-space.hpp>
using Solver = ProxNLPSolverTpl<double>;
using Problem = ProblemTpl<double>;
using Wsp = WorkspaceTpl<double>;
using Res = ResultsTpl<double>;
using F2 = C2FunctionTpl<double>;
using Cost = CostFunctionBaseTpl<double>;
using Cstr = ConstraintObjectTpl<double>;
using V = VectorSpaceTpl<double>;
using VR = Eigen::Ref<VX>;

namespace {
const double TINY = 9.5367431640625e-07;
// PROD: product of an equality, an orthant and an L1 penalty; CURVED: an equality which
// asks for its second-order terms
enum Kind { EQ, NEG, BOX, L1, PROD, CURVED };
struct CurvedSet : EqualityConstraintTpl<double> { bool disableGaussNewton() const override { return false; } };
// one scalar constraint row
struct Row { int kind; double lo, hi; };
// z minus its proximal map (for a set: the projection onto the normal cone); forks on symbolic z
double nproj(const Row &r, double z, double mu) {
  if (r.kind == EQ) return z;
  if (r.kind == NEG) return z > 0. ? z : 0.;
  if (r.kind == L1) return z > mu ? mu : z < -mu ? -mu : z;
  return z < r.lo ? z - r.lo : z > r.hi ? z - r.hi : 0.;
}
double proj(const Row &r, double z, double mu) { return z - nproj(r, z, mu); }
// value of the penalty at the proximal point
double penalty(const Row &r, double z, double mu) {
  if (r.kind != L1) return 0.;
  const double p = proj(r, z, mu);
  return p < 0. ? -p : p;
}
// is the derivative of nproj one (else zero)
bool active(const Row &r, double z, double mu) {
  if (r.kind == L1) return z <= mu && z >= -mu;
  return r.kind == EQ || (r.kind == NEG ? z > 0. : (z < r.lo || z > r.hi));
}
void off_kink(const Row &r, double z, double mu) {
  if (r.kind == NEG) sx::assume(sx::ne(z, 0.));
  if (r.kind == BOX) sx::assume(sx::ne(z, r.lo) && sx::ne(z, r.hi));
  if (r.kind == L1) sx::assume(sx::ne(z, mu) && sx::ne(z, -mu));
}
// assume that y lies on the same piece as z (which is off the kinks)
void same_piece(const Row &r, double z, double y, double mu) {
  if (r.kind == NEG) sx::assume(z > 0. ? sx::gt(y, 0.) : sx::lt(y, 0.));
  if (r.kind == BOX) sx::assume(z < r.lo ? sx::lt(y, r.lo) : z > r.hi ? sx::gt(y, r.hi) : sx::gt(y, r.lo) && sx::lt(y, r.hi));
  if (r.kind == L1) sx::assume(z < -mu ? sx::lt(y, -mu) : z > mu ? sx::gt(y, mu) : sx::gt(y, -mu) && sx::lt(y, mu));
}
// R^n, or R^n seen through a chart: points (2u, 7) of R^(n+1), so that points and
// tangent vectors have different sizes and integrate() is not a sum
bool chart = false;
struct Chart : ManifoldAbstractTpl<double> {
  int n;
  explicit Chart(int n) : n(n) {}
  int nx() const override { return n + 1; }
  int ndx() const override { return n; }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef out) const override {
    for (int i = 0; i < n; i++) out[i] = x[i] + 2. * v[i];
    out[n] = x[n];
  }
  void difference_impl(const ConstVectorRef &x0, const ConstVectorRef &x1, VectorRef out) const override {
    for (int i = 0; i < n; i++) out[i] = (x1[i] - x0[i]) / 2.;
  }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const override { J.setIdentity(); }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &, MatrixRef, int) const override {}
  void Jdifference_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int arg) const override { J.setIdentity(); if (arg == 0) J = -J; }
  VectorXs neutral() const override { VectorXs x = VectorXs::Zero(n + 1); x[n] = 7.; return x; }
  bool isNormalized(const ConstVectorRef &x) const override { return x[n] == 7.; }
};
int amb_size(int n) { return chart ? n + 1 : n; }
// coordinates of a point, and the point with given coordinates
VX coord(const VX &x, int n) { if (!chart) return x; VX u(n); for (int i = 0; i < n; i++) u[i] = x[i] / 2.; return u; }
VX amb(const VX &u) { if (!chart) return u; VX x(u.size() + 1); for (long i = 0; i < u.size(); i++) x[i] = 2. * u[i]; x[u.size()] = 7.; return x; }
// quadratic cost f0 + g.x + x'Hx/2, or (fixed) the same values everywhere
struct QCost : Cost {
  double f0; VX g; MX H; bool fixed = false, bad_hessian = false;
  mutable std::function<void(const VX &)> on_call, on_gradient;
  QCost(int n) : Cost(amb_size(n), n), f0(0), g(VX::Zero(n)), H(MX::Zero(n, n)) {}
  double call(const ConstVectorRef &x_) const override {
    VX x = coord(x_, ndx());
    if (on_call) on_call(x);
    if (fixed) return f0;
    VX t = H * x;
    return f0 + g.dot(x) + 0.5 * x.dot(t);
  }
  void computeGradient(const ConstVectorRef &x_, VectorRef out) const override {
    VX x = coord(x_, ndx());
    if (on_gradient) on_gradient(x);
    if (fixed) out = g; else { VX t = H * x; out = g + t; }
  }
  void computeHessian(const ConstVectorRef &, MatrixRef out) const override { out = H; if (bad_hessian) out(0, 0) = std::numeric_limits<double>::quiet_NaN(); }
};
struct QFn : F2 {
  VX c; MX J; std::vector<MX> Q; bool fixed = false;
  mutable std::function<void(const VX &)> on_call;
  QFn(int n, int nr) : F2(amb_size(n), n, nr), c(VX::Zero(nr)), J(MX::Zero(nr, n)), Q(nr, MX::Zero(n, n)) {}
  VectorXs operator()(const ConstVectorRef &x_) const override {
    VX x = coord(x_, ndx());
    if (on_call) on_call(x);
    if (fixed) return c;
    VX r(nr_);
    for (int k = 0; k < nr_; k++) { VX t = Q[k] * x; r[k] = c[k] + J.row(k).dot(x) + 0.5 * x.dot(t); }
    return r;
  }
  void computeJacobian(const ConstVectorRef &x_, MatrixRef out) const override {
    VX x = coord(x_, ndx());
    if (fixed) { out = J; return; }
    for (int k = 0; k < nr_; k++) { VX t = Q[k] * x; out.row(k) = J.row(k) + t.transpose(); }
  }
  void vectorHessianProduct(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef out) const override {
    out.setZero();
    for (int k = 0; k < nr_; k++) out += v[k] * Q[k];
  }
};
struct Env {
  int n, m = 0;
  std::shared_ptr<QCost> cost;
  std::vector<std::shared_ptr<QFn>> fns;
  std::vector<Row> rows; // all rows, in order
  std::unique_ptr<Problem> prob;
  std::unique_ptr<Solver> s;
  Wsp &w() { return *s->workspace_; }
  Res &r() { return *s->results_; }
};
struct Blk { int kind, nr; };
const std::vector<std::vector<Blk>> PATTERNS{{{EQ, 1}}, {{NEG, 1}}, {{BOX, 1}}, {{EQ, 1}, {NEG, 1}}, {{NEG, 2}}, {}, {{BOX, 1}, {EQ, 2}}, {{NEG, 1}, {EQ, 1}},
  /* 8 */ {{L1, 1}}, {{PROD, 2}}, {{L1, 1}, {EQ, 1}}, /* 11 */ {{PROD, 3}}, {{NEG, 1}, {PROD, 3}}, /* 13 */ {{CURVED, 1}}, {{NEG, 1}, {CURVED, 1}}};
bool concrete_bounds = false;
Row row(int kind, const std::string &n) {
  Row r{kind, 0., 0.};
  if (kind == BOX && concrete_bounds) { r.lo = -1.; r.hi = 1.5; }
  else if (kind == BOX) { r.lo = sx::real(n + "lo"); r.hi = sx::real(n + "hi"); sx::assume(sx::lt(r.lo, r.hi)); }
  return r;
}
Env make_env(int n, const std::vector<Blk> &pat, LDLTChoice ldlt, double tol = 1e-6, double mu_init = 0.25, double rho_init = 0.,
             double mu_lower = 1e-9, double pa = 0.1, double pb = 0.9, double da = 1., double db = 1.) {
  Env e;
  e.n = n;
  e.cost = std::make_shared<QCost>(n);
  std::vector<Cstr> cs;
  for (size_t i = 0; i < pat.size(); i++) {
    const int nr = pat[i].nr;
    auto f = std::make_shared<QFn>(n, nr);
    e.fns.push_back(f);
    VX lo(nr), hi(nr);
    for (int k = 0; k < nr; k++) {
      const int parts[] = {EQ, NEG, L1};
      Row r = row(pat[i].kind == PROD ? parts[k + (nr == 2)] : pat[i].kind == CURVED ? EQ : pat[i].kind, "c" + S(i) + S(k));
      lo[k] = r.lo; hi[k] = r.hi;
      e.rows.push_back(r);
    }
    if (pat[i].kind == EQ) cs.emplace_back(f, EqualityConstraintTpl<double>());
    else if (pat[i].kind == CURVED) cs.emplace_back(f, CurvedSet());
    else if (pat[i].kind == NEG) cs.emplace_back(f, NegativeOrthantTpl<double>());
    else if (pat[i].kind == BOX) cs.emplace_back(f, BoxConstraintTpl<double>(lo, hi));
    else if (pat[i].kind == L1) cs.emplace_back(f, NonsmoothPenaltyL1Tpl<double>());
    else {
      std::vector<polymorphic<ConstraintSetTpl<double>>> sets;
      if (nr == 3) sets.emplace_back(EqualityConstraintTpl<double>());
      sets.emplace_back(NegativeOrthantTpl<double>());
      sets.emplace_back(NonsmoothPenaltyL1Tpl<double>());
      cs.emplace_back(f, ConstraintSetProductTpl<double>(sets, std::vector<Eigen::Index>(nr, 1)));
    }
    e.m += nr;
  }
  if (chart) e.prob.reset(new Problem(Chart(n), e.cost, cs)); else e.prob.reset(new Problem(V(n), e.cost, cs));
  e.s.reset(new Solver(*e.prob, tol, mu_init, rho_init, QUIET, mu_lower, pa, pb, da, db, ldlt));
  e.s->setup();
  return e;
}
// c(x), J(x) of all rows at the fixed point
VX all_c(const Env &e) { VX c(e.m); int k = 0; for (auto &f : e.fns) for (int i = 0; i < f->nr(); i++) c[k++] = f->c[i]; return c; }
MX all_J(const Env &e) { MX J(e.m, e.n); int k = 0; for (auto &f : e.fns) for (int i = 0; i < f->nr(); i++) J.row(k++) = f->J.row(i); return J; }
void sym_point(Env &e, bool vhp) { // arbitrary values and derivatives at one point
  e.cost->fixed = true;
  e.cost->f0 = sx::real("f");
  sx::fill(e.cost->g, "g");
  for (int i = 0; i < e.n; i++) for (int j = 0; j <= i; j++) e.cost->H(i, j) = e.cost->H(j, i) = sx::real("h" + S(i) + S(j));
  for (size_t b = 0; b < e.fns.size(); b++) {
    auto &f = *e.fns[b];
    f.fixed = true;
    sx::fill(f.c, "c" + S(b));
    sx::fill(f.J, "J" + S(b));
    if (vhp) for (int k = 0; k < f.nr(); k++)
      for (int i = 0; i < e.n; i++) for (int j = 0; j <= i; j++) f.Q[k](i, j) = f.Q[k](j, i) = sx::real("q" + S(b) + S(k) + S(i) + S(j));
  }
}
} // namespace
