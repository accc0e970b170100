// Ownership and layout: problem, workspace and results views, polymorphic values, history callback.
#include "solver.hpp"
#include <proxsuite-nlp/helpers/history-callback.hpp>
#include <proxsuite-nlp/modelling/constraints/l1-penalty.hpp>
#include <proxsuite-nlp/modelling/constraints/constraint-set-product.hpp>
#include <proxsuite-nlp/modelling/spaces/tangent-bundle.hpp>

namespace {
using Set = ConstraintSetTpl<double>;
// a space whose points and tangent vectors have different sizes
struct Wide : ManifoldAbstractTpl<double> {
  int nx() const override { return 3; }
  int ndx() const override { return 2; }
  VectorXs neutral() const override { VectorXs v(3); v << 0., 1., 2.; return v; }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &, MatrixRef, int) const override {}
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef o) const override { VX t = x; t.head(2) += v; o = t; }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const override { J.setIdentity(); }
  void difference_impl(const ConstVectorRef &a, const ConstVectorRef &b, VectorRef o) const override { o = b.head(2) - a.head(2); }
  void Jdifference_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const override { J.setIdentity(); }
};
// a function of a point of the wide space
struct WFn : F2 {
  VX c; MX J; std::vector<MX> Q;
  WFn(int nx, int ndx, int nr) : F2(nx, ndx, nr), c(VX::Zero(nr)), J(MX::Zero(nr, ndx)), Q(nr, MX::Zero(ndx, ndx)) {}
  VectorXs operator()(const ConstVectorRef &x) const override { return c * x[0]; }
  void computeJacobian(const ConstVectorRef &x, MatrixRef o) const override { o = J * x[0]; }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef o) const override {
    o.setZero();
    for (int k = 0; k < nr_; k++) o += (v[k] * x[0]) * Q[k];
  }
};
struct WCost : Cost {
  double f; VX g; MX H;
  WCost(int nx, int ndx) : Cost(nx, ndx), f(0), g(VX::Zero(ndx)), H(MX::Zero(ndx, ndx)) {}
  double call(const ConstVectorRef &x) const override { return f * x[0]; }
  void computeGradient(const ConstVectorRef &x, VectorRef o) const override { o = g * x[0]; }
  void computeHessian(const ConstVectorRef &x, MatrixRef o) const override { o = H * x[0]; }
};
template <class Views, class Data> void views_alias(const std::string &l, Views &views, Data &data, const std::vector<int> &dims) {
  sx::check(l + ": one view per constraint", views.size() == dims.size());
  int tot = 0;
  for (int d : dims) tot += d;
  sx::check(l + ": size", data.size() == tot);
  VX a = sym_vec(tot, "a");
  data = a;
  int k = 0;
  for (size_t i = 0; i < dims.size(); i++) {
    sx::check(l + ": view size", views[i].size() == dims[i]);
    for (int j = 0; j < dims[i]; j++, k++) {
      sx::check_eq(l + ": views show the data", views[i][j], a[k]);
      views[i][j] = 2. * a[k];
    }
  }
  for (k = 0; k < tot; k++) sx::check_eq(l + ": the data shows the views", data[k], 2. * a[k]);
}
} // namespace

// views of the workspace and results, and where evaluations are written
SX_HARNESS(layout) {
  const int nb = sx::choice("blocks", 4);
  const bool late = sx::choice("added later", 2); // the last constraint is added after construction
  const bool wide = sx::choice("wide", 2);
  const int ndx = 2, nx = wide ? 3 : 2;
  std::vector<int> dims;
  for (int i = 0; i < nb; i++) dims.push_back(1 + sx::choice("dim", sx_int_param("dims", 2)));
  auto cost = std::make_shared<WCost>(nx, ndx);
  std::vector<std::shared_ptr<WFn>> fns;
  std::vector<Cstr> cs;
  std::vector<int> kinds;
  for (int i = 0; i < nb; i++) {
    fns.push_back(std::make_shared<WFn>(nx, ndx, dims[i]));
    kinds.push_back((i + nb) % 3);
    if (kinds[i] == 0) cs.emplace_back(fns[i], EqualityConstraintTpl<double>());
    else if (kinds[i] == 1) cs.emplace_back(fns[i], NegativeOrthantTpl<double>());
    else cs.emplace_back(fns[i], NonsmoothPenaltyL1Tpl<double>());
  }
  std::unique_ptr<Problem> pp;
  std::vector<Cstr> first(cs.begin(), cs.end() - (late && nb ? 1 : 0));
  if (wide) pp.reset(new Problem(Wide(), cost, first)); else pp.reset(new Problem(V(2), cost, first));
  if (late && nb) pp->addConstraint(cs.back());
  Problem &p = *pp;
  sx::check("problem sizes", p.nx() == nx && p.ndx() == ndx && (int)p.getNumConstraints() == nb);
  int tot = 0;
  for (int i = 0; i < nb; i++) {
    sx::check("constraint dimensions and offsets", p.getConstraintDim(i) == dims[i] && p.getIndex(i) == tot && p.getIndices()[i] == tot);
    tot += dims[i];
  }
  sx::check("total constraint dimension", p.getTotalConstraintDim() == tot);
  VX seg = sym_vec(tot, "seg"), seg0 = seg;
  for (int i = 0; i < nb; i++) for (int j = 0; j < dims[i]; j++) {
    sx::check_eq("segment", p.getConstSegment(seg, i)[j], seg0[p.getIndex(i) + j]);
    p.getSegment(seg, i)[j] *= 3.;
  }
  for (int k = 0; k < tot; k++) sx::check_eq("segment writes", seg[k], 3. * seg0[k]);
  const LDLTChoice ls[] = {LDLTChoice::DENSE, LDLTChoice::BUNCHKAUFMAN, LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN};
  Wsp w(p, ls[(nb + wide) % 4]);
  Res r(p);
  sx::check("workspace sizes", w.nx == nx && w.ndx == ndx && (int)w.numblocks == nb && w.numdual == tot);
  sx::check("system size", w.kkt_matrix.rows() == ndx + tot && w.kkt_matrix.cols() == ndx + tot && w.kkt_rhs.size() == ndx + tot && w.pd_step.size() == ndx + tot && w.signature.size() == ndx + tot);
  sx::check("point sizes", w.x_prev.size() == nx && w.x_trial.size() == nx && r.x_opt.size() == nx && w.tmp_dx_scaled.size() == ndx && w.dual_residual.size() == ndx);
  sx::check_mat_eq("multipliers start at zero", w.data_lams_prev, VX::Zero(tot));
  sx::check_mat_eq("multipliers of the results start at zero", r.data_lams_opt, VX::Zero(tot));
  sx::check_mat_eq("the results start at the neutral element", r.x_opt, p.manifold_->neutral());
  views_alias("lams_prev", w.lams_prev, w.data_lams_prev, dims);
  views_alias("lams_trial", w.lams_trial, w.data_lams_trial, dims);
  views_alias("shift_cstr_values", w.shift_cstr_values, w.data_shift_cstr_values, dims);
  views_alias("lams_plus", w.lams_plus, w.data_lams_plus, dims);
  views_alias("lams_plus_reproj", w.lams_plus_reproj, w.data_lams_plus_reproj, dims);
  views_alias("lams_pdal", w.lams_pdal, w.data_lams_pdal, dims);
  views_alias("lams_pdal_reproj", w.lams_pdal_reproj, w.data_lams_pdal_reproj, dims);
  views_alias("shift_cstr_pdal", w.shift_cstr_pdal, w.data_shift_cstr_pdal, dims);
  views_alias("cstr_values", w.cstr_values, w.data_cstr_values, dims);
  views_alias("lams_opt", r.lams_opt, r.data_lams_opt, dims);
  std::vector<int> split{ndx, tot};
  std::vector<VR> steps{w.prim_step, w.dual_step};
  views_alias("step", steps, w.pd_step, split);
  sx::check("violations", r.constraint_violations.size() == nb && (int)r.active_set.size() == nb);
  for (int i = 0; i < nb; i++) sx::check("active set size", r.active_set[i].size() == dims[i]);
  // evaluations
  VX x = sym_vec(nx, "x");
  cost->f = sx::real("f");
  sx::fill(cost->g, "g");
  sx::fill(cost->H, "H");
  for (int i = 0; i < nb; i++) { sx::fill(fns[i]->c, "c" + S(i)); sx::fill(fns[i]->J, "J" + S(i)); for (auto &q : fns[i]->Q) sx::fill(q, "Q" + S(i)); }
  sx::fill(w.data_jacobians_proj, "proj");
  MX proj = w.data_jacobians_proj;
  w.data_hessians.setZero();
  VX lpd = w.data_lams_pdal;
  p.evaluate(x, w);
  p.computeDerivatives(x, w);
  const bool all = sx::choice("exact", 2);
  p.computeHessians(x, w, all);
  sx::check_eq("objective value", w.objective_value, cost->f * x[0]);
  for (int i = 0; i < ndx; i++) {
    sx::check_eq("objective gradient", w.objective_gradient[i], cost->g[i] * x[0]);
    for (int j = 0; j < ndx; j++) sx::check_eq("objective Hessian", w.objective_hessian(i, j), cost->H(i, j) * x[0]);
  }
  int k = 0;
  for (int b = 0; b < nb; b++) {
    // curvature of L1 terms is always used, that of equalities and orthants only on demand
    const bool used = all || !p.getConstraint(b).set_->disableGaussNewton();
    for (int i = 0; i < ndx; i++) for (int j = 0; j < ndx; j++) {
      double v = 0.;
      if (used) for (int q = 0; q < dims[b]; q++) v += lpd[k + q] * fns[b]->Q[q](i, j) * x[0];
      sx::check_eq("vector-Hessian product", w.data_hessians(b * ndx + i, j), v);
      sx::check_eq("vector-Hessian product view", w.cstr_vector_hessian_prod[b](i, j), v);
    }
    for (int q = 0; q < dims[b]; q++, k++) {
      sx::check_eq("constraint values", w.data_cstr_values[k], fns[b]->c[q] * x[0]);
      for (int j = 0; j < ndx; j++) {
        sx::check_eq("constraint Jacobian", w.data_jacobians(k, j), fns[b]->J(q, j) * x[0]);
        sx::check_eq("constraint Jacobian view", w.cstr_jacobians[b](q, j), fns[b]->J(q, j) * x[0]);
        sx::check_eq("projected Jacobian view", w.cstr_jacobians_proj[b](q, j), proj(k, j));
      }
    }
  }
  sx::reach("end");
}

// polymorphic values: copies are deep, moves empty their source, whatever the history
namespace {
struct Obj { int type; double mu, lo, hi; };
xyz::polymorphic<Set> make(const Obj &o) {
  xyz::polymorphic<Set> p = o.type == 0 ? xyz::polymorphic<Set>(EqualityConstraintTpl<double>())
                          : o.type == 1 ? xyz::polymorphic<Set>(NegativeOrthantTpl<double>())
                                        : xyz::polymorphic<Set>(BoxConstraintTpl<double>(VX::Constant(1, o.lo), VX::Constant(1, o.hi)));
  p->setProxParameter(o.mu);
  return p;
}
void same(const std::string &l, const xyz::polymorphic<Set> &p, const Obj &o) {
  sx::check(l + ": empty exactly after a move", p.valueless_after_move() == (o.type < 0));
  if (o.type < 0 || p.valueless_after_move()) return;
  const Set *q = &*p;
  sx::check(l + ": dynamic type", o.type == 0 ? !!dynamic_cast<const EqualityConstraintTpl<double> *>(q) : o.type == 1 ? !!dynamic_cast<const NegativeOrthantTpl<double> *>(q) : !!dynamic_cast<const BoxConstraintTpl<double> *>(q));
  sx::check_eq(l + ": parameter", p->mu(), o.mu);
  if (o.type == 2) {
    auto *b = dynamic_cast<const BoxConstraintTpl<double> *>(q);
    if (b) { sx::check_eq(l + ": lower bound", b->lower_limit[0], o.lo); sx::check_eq(l + ": upper bound", b->upper_limit[0], o.hi); }
  }
}
} // namespace
SX_HARNESS(values) {
  const int N = 3;
  std::vector<Obj> ref;
  std::vector<xyz::polymorphic<Set>> v;
  for (int i = 0; i < N; i++) {
    Obj o{i, sx::real("mu" + S(i)), sx::real("lo" + S(i)), sx::real("hi" + S(i))};
    sx::assume(sx::gt(o.mu, 0.) && sx::lt(o.lo, o.hi));
    ref.push_back(o);
    v.push_back(make(o));
  }
  std::vector<Set *> old;
  for (int s = 0; s < sx_int_param("steps", 2); s++) {
    const int op = sx::choice("op", 9), i = sx::choice("i", N), j = sx::choice("j", N);
    const double m = sx::real("new mu");
    sx::assume(sx::gt(m, 0.));
    switch (op) {
    case 0: v[i] = v[j]; ref[i] = ref[j]; break;
    case 1: v[i] = std::move(v[j]); if (i != j) { ref[i] = ref[j]; ref[j].type = -1; } break;
    case 2: swap(v[i], v[j]); std::swap(ref[i], ref[j]); break;
    case 3: { xyz::polymorphic<Set> c(v[j]); if (ref[j].type >= 0) { c->setProxParameter(m); } same("source of a changed copy", v[j], ref[j]); v[i] = std::move(c); ref[i] = ref[j]; if (ref[i].type >= 0) ref[i].mu = m; break; }
    case 4: { xyz::polymorphic<Set> c(std::move(v[j])); Obj o = ref[j]; ref[j].type = -1; same("moved-from", v[j], ref[j]); same("moved-to", c, o); v[i] = c; ref[i] = o; break; }
    case 5: if (ref[i].type >= 0) { v[i]->setProxParameter(m); ref[i].mu = m; } break;
    case 6: { Obj o{(j + 1) % 3, m, sx::real("nlo"), 0.}; o.hi = o.lo + 1.; v[i] = make(o); ref[i] = o; break; }
    case 7: v.push_back(v[j]); ref.push_back(ref[j]); v.erase(v.begin() + i); ref.erase(ref.begin() + i); break;
    case 8: // through a constraint object
      if (ref[j].type >= 0) {
        auto f = std::make_shared<QFn>(1, 1);
        Cstr c(f, v[j]), d = c;
        d.set_->setProxParameter(m);
        same("set of a constraint object", c.set_, ref[j]);
        same("set given to a constraint object", v[j], ref[j]);
        c = d;
        d.set_->setProxParameter(2. * m);
        v[i] = c.set_;
        ref[i] = ref[j];
        ref[i].mu = m;
        sx::check("function of a constraint object", c.func_ == f && c.nr() == 1 && c == d);
      }
      break;
    }
    for (int k = 0; k < N; k++) same("after step", v[k], ref[k]);
    for (int k = 0; k < N; k++) for (int l = 0; l < k; l++)
      if (ref[k].type >= 0 && ref[l].type >= 0) sx::check("values are not shared", &*v[k] != &*v[l]);
  }
  sx::reach("end");
}
namespace {
struct Shape { int sides; std::vector<int> data; Shape(std::initializer_list<int> d, int s = 0) : sides(s), data(d) {} Shape() : sides(0) {} virtual int kind() const { return 0; } virtual ~Shape() = default; };
struct Poly2 : Shape { using Shape::Shape; Poly2(int s) : Shape({s}, s) {} int kind() const override { return 1; } };
}
SX_HARNESS(values_in_place) {
  xyz::polymorphic<Shape> d, a(xyz::in_place_type_t<Poly2>{}, 4), b(xyz::in_place_type_t<Poly2>{}, {1, 2, 3}), c(xyz::in_place_type_t<Poly2>{}, {1, 2}, 7);
  sx::check("default value", !d.valueless_after_move() && d->kind() == 0);
  sx::check("in-place construction", a->kind() == 1 && a->sides == 4);
  sx::check("in-place construction from a list", b->kind() == 1 && b->data.size() == 3 && b->data[2] == 3);
  sx::check("in-place construction from a list and arguments", c->kind() == 1 && c->data.size() == 2 && c->sides == 7);
  d = b;
  sx::check("copy across dynamic types", d->kind() == 1 && d->data.size() == 3);
  b->data[0] = 9;
  sx::check("deep copy", d->data[0] == 1);
  sx::reach("end");
}

// problems copy their sets, so copies are solved independently
SX_HARNESS(problem_copy) {
  concrete_bounds = true;
  Env e = make_env(1, PATTERNS[sx::choice("pattern", 4)], LDLTChoice::DENSE);
  const double m = sx::real("mu", 0.001, 10.), q = sx::real("mu2", 0.001, 10.);
  e.s->setPenalty(m);
  Problem c(*e.prob);
  auto all = [&](Problem &p, double v, const char *l) { for (size_t i = 0; i < p.getNumConstraints(); i++) sx::check_eq(l, p.getConstraint(i).set_->mu(), v); };
  all(c, m, "a copy keeps the parameters");
  Solver s(c, 0.1, 0.25, 0.);
  s.setPenalty(q);
  all(c, q, "the solver of the copy sets its parameters");
  all(*e.prob, m, "the original is not changed by a solver of the copy");
  e.s->setPenalty(2. * m);
  all(c, q, "the copy is not changed by a solver of the original");
  sx::check("copies share the functions", c.cost_ == e.prob->cost_ && c.getNumConstraints() == e.prob->getNumConstraints());
  for (size_t i = 0; i < e.fns.size(); i++) sx::check("copies share the functions", &c.getConstraint(i).func() == e.fns[i].get());
  c.addConstraint(Cstr(std::make_shared<QFn>(1, 2), EqualityConstraintTpl<double>()));
  sx::check("constraints added to a copy stay there", c.getNumConstraints() == e.fns.size() + 1 && e.prob->getNumConstraints() == e.fns.size() && e.prob->getTotalConstraintDim() == e.m && c.getTotalConstraintDim() == e.m + 2);
  sx::reach("end");
}

// the history callback records every iteration as it was
SX_HARNESS(history) {
  concrete_bounds = true;
  Env e = make_env(1, PATTERNS[sx::choice("pattern", 5)], LDLTChoice::DENSE);
  const bool pd = sx::choice("store points", 2), val = sx::choice("store values", 2), res = sx::choice("store residuals", 2);
  helpers::history_callback<double> cb(pd, val, res);
  const int K = sx_int_param("calls", 3);
  struct Rec { VX x, lam; double v, pi, di, a, d; VX lsa, lsv; };
  std::vector<Rec> recs;
  for (int k = 0; k < K; k++) {
    Rec n{sym_vec(1, "x" + S(k)), sym_vec(e.m, "lam" + S(k)), sx::real("v"), sx::real("pi"), sx::real("di"), sx::real("a"), sx::real("d"), {}, {}};
    const int ls = sx::choice("line-search steps", 2) * (k + 1);
    n.lsa = sym_vec(ls, "lsa" + S(k));
    n.lsv = sym_vec(ls, "lsv" + S(k));
    e.r().x_opt = n.x; e.r().data_lams_opt = n.lam; e.r().value = n.v; e.r().prim_infeas = n.pi; e.r().dual_infeas = n.di;
    e.w().alpha_opt = n.a; e.w().dmerit_dir = n.d;
    e.w().ls_alphas.assign(n.lsa.data(), n.lsa.data() + ls);
    e.w().ls_values.assign(n.lsv.data(), n.lsv.data() + ls);
    helpers::base_callback<double> &base = cb;
    base.call(e.w(), e.r());
    recs.push_back(n);
  }
  e.r().x_opt[0] = 0.; e.r().data_lams_opt.setZero(); // later changes are not recorded
  const auto &st = cb.storage;
  const size_t np = pd ? K : 0, nv = val ? K : 0, nr = res ? K : 0;
  sx::check("number of records", st.xs.size() == np && st.lams.size() == np && st.lams_view.size() == np && st.values.size() == nv && st.prim_infeas.size() == nr && st.dual_infeas.size() == nr && (int)st.alphas.size() == K && (int)st.dmerit_dir.size() == K && (int)st.ls_alphas.size() == K && (int)st.ls_values.size() == K);
  for (int k = 0; k < K; k++) {
    const Rec &n = recs[k];
    if (pd) {
      sx::check_mat_eq("recorded points", st.xs[k], n.x);
      sx::check_mat_eq("recorded multipliers", st.lams[k], n.lam);
      sx::check("one view per constraint", st.lams_view[k].size() == e.fns.size());
      int q = 0;
      for (size_t b = 0; b < e.fns.size(); b++) {
        sx::check("size of recorded views", st.lams_view[k][b].size() == e.fns[b]->nr());
        for (int i = 0; i < e.fns[b]->nr(); i++, q++) sx::check_eq("recorded multiplier views", st.lams_view[k][b][i], n.lam[q]);
      }
    }
    if (val) sx::check_eq("recorded values", st.values[k], n.v);
    if (res) { sx::check_eq("recorded primal infeasibility", st.prim_infeas[k], n.pi); sx::check_eq("recorded dual infeasibility", st.dual_infeas[k], n.di); }
    sx::check_eq("recorded step", st.alphas[k], n.a);
    sx::check_eq("recorded slope", st.dmerit_dir[k], n.d);
    sx::check("recorded line search", st.ls_alphas[k].size() == n.lsa.size() && st.ls_values[k].size() == n.lsv.size());
    for (long i = 0; i < n.lsa.size(); i++) { sx::check_eq("recorded line search steps", st.ls_alphas[k][i], n.lsa[i]); sx::check_eq("recorded line search values", st.ls_values[k][i], n.lsv[i]); }
  }
  sx::reach("end");
}
