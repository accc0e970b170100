// The BFGS mode of the solver.
#include "solver.hpp"
#include <proxsuite-nlp/function-ops.hpp>
#include <proxsuite-nlp/modelling/residuals/state-residual.hpp>

namespace {
// every query of the gradient is answered with a value of its own
struct AnyGradient : QCost {
  struct Query { VX x, g; };
  std::vector<VX> first; // answers given to the first queries
  mutable std::vector<Query> log;
  AnyGradient(int n) : QCost(n) {}
  void computeGradient(const ConstVectorRef &x_, VectorRef out) const override {
    const size_t k = log.size();
    VX g;
    if (k < first.size()) g = first[k];
    else if (k && ndx() > 1) { // anywhere on one of several lines through the previous gradient
      const double t = sx::real("t" + S(k));
      const double dirs[3][2] = {{1., 0.}, {-2., 1.}, {0.5, 3.}};
      const int d = sx::choice("direction", 3);
      g = log[k - 1].g;
      for (int i = 0; i < ndx(); i++) g[i] += t * dirs[d][i];
    } else
      g = sym_vec(ndx(), "g" + S(k));
    if (k) { // curvatures too small for the linear solvers' pivots are not considered
      VX d = x_ - log[k - 1].x, y = g - log[k - 1].g;
      const double sy = d.dot(y);
      sx::assume(sx::le(sy, 0.) || sx::le(TINY * d.dot(d), sy));
    }
    log.push_back({x_, g});
    out = g;
  }
};
// what the iteration used
struct Used : helpers::base_callback<double> {
  std::vector<MX> H;
  std::vector<VX> x, lam;
  void call(const Wsp &w, const Res &r) override { H.push_back(w.objective_hessian); x.push_back(r.x_opt); lam.push_back(r.data_lams_opt); }
};
void full_steps(Solver &s) {
  s.ls_options.max_num_steps = 0;
  s.ls_options.dphi_thresh = std::numeric_limits<double>::infinity();
}
} // namespace

// one subproblem in BFGS mode, for arbitrary gradients at the iterates
SX_HARNESS(bfgs_steps) {
  const int n = sx_int_param("n", 1), iters = sx_int_param("iters", 2);
  Env e = make_env(n, PATTERNS[sx_int_param("pattern", 5)], LDLTChoice(sx_int_param("ldlt", (int)LDLTChoice::DENSE)), 0., 0.25);
  auto &s = *e.s;
  auto cost = std::make_shared<AnyGradient>(n);
  cost->fixed = true;
  e.prob->cost_ = cost;
  int row = 0;
  for (auto &f : e.fns) for (int i = 0; i < f->nr(); i++, row++) { f->c[i] = 0.5; for (int j = 0; j < n; j++) f->J(i, j) = 1. + i - 1.5 * j; }
  s.hess_approx = HessianApprox::BFGS;
  const bool prox = sx::choice("prox", 2);
  const double rho = prox ? 0.5 : 0.;
  const int before = sx::choice("before", 3); // nothing; an earlier subproblem, then setup() again; twice
  auto start = [&] {
    s.setup();
    sx::check_mat_eq("the Hessian starts as the identity", e.w().objective_hessian, MX(MX::Identity(n, n)));
    s.setPenalty(0.25);
    s.setProxParameter(rho);
    full_steps(s);
    s.inner_tol_ = 0.;
    e.r().num_iters = 0;
  };
  VX target = VX::Constant(n, 0.5);
  for (int i = 0; i < before; i++) {
    start();
    s.max_iters = 2;
    VX a = VX::Constant(n, 3. - i), b = VX::Constant(n, -1.);
    cost->first.clear();
    cost->first = {a, b};
    cost->log.clear();
    e.r().x_opt = VX::Constant(n, 1. + i);
    s.prox_penalty.updateTarget(target);
    s.innerLoop(e.w(), e.r());
    sx::check("two iterations in the earlier subproblem", e.r().num_iters == 2);
    cost->first.clear();
  }
  if (n > 1 || sx_int_param("fixstart", 0)) cost->first.push_back(VX::Constant(n, 1.));
  if (n > 1) cost->first[0][1] = -0.5;
  cost->log.clear();
  start();
  s.max_iters = iters;
  auto used = std::make_shared<Used>();
  s.registerCallback(used);
  const bool fixed_start = n > 1 || sx_int_param("fixstart", 0);
  VX x0 = fixed_start ? VX(VX::Constant(n, 0.25)) : sym_vec(n, "x0");
  VX lam0 = VX::Constant(e.m, 0.75), lame = VX::Constant(e.m, -0.5);
  e.r().x_opt = x0;
  e.r().data_lams_opt = lam0;
  e.w().data_lams_prev = lame;
  s.prox_penalty.updateTarget(target);
  s.innerLoop(e.w(), e.r());
  const auto &log = cost->log;
  const size_t steps = used->H.size();
  sx::check("one gradient per iteration", log.size() == steps || log.size() == steps + 1);
  sx::check("iterations counted", e.r().num_iters == steps);
  MX H = MX::Identity(n, n);
  bool updated = false, skipped = false;
  const MX J = all_J(e);
  const VX c = all_c(e);
  VX lam = lam0;
  for (size_t k = 0; k < log.size(); k++) {
    sx::check_mat_eq("the gradient is taken at the iterate", log[k].x, k ? used->x[k - 1] : x0);
    if (k) {
      VX sk = log[k].x - log[k - 1].x, yk = log[k].g - log[k - 1].g;
      const double sy = sk.dot(yk);
      if (sy > 0.) {
        MX W = MX::Identity(n, n);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W(i, j) -= yk[i] * sk[j] / sy;
        MX T = W * H;
        H = T * W.transpose();
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) H(i, j) += yk[i] * yk[j] / sy;
        updated = true;
      } else
        skipped = true;
    }
    if (k == steps) { sx::check_mat_eq("the final Hessian", e.w().objective_hessian, H); break; }
    sx::check_mat_eq("the Hessian is the BFGS approximation", used->H[k], H);
    // the step solves the Newton system with that Hessian (which needs no regularisation)
    VX p = used->x[k] - log[k].x, r = log[k].g + rho * (log[k].x - target);
    r += H * p + rho * p;
    VX dl = used->lam[k] - lam;
    if (e.m) {
      r += J.transpose() * used->lam[k];
      VX q = J * used->x[k];
      for (int i = 0; i < e.m; i++) sx::check_eq("the linearised multiplier equation", q[i] - 0.25 * dl[i] + c[i] + 0.25 * (lame[i] - lam[i]), 0.);
    }
    for (int i = 0; i < n; i++) sx::check_eq("the step uses the BFGS Hessian", r[i], 0.);
    lam = used->lam[k];
  }
  if (updated) sx::reach("updated");
  if (skipped) sx::reach("skipped");
  sx::reach("end");
}

// who may use the BFGS mode
SX_HARNESS(bfgs_usage) {
  chart = sx::choice("chart", 2);
  const int n = 1 + sx::choice("n", 2);
  Env e = make_env(n, PATTERNS[5], LDLTChoice::DENSE, 0., 0.25);
  auto &s = *e.s;
  sx::fill(e.cost->g, "g");
  e.cost->H = MX::Identity(n, n) * 2.;
  full_steps(s);
  s.max_iters = 1;
  s.hess_approx = HessianApprox::BFGS;
  VX x0 = amb(sym_vec(n, "x0"));
  bool threw = false;
  if (sx::choice("setup", 2) == 0) {
    // prepared for another mode
    try { s.solve(x0); } catch (const std::runtime_error &) { threw = true; }
    sx::check("a solver that was set up for another mode refuses", threw);
    sx::reach("refused");
    return;
  }
  try { s.setup(); } catch (const std::runtime_error &) { threw = true; }
  sx::check("setup() refuses exactly the spaces whose points are not tangent vectors", threw == bool(chart));
  if (threw) { sx::reach("not Euclidean"); return; }
  s.solve(x0);
  VX d = e.r().x_opt - x0, t = e.cost->H * x0;
  if (e.r().num_iters == 1) {
    VX z = d + e.cost->g + t;
    for (int i = 0; i < n; i++) sx::check_eq("the first step is a gradient step", z[i], 0.);
  }
  sx::reach("end");
}

namespace {
bool finite(const VX &v) { for (long i = 0; i < v.size(); i++) if (!std::isfinite(v[i])) return false; return true; }
enum Part { VALUE, GRADIENT, HESSIAN, CVALUE, JACOBIAN };
// one user function returns a non-finite number once
struct Fault {
  int part, call, block = 0, entry = 0, n = 0;
  double value;
  mutable bool fired = false;
  mutable bool current = false; // the last answer was the bad one
  bool hit(int p, int b) {
    if (p != part || b != block) return false;
    current = false;
    if (fired || n++ != call) return false;
    return fired = current = true;
  }
};
struct FaultyCost : QCost {
  Fault *f;
  FaultyCost(int n) : QCost(n) {}
  double call(const ConstVectorRef &x) const override { double v = QCost::call(x); return f->hit(VALUE, 0) ? f->value : v; }
  void computeGradient(const ConstVectorRef &x, VectorRef out) const override { QCost::computeGradient(x, out); if (f->hit(GRADIENT, 0)) out[f->entry % out.size()] = f->value; }
  void computeHessian(const ConstVectorRef &x, MatrixRef out) const override { QCost::computeHessian(x, out); if (f->hit(HESSIAN, 0)) out(f->entry % out.rows(), f->entry % out.rows()) = f->value; }
};
struct FaultyFn : QFn {
  Fault *f; int b;
  FaultyFn(int n, int nr) : QFn(n, nr) {}
  VectorXs operator()(const ConstVectorRef &x) const override { VectorXs c = QFn::operator()(x); if (f->hit(CVALUE, b)) c[f->entry % c.size()] = f->value; return c; }
  void computeJacobian(const ConstVectorRef &x, MatrixRef out) const override { QFn::computeJacobian(x, out); if (f->hit(JACOBIAN, b)) out(f->entry % out.rows(), out.cols() - 1) = f->value; }
};
} // namespace

// a user function returns a non-finite number: reported, or survived with finite iterates
SX_HARNESS(nonfinite_functions) {
  concrete_bounds = true;
  const int n = sx_int_param("n", 1);
  const std::vector<std::vector<Blk>> pats{{{EQ, 2}}, {{NEG, 2}}, {{NEG, 1}, {EQ, 1}}, {{BOX, 1}}, {{L1, 1}}};
  const std::vector<Blk> &pat = pats[sx_int_param("pat", 0)];
  Env e = make_env(n, pat, LDLTChoice(sx_int_param("ldlt", (int)LDLTChoice::BUNCHKAUFMAN)), 0.25, 0.25, 0., 0.03125, 1., 1., 1., 1.);
  auto &s = *e.s;
  Fault f;
  f.part = sx::choice("part", 5);
  f.call = sx::choice("at call", sx_int_param("calls", 2));
  f.block = f.part >= CVALUE ? sx::choice("constraint", (int)pat.size()) : 0;
  f.entry = f.part == VALUE ? 0 : sx::choice("entry", f.part < CVALUE ? n : pat[f.block].nr);
  f.value = sx::choice("value", 2) ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
  const bool pd = sx::choice("kkt", 2);
  auto cost = std::make_shared<FaultyCost>(n);
  cost->H = MX::Identity(n, n) * 2.;
  for (int i = 0; i < n; i++) cost->g[i] = 0.5 + i;
  cost->f = &f;
  e.prob->cost_ = cost;
  for (size_t b = 0; b < e.fns.size(); b++) {
    auto g = std::make_shared<FaultyFn>(n, e.fns[b]->nr());
    for (int i = 0; i < g->nr(); i++) { g->c[i] = 0.5 - i; for (int j = 0; j < n; j++) g->J(i, j) = 1. + i - 1.5 * j; }
    g->f = &f; g->b = (int)b;
    e.prob->constraints_[b].func_ = g;
  }
  s.kkt_system_ = pd ? KKT_PRIMAL_DUAL : KKT_CLASSIC;
  s.ls_options.max_num_steps = sx_int_param("steps", 1);
  s.inner_tol_min = 0.125;
  s.max_iters = sx_int_param("iters", 2);
  s.max_al_iters = 2;
  struct Watch : helpers::base_callback<double> { bool ok = true; void call(const Wsp &, const Res &r) override { ok = ok && finite(r.x_opt) && finite(r.data_lams_opt); } };
  auto watch = std::make_shared<Watch>();
  s.registerCallback(watch);
  VX x0 = sym_vec(n, "x0"), lam0 = VX::Constant(e.m, 0.25);
  bool threw = false, other = false;
  ConvergenceFlag flag = ConvergenceFlag::UNINIT;
  try { flag = s.solve(x0, lam0); } catch (const RuntimeError &) { threw = true; } catch (const std::exception &) { other = true; }
  sx::check("a problem is reported as a RuntimeError", !other);
  if (!f.fired) { sx::check("nothing is reported when all is finite", !threw); sx::reach("not reached"); return; }
  if (threw) { sx::reach("reported"); return; }
  sx::check("iterates are finite whenever the callbacks are called", watch->ok);
  sx::check("the returned iterate is finite", finite(e.r().x_opt) && finite(e.r().data_lams_opt));
  sx::check("the reported residuals are finite", flag != ConvergenceFlag::SUCCESS || (std::isfinite(e.r().prim_infeas) && std::isfinite(e.r().dual_infeas)));
  if (flag == ConvergenceFlag::SUCCESS)
    sx::check("SUCCESS is not based on a non-finite value", !(f.current && (f.part == GRADIENT || f.part == CVALUE || f.part == JACOBIAN)));
  sx::reach("survived");
}

// callbacks: in the order of registration, until they are removed
SX_HARNESS(callbacks) {
  Env e = make_env(1, PATTERNS[5], LDLTChoice::DENSE, 0., 0.25);
  auto &s = *e.s;
  e.cost->H(0, 0) = 0.5;
  e.cost->g[0] = sx::real("g");
  full_steps(s);
  s.max_iters = 2;
  s.max_al_iters = 2;
  std::vector<int> seen;
  struct Note : helpers::base_callback<double> {
    std::vector<int> *seen; int id; size_t *fail;
    void call(const Wsp &, const Res &) override { seen->push_back(id); if (*fail && seen->size() == *fail) throw std::logic_error("callback"); }
  };
  size_t fail = 0;
  std::vector<std::shared_ptr<Note>> notes;
  for (int i = 0; i < 3; i++) { notes.push_back(std::make_shared<Note>()); notes[i]->seen = &seen; notes[i]->id = i; notes[i]->fail = &fail; }
  std::vector<int> reg; // which are registered, in order (a callback may be registered twice)
  VX x0 = sym_vec(1, "x0");
  for (int step = 0; step < 3; step++) {
    const int op = sx::choice("operation", 4);
    if (op == 3) { s.clearCallbacks(); reg.clear(); }
    else { s.registerCallback(notes[op]); reg.push_back(op); }
  }
  s.solve(x0);
  const size_t rounds = e.r().num_iters + 1;
  sx::check("every callback is called once per iteration and at the end", seen.size() == rounds * reg.size());
  for (size_t k = 0; k < seen.size() && !reg.empty(); k++) sx::check("in the order of registration", seen[k] == reg[k % reg.size()]);
  if (reg.empty()) return;
  // exceptions of callbacks reach the caller, at once
  seen.clear();
  fail = 1 + sx::choice("failing", 2);
  bool threw = false;
  try { s.solve(x0); } catch (const std::logic_error &) { threw = true; }
  sx::check("an exception of a callback is passed on", threw == (fail <= rounds * reg.size()));
  if (threw) sx::check("and nothing is called after it", seen.size() == fail);
  sx::reach("end");
}

// requests that cannot be served are rejected
SX_HARNESS(requests) {
  auto throws = [](auto &&f) { try { f(); } catch (const RuntimeError &) { return true; } return false; };
  switch (sx::choice("request", 7)) {
  case 0: { // composition
    const int a = 1 + sx::choice("left nx", 3), b = 1 + sx::choice("left nr", 2), c = 1 + sx::choice("right nr", 3);
    std::shared_ptr<F2> f = std::make_shared<QFn>(a, b), g = std::make_shared<QFn>(2, c);
    std::shared_ptr<ComposeFunctionTpl<double>> h;
    const bool t = throws([&] { h = compose<double>(f, g); });
    sx::check("a composition needs matching dimensions", t == (a != c));
    if (!t) sx::check("and has the outer dimensions", h->nx() == 2 && h->ndx() == 2 && h->nr() == b);
    break;
  }
  case 1: { // functions as costs
    const int nr = 1 + sx::choice("nr", 3);
    auto g = std::make_shared<QFn>(2, nr);
    sx::fill(g->c, "c"); sx::fill(g->J, "J");
    std::shared_ptr<F2> f = g;
    std::shared_ptr<Cost> h;
    sx::check("only scalar functions are costs", throws([&] { h = downcast_function_to_cost<double>(f); }) == (nr != 1));
    if (nr == 1) {
      VX x = sym_vec(2, "x"), y = f->operator()(x), gr(2);
      MX J(1, 2), H(2, 2), H2(2, 2);
      h->computeGradient(x, gr);
      f->computeJacobian(x, J);
      sx::check_eq("with the value of the function", h->call(x), y[0]);
      for (int i = 0; i < 2; i++) sx::check_eq("and its gradient", gr[i], J(0, i));
    }
    break;
  }
  case 2: { // products of sets
    const int n = sx::choice("components", 4), k = sx::choice("sizes", 4);
    std::vector<polymorphic<ConstraintSetTpl<double>>> sets;
    for (int i = 0; i < n; i++) sets.emplace_back(NegativeOrthantTpl<double>());
    sx::check("components and sizes agree in number", throws([&] { ConstraintSetProductTpl<double>(sets, std::vector<Eigen::Index>(k, 1)); }) == (n != k));
    break;
  }
  case 3: { // targets
    const int n = 1 + sx::choice("n", 2);
    VX t = sym_vec(n + 1, "t");
    const bool valid = t[n] == 7.;
    chart = 1;
    polymorphic<ManifoldAbstractTpl<double>> space{Chart(n)};
    sx::check("targets are points of the space", throws([&] { ManifoldDifferenceToPoint<double>(space, t); }) == !valid);
    break;
  }
  case 4: { // linear solvers
    const LDLTChoice all[] = {LDLTChoice::DENSE, LDLTChoice::BUNCHKAUFMAN, LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN, LDLTChoice::PROXSUITE};
    const int c = sx::choice("backend", 5);
    std::vector<isize> np(1, 1 + sx::choice("prim", 2)), nd(sx::choice("duals", 3), 1);
    bool bad = throws([&] { allocate_ldlt_from_sizes<double>(np, nd, all[c]); });
    sx::check("exactly the linear solvers that were compiled in are available", bad == (c == 4));
    Env e = make_env(1, PATTERNS[5], LDLTChoice::DENSE);
    Solver s(*e.prob, 1e-6, 0.25);
    s.ldlt_choice_ = all[c];
    sx::check("also through the solver", throws([&] { s.setup(); }) == (c == 4));
    break;
  }
  case 5: { // signatures
    const int n = 1 + sx::choice("n", 3);
    Eigen::VectorXi sig(n);
    int cnt[3] = {0, 0, 0};
    bool bad = false;
    for (int i = 0; i < n; i++) {
      const int v[] = {-1, 0, 1, 2, -2}, k = sx::choice("entry", 5);
      sig[i] = v[k];
      if (k < 3) cnt[k]++; else bad = true;
    }
    std::array<int, 3> t{};
    sx::check("signatures hold -1, 0 and 1 only", throws([&] { t = computeInertiaTuple(sig); }) == bad);
    if (!bad) {
      sx::check("the inertia counts positive, negative and zero entries", t[0] == cnt[2] && t[1] == cnt[0] && t[2] == cnt[1]);
      for (int np = 0; np <= n; np++) for (int nn = 0; nn <= n - np; nn++) {
        const InertiaFlag f = checkInertia(np, nn, sig);
        sx::check("the inertia flag", f == (cnt[1] ? INERTIA_HAS_ZEROS : np == cnt[2] && nn == cnt[0] ? INERTIA_OK : np + nn < n || np != cnt[2] || nn != cnt[0] ? INERTIA_BAD : INERTIA_OK));
      }
    }
    break;
  }
  case 6: { // solving before setup(), or with multipliers for another number of constraints
    Env e = make_env(1, PATTERNS[sx::choice("pattern", 8)], LDLTChoice::DENSE);
    Solver s(*e.prob, 1e-6, 0.25);
    VX x0 = sym_vec(1, "x0"), l0 = VX::Zero(e.m), none;
    const bool set = sx::choice("setup", 2);
    if (set) s.setup();
    std::vector<VR> blocks;
    const int k = sx::choice("blocks", 4);
    for (int i = 0; i < k; i++) { if (i < (int)e.fns.size()) blocks.emplace_back(e.prob->getSegment(l0, i)); else blocks.emplace_back(none); }
    s.max_iters = 0;
    sx::check("setup() comes first, and multipliers are given for every constraint", throws([&] { s.solve(x0, blocks); }) == (!set || k != (int)e.fns.size()));
    sx::check("setup() comes first", throws([&] { s.solve(x0, l0); }) == !set);
    break;
  }
  }
  sx::reach("end");
}
