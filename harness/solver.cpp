// Solver: merit function, multipliers, Newton step, outer loop.
#include "solver.hpp"
#include <proxsuite-nlp/helpers/history-callback.hpp>

namespace {
struct Pt { VX x, lam, lame; double mu; };
Pt sym_state(Env &e) {
  Pt p;
  p.mu = sx_int_param("fixmu", 0) ? 0.375 : sx::real("mu", 0.0001, 100.);
  e.s->setPenalty(p.mu);
  p.x = sym_vec(e.n, "x");
  p.lam = sym_vec(e.m, "lam");
  p.lame = sym_vec(e.m, "lame");
  e.r().x_opt = amb(p.x);
  e.r().data_lams_opt = p.lam;
  e.w().data_lams_prev = p.lame;
  return p;
}
// the constraint pattern of this run: a fixed one, one of a range, or any of the first npat
int pattern(int npat) {
  if (sx_int_param("pattern", -1) >= 0) return sx_int_param("pattern", 0);
  const int from = sx_int_param("from", 0);
  return from + sx::choice("pattern", sx_int_param("npat", npat));
}
} // namespace

// value and gradient of the primal-dual augmented Lagrangian
SX_HARNESS(merit) {
  chart = sx_int_param("chart", 0);
  Env e = make_env(sx_int_param("n", 2), PATTERNS[pattern(6)], LDLTChoice::DENSE);
  const double betas[] = {0.5, 0.75};
  const double beta = betas[sx_int_param("beta", 0)];
  if (sx_int_param("beta", 0)) e.s->setDualPenalty(beta);
  sym_point(e, false);
  Pt p = sym_state(e);
  Wsp &w = e.w();
  // M(x + t dx, lam + t dlam) for a quadratic (c linear, f quadratic) is a quadratic in t
  // as long as no projection changes branch
  e.cost->fixed = false;
  for (auto &f : e.fns) f->fixed = false;
  auto value = [&](const VX &x, const VX &lam, bool check) {
    e.prob->evaluate(amb(x), w);
    e.r().data_lams_opt = lam;
    e.s->computeMultipliers(lam, w);
    double v = e.s->merit_fun.evaluate(x, e.r().lams_opt, w);
    if (check) {
      double ref = w.objective_value;
      for (int i = 0; i < e.m; i++) {
        const double c = w.data_cstr_values[i];
        const double y = c + p.mu * (p.lame[i] - lam[i] / 2.), nz = nproj(e.rows[i], y, p.mu);
        ref += 2. * penalty(e.rows[i], y, p.mu) + nz * nz / p.mu + p.mu * lam[i] * lam[i] / 4.;
      }
      sx::check_eq("value", v, ref);
    }
    return v;
  };
  value(p.x, p.lam, beta == 0.5);
  VX c0 = w.data_cstr_values;
  e.s->computeProblemDerivatives(amb(p.x), w, boost::mpl::false_());
  e.s->merit_fun.computeGradient(e.r().lams_opt, w);
  VX gx = w.merit_gradient, gl = w.merit_dual_gradient;
  // central differences with any step t that stays on the same linear pieces
  VX dx = VX::Zero(e.n), dl = VX::Zero(e.m); // along any coordinate
  const int dir = sx::choice("direction", e.n + e.m);
  (dir < e.n ? dx[dir] : dl[dir - e.n]) = sx::real("step");
  VX z0(e.m), z1(e.m), z2(e.m);
  std::vector<char> side(e.m);
  auto zof = [&](const VX &x, const VX &lam) {
    e.prob->evaluate(amb(x), w);
    VX z(e.m);
    for (int i = 0; i < e.m; i++) z[i] = w.data_cstr_values[i] + p.mu * (p.lame[i] - lam[i] / 2.);
    return z;
  };
  VX xp = p.x + dx, lp = p.lam + dl, xm = p.x - dx, lm = p.lam - dl;
  VX z = zof(p.x, p.lam), zp = zof(xp, lp), zm = zof(xm, lm);
  for (int i = 0; i < e.m; i++) {
    off_kink(e.rows[i], z[i], p.mu);
    const Row &r = e.rows[i];
    same_piece(r, z[i], zp[i], p.mu);
    same_piece(r, z[i], zm[i], p.mu);
  }
  double up = value(xp, lp, false), dn = value(xm, lm, false), d = 0.;
  for (int i = 0; i < e.n; i++) d += gx[i] * dx[i];
  for (int i = 0; i < e.m; i++) d += gl[i] * dl[i];
  sx::check_eq("the gradient is the derivative of the value", d, (up - dn) / 2.);
  sx::reach("end");
}

// multiplier estimates and their companions
SX_HARNESS(multipliers) {
  const int pats[] = {0, 1, 2, 3, 4, 6};
  Env e = make_env(1, PATTERNS[sx_int_param("from", -1) >= 0 ? pattern(1) : pats[sx::choice("pattern", 6)]], LDLTChoice::DENSE);
  sym_point(e, false);
  const bool pd = sx::choice("kkt", 2);
  e.s->kkt_system_ = pd ? KKT_PRIMAL_DUAL : KKT_CLASSIC;
  Pt p = sym_state(e);
  Wsp &w = e.w();
  e.prob->evaluate(amb(p.x), w);
  e.s->computeMultipliers(p.lam, w);
  e.s->computeProblemDerivatives(amb(p.x), w, boost::mpl::false_());
  VX c = all_c(e);
  MX J = all_J(e);
  for (int i = 0; i < e.m; i++) {
    const Row &r = e.rows[i];
    const double z = c[i] + p.mu * p.lame[i], y = c[i] + p.mu * (p.lame[i] - p.lam[i] / 2.);
    const std::string l = "[" + S(i) + "]";
    sx::check_eq("constraint values" + l, w.data_cstr_values[i], c[i]);
    sx::check_eq("shifted constraint" + l, w.data_shift_cstr_values[i], z);
    sx::check_eq("shifted primal-dual constraint" + l, w.data_shift_cstr_pdal[i], y);
    sx::check_eq("first-order multiplier" + l, p.mu * w.data_lams_plus[i], nproj(r, z, p.mu));
    sx::check_eq("primal-dual multiplier" + l, p.mu * w.data_lams_pdal[i], 2. * nproj(r, y, p.mu));
    const double u = pd ? y : z;
    off_kink(r, z, p.mu);
    off_kink(r, y, p.mu);
    sx::check_eq("reprojected first-order multiplier" + l, w.data_lams_plus_reproj[i], active(r, z, p.mu) ? 0. : w.data_lams_plus[i]);
    sx::check_eq("reprojected primal-dual multiplier" + l, w.data_lams_pdal_reproj[i], active(r, y, p.mu) ? 0. : w.data_lams_pdal[i]);
    for (int k = 0; k < e.n; k++) {
      sx::check_eq("Jacobian" + l, w.data_jacobians(i, k), J(i, k));
      sx::check_eq("projected Jacobian" + l, w.data_jacobians_proj(i, k), active(r, u, p.mu) ? J(i, k) : 0.);
    }
    // accepted multipliers
  }
  sx::check_mat_eq("the previous multipliers are not changed", w.data_lams_prev, p.lame);
  const MultiplierUpdateMode modes[] = {MultiplierUpdateMode::NEWTON, MultiplierUpdateMode::PRIMAL, MultiplierUpdateMode::PRIMAL_DUAL};
  const int k = sx::choice("mode", 3);
  e.s->mul_update_mode = modes[k];
  VX want = k == 0 ? p.lam : k == 1 ? w.data_lams_plus : w.data_lams_pdal;
  e.s->acceptMultipliers(e.r(), w);
  sx::check_mat_eq("accepted multipliers", e.r().data_lams_opt, want);
  sx::check_mat_eq("accepted multipliers become the previous ones", w.data_lams_prev, want);
  // primal residuals use the current multipliers
  e.s->computePrimalResiduals(w, e.r());
  int row = 0;
  double tot = 0.;
  for (size_t b = 0; b < e.fns.size(); b++) {
    sx::B hit = sx::B::c(false);
    const double v = e.r().constraint_violations[(long)b];
    for (int i = 0; i < e.fns[b]->nr(); i++, row++) {
      const double d = c[row] - proj(e.rows[row], c[row] + p.mu * want[row], p.mu);
      sx::check("a violation bounds each row", sx::le(d, v) && sx::le(-d, v));
      hit = hit || sx::eq(d, v) || sx::eq(-d, v);
    }
    sx::check("a violation is attained", hit);
    sx::check("the primal infeasibility bounds each violation", sx::le(v, e.r().prim_infeas));
    (void)tot;
  }
  sx::reach("end");
}

// one Newton step: the direction solves the (regularised) KKT system
SX_HARNESS(newton_step) {
  const int n = sx_int_param("n", 1);
  const int mode = sx_int_param("mode", 0); // 0 Gauss-Newton / identity, 1 exact constraint Hessians
  chart = sx_int_param("chart", 0);
  concrete_bounds = mode == 1;
  const std::vector<Blk> &pat = PATTERNS[pattern(6)];
  Env e = make_env(n, pat, LDLTChoice(sx_int_param("ldlt", (int)LDLTChoice::DENSE)), 0., 0.25);
  const bool pd = sx::choice("kkt", 2);
  e.s->kkt_system_ = pd ? KKT_PRIMAL_DUAL : KKT_CLASSIC;
  sym_point(e, false);
  // concrete second-order data
  const double hs[] = {2., 2., -1.25, -50.};
  const int hc = sx_int_param("fixh", 0) ? 1 : sx::choice("hessian", n == 1 ? mode == 0 ? 4 : 3 : 2);
  const double hd = hs[mode == 0 ? hc : hc + 1];
  e.cost->H = MX::Identity(n, n) * hd;
  if (n == 2) e.cost->H << 2., 0.5, 0.5, 1.;
  for (size_t b = 0; b < e.fns.size(); b++)
    for (int i = 0; i < e.fns[b]->nr(); i++) {
      for (int j = 0; j < n; j++) e.fns[b]->J(i, j) = 1. + 2. * b - i + 0.5 * j;
      e.fns[b]->Q[i] = MX::Identity(n, n) * (1. + b - 2. * i);
    }
  const HessianApprox ha[] = {HessianApprox::GAUSS_NEWTON, HessianApprox::IDENTITY};
  // with fixed multipliers: exact Hessians, or those that the sets ask for
  const int happ = mode == 0 ? hc == 0 : sx_int_param("approx", 0) ? sx::choice("approx", 2) : -1;
  e.s->hess_approx = happ >= 0 ? ha[happ] : HessianApprox::EXACT;
  if (sx_int_param("approx", 0)) for (long i = 0; i < e.w().data_hessians.size(); i++) e.w().data_hessians.data()[i] = -3.; // of an earlier solve
  const bool prox = sx::choice("prox", 2);
  const double mu = (prox + pd + hc) % 2 ? 0.25 : 2.;
  e.s->setPenalty(mu);
  VX x = sym_vec(n, "x"), lam(e.m), lame(e.m);
  if (mode == 0) { sx::fill(lam, "lam"); sx::fill(lame, "lame"); }
  else { // the Hessian of the Lagrangian depends on c, lam, lame: fixed values on each side of the constraint
    int k = 0;
    for (auto &f : e.fns)
      for (int i = 0; i < f->nr(); i++, k++) {
        f->c[i] = sx::choice("side", 2) ? 0.5 : -5.;
        lam[k] = 1. - k;
        lame[k] = k - 0.5;
      }
    if (sx::choice("opposite", 2)) { lam = -lam; lame = -lame; }
  }
  e.r().x_opt = amb(x);
  e.r().data_lams_opt = lam;
  e.w().data_lams_prev = lame;
  Wsp &w = e.w();
  const double rho = prox ? 0.5 : 0.;
  e.s->setProxParameter(rho);
  VX target = sym_vec(n, "target");
  e.s->prox_penalty.updateTarget(amb(target));
  // oracle: active rows, multiplier targets, total Hessian
  VX c = all_c(e);
  MX J = all_J(e), Ht = happ == 1 ? MX(MX::Identity(n, n)) : e.cost->H;
  for (int i = 0; i < n; i++) Ht(i, i) += rho;
  VX lplus(e.m), lpd(e.m);
  std::vector<char> act(e.m);
  int row = 0;
  for (size_t b = 0; b < e.fns.size(); b++)
    for (int i = 0; i < e.fns[b]->nr(); i++, row++) {
      const auto &f = e.fns[b];
      const Row &r = e.rows[row];
      const double z = c[row] + mu * lame[row], y = c[row] + mu * (lame[row] - lam[row] / 2.);
      off_kink(r, z, mu);
      off_kink(r, y, mu);
      lplus[row] = nproj(r, z, mu) / mu;
      lpd[row] = 2. * nproj(r, y, mu) / mu;
      act[row] = active(r, pd ? y : z, mu);
      if (mode == 1 && (happ < 0 || (happ == 0 && pat[b].kind == CURVED))) Ht += lpd[row] * f->Q[i];
    }
  e.s->DELTA_NONZERO_INIT = 1.;
  double delta = 0.;
  // the smallest tried regularisation for which elimination without pivoting finds n positive and m negative pivots
  auto regular = [&](double d) {
    MX K = MX::Zero(n + e.m, n + e.m);
    K.topLeftCorner(n, n) = Ht;
    for (int i = 0; i < n; i++) K(i, i) += d;
    for (int k = 0; k < e.m; k++) {
      if (act[k]) for (int i = 0; i < n; i++) K(n + k, i) = K(i, n + k) = J(k, i);
      K(n + k, n + k) = -(pd && !act[k] ? 0.5 : 1.) * mu;
    }
    int npos = 0;
    for (int k = 0; k < n + e.m; k++) {
      if (K(k, k) == 0.) return false;
      npos += K(k, k) > 0.;
      for (int i = k + 1; i < n + e.m; i++)
        for (int j = k + 1; j < n + e.m; j++) K(i, j) -= K(i, k) * K(k, j) / K(k, k);
    }
    return npos == n;
  };
  for (double d : {0., 1., 100., 10000.}) { delta = d; if (regular(d)) break; }
  if (delta > 0.) sx::reach("regularised");
  e.s->max_iters = 1;
  e.s->inner_tol_ = 0.;
  e.s->ls_options.max_num_steps = 0;
  e.s->ls_options.dphi_thresh = std::numeric_limits<double>::infinity();
  e.r().num_iters = 0;
  e.r().converged = UNINIT;
  // not optimal: the gradient of the Lagrangian is not zero
  double g0 = e.cost->g[0];
  for (int k = 0; k < e.m; k++) g0 += J(k, 0) * lam[k];
  sx::assume(sx::ne(g0, 0.));
  e.s->innerLoop(w, e.r());
  if (e.r().num_iters == 0) { sx::reach("already optimal"); return; }
  VX dx = w.prim_step, dl = w.dual_step;
  for (int i = 0; i < n; i++) {
    double v = e.cost->g[i] + rho * (x[i] - target[i]) + delta * dx[i];
    for (int j = 0; j < n; j++) v += Ht(i, j) * dx[j];
    for (int k = 0; k < e.m; k++) v += J(k, i) * (lam[k] + dl[k]);
    sx::check_eq("stationarity of the linearised Lagrangian", v, 0.);
  }
  for (int k = 0; k < e.m; k++) {
    const double target_l = pd ? lpd[k] : lplus[k];
    if (act[k]) {
      double v = (pd ? 0.5 : 1.) * mu * (target_l - lam[k]) - mu * dl[k];
      for (int i = 0; i < n; i++) v += J(k, i) * dx[i];
      sx::check_eq("linearised multiplier equation, active", v, 0.);
    } else
      sx::check_eq("linearised multiplier equation, inactive", lam[k] + dl[k], target_l);
  }
  // the slope given to the line search is that of the merit function
  if (n == 1) {
  double slope = 0.;
  for (int i = 0; i < n; i++) {
    double gi = e.cost->g[i] + rho * (x[i] - target[i]);
    for (int k = 0; k < e.m; k++) gi += J(k, i) * lpd[k];
    slope += gi * dx[i];
  }
  for (int k = 0; k < e.m; k++) slope += 0.5 * mu * (lam[k] - lpd[k]) * dl[k];
  sx::check_eq("merit slope", w.dmerit_dir, slope);
  }
  VX want = x;
  for (int i = 0; i < n; i++) want[i] += w.alpha_opt * dx[i];
  sx::check_mat_eq("step, primal", e.r().x_opt, amb(want));
  for (int i = 0; i < e.m; i++) sx::check_eq("step, dual", e.r().data_lams_opt[i], lam[i] + w.alpha_opt * dl[i]);
  sx::check("the iteration is counted", e.r().num_iters == 1);
  sx::reach("end");
}

// iterative refinement: success means a small residual, whatever the factorisation
SX_HARNESS(refinement) {
  const int n = 1, pat = sx::choice("pattern", 2) ? 5 : 0;
  Env e = make_env(n, PATTERNS[pat], LDLTChoice::DENSE);
  Wsp &w = e.w();
  const int N = n + e.m;
  MX fac(2, 2);
  fac << 2., 1., 1., -0.5;
  MX F = fac.topLeftCorner(N, N);
  boost::get<linalg::DenseLDLT<double>>(w.ldlt_).compute(F);
  // the matrix of the system: the factorised one, or a perturbed one
  const int same = sx::choice("same", 2);
  w.kkt_matrix = F;
  if (!same) for (int i = 0; i < N; i++) w.kkt_matrix(i, i) += 0.125 * (1 + i);
  w.kkt_rhs = sym_vec(N, "rhs");
  w.pd_step = sym_vec(N, "old step");
  w.kkt_err = sym_vec(N, "old error");
  VX rhs = w.kkt_rhs;
  MX K = w.kkt_matrix;
  e.s->kkt_tolerance_ = sx::real("tolerance");
  const double tol = e.s->kkt_tolerance_;
  sx::assume(sx::gt(tol, 0.));
  const int steps = sx::choice("steps", 3);
  e.s->max_refinement_steps_ = steps;
  const bool ok = e.s->iterativeRefinement(w);
  sx::check_mat_eq("the system is not modified", w.kkt_matrix, K);
  sx::check_mat_eq("the right-hand side is not modified", w.kkt_rhs, rhs);
  VX res = K * w.pd_step;
  res += rhs;
  if (ok) {
    sx::reach("accurate");
    for (int i = 0; i < N; i++) sx::check("success means a small residual", sx::lt(res[i], tol) && sx::gt(res[i], -tol));
  } else
    sx::reach("inaccurate");
  if (same) {
    sx::check("an exact solution is recognised", ok || steps == 0);
    for (int i = 0; i < N; i++) sx::check_eq("the step solves the factorised system", res[i], 0.);
  } else if (steps && !ok) { // each step applies the inverse to the residual
    VX p = VX::Zero(N), err = -rhs;
    MX inv(N, N);
    if (N == 1) inv << 0.5; else { inv << 0.5, 1., 1., -2.; inv *= 0.5; }
    for (int k = 0; k <= steps; k++) { VX t = inv * err; p += t; VX u = K * p; err = -rhs - u; }
    sx::check_mat_eq("refined step", w.pd_step, p);
  }
  sx::reach("end");
}

// tolerance and penalty schedule, from the public update functions
SX_HARNESS(tolerances) {
  const double mu_init = sx::real("mu_init"), mu_lower = sx::real("mu_lower");
  sx::assume(sx::gt(mu_lower, 0.) && sx::lt(mu_lower, mu_init));
  const double pa = sx::choice("pa", 2), pb = 1 + sx::choice("pb", 2), da = 1 + sx::choice("da", 2), db = sx::choice("db", 2);
  const double tol = sx::real("tol");
  sx::assume(sx::gt(tol, 0.));
  Env e = make_env(1, PATTERNS[sx::choice("pattern", 2) ? 3 : 1], LDLTChoice::DENSE, tol, mu_init, 0., mu_lower, pa, pb, da, db);
  auto &s = *e.s;
  s.prim_tol0 = sx::real("prim_tol0");
  s.inner_tol0 = sx::real("inner_tol0");
  s.inner_tol_min = sx::real("inner_tol_min");
  s.mu_upper_ = sx::real("mu_upper");
  s.bcl_params.mu_update_factor = sx::real("factor");
  const double f = s.bcl_params.mu_update_factor;
  for (double v : {s.prim_tol0, s.inner_tol0, s.inner_tol_min, s.mu_upper_}) sx::assume(sx::gt(v, 0.));
  sx::assume(sx::gt(f, 0.) && sx::lt(f, 1.));
  auto ipow = [](double b, double k) { return k == 0. ? 1. : k == 1. ? b : b * b; };
  auto max2 = [](double a, double b) { return a < b ? b : a; };
  auto mu_of = [&] { double m = e.prob->getConstraint(0).set_->mu(); for (size_t i = 1; i < e.fns.size(); i++) sx::check_eq("every constraint set gets the penalty", e.prob->getConstraint(i).set_->mu(), m); return m; };
  double mu = mu_init;
  s.setPenalty(mu_init);
  s.updateToleranceFailure();
  sx::check_eq("initial penalty", mu_of(), mu);
  double pt = max2(s.prim_tol0 * ipow(mu, pa), tol), it = max2(s.inner_tol0 * ipow(mu, da), s.inner_tol_min);
  for (int k = 0; k < sx_int_param("steps", 2); k++) {
    sx::check_eq("primal tolerance", s.prim_tol_, pt);
    sx::check_eq("inner tolerance", s.inner_tol_, it);
    if (sx::choice("success", 2)) {
      s.updateToleranceSuccess();
      const double r = mu / s.mu_upper_;
      pt = max2(pt * ipow(r, pb), tol);
      it = max2(it * ipow(r, db), s.inner_tol_min);
      sx::check_eq("success keeps the penalty", mu_of(), mu);
    } else {
      s.updatePenalty();
      const double next = mu == mu_lower ? mu_init : max2(mu * f, mu_lower);
      mu = next;
      s.updateToleranceFailure();
      sx::check_eq("penalty after a failure", mu_of(), mu);
      sx::check("penalty within its bounds", sx::ge(mu_of(), mu_lower) && sx::le(mu_of(), mu_init));
      pt = max2(s.prim_tol0 * ipow(mu, pa), tol);
      it = max2(s.inner_tol0 * ipow(mu, da), s.inner_tol_min);
    }
  }
  sx::check_eq("primal tolerance", s.prim_tol_, pt);
  sx::check_eq("inner tolerance", s.inner_tol_, it);
  const double rho = sx::real("rho");
  s.setProxParameter(rho);
  sx::check_eq("proximal weight", s.prox_penalty.weights_(0, 0), rho);
  sx::reach("end");
}

namespace {
// what a solver state determines, from the definitions
struct Snap {
  VX x, lam, lame, target;
  double mu, rho, inner_tol, prim_tol;
  size_t al, it;
};
struct Oracle {
  double pres = 0., dres = 0., inner = 0.; // infinity norms
  VX lplus, lpd;
};
double maxabs(double m, double v) { v = v < 0. ? -v : v; return v > m ? v : m; }
Oracle residuals(const Env &e, const Snap &s, bool pd) {
  Oracle o;
  VX c(e.m);
  MX J(e.m, e.n);
  int k = 0;
  const VX x = amb(s.x);
  for (auto &f : e.fns) { VX v = (*f)(x); MX j(f->nr(), e.n); f->computeJacobian(x, j); for (int i = 0; i < f->nr(); i++, k++) { c[k] = v[i]; J.row(k) = j.row(i); } }
  o.lplus.resize(e.m);
  o.lpd.resize(e.m);
  for (k = 0; k < e.m; k++) {
    const Row &r = e.rows[k];
    o.lplus[k] = nproj(r, c[k] + s.mu * s.lame[k], s.mu) / s.mu;
    o.lpd[k] = 2. * nproj(r, c[k] + s.mu * (s.lame[k] - s.lam[k] / 2.), s.mu) / s.mu;
    o.pres = maxabs(o.pres, c[k] - proj(r, c[k] + s.mu * s.lam[k], s.mu));
    o.inner = maxabs(o.inner, pd ? 0.5 * s.mu * (o.lpd[k] - s.lam[k]) : s.mu * (o.lplus[k] - s.lam[k]));
  }
  VX g(e.n);
  auto call = e.cost->on_gradient;
  e.cost->on_gradient = nullptr;
  e.cost->QCost::computeGradient(x, g);
  e.cost->on_gradient = call;
  for (int i = 0; i < e.n; i++) {
    double v = g[i];
    for (k = 0; k < e.m; k++) v += J(k, i) * s.lam[k];
    o.dres = maxabs(o.dres, v);
    o.inner = maxabs(o.inner, v + s.rho * (s.x[i] - s.target[i]));
  }
  return o;
}
// quadratic cost and affine constraints with fixed coefficients
void fixed_data(Env &e, int which) {
  e.cost->H = MX::Identity(e.n, e.n) * (which == 1 ? 0.5 : 2.);
  for (int i = 0; i < e.n; i++) e.cost->g[i] = which == 2 ? -1. : 0.5 + i;
  int k = 0;
  for (auto &f : e.fns)
    for (int i = 0; i < f->nr(); i++, k++) {
      f->c[i] = which - 0.5 * k;
      for (int j = 0; j < e.n; j++) f->J(i, j) = 1. + k - 1.5 * j;
    }
}
struct Counter : helpers::base_callback<double> {
  int n = 0;
  void call(const Wsp &, const Res &) override { n++; }
};
} // namespace

// the outer loop, replayed against a model of the method of multipliers
SX_HARNESS(outer) {
  concrete_bounds = true;
  const int which = sx_int_param("which", 7); // 1 optimality, 2 limits, 4 schedule
  const bool opt = which & 1, lim = which & 2, sched = which & 4;
  const double tol = sx_int_param("loose", 1) ? 0.25 : 0.015625;
  chart = sx_int_param("chart", 0);
  const int pat = pattern(3);
  const bool prox = sx::choice("prox", 2);
  Env e = make_env(1, PATTERNS[pat], LDLTChoice::DENSE, tol, 0.25, prox ? 0.5 : 0., 0.03125, 1., 1., 1., 1.);
  auto &s = *e.s;
  const bool pd = sx::choice("kkt", 2);
  s.kkt_system_ = pd ? KKT_PRIMAL_DUAL : KKT_CLASSIC;
  const MultiplierUpdateMode modes[] = {MultiplierUpdateMode::NEWTON, MultiplierUpdateMode::PRIMAL, MultiplierUpdateMode::PRIMAL_DUAL};
  const int mode = sx::choice("mode", 3);
  s.mul_update_mode = modes[mode];
  fixed_data(e, sx_int_param("alldata", 0) ? sx::choice("data", 3) : (pat + prox + pd + mode) % 3);
  s.bcl_params.mu_update_factor = 0.25;
  s.bcl_params.rho_update_factor = 0.5;
  s.inner_tol_min = 0.125;
  s.inner_tol0 = 4.;
  s.prim_tol0 = 4.;
  s.ls_options.max_num_steps = 0;
  s.ls_options.dphi_thresh = std::numeric_limits<double>::infinity();
  s.max_iters = sx_int_param("iters", 2);
  s.max_al_iters = sx_int_param("al", 2);
  auto counter = std::make_shared<Counter>();
  s.registerCallback(counter);
  std::vector<Snap> snaps;
  auto snap = [&](const VX &x) {
    Snap n;
    n.x = x; n.lam = e.r().data_lams_opt; n.lame = e.w().data_lams_prev; n.target = coord(s.prox_penalty.getTarget(), e.n);
    n.mu = e.m ? e.prob->getConstraint(0).set_->mu() : 0.;
    n.rho = s.prox_penalty.weights_(0, 0);
    n.inner_tol = s.inner_tol_; n.prim_tol = s.prim_tol_;
    n.al = e.r().al_iters; n.it = e.r().num_iters;
    snaps.push_back(n);
  };
  e.cost->on_gradient = snap;
  VX x0 = sym_vec(1, "x0"), lam0 = sym_vec(e.m, "lam0");
  ConvergenceFlag flag = s.solve(amb(x0), lam0);
  e.cost->on_gradient = nullptr;
  const Res &r = e.r();
  if (lim) {
    sx::check("the returned flag is that of the results", flag == r.converged);
    sx::check("the solver reports convergence or the limit", flag == SUCCESS || flag == MAX_ITERS_REACHED);
    sx::check("the number of iterations is bounded", r.num_iters <= s.max_iters && r.al_iters <= s.max_al_iters);
    sx::check("a callback runs once per iteration and once at the end", counter->n == (int)r.num_iters + 1);
    sx::check("the limit is reported when it stops the solver", flag == SUCCESS || r.num_iters == s.max_iters || r.al_iters == s.max_al_iters);
  }
  if (s.max_iters == 0 || s.max_al_iters == 0) { sx::check("no iteration is made", snaps.empty() && r.num_iters == 0 && flag == MAX_ITERS_REACHED); sx::reach("no iterations"); return; }
  sx::check("at least one point is evaluated", !snaps.empty());
  const Snap &last = snaps.back();
  if (flag == SUCCESS) {
    sx::reach("success");
    if (opt) {
      Snap fin = last;
      fin.x = coord(r.x_opt, e.n); fin.lam = r.data_lams_opt; fin.mu = r.mu;
      Oracle o = residuals(e, fin, pd);
      sx::check("success means primal feasibility at the returned point", sx::lt(o.pres, tol));
      sx::check("success means stationarity at the returned point", sx::lt(o.dres, tol));
      sx::check_eq("reported primal infeasibility", r.prim_infeas, o.pres);
      sx::check_eq("reported dual infeasibility", r.dual_infeas, o.dres);
      sx::check_eq("reported objective value", r.value, e.cost->call(r.x_opt));
      // the first-order conditions themselves, row by row
      int k = 0;
      for (auto &f : e.fns) { VX v = (*f)(r.x_opt); for (int i = 0; i < f->nr(); i++, k++) {
        const Row &row = e.rows[k];
        const double l = r.data_lams_opt[k], mu = r.mu;
        sx::check_eq("multiplier views", r.lams_opt[&f - &e.fns[0]][i], l);
        if (row.kind == EQ) sx::check("feasible (equality)", sx::lt(v[i], tol) && sx::gt(v[i], -tol));
        if (row.kind == NEG) {
          sx::check("feasible (inequality)", sx::lt(v[i], tol));
          sx::check("multiplier of an inequality", sx::gt(mu * l, -tol));
          sx::check("complementarity", sx::gt(v[i], -tol) || sx::lt(mu * l, tol));
        }
        if (row.kind == L1) { // subgradient of the absolute value
          sx::check("multiplier of a penalty", sx::lt(mu * l, mu + tol) && sx::gt(mu * l, -mu - tol));
          sx::check("penalised side", (sx::lt(v[i], tol) || sx::gt(mu * l, mu - tol)) && (sx::gt(v[i], -tol) || sx::lt(mu * l, tol - mu)));
        }
        if (row.kind == BOX) {
          sx::check("feasible (box)", sx::lt(v[i] - row.hi, tol) && sx::lt(row.lo - v[i], tol));
          sx::check("multiplier of a box", (sx::lt(mu * l, tol) || sx::gt(v[i] - row.hi, -tol)) && (sx::gt(mu * l, -tol) || sx::lt(v[i] - row.lo, tol)));
        }
      } }
    }
  } else {
    sx::reach("limit");
    if (opt) {
      Oracle o = residuals(e, last, pd);
      sx::check("an optimal point is not missed", sx::ge(o.pres, tol) || sx::ge(o.dres, tol));
    }
  }
  if (sched) {
    // start
    const Snap &f = snaps[0];
    sx::check_mat_eq("starts at the initial guess", f.x, x0);
    sx::check_mat_eq("starts at the initial multipliers", f.lam, lam0);
    sx::check_mat_eq("starts from the initial multiplier estimates", f.lame, lam0);
    sx::check_eq("initial penalty", f.mu, 0.25);
    sx::check_eq("initial proximal parameter", f.rho, s.rho_init_);
    sx::check_mat_eq("initial proximal target", f.target, x0);
    sx::check_eq("initial primal tolerance", f.prim_tol, 1.);
    sx::check_eq("initial inner tolerance", f.inner_tol, 1.);
    sx::check("counters start at zero", f.al == 0 && f.it == 0);
    sx::check_eq("final penalty", r.mu, last.mu);
    sx::check_eq("final proximal parameter", r.rho, last.rho);
    for (size_t k = 0; k < snaps.size(); k++) {
      const Snap &a = snaps[k];
      Oracle o = residuals(e, a, pd);
      const bool end = k + 1 == snaps.size();
      const size_t it1 = end ? r.num_iters : snaps[k + 1].it;
      sx::check("a step counts as one iteration", it1 == a.it || it1 == a.it + 1);
      const bool step = it1 > a.it;
      sx::B stop = sx::le(o.inner, a.inner_tol) || (sx::le(o.pres, tol) && sx::le(o.dres, tol));
      sx::check("a step is taken unless the subproblem is solved", sx::iff(sx::B::c(step), !stop));
      if (end) break;
      const Snap &b = snaps[k + 1];
      sx::check("one outer iteration at a time", b.al == a.al || b.al == a.al + 1);
      sx::check("an outer iteration ends when its subproblem is solved", (b.al > a.al) == !step);
      if (step) { // same subproblem
        sx::check_mat_eq("multiplier estimates within a subproblem", b.lame, a.lame);
        sx::check_mat_eq("proximal target within a subproblem", b.target, a.target);
        sx::check_eq("penalty within a subproblem", b.mu, a.mu);
        sx::check_eq("proximal parameter within a subproblem", b.rho, a.rho);
        sx::check_eq("inner tolerance within a subproblem", b.inner_tol, a.inner_tol);
        continue;
      }
      sx::check_mat_eq("the primal point is kept between subproblems", b.x, a.x);
      sx::check_mat_eq("the proximal target is the last point", b.target, a.x);
      sx::check_eq("proximal parameter update", b.rho, 0.5 * a.rho);
      if (o.pres < a.prim_tol) {
        sx::reach("multipliers accepted");
        VX acc = mode == 0 ? a.lam : mode == 1 ? o.lplus : o.lpd;
        sx::check_mat_eq("accepted multipliers", b.lam, acc);
        sx::check_mat_eq("accepted multiplier estimates", b.lame, acc);
        sx::check_eq("penalty kept on success", b.mu, a.mu);
        const double pt = a.prim_tol * a.mu, it = a.inner_tol * a.mu;
        sx::check_eq("primal tolerance on success", b.prim_tol, pt < tol ? tol : pt);
        sx::check_eq("inner tolerance on success", b.inner_tol, it < 0.125 ? 0.125 : it);
      } else {
        sx::reach("penalty decreased");
        sx::check_mat_eq("multipliers kept on failure", b.lam, a.lam);
        sx::check_mat_eq("multiplier estimates kept on failure", b.lame, a.lame);
        const double mu = a.mu == 0.03125 ? 0.25 : a.mu * 0.25 < 0.03125 ? 0.03125 : a.mu * 0.25;
        sx::check_eq("penalty on failure", b.mu, mu);
        const double pt = 4. * mu, it = 4. * mu;
        sx::check_eq("primal tolerance on failure", b.prim_tol, pt < tol ? tol : pt);
        sx::check_eq("inner tolerance on failure", b.inner_tol, it < 0.125 ? 0.125 : it);
      }
    }
  }
  sx::reach("end");
}

// solving again depends only on the problem, the options and the starting point
SX_HARNESS(resolve) {
  concrete_bounds = true;
  const int pat = pattern(3);
  const int data = sx::choice("data", sx_int_param("ndata", 1));
  const HessianApprox approxs[] = {HessianApprox::GAUSS_NEWTON, HessianApprox::IDENTITY, HessianApprox::EXACT};
  const HessianApprox approx = approxs[sx_int_param("approx", 0) ? sx::choice("approx", 3) : 0];
  const int history = sx_int_param("hist", -1) >= 0 ? sx_int_param("hist", 0) : sx::choice("history", 5); // earlier solve; with other options; interrupted; with setup() again; two solves
  const bool pd = sx::choice("kkt", 2), prox = sx::choice("prox", 2);
  const bool full = sx_int_param("full", 0);
  const int mode = full ? sx::choice("mode", 3) : (history + pd) % 3;
  const MultiplierUpdateMode modes[] = {MultiplierUpdateMode::NEWTON, MultiplierUpdateMode::PRIMAL, MultiplierUpdateMode::PRIMAL_DUAL};
  auto options = [&](Solver &s) {
    s.kkt_system_ = pd ? KKT_PRIMAL_DUAL : KKT_CLASSIC;
    s.mul_update_mode = modes[mode];
    s.hess_approx = approx;
    s.mu_init_ = 0.25;
    s.rho_init_ = prox ? 0.5 : 0.;
    s.bcl_params.mu_update_factor = 0.25;
    s.bcl_params.rho_update_factor = 0.5;
    s.inner_tol_min = 0.125;
    s.ls_options.max_num_steps = 0;
    s.ls_options.dphi_thresh = std::numeric_limits<double>::infinity();
    s.max_iters = sx_int_param("iters", 2);
    s.max_al_iters = 2;
  };
  Env a = make_env(1, PATTERNS[pat], LDLTChoice::DENSE, 0.25, 0.25, prox ? 0.5 : 0., 0.03125, 1., 1., 1., 1.);
  Env b = make_env(1, PATTERNS[pat], LDLTChoice::DENSE, 0.25, 0.25, prox ? 0.5 : 0., 0.03125, 1., 1., 1., 1.);
  fixed_data(a, data);
  fixed_data(b, data);
  if (sx_int_param("curved", 0)) for (Env *e : {&a, &b}) for (auto &f : e->fns) for (auto &q : f->Q) q.setConstant(0.5);
  options(*a.s);
  options(*b.s);
  VX x0 = sym_vec(1, "x0"), lam0 = sx_int_param("curved", 0) ? VX(VX::Constant(a.m, 0.25)) : sym_vec(a.m, "lam0");
  VX y0(1), nu0(a.m); // where the earlier solve starts
  y0[0] = sx_int_param("symhist", 0) ? sx::real("y0") : -2. + 3.5 * (full ? sx::choice("y0", 2) : (int)prox);
  for (int i = 0; i < a.m; i++) nu0[i] = 0.75 - i;
  if (history == 1) {
    a.s->mu_init_ = 0.0625;
    a.s->rho_init_ = 1.;
    a.s->mul_update_mode = modes[(mode + 1) % 3];
    a.s->kkt_system_ = pd ? KKT_CLASSIC : KKT_PRIMAL_DUAL;
    a.s->hess_approx = approx == HessianApprox::EXACT ? HessianApprox::IDENTITY : HessianApprox::EXACT;
    a.s->max_iters = 3;
  }
  if (history == 2) {
    int calls = 0;
    const int fail = 1 + sx::choice("failing call", 3); // 3: not an exception, but a non-finite second derivative
    a.cost->on_gradient = [&](const VX &) { if (++calls == fail && fail < 3) throw std::runtime_error("cost failed"); };
    a.cost->bad_hessian = fail == 3;
    bool threw = false;
    try { a.s->solve(y0, nu0); } catch (const std::runtime_error &) { threw = true; }
    a.cost->on_gradient = nullptr;
    a.cost->bad_hessian = false;
    if (threw) sx::reach("interrupted");
  } else
    a.s->solve(y0, nu0);
  if (history == 4) { VX y1 = y0 * 0.5; a.s->solve(y1, nu0); }
  if (history == 3) a.s->setup();
  options(*a.s);
  ConvergenceFlag fa = a.s->solve(x0, lam0), fb = b.s->solve(x0, lam0);
  const Res &ra = a.r(), &rb = b.r();
  sx::check("same flag", fa == fb && ra.converged == rb.converged);
  sx::check("same iteration counts", ra.num_iters == rb.num_iters && ra.al_iters == rb.al_iters);
  sx::check_mat_eq("same point", ra.x_opt, rb.x_opt);
  sx::check_mat_eq("same multipliers", ra.data_lams_opt, rb.data_lams_opt);
  sx::check_eq("same penalty", ra.mu, rb.mu);
  sx::check_eq("same proximal parameter", ra.rho, rb.rho);
  sx::check_eq("same value", ra.value, rb.value);
  sx::check_eq("same merit", ra.merit, rb.merit);
  sx::check_eq("same primal infeasibility", ra.prim_infeas, rb.prim_infeas);
  sx::check_eq("same dual infeasibility", ra.dual_infeas, rb.dual_infeas);
  sx::check_mat_eq("same violations", ra.constraint_violations, rb.constraint_violations);
  for (size_t i = 0; i < ra.active_set.size(); i++) for (long k = 0; k < ra.active_set[i].size(); k++)
    sx::check("same active set", ra.active_set[i][k] == rb.active_set[i][k]);
  if (sx_int_param("curved", 0)) { sx::reach("end"); return; }
  // multipliers given per constraint
  std::vector<VR> blocks;
  VX copy = lam0;
  for (size_t i = 0; i < b.fns.size(); i++) blocks.emplace_back(b.prob->getSegment(copy, i));
  ConvergenceFlag fc = b.s->solve(x0, blocks);
  sx::check("same flag with multipliers per constraint", fc == fa);
  sx::check_mat_eq("same point with multipliers per constraint", b.r().x_opt, ra.x_opt);
  sx::check_mat_eq("same multipliers with multipliers per constraint", b.r().data_lams_opt, ra.data_lams_opt);
  bool threw = false;
  blocks.emplace_back(copy.head(0));
  try { b.s->solve(x0, blocks); } catch (const std::exception &) { threw = true; }
  sx::check("a wrong number of multipliers is rejected", threw);
  sx::reach("end");
}

// an iteration takes a step along the direction that decreases the merit function, for any functions
SX_HARNESS(merit_decrease) {
  concrete_bounds = true;
  chart = sx_int_param("chart", 0);
  const int pat = pattern(3);
  Env e = make_env(1, PATTERNS[pat], LDLTChoice::DENSE, 0., 0.25);
  auto &s = *e.s;
  fixed_data(e, 1);
  const bool pd = sx::choice("kkt", 2), prox = sx::choice("prox", 2);
  s.kkt_system_ = pd ? KKT_PRIMAL_DUAL : KKT_CLASSIC;
  const double mu = 0.5, rho = prox ? 0.5 : 0.;
  s.setPenalty(mu);
  s.setProxParameter(rho);
  const int max_steps = sx_int_param("steps", 1), c1 = sx_int_param("c1", 1);
  s.ls_options.max_num_steps = max_steps;
  s.ls_options.interp_type = LSInterpolation::BISECTION;
  s.ls_options.armijo_c1 = c1 ? 0.25 : 0.0001;
  s.ls_options.dphi_thresh = 0.;
  s.inner_tol_ = 0.;
  s.max_iters = 1;
  VX target = VX::Constant(1, 0.5);
  s.prox_penalty.updateTarget(amb(target));
  // the functions may take any value at each new point
  // (an evaluation is one call of each function, in any order, cut short by a failure)
  struct Eval { VX x; double f; VX c; std::vector<char> called; bool failed = false; };
  struct Log {
    int m, fail, parts;
    std::vector<Eval> ev;
    Eval &at(const VX &x, int part) {
      if (ev.empty() || ev.back().failed || ev.back().called[part]) {
        const int k = (int)ev.size();
        ev.push_back({x, sx::real("f" + S(k)), sym_vec(m, "c" + S(k)), std::vector<char>(parts, 0)});
      } else
        sx::check_mat_eq("constraints and cost are evaluated at the same point", x, ev.back().x);
      ev.back().called[part] = 1;
      return ev.back();
    }
  } log;
  const int fail = sx_int_param("throws", 0) ? sx::choice("failing trial", max_steps + 2) : 0; // 0: none
  log.m = e.m; log.fail = fail; log.parts = 1 + (int)e.fns.size();
  int row = 0;
  struct Any : QCost { Log *log; Any(int n) : QCost(n) {} double call(const ConstVectorRef &x) const override {
    Eval &v = log->at(coord(x, 1), 0);
    if (log->fail > 0 && (int)log->ev.size() - 1 == log->fail) { v.failed = true; throw std::runtime_error("failed trial"); }
    return v.f;
  } };
  struct AnyFn : QFn { Log *log; int row, part; AnyFn(int n, int nr) : QFn(n, nr) {} VectorXs operator()(const ConstVectorRef &x) const override {
    return log->at(coord(x, 1), part).c.segment(row, nr());
  } };
  auto cost = std::make_shared<Any>(1);
  static_cast<QCost &>(*cost) = *e.cost;
  cost->log = &log;
  e.prob->cost_ = cost;
  for (size_t b = 0; b < e.fns.size(); b++) {
    auto f = std::make_shared<AnyFn>(1, e.fns[b]->nr());
    static_cast<QFn &>(*f) = *e.fns[b];
    f->log = &log; f->row = row; f->part = 1 + (int)b;
    row += f->nr();
    e.prob->constraints_[b].func_ = f;
  }
  VX x0 = sym_vec(1, "x0"), lam0 = sym_vec(e.m, "lam0"), lame = sym_vec(e.m, "lame");
  e.r().x_opt = amb(x0);
  e.r().data_lams_opt = lam0;
  e.w().data_lams_prev = lame;
  e.r().num_iters = 0;
  bool threw = false;
  try { s.innerLoop(e.w(), e.r()); } catch (const std::runtime_error &) { threw = true; }
  if (e.r().num_iters == 0 && !threw) { sx::reach("already optimal"); return; }
  sx::check("a single failing trial is survived", !threw);
  if (threw) return;
  Wsp &w = e.w();
  const std::vector<Eval> &ev = log.ev;
  const double a = w.alpha_opt;
  auto phi = [&](const Eval &v, const VX &lam) {
    double p = v.f;
    for (int i = 0; i < e.m; i++) {
      const double y = v.c[i] + mu * (lame[i] - lam[i] / 2.), nz = nproj(e.rows[i], y, mu);
      p += 2. * penalty(e.rows[i], y, mu) + nz * nz / mu + mu * lam[i] * lam[i] / 4.;
    }
    return p + 0.5 * rho * (v.x[0] - target[0]) * (v.x[0] - target[0]);
  };
  sx::check_mat_eq("the first evaluation is at the current point", ev[0].x, x0);
  sx::check_eq("step, primal", coord(e.r().x_opt, 1)[0], x0[0] + a * w.prim_step[0]);
  VX lam = lam0;
  for (int i = 0; i < e.m; i++) { lam[i] += a * w.dual_step[i]; sx::check_eq("step, dual", e.r().data_lams_opt[i], lam[i]); }
  sx::check("step length", a > 0. && a <= 1.);
  // the accepted point is the one evaluated with that step
  int at = -1;
  double b = 1.;
  for (size_t k = 1; k < ev.size(); k++, b *= 0.5) {
    sx::check_eq("trial points lie along the step", ev[k].x[0], x0[0] + b * w.prim_step[0]);
    if (b == a) at = (int)k;
  }
  sx::check("the step was evaluated", at > 0 && at != (fail > 0 ? fail : -1));
  if (at < 0) return;
  const double p0 = phi(ev[0], lam0), p1 = phi(ev[at], lam);
  sx::check_eq("reported merit", e.r().merit, p1);
  const int reductions = (int)ev.size() - 2;
  if (reductions < max_steps) sx::check("the merit decreases by the Armijo condition", sx::le(p1 - p0, s.ls_options.armijo_c1 * a * w.dmerit_dir));
  else sx::reach("budget used");
  sx::check("the search stops at the first acceptable step", reductions <= max_steps + (fail == 1));
  sx::reach("end");
}
