// C01-C06: constraint sets, prox operators, products.
#include "common.hpp"
#include <proxsuite-nlp/modelling/constraints.hpp>
using Set = ConstraintSetTpl<double>;
using Poly = xyz::polymorphic<Set>;
using Active = Eigen::Matrix<bool, Eigen::Dynamic, 1>;
static const double INF = std::numeric_limits<double>::infinity();

// A set of dimension n with symbolic data.  Also records, per component, its
// description so that the oracle below can be written independently.
enum Kind { EQ, NEG, BOX, L1 };
struct Desc {
  int kind;
  double lo, hi, mu;
};
struct Made {
  std::unique_ptr<Set> set;
  std::vector<Desc> d;
};
static Made make(int kind, int n, const std::string &nm, bool infs, double mu) {
  Made m;
  m.d.resize(n);
  for (auto &d : m.d) d.kind = kind, d.mu = mu, d.lo = d.hi = 0;
  switch (kind) {
  case EQ: m.set.reset(new EqualityConstraintTpl<double>()); break;
  case NEG: m.set.reset(new NegativeOrthantTpl<double>()); break;
  case BOX: {
    VX lo(n), hi(n);
    for (int i = 0; i < n; i++) {
      int sel = infs ? sx::choice("boxkind", 3) : 0;
      lo[i] = sel == 1 ? -INF : sx::real(nm + "lo" + S(i));
      hi[i] = sel == 2 ? INF : sx::real(nm + "hi" + S(i));
      if (!sel) sx::assume(sx::le(lo[i], hi[i]));
      if (sx_fp_mode()) { sx::assume(sx::le(lo[i], 1e300) && sx::ge(hi[i], -1e300)); }
      m.d[i].lo = lo[i];
      m.d[i].hi = hi[i];
    }
    m.set.reset(new BoxConstraintTpl<double>(lo, hi));
    break;
  }
  case L1: m.set.reset(new NonsmoothPenaltyL1Tpl<double>()); break;
  }
  return m;
}
static Poly to_poly(int kind, Made &m) {
  switch (kind) {
  case EQ: return static_cast<EqualityConstraintTpl<double> &>(*m.set);
  case NEG: return static_cast<NegativeOrthantTpl<double> &>(*m.set);
  case BOX: return static_cast<BoxConstraintTpl<double> &>(*m.set);
  default: return static_cast<NonsmoothPenaltyL1Tpl<double> &>(*m.set);
  }
}
static sx::B in_set(const Desc &d, double p) {
  switch (d.kind) {
  case EQ: return sx::eq(p, 0.);
  case NEG: return sx::le(p, 0.);
  case BOX: return sx::le(d.lo, p) && sx::le(p, d.hi);
  }
  return sx::B::c(true);
}

// C01: projection = nearest point.
SX_HARNESS(projection) {
  int kind = sx::choice("kind", 3), n = sx_int_param("n", 2);
  Made m = make(kind, n, "b", true, 0);
  VX z = sym_vec(n, "z"), p(n), p2(n);
  m.set->projection(z, p);
  m.set->projection(p, p2);
  for (int i = 0; i < n; i++) {
    sx::check("in_set" + S(i), in_set(m.d[i], p[i]));
    // nearest: for every member y of the set, |z-p| <= |z-y| (1-d convex set:
    // y between z and p excluded)
    double y = sx::real("y" + S(i));
    sx::assume(in_set(m.d[i], y));
    if (!sx_fp_mode()) {
      sx::check("nearest" + S(i), sx::le((z[i] - p[i]) * (z[i] - p[i]), (z[i] - y) * (z[i] - y)));
      sx::check("variational" + S(i), sx::le((z[i] - p[i]) * (y - p[i]), 0.));
    } else {
      sx::check("between" + S(i), sx::imp(sx::lt(p[i], z[i]), sx::le(y, p[i])) && sx::imp(sx::lt(z[i], p[i]), sx::le(p[i], y)));
    }
    sx::check("idempotent" + S(i), sx::eq(p2[i], p[i]));
    sx::check("fixed_inside" + S(i), sx::imp(in_set(m.d[i], z[i]), sx::eq(p[i], z[i])));
  }
  if (!sx_fp_mode()) { // non-expansive
    VX w = sym_vec(n, "w"), q(n);
    m.set->projection(w, q);
    for (int i = 0; i < n; i++)
      sx::check("nonexpansive" + S(i), sx::le((p[i] - q[i]) * (p[i] - q[i]), (z[i] - w[i]) * (z[i] - w[i])));
    sx::check("indicator_zero", sx::eq(m.set->evaluate(p), 0.));
  }
  sx::reach("end");
}
// in-place use (input and output alias element-wise) as in the solver
SX_HARNESS(projection_alias) {
  int kind = sx::choice("kind", 4), n = 2;
  Made m = make(kind, n, "b", false, 0);
  double mu = sx::real_ge("mu", 0.0625);
  m.set->setProxParameter(mu);
  VX z = sym_vec(n, "z"), p(n), nc(n), a = z, b = z;
  m.set->projection(z, p);
  m.set->normalConeProjection(z, nc);
  m.set->projection(a, a);
  m.set->normalConeProjection(b, b);
  sx::check_mat_eq("proj_inplace", a, p);
  sx::check_mat_eq("ncone_inplace", b, nc);
}

// C02: Moreau decomposition and normal cone membership.
SX_HARNESS(moreau_decomposition) {
  int kind = sx::choice("kind", 4), n = sx_int_param("n", 2);
  Made m = make(kind, n, "b", true, 0);
  double mu = sx::real_ge("mu", 0.0);
  sx::assume(sx::gt(mu, 0.));
  m.set->setProxParameter(mu);
  VX z = sym_vec(n, "z"), p(n), q(n);
  m.set->projection(z, p);
  m.set->normalConeProjection(z, q);
  sx::check_mat_eq("sum", (p + q).eval(), z);
  for (int i = 0; i < n; i++) {
    if (kind == L1) { // q/mu in the subdifferential of |.| at p
      sx::check("subdiff" + S(i), sx::le(q[i], mu) && sx::le(-mu, q[i]) && sx::imp(sx::gt(p[i], 0.), sx::eq(q[i], mu)) &&
                                      sx::imp(sx::lt(p[i], 0.), sx::eq(q[i], -mu)));
    } else {
      double y = sx::real("y" + S(i));
      sx::assume(in_set(m.d[i], y));
      sx::check("ncone" + S(i), sx::le(q[i] * (y - p[i]), 0.));
      sx::check("complementary" + S(i), kind == BOX ? sx::imp(sx::lt(m.d[i].lo, p[i]) && sx::lt(p[i], m.d[i].hi), sx::eq(q[i], 0.))
                                                    : sx::eq(q[i] * p[i], 0.));
      // the normal component is itself invariant: projecting p + t*q (t>=0) returns p
      double t = sx::real_ge("t" + S(i), 0.);
      VX zz = z, pp(n);
      zz[i] = p[i] + t * q[i];
      m.set->projection(zz, pp);
      sx::check("ray" + S(i), sx::eq(pp[i], p[i]));
    }
  }
  sx::reach("end");
}

// C03: soft thresholding.
SX_HARNESS(l1_prox) {
  int n = sx_int_param("n", 2);
  NonsmoothPenaltyL1Tpl<double> g;
  double mu0 = sx::real("mu0"), mu = sx::real("mu");
  sx::assume(sx::gt(mu0, 0.) && sx::gt(mu, 0.));
  VX z = sym_vec(n, "z"), p(n), u = sym_vec(n, "u");
  if (sx_fp_mode()) { // finite parameter and arguments
    sx::assume(sx::le(mu, 1e300) && sx::le(mu0, 1e300));
    for (int i = 0; i < n; i++) sx::assume(sx::le(z[i], 1e300) && sx::le(-1e300, z[i]));
  }
  // earlier use with another parameter leaves no trace
  g.setProxParameter(mu0);
  if (!sx_fp_mode()) {
    for (int i = 1; i < n; i++) u[i] = 1. + i;
    g.projection(u, p);
  }
  g.setProxParameter(mu);
  sx::check_eq("mu", g.mu(), mu);
  if (!sx_fp_mode()) sx::check_eq("mu_inv", g.mu_inv() * mu, 1.);
  g.projection(z, p);
  double l1 = 0;
  for (int i = 0; i < n; i++) {
    double y = sx::real("y" + S(i));
    // prox optimality as a variational inequality:
    //   mu|y| >= mu|p| + (z-p)(y-p)   for all y
    if (!sx_fp_mode()) {
      double ay = std::fabs(y), ap = std::fabs(p[i]);
      sx::check("prox_opt" + S(i), sx::ge(mu * ay, mu * ap + (z[i] - p[i]) * (y - p[i])));
      sx::check("threshold" + S(i), sx::iff(sx::eq(p[i], 0.), sx::le(z[i], mu) && sx::le(-mu, z[i])));
      l1 += ap;
    } else {
      sx::check("threshold" + S(i), sx::imp(sx::le(z[i], mu) && sx::le(-mu, z[i]), sx::eq(p[i], 0.)));
      sx::check("sign" + S(i), sx::imp(sx::gt(z[i], mu), sx::ge(p[i], 0.) && sx::le(p[i], z[i])) &&
                                   sx::imp(sx::lt(z[i], -mu), sx::le(p[i], 0.) && sx::le(z[i], p[i])));
    }
  }
  if (!sx_fp_mode()) {
    sx::check_eq("value", g.evaluate(p), l1);
    Active act(n);
    g.computeActiveSet(z, act);
    for (int i = 0; i < n; i++) sx::check("active" + S(i), sx::iff(sx::B::c(act[i]), sx::eq(p[i], 0.)));
  }
  sx::reach("end");
}

// C04: generalised Jacobians are the derivative; kinks give an element of the
// B-subdifferential.
static sx::B off_kinks(const Desc &d, double z, double zt) {
  auto same = [&](double k) { return sx::gt((z - k) * (zt - k), 0.); };
  switch (d.kind) {
  case NEG: return same(0.);
  case BOX: return same(d.lo) && same(d.hi);
  case L1: return same(d.mu) && same(-d.mu);
  }
  return sx::B::c(true);
}
SX_HARNESS(jacobian_derivative) {
  int kind = sx::choice("kind", 4), n = sx_int_param("n", 2), nc = 1;
  double mu = sx::real("mu");
  sx::assume(sx::gt(mu, 0.));
  Made m = make(kind, n, "b", false, mu);
  m.set->setProxParameter(mu);
  VX z = sym_vec(n, "z"), dir = sym_vec(n, "d"), zt = z + dir, p(n), pt(n), q(n), qt(n);
  MX J = sym_mat(n, nc, "J"), Jp = J, Jn = J;
  for (int i = 0; i < n; i++) J(i, 0) = dir[i]; // directional derivative
  Jp = J; Jn = J;
  for (int i = 0; i < n; i++) sx::assume(off_kinks(m.d[i], z[i], zt[i]));
  m.set->applyProjectionJacobian(z, Jp);
  m.set->applyNormalConeProjectionJacobian(z, Jn);
  m.set->projection(z, p);
  m.set->projection(zt, pt);
  m.set->normalConeProjection(z, q);
  m.set->normalConeProjection(zt, qt);
  sx::check_mat_eq("dprox", Jp, (pt - p).eval());
  sx::check_mat_eq("dncone", Jn, (qt - q).eval());
  sx::reach("end");
}
SX_HARNESS(jacobian_general) {
  // any z including kinks, general (non square) J
  int kind = sx::choice("kind", 4), n = sx_int_param("n", 2), nc = 3;
  double mu = sx::real("mu");
  sx::assume(sx::gt(mu, 0.));
  Made m = make(kind, n, "b", kind == BOX, mu);
  m.set->setProxParameter(mu);
  VX z = sym_vec(n, "z"), p(n), q(n);
  MX J = sym_mat(n, nc, "J"), Jp = J, Jn = J;
  VX zc = z;
  m.set->applyProjectionJacobian(z, Jp);
  m.set->applyNormalConeProjectionJacobian(z, Jn);
  sx::check_mat_eq("sum", (Jp + Jn).eval(), J);
  Active act(n);
  m.set->computeActiveSet(z, act);
  m.set->projection(z, p);
  m.set->normalConeProjection(z, q);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < nc; j++) {
      sx::check("row" + S(i) + S(j), sx::eq(Jp(i, j), act[i] ? 0. : J(i, j)));
    }
    // active <=> the projection is (locally) constant there: value clamped
    if (kind != L1) sx::check("active_if_moved" + S(i), sx::imp(sx::ne(q[i], 0.), sx::B::c(act[i])));
    if (kind == NEG) sx::check("inactive_interior" + S(i), sx::imp(sx::lt(z[i], 0.), sx::B::c(!act[i])));
    if (kind == BOX) sx::check("inactive_interior" + S(i), sx::imp(sx::lt(m.d[i].lo, z[i]) && sx::lt(z[i], m.d[i].hi), sx::B::c(!act[i])));
    if (kind == EQ) sx::check("eq_active" + S(i), (bool)act[i]);
    if (kind == L1) {
      sx::check("active_if_zeroed" + S(i), sx::imp(sx::lt(z[i], mu) && sx::lt(-mu, z[i]), sx::B::c(act[i])));
      sx::check("inactive_if_shrunk" + S(i), sx::imp(sx::gt(z[i], mu) || sx::lt(z[i], -mu), sx::B::c(!act[i])));
    }
  }
  sx::check_mat_eq("z_untouched", z, zc);
  sx::reach("end");
}

// C05: Moreau envelope.
SX_HARNESS(moreau_envelope) {
  int kind = sx::choice("kind", 4), n = sx_int_param("n", 2);
  double mu = sx::real("mu");
  sx::assume(sx::gt(mu, 0.));
  Made m = make(kind, n, "b", false, mu);
  m.set->setProxParameter(mu);
  VX z = sym_vec(n, "z"), p(n), q(n), zo(n);
  m.set->projection(z, p);
  m.set->normalConeProjection(z, q);
  double e1 = m.set->evaluateMoreauEnvelope(z, q);
  double e2 = m.set->computeMoreauEnvelope(z, zo);
  double ref = 0;
  for (int i = 0; i < n; i++) {
    if (kind == L1) ref += std::fabs(p[i]);
    ref += (z[i] - p[i]) * (z[i] - p[i]) / (2 * mu);
  }
  sx::check_eq("evaluate", e1, ref);
  sx::check_eq("compute", e2, ref);
  sx::check_mat_eq("zout", zo, q);
  // infimum: no y does better
  double other = 0;
  for (int i = 0; i < n; i++) {
    double y = sx::real("y" + S(i));
    if (kind == L1) other += std::fabs(y);
    else sx::assume(in_set(m.d[i], y));
    other += (z[i] - y) * (z[i] - y) / (2 * mu);
  }
  if (n == 1) sx::check_le("infimum", e1, other);
  sx::reach("end");
}

// C06: products act blockwise.
SX_HARNESS(product) {
  // pattern of component kinds, with block sizes
  static const int pat[9][3] = {{BOX, NEG, EQ}, {EQ, BOX, NEG}, {L1, NEG, -1}, {NEG, L1, EQ}, {BOX, L1, -1}, {NEG, NEG, L1}, {L1, L1, -1}, {EQ, L1, -1}, {L1, NEG, L1}};
  static const int siz[9][3] = {{1, 2, 1}, {2, 1, 1}, {1, 2, 0}, {1, 1, 2}, {1, 1, 0}, {1, 1, 1}, {2, 1, 0}, {0, 2, 0}, {1, 0, 1}};
  int c = sx::choice("pattern", 9);
  std::vector<Poly> comps;
  std::vector<Made> made;
  std::vector<Eigen::Index> sizes;
  double mu = sx::real("mu");
  sx::assume(sx::gt(mu, 0.));
  int n = 0;
  for (int k = 0; k < 3 && pat[c][k] >= 0; k++) {
    made.push_back(make(pat[c][k], siz[c][k], "c" + S(k), false, mu));
    comps.push_back(to_poly(pat[c][k], made.back()));
    sizes.push_back(siz[c][k]);
    n += siz[c][k];
  }
  ConstraintSetProductTpl<double> prod(comps, sizes);
  prod.setProxParameter(mu);
  for (auto &m : made) m.set->setProxParameter(mu);
  VX z = sym_vec(n, "z"), p(n), q(n);
  MX J = sym_mat(n, 2, "J"), Jp = J, Jn = J;
  Active act(n);
  const Set &ps = prod;
  ps.projection(z, p);
  ps.normalConeProjection(z, q);
  ps.computeActiveSet(z, act);
  ps.applyProjectionJacobian(z, Jp);
  ps.applyNormalConeProjectionJacobian(z, Jn);
  double val = 0;
  int o = 0;
  sx::check_mat_eq("moreau", (p + q).eval(), z);
  for (size_t k = 0; k < made.size(); k++) {
    int s = sizes[k];
    VX zk = z.segment(o, s), pk(s), qk(s);
    MX Jk = J.middleRows(o, s), Jpk = Jk, Jnk = Jk;
    Active ak(s);
    made[k].set->projection(zk, pk);
    made[k].set->normalConeProjection(zk, qk);
    made[k].set->computeActiveSet(zk, ak);
    made[k].set->applyProjectionJacobian(zk, Jpk);
    made[k].set->applyNormalConeProjectionJacobian(zk, Jnk);
    val += made[k].set->evaluate(pk);
    sx::check_mat_eq("proj" + S(k), p.segment(o, s).eval(), pk);
    sx::check_mat_eq("ncone" + S(k), q.segment(o, s).eval(), qk);
    sx::check_mat_eq("Jproj" + S(k), Jp.middleRows(o, s).eval(), Jpk);
    sx::check_mat_eq("Jncone" + S(k), Jn.middleRows(o, s).eval(), Jnk);
    for (int i = 0; i < s; i++) sx::check("active" + S(k) + S(i), act[o + i] == ak[i]);
    o += s;
  }
  sx::check_eq("value", ps.evaluate(p), val);
  VX zo(n);
  double env = ps.computeMoreauEnvelope(z, zo);
  double ref = val;
  for (int i = 0; i < n; i++) ref += q[i] * q[i] / (2 * mu);
  sx::check_eq("envelope", env, ref);
  sx::reach("end");
}
SX_HARNESS(product_nested) {
  // a product inside a product, and a value copy of it
  double mu = sx::real("mu");
  sx::assume(sx::gt(mu, 0.));
  Made a = make(NEG, 1, "a", false, mu), b = make(L1, 1, "b", false, mu), c = make(BOX, 1, "c", false, mu);
  ConstraintSetProductTpl<double> inner({to_poly(NEG, a), to_poly(L1, b)}, {1, 1});
  ConstraintSetProductTpl<double> outer({Poly(inner), to_poly(BOX, c)}, {2, 1});
  outer.setProxParameter(mu);
  b.set->setProxParameter(mu);
  VX z = sym_vec(3, "z"), p(3), ref(3);
  outer.projection(z, p);
  a.set->projection(z.segment(0, 1), ref.segment(0, 1));
  b.set->projection(z.segment(1, 1), ref.segment(1, 1));
  c.set->projection(z.segment(2, 1), ref.segment(2, 1));
  sx::check_mat_eq("proj", p, ref);
  bool thrown = false;
  try {
    ConstraintSetProductTpl<double> bad({to_poly(NEG, a)}, {1, 1});
  } catch (const std::exception &) { thrown = true; }
  sx::check("size_mismatch_rejected", thrown);
}
