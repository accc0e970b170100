// Armijo line search, polynomials, BFGS, math helpers, BCL defaults.
#include "common.hpp"
#include <proxsuite-nlp/linesearch-armijo.hpp>
#include <proxsuite-nlp/bfgs-strategy.hpp>
#include <proxsuite-nlp/math.hpp>

namespace {
using LS = ArmijoLinesearch<double>;
using Opt = Linesearch<double>::Options;
struct Trial { double alpha, phi; bool threw; };

Opt options(int steps) {
  Opt o;
  const LSInterpolation k[] = {LSInterpolation::BISECTION, LSInterpolation::QUADRATIC, LSInterpolation::CUBIC};
  const int kind = sx_int_param("kind", 3);
  o.interp_type = k[kind < 3 ? kind : sx::choice("interpolation", 3)];
  o.max_num_steps = (std::size_t)steps;
  o.armijo_c1 = 0.125; // not the default, and exact in binary: boundary cases replay
  return o;
}
} // namespace

// the contract of run(): what it returns was evaluated at the step it returns,
// and satisfies the Armijo condition unless the step or the budget is exhausted
SX_HARNESS(ls_contract) {
  Opt o = options(sx_int_param("steps", 2));
  if (sx::choice("alpha_min", 2)) o.alpha_min = 0.375; // reachable lower bound
  const int faults = sx_int_param("faults", 1);
  double phi0 = 0., dphi0 = -1.;
  if (!sx_int_param("norm", 0)) {
    phi0 = sx::real("phi0");
    dphi0 = sx::real("dphi0");
    sx::assume(sx::lt(dphi0, 0.));
  } else {
    const double f0[] = {0., -5., 3.}, d0[] = {-1., -1., -2.};
    const int c = sx::choice("phi0", 3);
    phi0 = f0[c];
    dphi0 = d0[c];
    const double lo[] = {o.contraction_min, 0.5, 0.125}, hi[] = {o.contraction_max, 0.55, 0.9};
    const int b = sx::choice("bounds", 3);
    o.contraction_min = lo[b];
    o.contraction_max = hi[b];
  }
  std::vector<Trial> t;
  int nval = 0;
  auto phi = [&](double a) -> double {
    bool f = (int)t.size() < sx_int_param("nf", 3) && faults && sx::choice(("throws" + S((int)t.size())).c_str(), 2);
    t.push_back({a, 0., f});
    if (f) throw std::runtime_error("no value here");
    if (nval++ == 0 && sx_int_param("norm", 0)) {
      const double v[] = {-2., 0.25, 1., 7.};
      return t.back().phi = phi0 + v[sx::choice("phi1", 4)];
    }
    return t.back().phi = sx::real("phi" + S((int)t.size()));
  };
  LS ls(o);
  double alpha = -7.;
  double r;
  try {
    r = ls.run(phi, phi0, dphi0, alpha);
  } catch (const std::runtime_error &) {
    // allowed only when no step could be evaluated at all
    for (auto &x : t) sx::check("an error reaches the caller only if no trial step has a value", x.threw);
    sx::check_eq("the smallest step was tried before giving up", t.back().alpha, o.alpha_min);
    sx::reach("error");
    return;
  }
  sx::B found = sx::B::c(false), armijo = sx::le(r - phi0, o.armijo_c1 * alpha * dphi0);
  for (auto &x : t)
    if (!x.threw) found = found || (sx::eq(x.alpha, alpha) && sx::eq(x.phi, r));
  sx::check("the value returned is phi at the step returned", found);
  sx::check("the step is within [alpha_min, 1]", sx::ge(alpha, o.alpha_min) && sx::le(alpha, 1.));
  // number of reductions after the first evaluation that did not throw
  int first = 0;
  while (first < (int)t.size() && t[first].threw) first++;
  int reductions = (int)t.size() - 1 - first;
  sx::check("at most max_num_steps reductions", reductions <= (int)o.max_num_steps);
  sx::check("the Armijo condition holds unless the step or the budget is exhausted",
            armijo || sx::le(alpha, o.alpha_min) || sx::B::c(reductions == (int)o.max_num_steps) ||
                sx::lt(-dphi0, o.dphi_thresh));
  for (size_t i = 1; i < t.size(); i++) {
    sx::check("trial steps decrease unless at alpha_min", sx::lt(t[i].alpha, t[i - 1].alpha) || sx::le(t[i].alpha, o.alpha_min));
    sx::check("trial steps stay above alpha_min", sx::ge(t[i].alpha, o.alpha_min));
    if (i > (size_t)first)
      sx::check("each reduction is within the contraction bounds",
                sx::le(t[i].alpha, o.contraction_max * t[i - 1].alpha) &&
                        (sx::ge(t[i].alpha, o.contraction_min * t[i - 1].alpha)) ||
                    sx::le(t[i].alpha, o.alpha_min));
  }
  for (size_t i = 0; i + 1 < t.size(); i++)
    if (!t[i].threw)
      sx::check("a trial step that strictly satisfies the condition ends the search",
                sx::ge(t[i].phi - phi0, o.armijo_c1 * t[i].alpha * dphi0));
  sx::reach("end");
}

// non-finite merit values: the search goes on with smaller steps
SX_HARNESS(ls_nonfinite) {
  Opt o = options(3);
  double phi0 = sx::real("phi0"), dphi0 = sx::real("dphi0");
  sx::assume(sx::lt(dphi0, -0.0625));
  const double bad[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()};
  const double b = bad[sx::choice("bad", 2)];
  const int nbad = 1 + sx::choice("nbad", 2);
  std::vector<double> al;
  auto phi = [&](double a) -> double {
    al.push_back(a);
    if ((int)al.size() <= nbad) return b;
    return phi0 + o.armijo_c1 * a * dphi0 - 1.; // a good step
  };
  LS ls(o);
  double alpha = -7.;
  double r = ls.run(phi, phi0, dphi0, alpha);
  sx::check("one evaluation after the last bad step", (int)al.size() == nbad + 1);
  sx::check_eq("the first usable step is returned", alpha, al.back());
  sx::check_eq("with its value", r, phi0 + o.armijo_c1 * alpha * dphi0 - 1.);
  for (size_t i = 1; i < al.size(); i++)
    sx::check("reductions are within the contraction bounds", sx::le(al[i], o.contraction_max * al[i - 1]) && sx::ge(al[i], o.contraction_min * al[i - 1]));
  sx::reach("end");
}

// the trial steps minimise the interpolant over the allowed interval
SX_HARNESS(ls_interpolation) {
  const bool cubic = sx_int_param("cubic", 0);
  Opt o;
  o.interp_type = cubic ? LSInterpolation::CUBIC : LSInterpolation::QUADRATIC;
  o.max_num_steps = cubic ? 2 : 1;
  o.contraction_min = 0.25;
  o.contraction_max = 0.75;
  // phi(0) = phi0, phi'(0) = dphi0; the values at 1 and at the first reduced step
  double phi0 = 0., dphi0 = -1.;
  if (cubic) {
    const double f0[] = {0., -5., 3.}, d0[] = {-1., -1., -2.};
    const int c = sx::choice("phi0", 3);
    phi0 = f0[c];
    dphi0 = d0[c];
  }
  if (!cubic) { phi0 = sx::real("phi0"); dphi0 = sx::real("dphi0"); sx::assume(sx::le(dphi0, -0.0625)); }
  std::vector<double> al, ph;
  auto phi = [&](double a) -> double {
    al.push_back(a);
    double v;
    if (al.size() == 1 && cubic) {
      const double c[] = {0.25, 0.5, 2.0, 7.5};
      v = phi0 + c[sx::choice("phi1", 4)];
    } else if (al.size() == 1) {
      v = phi0 + sx::real("phi1", 0., 100.);
    } else if (al.size() == 2 && cubic) {
      v = phi0 + sx::real("phi2", -1., 100.);
      sx::assume(sx::gt(v - phi0, o.armijo_c1 * a * dphi0 + 1e-9)); // not accepted
    } else {
      v = phi0 + dphi0; // accepted
    }
    ph.push_back(v);
    return v;
  };
  sx_tol(1e-6);
  LS ls(o);
  double alpha = -7.;
  ls.run(phi, phi0, dphi0, alpha);
  sx::check("number of trials", (int)al.size() == (cubic ? 3 : 2));
  if ((int)al.size() != (cubic ? 3 : 2)) return;
  const double a = al.back(), prev = al[al.size() - 2];
  const double lo = o.contraction_min * prev, hi = o.contraction_max * prev;
  if (!cubic) {
    const double c2 = ph[0] - phi0 - dphi0; // a0 = 1
    auto q = [&](double x) { return (c2 * x + dphi0) * x + phi0; };
    sx::check_le("quadratic: not above the left end", q(a), q(lo));
    sx::check_le("quadratic: not above the right end", q(a), q(hi));
    sx::check("quadratic: a stationary point or an end", sx::eq(2. * c2 * a + dphi0, 0.) || sx::eq(a, lo) || sx::eq(a, hi));
  } else {
    // exact interpolant through (a0, p0), (1, p1)
    const double a0 = al[1], p0 = ph[1] - phi0 - dphi0 * a0, p1 = ph[0] - phi0 - dphi0; // minus phi0 + dphi0 a
    // c3 a0^3 + c2 a0^2 = p0 ; c3 + c2 = p1
    const double c3 = (p0 - p1 * (a0 * a0)) / (a0 * a0 * (a0 - 1.)), c2 = p1 - c3;
    auto q = [&](double x) { return ((c3 * x + c2) * x + dphi0) * x; };
    const double tol = 1e-6, disc = c2 * c2 - 3. * c3 * dphi0;
    sx::check("cubic: within the interval", sx::ge(a, lo - tol) && sx::le(a, hi + tol));
    // where the interpolant has a local minimum (disc >= 0, c3 <> 0), the trial
    // step is that point, or the better end of the interval if it lies outside
    if (disc >= 0. && (c3 >= 1e-3 || c3 <= -1e-3)) {
      sx::reach("local minimum");
      if (a > lo + tol && a < hi - tol) {
        sx::check("cubic: stationary", sx::le((3. * c3 * a + 2. * c2) * a + dphi0, tol) && sx::ge((3. * c3 * a + 2. * c2) * a + dphi0, -tol));
        sx::check("cubic: a minimum", sx::ge(3. * c3 * a + c2, -tol));
        sx::reach("interior");
      } else {
        sx::check("cubic: not above the left end", sx::le(q(a), q(lo) + tol));
        sx::check("cubic: not above the right end", sx::le(q(a), q(hi) + tol));
      }
    }
  }
  sx::reach("end");
}

// PolynomialTpl: Horner evaluation and derivative
SX_HARNESS(polynomial) {
  const int deg = sx::choice("degree", 5);
  VX c = sym_vec(deg + 1, "c");
  PolynomialTpl<double> p(c);
  sx::check("degree", p.degree() == deg);
  double x = sx::real("x"), v = 0., dv = 0.;
  for (int i = 0; i <= deg; i++) {
    double m = 1., dm = deg - i;
    for (int k = 0; k < deg - i; k++) m *= x;
    for (int k = 0; k < deg - i - 1; k++) dm *= x;
    v += c[i] * m;
    if (i < deg) dv += c[i] * dm;
  }
  sx::check_eq("evaluate", p.evaluate(x), v);
  auto d = p.derivative();
  sx::check("degree of the derivative", d.degree() == std::max(deg - 1, 0));
  sx::check_eq("derivative", d.evaluate(x), dv);
  sx::reach("end");
}

namespace {
template <BFGSType T> void bfgs(int n, int k) {
  BFGSStrategy<double, T> b(n);
  sx::check("valid", b.isValid());
  VX xp = sym_vec(n, "x_0"), gp = sym_vec(n, "g_0");
  MX H(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) H(i, j) = H(j, i) = sx::real("h" + S(i) + S(j));
  const MX H0 = H;
  const bool pre = sx::choice("init", 2);
  if (pre) b.init(xp, gp); else b.update(xp, gp, H);
  sx::check_mat_eq("the first point leaves the matrix unchanged", H, H0);
  for (int step = 1; step <= k; step++) {
    const MX Hold = H;
    VX x = sym_vec(n, "x_" + S(step)), g = sym_vec(n, "g_" + S(step));
    VX s(n), y(n);
    double sy = 0;
    for (int i = 0; i < n; i++) { s[i] = x[i] - xp[i]; y[i] = g[i] - gp[i]; }
    for (int i = 0; i < n; i++) sy += s[i] * y[i];
    const bool pos = sx::choice(("curvature" + S(step)).c_str(), 2);
    if (pos) sx::assume(sx::gt(sy, 0.)); else sx::assume(sx::le(sy, 0.));
    b.update(x, g, H);
    const std::string l = "step " + S(step) + ": ";
    sx::check(l + "is_psd tells whether the update was made", b.is_psd == pos);
    if (!pos) {
      sx::check_mat_eq(l + "no update without positive curvature", H, Hold);
      sx::reach("skipped");
    } else {
      const bool inv = T == BFGSType::InverseHessian;
      const VX &a = inv ? y : s, &c = inv ? s : y; // secant: H a = c
      for (int i = 0; i < n; i++) {
        double v = 0;
        for (int j = 0; j < n; j++) v += H(i, j) * a[j];
        sx::check_eq(l + "secant equation " + S(i), v, c[i]);
      }
      for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx::check_eq(l + "symmetric", H(i, j), H(j, i));
      // v^T H+ v = w^T H w + (c.v)^2 / sy with w = v - a (c.v)/sy: positive definiteness is kept
      VX v = sym_vec(n, "v_" + S(step)), w(n);
      double cv = 0, q = 0, q0 = 0;
      for (int i = 0; i < n; i++) cv += c[i] * v[i];
      for (int i = 0; i < n; i++) w[i] = v[i] - a[i] * cv / sy;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { q += v[i] * H(i, j) * v[j]; q0 += w[i] * Hold(i, j) * w[j]; }
      sx::check_eq(l + "the quadratic form is the old one at the projected vector plus a square", q, q0 + cv * cv / sy);
      sx::reach("updated");
    }
    xp = x; gp = g;
  }
}
} // namespace
SX_HARNESS(bfgs_update) {
  const int n = sx_int_param("n", 2), k = sx_int_param("k", 2);
  if (sx::choice("type", 2)) bfgs<BFGSType::Hessian>(n, k); else bfgs<BFGSType::InverseHessian>(n, k);
  BFGSStrategy<double> bad;
  bool thrown = false;
  VX x = VX::Ones(n);
  MX H = MX::Identity(n, n);
  try { bad.update(x, x, H); } catch (const std::runtime_error &) { thrown = true; }
  sx::check("a default-constructed strategy is rejected", thrown && !bad.isValid());
}

// math helpers
SX_HARNESS(math_norm) {
  const int n = sx::choice("n", 4);
  VX v = sym_vec(n, "v");
  double r = math::infty_norm(v);
  sx::B hit = sx::B::c(n == 0) && sx::eq(r, 0.);
  for (int i = 0; i < n; i++) {
    sx::check("infty_norm bounds every entry", sx::le(v[i], r) && sx::le(-v[i], r));
    hit = hit || sx::eq(v[i], r) || sx::eq(-v[i], r);
  }
  sx::check("infty_norm is attained", hit);
  MX m(0, 2);
  sx::check_eq("infty_norm of an empty matrix", math::infty_norm(m), 0.);
  if (n == 2) {
    MX mm(1, 2);
    mm << v[0], v[1];
    sx::check_eq("infty_norm of a matrix is that of its entries", math::infty_norm(mm), r);
    std::vector<VX> vs{v.head(1), VX(0), v.tail(1)};
    sx::check_eq("infty_norm of a list", math::infty_norm(vs), r);
  }
  std::vector<VX> none;
  sx::check_eq("infty_norm of an empty list", math::infty_norm(none), 0.);
  sx::reach("end");
}
SX_HARNESS(math_scalar) {
  double a = sx::real("a"), b = sx::real("b"), p = sx::real("prec", 0., 1.);
  double s = math::sign(a);
  sx::check("sign", (sx::gt(a, 0.) && sx::eq(s, 1.)) || (sx::lt(a, 0.) && sx::eq(s, -1.)) || (sx::eq(a, 0.) && sx::eq(s, 0.)));
  const bool close = math::scalar_close(a, b, p);
  const double aa = a < 0 ? -a : a, ab = b < 0 ? -b : b, ad = a - b < 0 ? b - a : a - b;
  sx::B ref = sx::lt(ad, p * (1. + aa)) || sx::lt(ad, p * (1. + ab));
  sx::check("scalar_close", sx::iff(sx::B::c(close), ref));
  sx::check("scalar_close is symmetric", math::scalar_close(b, a, p) == close);
  sx::check("a number is close to itself", math::scalar_close(a, a));
  sx::check("integer sign", math::sign(-3) == -1 && math::sign(0) == 0 && math::sign(7) == 1);
  sx::reach("end");
}

// non-finite detection over every double
SX_HARNESS(nonfinite) {
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  const double sp[] = {0., inf, -inf, nan};
  const int n = 1 + sx::choice("n", 3), cols = 1 + sx::choice("cols", 2);
  MX m = sym_mat(n, cols, "m");
  const int k = sx::choice("special", 4);
  if (k) m(sx::choice("i", 3) % n, sx::choice("j", 2) % cols) = sp[k];
  sx::check("check_value of a matrix", math::check_value(m) == (k > 0));
  sx::check("check_value of a vector", math::check_value(Eigen::Map<VX>(m.data(), m.size())) == (k > 0));
  sx::check("check_value / check_scalar", math::check_value(sp[k]) == (k > 0) && math::check_scalar(sp[k]) == (k > 0));
  double x = sx::real("x");
  sx::check("a finite scalar is not reported", !math::check_value(x));
  sx::reach("end");
}
