// C41: the wrapper of ProxSuite's dense LDLT and its place in the set of linear
// solvers.  ProxSuite is replaced by a stand-in (stubs/proxsuite).
#define PROXSUITE_NLP_USE_PROXSUITE_LDLT
#include "linalg.hpp"
using PS = ProxSuiteLDLTWrapper<double>;
namespace pd = ::proxsuite::linalg::dense;

// PT(i, k): row perm[i] of the permuted factor
static MX permuted(const Fac &f, const Eigen::VectorXi &p) {
  const int n = (int)p.size();
  MX A(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) A(p[i], p[j]) = f.A(i, j);
  return A;
}
static void plan(const Fac &f, const Eigen::VectorXi &p, const std::string &junk) {
  const int n = (int)p.size();
  pd::stub::plan().perm = p;
  pd::stub::plan().LD = f.L;
  for (int i = 0; i < n; i++) {
    pd::stub::plan().LD(i, i) = f.D[i];
    for (int j = i + 1; j < n; j++) pd::stub::plan().LD(i, j) = sx::real(junk + S(i) + S(j)); // not part of the factors
  }
}
static Eigen::VectorXi choose_perm(int n, const std::string &name) {
  int fct = 1;
  for (int i = 2; i <= n; i++) fct *= i;
  std::vector<int> v(n);
  std::iota(v.begin(), v.end(), 0);
  for (int k = sx::choice(name.c_str(), fct); k > 0; k--) std::next_permutation(v.begin(), v.end());
  return Eigen::Map<Eigen::VectorXi>(v.data(), n);
}
// B = P L D Z, so that the forward substitution goes through Z
static void solve_checks(const PS &s, const Fac &f, const Eigen::VectorXi &p, const MX &A, int cols, const std::string &l) {
  const int n = (int)p.size();
  MX Z = sym_mat(n, cols, "z_" + l), B(n, cols), R(n, cols);
  for (int i = 0; i < n; i++)
    for (int c = 0; c < cols; c++) {
      double v = 0;
      for (int k = 0; k <= i; k++) v += f.L(i, k) * (f.D[k] * Z(k, c));
      B(p[i], c) = v;
    }
  auto ax = [&](const MX &X) {
    for (int i = 0; i < n; i++)
      for (int c = 0; c < X.cols(); c++) {
        double v = 0;
        for (int k = 0; k < n; k++) v += A(i, k) * X(k, c);
        R(i, c) = v;
      }
    return R;
  };
  MX X = s.solve(B);
  sx::check_mat_eq(l + " solve", ax(X), B);
  MX Y = B;
  sx::check(l + " solveInPlace returns true", s.solveInPlace(Y));
  sx::check_mat_eq(l + " solveInPlace", Y, X);
  VX b = B.col(0), y = b;
  sx::check_mat_eq(l + " solve(vector)", s.solve(b), X.col(0).eval());
  s.solveInPlace(y);
  sx::check_mat_eq(l + " solveInPlace(vector)", y, X.col(0).eval());
}
SX_HARNESS(wrapper) {
  const int n = 1 + sx::choice("n-1", sx_int_param("n", 3));
  Fac f = fac(n, "");
  Eigen::VectorXi p = choose_perm(n, "perm");
  MX A = permuted(f, p);
  plan(f, p, "junk");
  const int cols = 1 + sx::choice("cols-1", n + 1);
  PS s(n, cols);
  PS &r = s.compute(A);
  sx::check("compute returns the solver", &r == &s);
  sx::check("space is reserved for the size of the matrix", s.m_ldlt.reserved >= n);
  sx::check_mat_eq("the matrix is passed on", s.m_ldlt.given, A);
  sx::check("info() reports success", s.info() == Eigen::Success);
  VX D = s.vectorD();
  sx::check_mat_eq("vectorD", D, f.D);
  sx::check_mat_eq("reconstructedMatrix", s.reconstructedMatrix(), A);
  solve_checks(s, f, p, A, cols, "wrapper");
  // a second matrix: nothing is left of the first one
  if (sx_int_param("second", 0)) {
    Fac g = fac(n, "g");
    MX G = permuted(g, p.reverse().eval());
    plan(g, p.reverse().eval(), "gjunk");
    s.compute(G);
    PS copy(s);
    solve_checks(copy, g, p.reverse().eval(), G, 1, "copy");
    sx::check_mat_eq("second reconstructedMatrix", s.reconstructedMatrix(), G);
  }
  sx::reach("end");
}
// zero pivots: the corresponding component is dropped (pseudo-inverse of D)
SX_HARNESS(zero_pivot) {
  const int n = 2;
  Fac f = fac(n, "");
  const int z = sx::choice("zero", 3);
  if (z != 1) f.D[0] = 0.;
  if (z != 0) f.D[1] = 0.;
  Eigen::VectorXi p = choose_perm(n, "perm");
  plan(f, p, "junk");
  MX any = MX::Zero(n, n);
  PS s(n, 1);
  s.compute(any);
  VX b = sym_vec(n, "b"), x = s.solve(b);
  double w0 = b[p[0]], w1 = b[p[1]] - f.L(1, 0) * b[p[0]];
  double y0 = f.D[0], y1 = f.D[1];
  // D y = w where D is nonzero, 0 elsewhere; then L^T u = y
  double u1 = x[p[1]], v0 = x[p[0]] + f.L(1, 0) * x[p[1]];
  if (z == 1) sx::check_eq("nonzero pivot", y0 * v0, w0); else sx::check_eq("zero pivot", v0, 0.);
  if (z == 0) sx::check_eq("nonzero pivot", y1 * u1, w1); else sx::check_eq("zero pivot", u1, 0.);
  sx::reach("end");
}
// the wrapper among the other solvers: selected by the choice, factorises,
// solves and reports its signature through the visitors
SX_HARNESS(variant) {
  using namespace proxsuite::nlp;
  const int n = 3;
  Fac f = fac(n, "");
  Eigen::VectorXi p = choose_perm(n, "perm");
  MX A = permuted(f, p);
  plan(f, p, "junk");
  std::vector<isize> np{2}, nd{1};
  LDLTVariant<double> v = allocate_ldlt_from_sizes<double>(np, nd, LDLTChoice::PROXSUITE);
  sx::check("the choice selects the wrapper", boost::get<PS>(&v) != nullptr);
  boost::apply_visitor([&](auto &&fac_) { fac_.compute(A); }, v);
  Eigen::VectorXi sig;
  boost::apply_visitor(ComputeSignatureVisitor{sig}, v);
  for (int i = 0; i < n; i++) {
    sx::check("signature is 1 or -1", sig[i] == 1 || sig[i] == -1);
    sx::check("signature", sig[i] == 1 ? sx::gt(f.D[i], 0.) : sx::lt(f.D[i], 0.));
  }
  MX B = sym_mat(n, 2, "b"), X;
  boost::apply_visitor([&](auto &&fac_) { X = fac_.solve(B); }, v);
  MX Y = boost::get<PS>(v).solve(B);
  sx::check_mat_eq("solve through the variant", X, Y);
  sx::reach("end");
}
