// Dense and Bunch-Kaufman factorisations.
#include "linalg.hpp"

// --- dense LDLT ---------------------------------------------------------
SX_HARNESS(dense_ldlt) {
  const int n = 1 + sx::choice("n-1", sx_int_param("n", 4));
  Fac f = fac(n, "");
  const int how = sx::choice("built", 3);
  MX J = junk_upper(f.A, "junk");
  DenseLDLT<double> s;
  if (how == 1) s = DenseLDLT<double>(n);
  if (how == 2) s = DenseLDLT<double>(Eigen::Ref<MX>(J));
  else s.compute(J);
  sx::check("info() reports success", s.info() == Eigen::Success);
  for (int i = 0; i < n; i++) {
    sx::check_eq("vectorD is D", s.vectorD()[i], f.D[i]);
    sx::check_eq("matrixLDLT diagonal is D", s.matrixLDLT()(i, i), f.D[i]);
    for (int k = 0; k < i; k++) sx::check_eq("matrixLDLT strict lower part is L", s.matrixLDLT()(i, k), f.L(i, k));
  }
  sx::check_mat_eq("reconstructedMatrix", s.reconstructedMatrix(), f.A);
  if (sx_int_param("solve", 0)) check_solve("dense", s, f, 1 + sx::choice("cols-1", 2));
  sx::reach("end");
}

// n > 128 takes the recursive, blocked code path
SX_HARNESS(dense_ldlt_blocked) {
  const int n = sx_int_param("n", 131), bs = (n + 1) / 2;
  // identity except for a few rows around the splitting point
  std::vector<int> idx{0, bs - 1, bs, n - 1};
  Fac f = fac(4, "");
  for (int a = 0; a < 4; a++) sx::assume(a % 2 ? sx::gt(f.D[a], 0.) : sx::lt(f.D[a], 0.));
  MX A = MX::Identity(n, n), L = MX::Identity(n, n);
  VX D = VX::Ones(n);
  for (int i = 0; i < n; i++) { D[i] = (i % 3 == 0) ? -2. : 1.; A(i, i) = D[i]; }
  for (int a = 0; a < 4; a++) {
    D[idx[a]] = f.D[a];
    for (int b = 0; b < 4; b++) { A(idx[a], idx[b]) = f.A(a, b); L(idx[a], idx[b]) = f.L(a, b); }
  }
  DenseLDLT<double> s(n);
  s.compute(A);
  sx::check("info() reports success", s.info() == Eigen::Success);
  for (int i = 0; i < n; i++) sx::check_eq("vectorD[" + S(i) + "]", s.vectorD()[i], D[i]);
  for (int b : {0, bs - 1, bs, n - 2})
    for (int i = b + 1; i < n; i++) sx::check_eq("L", s.matrixLDLT()(i, b), L(i, b));
  VX Z(n), LD = VX::Zero(n), B = VX::Zero(n);
  for (int i = 0; i < n; i++) Z[i] = 1 + i % 5;
  for (int a : idx) { Z[a] = sx::real("z" + S(a)); sx::assume(sx::gt(Z[a], 0.)); }
  for (int i = 0; i < n; i++) LD[i] = D[i] * Z[i];
  for (int i = 0; i < n; i++) {
    double v = 0;
    for (int k = 0; k <= i; k++) if (sx_is_sym(L(i, k)) || L(i, k) != 0.) v += L(i, k) * LD[k];
    B[i] = v;
  }
  VX r = s.solve(B);
  for (int i = 0; i < n; i++) {
    double v = 0;
    for (int k = i; k < n; k++) if (sx_is_sym(L(k, i)) || L(k, i) != 0.) v += L(k, i) * r[k];
    sx::check_eq("solve[" + S(i) + "]", v, Z[i]);
  }
  sx::reach("end");
}

// the object is reused, copied and assigned
SX_HARNESS(dense_history) {
  const int n = 1 + sx::choice("n-1", 3), m = 1 + sx::choice("m-1", 3);
  Fac g = fac(m, "first"), f = fac(n, "");
  DenseLDLT<double> s(m);
  s.compute(g.A);
  check_sign("first", s, g.D);
  const int how = sx::choice("then", 3);
  if (how == 0) { s.compute(f.A); }
  if (how == 1) { DenseLDLT<double> c(s); c.compute(f.A); check_sign("first, after using a copy", s, g.D);
    sx::check_mat_eq("a copy is independent", s.reconstructedMatrix(), g.A); s = c; }
  if (how == 2) { DenseLDLT<double> c; c.compute(f.A); std::swap(s, c); check_sign("swapped out", c, g.D); }
  sx::check_mat_eq("reconstructedMatrix", s.reconstructedMatrix(), f.A);
  check_sign("current", s, f.D);
  if (sx_int_param("solve", 0)) check_solve("dense", s, f, 1);
  sx::reach("end");
}

// --- Bunch-Kaufman ------------------------------------------------------
namespace {
MX sym_symmetric(int n, const std::string &p) {
  MX A(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = sx::real(p + S(i) + S(j));
  return A;
}
double det(const MX &A) {
  int n = (int)A.rows();
  if (n == 1) return A(0, 0);
  if (n == 2) return A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
  double s = 0;
  for (int c = 0; c < n; c++) {
    MX M(n - 1, n - 1);
    for (int i = 1; i < n; i++)
      for (int j = 0, q = 0; j < n; j++)
        if (j != c) M(i - 1, q++) = A(i, j);
    s += (c % 2 ? -1. : 1.) * A(0, c) * det(M);
  }
  return s;
}
} // namespace
SX_HARNESS(bunch_kaufman) {
  const int n = sx_int_param("n", 0) ? sx_int_param("n", 0) : 1 + sx::choice("n-1", 2);
  MX A = sym_symmetric(n, "a");
  if (n == 3 && sx_int_param("pattern", 1)) switch (sx::choice("pattern", 4)) {
    case 0: A(2, 0) = A(0, 2) = 0.; A(0, 0) = 0.; break;
    case 1: A(1, 0) = A(0, 1) = 0.; break;
    case 2: A(2, 1) = A(1, 2) = 0.; A(1, 1) = 1.; break;
    case 3: A(0, 0) = 0.; A(2, 2) = 1.; break;
    }
  MX J = junk_upper(A, "junk");
  const int how = n == 3 ? 0 : sx::choice("built", 2);
  BunchKaufman<MX> s;
  if (how == 0) s.compute(J);
  else s = BunchKaufman<MX>(J);
  if (s.info() == Eigen::Success) {
    const int c = sx_int_param("cols", 1);
    MX X = sym_mat(n, c, "x"), B(n, c);
    for (int i = 0; i < n; i++)
      for (int q = 0; q < c; q++) {
        double v = 0;
        for (int k = 0; k < n; k++) v += A(i, k) * X(k, q);
        B(i, q) = v;
      }
    MX r = s.solve(B);
    sx::check_mat_eq("bk.solve", r, X);
    MX b2 = B;
    s.solveInPlace(b2);
    sx::check_mat_eq("bk.solveInPlace", b2, X);
    sx::reach("success");
  } else {
    sx::check("failure is reported as a numerical issue", s.info() == Eigen::NumericalIssue);
    sx::check_eq("failure is reported only for singular matrices", det(A), 0.);
    sx::reach("failure");
  }
}
// n > 32: the blocked algorithm; a pair of rows with symbolic entries, coupled
// to the rest of a concrete matrix, is placed inside, across and after the
// first block of 32 columns
SX_HARNESS(bk_blocked) {
  const int n = sx_int_param("n", 36);
  const int pairs[][2] = {{3, 17}, {0, 34}, {30, 33}, {29, 30}, {31, 32}, {33, 35}, {30, 31}, {2, 30}};
  const int k = sx::choice("pair", 8), I = pairs[k][0], J = pairs[k][1];
  MX A = MX::Zero(n, n);
  for (int i = 0; i < n; i++) A(i, i) = (i % 2) ? -4. : 4.;
  auto set = [&](int i, int j, double v) { A(i, j) = A(j, i) = v; };
  set(1, 4, 1.); set(5, 20, -1.); set(25, 28, .5); set(28, 34, 1.);
  // two concrete 2x2 pivots, one of them needing an interchange
  A(6, 6) = A(9, 9) = 0.; set(6, 9, 2.);
  A(22, 22) = A(23, 23) = 0.; set(22, 23, -1.);
  // couplings of the symbolic rows with others
  if (I > 11) { set(I, 10, .25); set(J, 11, .5); set(J, 10, 1.); if (I > 24) set(J, 24, -.25); }
  else if (I > 2) { set(I, 2, .25); set(J, 2, .5); set(J, 1, 1.); }
  else set(J, 20, .5);
  const int sy = sx::choice("symbolic entry", 3);
  set(I, J, sy == 0 ? sx::real("q") : 1.);
  A(I, I) = sy == 1 ? sx::real("p") : .5;
  A(J, J) = sy == 2 ? sx::real("r") : .25;
  BunchKaufman<MX> s(A);
  if (s.info() != Eigen::Success) { sx::reach("failure"); return; }
  VX B(n);
  for (int i = 0; i < n; i++) B[i] = 1 + (i * 7) % 5;
  VX x = s.solve(B);
  for (int i = 0; i < n; i++) {
    double v = 0;
    for (int c = 0; c < n; c++) if (sx_is_sym(A(i, c)) || A(i, c) != 0.) v += A(i, c) * x[c];
    sx::check_eq("A*solve(b)=b[" + S(i) + "]", v, B[i]);
  }
  sx::reach("end");
}
// a dominant entry far below the diagonal forces an interchange, at the first or
// second column, with 1x1 or 2x2 pivots; every other entry is nonzero and one
// of them, in turn, is symbolic
SX_HARNESS(bk_interchange) {
  const int n = sx_int_param("n", 5);
  const int two = sx::choice("2x2 pivot", 2), st = sx::choice("column", 2);
  const int r = st + 1 + sx::choice("row", n - st - 1);
  MX A(n, n);
  auto set = [&](int i, int j, double v) { A(i, j) = A(j, i) = v; };
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++) set(i, j, ((i * 5 + j * 3) % 7 - 3.5) / 4.);
  if (st) set(0, 0, 16.);
  set(st, st, .125);
  set(r, st, 32.);
  set(r, r, two ? .25 : 64.);
  // symbolic: the right-hand side, or an entry of the matrix
  const int which = sx::choice("symbolic", sx_int_param("entries", 1) ? 3 : 1);
  if (which == 1) set(n - 1, n - 1, sx::real("q", -1., 1.));
  if (which == 2) set(n - 1, st, sx::real("q", -1., 1.));
  BunchKaufman<MX> s(A);
  if (!which) sx::check("a regular matrix is factorised", s.info() == Eigen::Success);
  if (s.info() != Eigen::Success) return; // singular for some values of q
  VX B(n);
  for (int i = 0; i < n; i++) B[i] = which ? 1 + (i * 7) % 5 : sx::real("b" + S(i));
  VX x = s.solve(B);
  for (int i = 0; i < n; i++) {
    double v = 0;
    for (int c = 0; c < n; c++) v += A(i, c) * x[c];
    sx::check_eq("A*solve(b)=b[" + S(i) + "]", v, B[i]);
  }
  sx::reach("end");
}
// n > 32: dense matrices that keep interchanging rows, with pivots of both sizes
// (exact rational arithmetic), for a line of right-hand sides
SX_HARNESS(bk_blocked_dense) {
  const int n = sx_int_param("n", 35), seed = sx::choice("matrix", sx_int_param("matrices", 3));
  MX A(n, n);
  unsigned w = 12345u + 977u * seed;
  auto rnd = [&](int m) { w = w * 1664525u + 1013904223u; return (int)((w >> 16) % m); };
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = i == j ? (rnd(3) ? rnd(5) - 2. : 0.) : rnd(9) - 4.;
  BunchKaufman<MX> s(A);
  sx::check("info() reports success", s.info() == Eigen::Success);
  const double t = sx::real("t");
  VX B(n);
  for (int i = 0; i < n; i++) B[i] = 1 + (i * 7) % 5 + t * (i % 3 - 1.);
  VX x = s.solve(B);
  for (int i = 0; i < n; i++) {
    double v = 0;
    for (int c = 0; c < n; c++) v += A(i, c) * x[c];
    sx::check_eq("A*solve(b)=b[" + S(i) + "]", v, B[i]);
  }
  sx::reach("end");
}
// the object is reused for another matrix (other size), copied and assigned
SX_HARNESS(bk_history) {
  const int m = 1 + sx::choice("m-1", 2);
  // the first matrix decides what is left behind: regular (1x1 or 2x2 pivots) or singular
  MX F = MX::Zero(m, m);
  if (m == 1) F(0, 0) = sx::choice("first", 2) ? sx::real("f") : 0.;
  else switch (sx::choice("first", 4)) {
    case 0: F << 1., 2., 2., sx::real("f"); break;
    case 1: F << 0., 1., 1., 0.; break;
    case 2: F << 1., 1., 1., 1.; break;
    case 3: F << 0., 0., 0., sx::real("f"); break;
    }
  MX A = sym_symmetric(2, "a");
  BunchKaufman<MX> s(3);
  s.compute(F);
  const bool ok1 = s.info() == Eigen::Success;
  const int how = sx::choice("then", 3);
  if (how == 0) s.compute(A);
  if (how == 1) { BunchKaufman<MX> c(s); c.compute(A); s = c; }
  if (how == 2) { BunchKaufman<MX> c; c.compute(A); s = std::move(c); }
  BunchKaufman<MX> fresh(A);
  sx::check("same outcome as a fresh object", s.info() == fresh.info());
  sx::reach(ok1 ? "after success" : "after failure");
  if (s.info() != Eigen::Success) return;
  sx::check_mat_eq("same factors as a fresh object", s.matrixLDLT(), fresh.matrixLDLT());
  for (int i = 0; i < 2; i++) {
    sx::check("same pivots", s.pivots()[i] == fresh.pivots()[i]);
    sx::check_eq("same subdiagonal", s.subdiag()[i], fresh.subdiag()[i]);
  }
  VX B = sym_vec(2, "b");
  sx::check_mat_eq("same solution", VX(s.solve(B)), VX(fresh.solve(B)));
}
// signature and inertia
SX_HARNESS(bk_signature) {
  const int n = sx_int_param("n", 2);
  MX A = sym_symmetric(n, "a");
  BunchKaufman<MX> s(A);
  if (s.info() != Eigen::Success) return;
  Eigen::VectorXi sig;
  ComputeSignatureVisitor{sig}(s);
  sx::check("signature has one entry per row", sig.size() == n);
  auto in = computeInertiaTuple(sig);
  sx::check("inertia counts all eigenvalues", in[0] + in[1] + in[2] == n);
  sx::check("a factorised matrix is nonsingular", in[2] == 0);
  if (n == 2) {
    double d = A(0, 0) * A(1, 1) - A(1, 0) * A(1, 0), t = A(0, 0) + A(1, 1);
    if (in[0] == 2) sx::check("(2,0,0): positive definite", sx::gt(d, 0.) && sx::gt(t, 0.));
    if (in[0] == 1) sx::check("(1,1,0): indefinite", sx::lt(d, 0.));
    if (in[0] == 0) sx::check("(0,2,0): negative definite", sx::gt(d, 0.) && sx::lt(t, 0.));
  }
  if (n == 3) {
    // real-rooted characteristic polynomial l^3 - t l^2 + m l - d: the number of positive
    // eigenvalues is the number of sign changes; check determinant parity and definiteness
    double d = det(A), t = A(0, 0) + A(1, 1) + A(2, 2);
    double m = A(0, 0) * A(1, 1) - A(1, 0) * A(1, 0) + A(0, 0) * A(2, 2) - A(2, 0) * A(2, 0) + A(1, 1) * A(2, 2) - A(2, 1) * A(2, 1);
    sx::check("determinant sign is the parity of the negative eigenvalues", in[1] % 2 ? sx::lt(d, 0.) : sx::gt(d, 0.));
    auto pd = sx::gt(d, 0.) && sx::gt(t, 0.) && sx::gt(m, 0.), nd = sx::lt(d, 0.) && sx::lt(t, 0.) && sx::gt(m, 0.);
    sx::check("(3,0,0) exactly for positive definite matrices", in[0] == 3 ? pd : !pd);
    sx::check("(0,3,0) exactly for negative definite matrices", in[0] == 0 ? nd : !nd);
  }
  sx::reach("end");
}
