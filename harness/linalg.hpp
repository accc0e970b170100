#pragma once
// Dense, block and Bunch-Kaufman factorisations.
#include "common.hpp"
#include <numeric>
#include <array>
#include <proxsuite-nlp/linalg/block-ldlt.hpp>
#include <proxsuite-nlp/linalg/bunchkaufman.hpp>
#include <proxsuite-nlp/ldlt-allocator.hpp>
using namespace proxsuite::nlp::linalg;

namespace {
const double TINY = 0x1p-1020; // pivots up to DBL_MIN = 2^-1022 are zeroed by solve()

// pivot: nonzero, either sign
double pivot(const std::string &n) {
  double d = sx::real(n);
  sx::assume(sx::ge(d, TINY) || sx::le(d, -TINY));
  return d;
}
// A = L D L^T for unit lower L and diagonal D: every matrix all of whose
// leading principal minors are nonzero is obtained in exactly one way.
struct Fac {
  MX A, L;
  VX D;
};
Fac fac(int n, const std::string &p) {
  Fac f{MX(n, n), MX::Zero(n, n), VX(n)};
  for (int i = 0; i < n; i++) {
    f.D[i] = pivot(p + "d" + S(i));
    f.L(i, i) = 1.;
    for (int j = 0; j < i; j++) f.L(i, j) = sx::real(p + "l" + S(i) + S(j));
  }
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      double s = 0;
      for (int k = 0; k <= std::min(i, j); k++) s += f.L(i, k) * f.D[k] * f.L(j, k);
      f.A(i, j) = s;
    }
  return f;
}
// solve A X = B for an arbitrary B (written B = L D Z, so that the forward
// substitution of a correct implementation goes through Z again)
template <class Solver> void check_solve(const std::string &l, const Solver &s, const Fac &f, int cols) {
  const int n = (int)f.A.rows();
  MX Z = sym_mat(n, cols, "z_" + l), B(n, cols), LDZ(n, cols);
  for (int i = 0; i < n; i++)
    for (int c = 0; c < cols; c++) LDZ(i, c) = f.D[i] * Z(i, c);
  for (int i = 0; i < n; i++)
    for (int c = 0; c < cols; c++) {
      double v = 0;
      for (int k = 0; k <= i; k++) v += f.L(i, k) * LDZ(k, c);
      B(i, c) = v;
    }
  auto ax = [&](const MX &X) {
    MX R(n, cols);
    for (int i = 0; i < n; i++)
      for (int c = 0; c < cols; c++) {
        double v = 0;
        for (int k = 0; k < n; k++) v += f.A(i, k) * X(k, c);
        R(i, c) = v;
      }
    return R;
  };
  if (cols == 1) {
    VX b = B.col(0);
    VX r = s.solve(b);
    sx::check_mat_eq(l + ".solve(vector)", ax(r), B);
    VX b2 = b;
    bool ok = s.solveInPlace(b2);
    sx::check(l + ".solveInPlace returns true", ok);
    sx::check_mat_eq(l + ".solveInPlace(vector)", b2, r);
  } else {
    MX r = s.solve(B);
    sx::check_mat_eq(l + ".solve(matrix)", ax(r), B);
    MX b2 = B;
    bool ok = s.solveInPlace(b2);
    sx::check(l + ".solveInPlace returns true", ok);
    sx::check_mat_eq(l + ".solveInPlace(matrix)", b2, r);
  }
}
// replace the strict upper triangle by unrelated symbols
MX junk_upper(const MX &A, const std::string &n) {
  MX J = A;
  for (int j = 0; j < A.cols(); j++)
    for (int i = 0; i < j; i++) J(i, j) = sx::real(n + S(i) + S(j));
  return J;
}
template <class Solver> void check_sign(const std::string &l, const Solver &s, const VX &D) {
  sx::B anyp = sx::B::c(false), anyn = sx::B::c(false);
  for (int i = 0; i < D.size(); i++) {
    anyp = anyp || sx::gt(D[i], 0.);
    anyn = anyn || sx::lt(D[i], 0.);
  }
  using SM = Eigen::internal::SignMatrix;
  switch (s.sign()) {
  case SM::PositiveSemiDef: sx::check(l + ": sign() positive only if no pivot is negative", anyp && !anyn); break;
  case SM::NegativeSemiDef: sx::check(l + ": sign() negative only if no pivot is positive", anyn && !anyp); break;
  case SM::Indefinite: sx::check(l + ": sign() indefinite only if pivots have both signs", anyp && anyn); break;
  default: sx::check(l + ": sign() zero only if there is no nonzero pivot", !anyp && !anyn); break;
  }
}
} // namespace

