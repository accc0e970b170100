// Harness API of the symbolic executor.  The same harness source is compiled
// twice: once to LLVM IR, instrumented and linked with rt_sym.cpp (symbolic
// doubles), and once natively, linked with rt_native.cpp (concrete replay).
#pragma once
#include <string>
#include <vector>

extern "C" {
// symbolic real/double input.  Bounds are inclusive assumptions.
double sx_real_c(const char *name, int has_lo, double lo, int has_hi, double hi);
// non-deterministic choice in 0..n-1 (every alternative is explored)
int sx_choice_c(const char *name, int n);
int sx_is_sym(double x);       // 1 if x is a symbolic term
int sx_is_native(void);        // 1 in the concrete replay build
int sx_fp_mode(void);          // 1 when run over IEEE-754 double theory
int sx_int_param(const char *name, int dflt);
// boolean terms
int sx_b_const(int v);
int sx_b_lt(double a, double b);
int sx_b_le(double a, double b);
int sx_b_eq(double a, double b);
int sx_b_and(int a, int b);
int sx_b_or(int a, int b);
int sx_b_not(int a);
void sx_assume_b(int b);       // path constraint (does not fork)
void sx_check_b(const char *label, int b); // proof obligation
void sx_set_branch_abs(int on); // fabs() forks (1) or makes an ite term (0)
void sx_tol(double t);         // tolerance of the concrete replay
void sx_note(const char *msg);
void sx_reach(const char *label); // reachability (vacuity) witness
void sx_print(const char *label, double x); // debugging aid
void sx_stop(void);            // end this path here (outside the stated claim)
}

namespace sx {
inline double real(const std::string &n) { return sx_real_c(n.c_str(), 0, 0, 0, 0); }
inline double real(const std::string &n, double lo, double hi) {
  return sx_real_c(n.c_str(), 1, lo, 1, hi);
}
inline double real_ge(const std::string &n, double lo) {
  return sx_real_c(n.c_str(), 1, lo, 0, 0);
}
inline int choice(const char *n, int k) { return sx_choice_c(n, k); }
struct B {
  int id;
  B(int i) : id(i) {}
  static B c(bool v) { return B(sx_b_const(v)); }
};
inline B lt(double a, double b) { return sx_b_lt(a, b); }
inline B le(double a, double b) { return sx_b_le(a, b); }
inline B gt(double a, double b) { return sx_b_lt(b, a); }
inline B ge(double a, double b) { return sx_b_le(b, a); }
inline B eq(double a, double b) { return sx_b_eq(a, b); }
inline B ne(double a, double b) { return sx_b_not(sx_b_eq(a, b)); }
inline B operator&&(B a, B b) { return sx_b_and(a.id, b.id); }
inline B operator||(B a, B b) { return sx_b_or(a.id, b.id); }
inline B operator!(B a) { return sx_b_not(a.id); }
inline B imp(B a, B b) { return !a || b; }
inline B iff(B a, B b) { return (a && b) || (!a && !b); }
inline void assume(B b) { sx_assume_b(b.id); }
inline void check(const std::string &l, B b) { sx_check_b(l.c_str(), b.id); }
inline void check(const std::string &l, bool b) { sx_check_b(l.c_str(), sx_b_const(b)); }
inline void check_eq(const std::string &l, double a, double b) { check(l, eq(a, b)); }
inline void check_le(const std::string &l, double a, double b) { check(l, le(a, b)); }
inline void check_lt(const std::string &l, double a, double b) { check(l, lt(a, b)); }
inline void reach(const std::string &l) { sx_reach(l.c_str()); }

// matrix helpers (any Eigen-like type)
template <class A, class B2>
void check_mat_eq(const std::string &l, const A &a, const B2 &b) {
  check(l + ".shape", a.rows() == b.rows() && a.cols() == b.cols());
  if (!(a.rows() == b.rows() && a.cols() == b.cols())) return;
  for (long j = 0; j < a.cols(); j++)
    for (long i = 0; i < a.rows(); i++)
      check_eq(l + "[" + std::to_string(i) + "," + std::to_string(j) + "]", a.coeff(i, j), b.coeff(i, j));
}
template <class M> void fill(M &&m, const std::string &n) {
  for (long j = 0; j < m.cols(); j++)
    for (long i = 0; i < m.rows(); i++)
      m.coeffRef(i, j) = real(n + "_" + std::to_string(i) + (m.cols() > 1 ? "_" + std::to_string(j) : std::string()));
}
template <class M> void fill(M &&m, const std::string &n, double lo, double hi) {
  for (long j = 0; j < m.cols(); j++)
    for (long i = 0; i < m.rows(); i++)
      m.coeffRef(i, j) = real(n + "_" + std::to_string(i) + (m.cols() > 1 ? "_" + std::to_string(j) : std::string()), lo, hi);
}
} // namespace sx

// a harness: void H(const char* unused)
struct SxHarness {
  const char *name;
  void (*fn)();
  SxHarness *next;
  static SxHarness *&head();
  SxHarness(const char *n, void (*f)()) : name(n), fn(f), next(head()) { head() = this; }
};
#define SX_HARNESS(NAME)                                                       \
  static void sxh_##NAME();                                                    \
  static SxHarness sxreg_##NAME(#NAME, &sxh_##NAME);                           \
  static void sxh_##NAME()
