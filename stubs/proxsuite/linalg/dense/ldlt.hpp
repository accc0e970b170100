// A stand-in for the part of ProxSuite's dense LDLT that the wrapper of this
// repository calls (ProxSuite itself is not installed).  The factorisation is
// not computed: it is planned by the harness (permutation, unit lower factor,
// diagonal), with ProxSuite's convention A = P L D L^T P^T, and the matrix that
// was given is recorded.  Workspace is counted, as in ProxSuite's stack.  Only
// the wrapper is under test.
#pragma once
#include <Eigen/Core>
#include <stdexcept>
#include <vector>
namespace proxsuite {
namespace linalg {
namespace veg {
namespace mem {
enum struct byte : unsigned char {};
}
struct FromSliceMut {};
constexpr FromSliceMut from_slice_mut{};
struct SliceMut {
  long bytes;
};
template <typename T> struct Vec {
  long len = 0;
  void resize_for_overwrite(long n) { len = n; }
  SliceMut as_mut() { return {len}; }
};
namespace dynstack {
struct StackReq {
  long bytes = 0;
  long alloc_req() const { return bytes; }
  friend StackReq operator|(StackReq a, StackReq b) { return {a.bytes > b.bytes ? a.bytes : b.bytes}; }
  friend StackReq operator&(StackReq a, StackReq b) { return {a.bytes + b.bytes}; }
};
struct DynStackMut {
  long left;
  DynStackMut(FromSliceMut, SliceMut s) : left(s.bytes) {}
  void take(long n) {
    if (n > left) throw std::runtime_error("stand-in: stack exhausted");
    left -= n;
  }
};
} // namespace dynstack
} // namespace veg
namespace dense {
using isize = Eigen::Index;
using Dyn = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>;
namespace stub {
struct Plan {
  Eigen::VectorXi perm;
  Eigen::MatrixXd LD; // unit lower factor below the diagonal, D on it
};
inline Plan &plan() { static Plan p; return p; }
} // namespace stub
namespace util {
template <typename T> using View = Eigen::Map<T, Eigen::Unaligned, Eigen::OuterStride<Eigen::Dynamic>>;
using CM = const Eigen::MatrixXd;
inline View<CM> to_view(View<CM> m) { return m; }
template <typename M> inline View<Eigen::MatrixXd> to_view_dyn_rows(M &&m) { return {m.data(), m.rows(), m.cols(), Eigen::OuterStride<Eigen::Dynamic>(m.outerStride())}; }
template <typename M> inline auto trans(M &&m) { return Eigen::Transpose<std::remove_reference_t<M>>(m); }
using Diag = Eigen::Map<const Eigen::VectorXd, Eigen::Unaligned, Eigen::InnerStride<Eigen::Dynamic>>;
inline Diag diagonal(View<CM> m) { return {m.data(), m.rows(), 1, Eigen::InnerStride<Eigen::Dynamic>(m.outerStride() + 1)}; }
} // namespace util
template <typename T> struct Ldlt {
  Eigen::MatrixXd ld, given;
  Eigen::VectorXi perm, perm_inv;
  isize reserved = 0;
  void reserve_uninit(isize n) { reserved = n; }
  static veg::dynstack::StackReq factorize_req(isize n) { return {long(n * sizeof(T))}; }
  static veg::dynstack::StackReq solve_in_place_req(isize n) { return {long(n * sizeof(T))}; }
  template <typename M> void factorize(const M &mat, veg::dynstack::DynStackMut stack) {
    stack.take(factorize_req(mat.rows()).bytes);
    given = mat;
    ld = stub::plan().LD;
    perm = stub::plan().perm;
    perm_inv.resize(perm.size());
    for (int i = 0; i < perm.size(); i++) perm_inv[perm[i]] = i;
  }
  util::View<util::CM> ld_col() const { return {ld.data(), ld.rows(), ld.cols(), Eigen::OuterStride<Eigen::Dynamic>(ld.rows())}; }
  auto l() const { return ld_col().template triangularView<Eigen::UnitLower>(); }
  auto lt() const { return util::View<util::CM>(ld_col()).transpose().template triangularView<Eigen::UnitUpper>(); }
  util::Diag d() const { return util::diagonal(ld_col()); }
  auto p() const { return Eigen::PermutationWrapper<const Eigen::VectorXi>(perm); }
  auto pt() const { return Eigen::PermutationWrapper<const Eigen::VectorXi>(perm_inv); }
};
} // namespace dense
} // namespace linalg
} // namespace proxsuite
#define LDLT_TEMP_MAT_UNINIT(T, name, r, c, stack)                                                                    \
  (stack).take(long(r) * long(c) * long(sizeof(T)));                                                                  \
  Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> name(r, c)
