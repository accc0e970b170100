// Block LDLT, block kinds and block kernels.
#include "linalg.hpp"
#include <block-kind.cpp>

// --- block LDLT ---------------------------------------------------------
namespace {
bool in_pattern(BlockKind k, int i, int j) {
  switch (k) {
  case Zero: return false;
  case Diag: return i == j;
  case TriL: return i >= j;
  case TriU: return i <= j;
  default: return true;
  }
}
BlockKind transposed(BlockKind k) { return k == TriL ? TriU : k == TriU ? TriL : k; }
struct Blk {
  std::vector<isize> len;
  std::vector<int> start;
  std::vector<std::vector<BlockKind>> kind;
  int n() const { int s = 0; for (auto l : len) s += (int)l; return s; }
  int nb() const { return (int)len.size(); }
  void finish() { start.clear(); int s = 0; for (auto l : len) { start.push_back(s); s += (int)l; } }
  SymbolicBlockMatrix make() const {
    SymbolicBlockMatrix m(len);
    for (int i = 0; i < nb(); i++)
      for (int j = 0; j < nb(); j++) m(i, j) = kind[i][j];
    return m;
  }
};
void free_sym(SymbolicBlockMatrix &m) { delete[] m.m_data; delete[] m.segment_lens; }

// off-diagonal entries of a symmetric matrix with this block structure; the
// diagonal is chosen by complete(), which makes every pivot of the elimination
// in the given order a fresh variable: all matrices with nonzero pivots
// only: index of the one block with symbolic entries (the others get distinct
// concrete values), or -1 for all
MX pattern_matrix(const Blk &b, const std::string &p, int only) {
  const int n = b.n();
  int count = 0;
  MX A = MX::Zero(n, n);
  for (int I = 0; I < b.nb(); I++)
    for (int J = 0; J <= I; J++)
      for (int i = 0; i < b.len[I]; i++)
        for (int j = 0; j < b.len[J]; j++) {
          if (I == J && j >= i) continue;
          if (!in_pattern(b.kind[I][J], i, j)) continue;
          const bool sym = only < 0 || (I * (I + 1) / 2 + J) == only;
          double v = sym ? sx::real(p + S(I) + S(J) + "_" + S(i) + S(j)) : (count % 2 ? -1. : 1.) * (1 + (count * 5) % 7);
          count++;
          A(b.start[I] + i, b.start[J] + j) = v;
          A(b.start[J] + j, b.start[I] + i) = v;
        }
  return A;
}
Fac complete(MX &A, const VX &D, const std::vector<int> &ord) {
  const int n = (int)A.rows();
  Fac f{MX(n, n), MX::Zero(n, n), D};
  for (int j = 0; j < n; j++) {
    double s = D[j];
    for (int k = 0; k < j; k++) s += f.L(j, k) * f.L(j, k) * D[k];
    A(ord[j], ord[j]) = s;
    f.L(j, j) = 1.;
    for (int i = j + 1; i < n; i++) {
      double v = A(ord[i], ord[j]);
      for (int k = 0; k < j; k++) v -= f.L(i, k) * D[k] * f.L(j, k);
      f.L(i, j) = v / D[j];
    }
  }
  f.A = A;
  return f;
}
VX sym_pivots(int n, const std::string &p, int signs) {
  VX D(n);
  for (int i = 0; i < n; i++) {
    D[i] = sx::real(p + "d" + S(i));
    bool neg = signs == 0 ? false : signs == 1 ? i % 2 : true;
    sx::assume(neg ? sx::le(D[i], -TINY) : sx::ge(D[i], TINY));
  }
  return D;
}
void check_block(const std::string &l, BlockLDLT<double> &s, const Blk &b, const std::string &p, int signs, int cols, int only = -1) {
  const int n = b.n();
  std::vector<int> ord(n);
  std::vector<bool> seen(n, false);
  bool perm = s.permutationP().size() == n;
  for (int i = 0; i < n && perm; i++) {
    ord[i] = (int)s.permutationP().indices()[i];
    perm = ord[i] >= 0 && ord[i] < n && !seen[ord[i]];
    if (perm) seen[ord[i]] = true;
  }
  sx::check(l + "the permutation is a permutation", perm);
  if (!perm) return;
  MX A = pattern_matrix(b, p + "a", only);
  VX D = sym_pivots(n, p, signs);
  if (only >= 0) for (int i = 0; i < n; i++) D[i] = i % 2 ? -2. : 1.;
  Fac f = complete(A, D, ord);
  MX J = junk_upper(f.A, p + "junk");
  s.compute(J);
  bool tri = false;
  for (int I = 0; I < b.nb(); I++)
    for (int K = 0; K < b.nb(); K++) tri = tri || b.kind[I][K] == TriL || b.kind[I][K] == TriU;
  if (!tri) sx::check(l + "structures without triangular blocks are always accepted", s.info() == Eigen::Success);
  if (s.info() != Eigen::Success) { sx::reach("rejected"); return; }
  // the structure is that of the permuted matrix, after fill-in
  const SymbolicBlockMatrix &st = s.structure();
  for (int I = 0, r0 = 0; I < b.nb(); r0 += (int)st.segment_lens[I], I++)
    for (int K = 0, c0 = 0; K <= I; c0 += (int)st.segment_lens[K], K++)
      for (int i = 0; i < st.segment_lens[I]; i++)
        for (int j = 0; j < st.segment_lens[K]; j++)
          if (r0 + i > c0 + j && !in_pattern(st(I, K), i, j))
            sx::check_eq(l + "the analysed pattern covers the factor", f.L(r0 + i, c0 + j), 0.);
  for (int i = 0; i < n; i++) {
    sx::check_eq(l + "vectorD is D", s.vectorD()[i], D[i]);
    for (int k = 0; k < i; k++) sx::check_eq(l + "matrixLDLT is L", s.matrixLDLT()(i, k), f.L(i, k));
  }
  sx::check_mat_eq(l + "reconstructedMatrix", s.reconstructedMatrix(), f.A);
  check_sign(l, s, D);
  // P A P^T = L D L^T: solve for a permuted right-hand side L D z
  MX Z = sym_mat(n, cols, p + "z"), B(n, cols);
  if (only >= 0) for (int i = 0; i < n; i++) Z.row(i).setConstant(1 + i % 3);
  for (int c = 0; c < cols; c++)
    for (int i = 0; i < n; i++) {
      double v = 0;
      for (int k = 0; k <= i; k++) v += f.L(i, k) * (D[k] * Z(k, c));
      B(ord[i], c) = v;
      if (cols == 1) sx::assume(sx::gt(Z(i, c), 0.)); // limits the zero tests of Eigen's substitution
    }
  MX R(n, cols);
  bool ok;
  if (cols == 1) {
    VX r = s.solve(VX(B.col(0))), r2 = B.col(0);
    ok = s.solveInPlace(r2);
    sx::check_mat_eq(l + "solveInPlace", r2, r);
    R = r;
  } else {
    R = s.solve(B);
    MX r2 = B;
    ok = s.solveInPlace(r2);
    sx::check_mat_eq(l + "solveInPlace", r2, R);
  }
  sx::check(l + "solveInPlace returns true", ok);
  for (int c = 0; c < cols; c++)
    for (int i = 0; i < n; i++) {
      double v = 0;
      for (int k = i; k < n; k++) v += f.L(k, i) * R(ord[k], c);
      sx::check_eq(l + "A*solve(b)=b", v, Z(i, c));
    }
  sx::reach("end");
}
const BlockKind KINDS[] = {Zero, Dense, Diag, TriL, TriU};
Blk choose_structure(const std::vector<isize> &len, int nkinds) {
  Blk b;
  b.len = len;
  b.finish();
  const int nb = b.nb();
  b.kind.assign(nb, std::vector<BlockKind>(nb, Dense));
  const bool each = nb <= 3, all_dense = !each && sx::choice("dense diagonal", 2); // four blocks: all alike
  for (int i = 0; i < nb; i++) b.kind[i][i] = (each ? sx::choice("diagonal block", 2) : (int)all_dense) ? Dense : Diag;
  for (int i = 0; i < nb; i++)
    for (int j = 0; j < i; j++) {
      BlockKind k = KINDS[sx::choice("off-diagonal block", len[i] == len[j] ? nkinds : 2)];
      b.kind[i][j] = k;
      b.kind[j][i] = transposed(k);
    }
  return b;
}
void permute(BlockLDLT<double> &s, int nb) {
  int how = sx::choice("permutation", 3);
  std::vector<isize> perm(nb);
  std::iota(perm.begin(), perm.end(), 0);
  if (how == 0) s.setBlockPermutation();
  if (how == 1) s.findSparsifyingPermutation();
  if (how == 2) {
    // four blocks: every cyclic permutation of all of them, a pair of swaps, one swap
    static const int four[] = {8, 9, 12, 16, 17, 21, 22, 0};
    int q = sx::choice("which", nb == 2 ? 1 : nb == 3 ? 5 : 8);
    if (nb == 4) q = four[q];
    if (nb == 2) std::swap(perm[0], perm[1]);
    else for (int k = 0; k <= q; k++) std::next_permutation(perm.begin(), perm.end());
    s.setBlockPermutation(perm.data());
    for (int i = 0; i < nb; i++) sx::check("the chosen block permutation is used", s.blockPermIndices()[i] == perm[i]);
  }
}
} // namespace
SX_HARNESS(block2) {
  const std::vector<std::vector<isize>> sizes{{2, 2}, {1, 2}, {3, 1}, {2, 3}};
  Blk b = choose_structure(sizes[sx::choice("sizes", 4)], 5);
  SymbolicBlockMatrix st = b.make();
  BlockLDLT<double> s(b.n(), st);
  free_sym(st);
  permute(s, 2);
  const int m = sx::choice("mode", 3);
  check_block("", s, b, "", m, m == 1 ? 2 : 1);
}
SX_HARNESS(block3) {
  const std::vector<std::vector<isize>> sizes{{2, 1, 2}, {1, 2, 1}, {2, 2, 2}, {1, 1, 1}};
  const int nk = sx_int_param("kinds", 3), sz = sx_int_param("size", -1);
  Blk b = choose_structure(sizes[sz >= 0 ? sz : sx::choice("sizes", 2)], nk);
  SymbolicBlockMatrix st = b.make();
  BlockLDLT<double> s(b.n(), st);
  free_sym(st);
  permute(s, 3);
  const int offd[] = {1, 3, 4}; // lower off-diagonal blocks
  check_block("", s, b, "", 1, sx_int_param("cols", 1), sx_int_param("one", 0) ? offd[sx::choice("symbolic block", 3)] : -1);
}

// --- block kinds and kernels --------------------------------------------
namespace {
const BlockKind ALL[] = {Zero, Diag, TriL, TriU, Dense};
bool square_kind(BlockKind k) { return k == Diag || k == TriL || k == TriU; }
MX kind_matrix(BlockKind k, int r, int c, const std::string &p) {
  MX A = MX::Zero(r, c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++)
      if (in_pattern(k, i, j)) A(i, j) = sx::real(p + S(i) + S(j));
  return A;
}
void check_pattern(const std::string &l, const MX &A, BlockKind k) {
  for (int j = 0; j < A.cols(); j++)
    for (int i = 0; i < A.rows(); i++)
      if (!in_pattern(k, i, j)) sx::check_eq(l, A(i, j), 0.);
}
} // namespace
// dst += alpha lhs rhs^T for every combination of structures
SX_HARNESS(block4) {
  const std::vector<std::vector<isize>> sizes{{1, 1, 1, 1}, {1, 2, 1, 2}};
  const int sz = sx_int_param("size", 0);
  Blk b = choose_structure(sizes[sz], sx_int_param("kinds", 2));
  SymbolicBlockMatrix st = b.make();
  BlockLDLT<double> s(b.n(), st);
  free_sym(st);
  permute(s, 4);
  const int offd[] = {1, 3, 4, 6, 7, 8}; // lower off-diagonal blocks
  check_block("", s, b, "", 1, 1, sx_int_param("one", 0) ? offd[sx::choice("symbolic block", 6)] : -1);
}
SX_HARNESS(gemmt_kernels) {
  BlockKind kl = ALL[sx::choice("lhs", 5)], kr = ALL[sx::choice("rhs", 5)];
  int m = 1 + sx::choice("m-1", 3), n = 1 + sx::choice("n-1", 3), k = 1 + sx::choice("k-1", 3);
  if (square_kind(kl)) m = k;
  if (square_kind(kr)) n = k;
  MX L = kind_matrix(kl, m, k, "l"), R = kind_matrix(kr, n, k, "r"), D = sym_mat(m, n, "d");
  double alpha = sx::choice("alpha", 2) ? sx::real("alpha") : -1.;
  MX E(m, n);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      double v = 0;
      for (int q = 0; q < k; q++) v += L(i, q) * R(j, q);
      E(i, j) = D(i, j) + alpha * v;
    }
  const int how = sx::choice("operands", 2);
  // what is stored outside the structure does not matter (for the left operand
  // only when the other one is not triangular as well)
  auto outside = [](MX &M, BlockKind kd, const std::string &p) {
    for (int j = 0; j < M.cols(); j++)
      for (int i = 0; i < M.rows(); i++)
        if (!in_pattern(kd, i, j)) M(i, j) = sx::real(p + S(i) + S(j));
  };
  outside(R, kr, "jr");
  if (!((kl == TriL || kl == TriU) && (kr == TriL || kr == TriU))) outside(L, kl, "jl");
  const MX L0 = L, R0 = R;
  if (how == 0) backend::gemmt(D, L, R, kl, kr, alpha);
  else { // blocks of a larger matrix, as in the factorisation
    MX big = MX::Constant(m + k, n + k, 7.);
    big.topLeftCorner(m, n) = D;
    big.topRightCorner(m, k) = L;
    big.bottomLeftCorner(k, n) = R.transpose();
    auto d = big.topLeftCorner(m, n);
    auto l = big.topRightCorner(m, k);
    auto rt = big.bottomLeftCorner(k, n);
    backend::gemmt(d, l, rt.transpose(), kl, kr, alpha);
    D = big.topLeftCorner(m, n);
    L = big.topRightCorner(m, k);
    R = big.bottomLeftCorner(k, n).transpose();
  }
  sx::check_mat_eq("dst + alpha*lhs*rhs^T", D, E);
  sx::check_mat_eq("lhs unchanged", L, L0);
  sx::check_mat_eq("rhs unchanged", R, R0);
  sx::reach("end");
}
// the abstract operations cover the concrete ones
SX_HARNESS(kind_algebra) {
  const int n = sx_int_param("n", 3);
  BlockKind a = ALL[sx::choice("a", 5)], b = ALL[sx::choice("b", 5)];
  MX A = kind_matrix(a, n, n, "a"), B = kind_matrix(b, n, n, "b");
  check_pattern("trans covers the transpose", A.transpose(), trans(a));
  MX SUM(n, n), P(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      SUM(i, j) = A(i, j) + B(i, j);
      double v = 0;
      for (int q = 0; q < n; q++) v += A(i, q) * B(q, j);
      P(i, j) = v;
    }
  check_pattern("add covers the sum", SUM, add(a, b));
  check_pattern("mul covers the product", P, mul(a, b));
  // and they are exact whenever an exact answer exists among the kinds
  BlockKind bs = Dense, bp = Dense;
  auto fits = [&](const MX &M, BlockKind k) {
    for (int j = 0; j < n; j++)
      for (int i = 0; i < n; i++)
        if (!in_pattern(k, i, j) && (sx_is_sym(M(i, j)) || M(i, j) != 0.)) return false;
    return true;
  };
  for (int k = 4; k >= 0; k--) { if (fits(SUM, ALL[k])) bs = ALL[k]; if (fits(P, ALL[k])) bp = ALL[k]; }
  sx::check("add gives the smallest kind", sx_is_native() || add(a, b) == bs);
  sx::check("mul gives the smallest kind", sx_is_native() || mul(a, b) == bp);
  sx::check("trans is an involution", trans(trans(a)) == a);
  sx::reach("end");
}
// forward/backward substitution with a block triangular matrix
SX_HARNESS(block_trisolve) {
  const int nb = 2 + sx::choice("blocks-2", 2);
  // unit triangular; with its diagonal; unit triangular with dense products
  const int form = sx::choice("form", 3);
  Blk b;
  for (int i = 0; i < nb; i++) b.len.push_back(nb == 2 ? 1 + sx::choice("len", 3) : 1 + (sx::choice("len", 2)));
  b.finish();
  const int n = b.n();
  b.kind.assign(nb, std::vector<BlockKind>(nb, Zero));
  MX L = MX::Zero(n, n);
  for (int i = 0; i < nb; i++) {
    b.kind[i][i] = sx::choice("diagonal", 2) ? TriL : Diag;
    for (int j = 0; j < i; j++)
      b.kind[i][j] = KINDS[sx::choice("off", b.len[i] == b.len[j] && nb == 2 ? 5 : 2)];
    for (int j = 0; j <= i; j++) {
      MX K = kind_matrix(b.kind[i][j], b.len[i], b.len[j], "l" + S(i) + S(j) + "_");
      for (int q = 0; q < b.len[i] && i == j; q++) {
        K(q, q) = form == 1 ? sx::real("diag") : 1.;
        if (form == 1) sx::assume(sx::ne(K(q, q), 0.));
      }
      L.block(b.start[i], b.start[j], b.len[i], b.len[j]) = K;
    }
  }
  SymbolicBlockMatrix st = b.make(), tr = st.transpose();
  const bool upper = sx::choice("upper", 2);
  const int cols = sx_int_param("cols", 2);
  // unit triangular: the entries on and above the diagonal must not matter
  MX M = L;
  for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) if (i < j || form != 1) M(i, j) = sx::real("junk");
  MX Z = sym_mat(n, cols, "z"), B(n, cols);
  for (int c = 0; c < cols; c++)
    for (int i = 0; i < n; i++) {
      double v = 0;
      for (int k = 0; k < n; k++) v += (upper ? L(k, i) : L(i, k)) * Z(k, c);
      B(i, c) = v;
    }
  bool ok;
  if (form == 1 && !upper) ok = TriangularBlockMatrix<const MX, Eigen::Lower>(M, st).solveInPlace(B);
  else if (form == 1) ok = TriangularBlockMatrix<const MX::AdjointReturnType, Eigen::Upper>(M.adjoint(), tr).solveInPlace(B);
  else if (form == 2 && !upper) ok = TriangularBlockMatrix<const MX, Eigen::UnitLower>(M, st).solveInPlace<MX, false>(B);
  else if (form == 2) ok = TriangularBlockMatrix<const MX::AdjointReturnType, Eigen::UnitUpper>(M.adjoint(), tr).solveInPlace<MX, false>(B);
  else if (!upper) ok = TriangularBlockMatrix<const MX, Eigen::UnitLower>(M, st).solveInPlace(B);
  else ok = TriangularBlockMatrix<const MX::AdjointReturnType, Eigen::UnitUpper>(M.adjoint(), tr).solveInPlace(B);
  sx::check("solveInPlace returns true", ok);
  sx::check_mat_eq("solution", B, Z);
  free_sym(st); free_sym(tr);
  sx::reach("end");
}

// --- the KKT factorisation chosen by the allocator -----------------------
namespace {
struct Compute {
  const MX &m;
  template <class F> void operator()(F &f) const { f.compute(m); }
};
struct Solve {
  MX &b;
  template <class F> void operator()(const F &f) const { MX t = f.solve(b); b = t; }
};
struct Info {
  template <class F> Eigen::ComputationInfo operator()(const F &f) const { return f.info(); }
};
} // namespace
SX_HARNESS(kkt_backends) {
  const LDLTChoice which[] = {LDLTChoice::DENSE, LDLTChoice::BLOCKSPARSE, LDLTChoice::BUNCHKAUFMAN, LDLTChoice::EIGEN};
  const int w = sx_int_param("backend", -1) >= 0 ? sx_int_param("backend", 0) : sx::choice("backend", 4);
  const std::vector<std::vector<isize>> duals{{1}, {1, 1}, {2}, {}, {2, 1}};
  const int nx = sx_int_param("nx", 2);
  const auto dual = duals[sx::choice("constraints", sx_int_param("ncons", 1))];
  const std::vector<isize> prim{nx};
  int m = 0;
  for (auto d : dual) m += (int)d;
  const int n = nx + m;
  LDLTVariant<double> f = allocate_ldlt_from_sizes<double>(prim, dual, which[w]);
  // KKT matrix [H J^T; J -M] with dense H, J and diagonal M, such that the elimination
  // meets positive pivots in the primal rows and negative ones in the dual rows
  Blk b;
  b.len = prim;
  for (auto d : dual) b.len.push_back(d);
  b.finish();
  b.kind.assign(b.nb(), std::vector<BlockKind>(b.nb(), Dense));
  for (int i = 1; i < b.nb(); i++) for (int j = 1; j < b.nb(); j++) b.kind[i][j] = i == j ? Diag : Zero;
  std::vector<int> ord(n);
  std::iota(ord.begin(), ord.end(), 0);
  if (BlockLDLT<double> *p = boost::get<BlockLDLT<double>>(&f))
    for (int i = 0; i < n; i++) ord[i] = (int)p->permutationP().indices()[i];
  MX K = pattern_matrix(b, "k", -1);
  VX D(n);
  const double small = w >= 2 ? 0x1p-20 : TINY;
  for (int i = 0; i < n; i++) {
    D[i] = sx::real("d" + S(i));
    sx::assume(ord[i] < nx ? sx::ge(D[i], small) : sx::le(D[i], -small));
  }
  if (w >= 2) { // pivots below DBL_MIN count as zero for Eigen: bound the entries
    for (int i = 0; i < n; i++) sx::assume(sx::le(D[i], 1 / small) && sx::ge(D[i], -1 / small));
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx::assume(sx::le(K(i, j), 1 / small) && sx::ge(K(i, j), -1 / small));
  }
  complete(K, D, ord);
  boost::apply_visitor(Compute{K}, f);
  sx::check("info is success", boost::apply_visitor(Info{}, f) == Eigen::Success);
  Eigen::VectorXi sig(n);
  boost::apply_visitor(ComputeSignatureVisitor{sig}, f);
  auto in = computeInertiaTuple(sig);
  sx::check("inertia is (nx, m, 0)", in[0] == nx && in[1] == m && in[2] == 0);
  MX B(n, 1);
  for (int i = 0; i < n; i++) B(i, 0) = 1 + i;
  MX X = B;
  if (w < 2) { // any right-hand side
    VX Z(n);
    for (int i = 0; i < n; i++) { Z[i] = sx::real("x"); sx::assume(sx::gt(Z[i], 0.)); }
    for (int i = 0; i < n; i++) { double v = 0; for (int k = 0; k < n; k++) v += K(i, k) * Z[k]; B(i, 0) = v; }
    X = B;
  }
  boost::apply_visitor(Solve{X}, f);
  for (int i = 0; i < n; i++) {
    double v = 0;
    for (int k = 0; k < n; k++) v += K(i, k) * X(k, 0);
    sx::check_eq("K x = b", v, B(i, 0));
  }
  sx::reach("end");
}
// reuse, copies and repeated analysis
SX_HARNESS(block_history) {
  Blk b;
  b.len = {1, 2, 1};
  b.finish();
  const int pat = sx::choice("pattern", 3);
  b.kind = pat == 0   ? std::vector<std::vector<BlockKind>>{{Dense, Dense, Zero}, {Dense, Dense, Dense}, {Zero, Dense, Diag}}
           : pat == 1 ? std::vector<std::vector<BlockKind>>{{Diag, Dense, Dense}, {Dense, Diag, Zero}, {Dense, Zero, Diag}}
                      : std::vector<std::vector<BlockKind>>{{Dense, Dense, Dense}, {Dense, Diag, Zero}, {Dense, Zero, Diag}};
  SymbolicBlockMatrix st = b.make();
  BlockLDLT<double> s(4, st);
  const isize perms[][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}};
  const int p1 = sx::choice("first analysis", 4);
  if (p1 < 3) s.setBlockPermutation(perms[p1]); else s.findSparsifyingPermutation();
  const int ev = sx::choice("event", 7);
  const int sg = sx::choice("signs", 2);
  switch (ev) {
  case 0: check_block("first: ", s, b, "f", sg, 1, 1); break; // refactorise
  case 1: { BlockLDLT<double> c(s); check_block("copy: ", c, b, "f", sg, 1, 1); break; }
  case 2: s.setBlockPermutation(perms[sx::choice("again", 3)]); break;
  case 3: s.findSparsifyingPermutation(); break;
  case 4: { BlockLDLT<double> c(4, st); c.setBlockPermutation(perms[1]); s = c; break; }
  case 5: { check_block("first: ", s, b, "f", sg, 1, 1);
      BlockLDLT<double> c(s);
      sx::check("a copy has the same sign", c.sign() == s.sign());
      sx::check("a copy has the same info", c.info() == s.info());
      for (int i = 0; i < 4; i++) for (int j = 0; j <= i; j++) sx::check_eq("a copy has the same factors", c.matrixLDLT()(i, j), s.matrixLDLT()(i, j));
      VX B = VX::LinSpaced(4, 1, 4);
      sx::check_mat_eq("a copy solves alike", c.solve(B), s.solve(B));
      break; }
  case 6: { LDLTVariant<double> v = allocate_ldlt_from_sizes<double>({2}, {1}, LDLTChoice::BLOCKSPARSE);
      v = allocate_ldlt_from_sizes<double>({2}, {2}, LDLTChoice::BLOCKSPARSE); break; }
  }
  check_block("", s, b, "", 1, 1);
  free_sym(st);
}
namespace {
// reference: scalar symbolic elimination with 2x2 (or 1x1) blocks expanded entrywise
std::vector<std::vector<bool>> scalar_fill(const Blk &b, const std::vector<isize> &perm) {
  std::vector<std::pair<int, int>> rows;
  for (auto I : perm) for (int i = 0; i < b.len[I]; i++) rows.push_back({(int)I, i});
  const int n = (int)rows.size();
  std::vector<std::vector<bool>> F(n, std::vector<bool>(n, false));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) F[i][j] = in_pattern(b.kind[rows[i].first][rows[j].first], rows[i].second, rows[j].second);
  for (int k = 0; k < n; k++)
    for (int i = k + 1; i < n; i++)
      for (int j = k + 1; j <= i; j++)
        if (F[i][k] && F[j][k]) F[i][j] = F[j][i] = true;
  return F;
}
} // namespace
// the symbolic factorisation covers the fill-in of every matrix with the
// structure, and the permutation search returns a minimum
SX_HARNESS(symbolic_llt) {
  const int nb = sx_int_param("nb", 3);
  const std::vector<std::vector<isize>> sizes3{{2, 2, 2}, {1, 2, 3}, {1, 1, 2}}, sizes4{{2, 2, 2, 2}, {1, 2, 3, 1}};
  Blk b = choose_structure(nb == 3 ? sizes3[sx::choice("sizes", 3)] : sizes4[sx::choice("sizes", 2)], nb == 3 ? 5 : 3);
  for (int i = 0; i < nb; i++) if ((nb == 3 || i == 2) && sx::choice("zero diagonal", 2) && i > 0) b.kind[i][i] = Zero;
  SymbolicBlockMatrix st = b.make(), in = st.copy();
  sx::check("the structure is symmetric", [&] { bool tri = false; for (int i = 0; i < nb; i++) for (int j = 0; j < i; j++) tri |= b.kind[i][j] == TriL || b.kind[i][j] == TriU; return tri || in.check_if_symmetric(); }());
  isize best[4] = {0, 1, 2, 3}, work[4];
  auto info = st.brute_force_best_permutation(in, best, work);
  std::vector<isize> p(nb);
  std::iota(p.begin(), p.end(), isize(0));
  isize min_nnz = -1;
  bool all = true;
  do {
    SymbolicBlockMatrix c(nb, nb);
    symbolic_deep_copy(in, c, p.data());
    c.performed_llt = false;
    const bool ok = c.llt_in_place();
    all = all && ok;
    sx::check("the outcome is recorded", c.performed_llt == ok);
    bool present = true; // no diagonal block is structurally zero: always possible
    for (int i = 0; i < nb; i++) present = present && b.kind[i][i] != Zero;
    sx::check("present diagonal blocks can be factorised", ok || !present);
    if (ok) {
      isize nnz = 0;
      auto F = scalar_fill(b, p);
      for (int I = 0, r = 0; I < nb; r += (int)c.segment_lens[I], I++)
        for (int J = 0, q = 0; J < nb; q += (int)c.segment_lens[J], J++)
          for (int i = 0; i < c.segment_lens[I]; i++)
            for (int j = 0; j < c.segment_lens[J]; j++) {
              const bool in_p = in_pattern(c(I, J), i, j);
              nnz += in_p;
              if (r + i > q + j) sx::check("the factor's pattern covers the fill-in", in_p || !F[r + i][q + j]);
              if (J > I) sx::check("the upper part is zero", !in_p);
            }
      bool alike = true;
      for (int I = 1; I < nb; I++) alike = alike && c.segment_lens[I] == c.segment_lens[0];
      if (alike)
        sx::check("count_nnz counts the entries of the pattern", c.count_nnz() == nnz);
      if (min_nnz < 0 || c.count_nnz() < min_nnz) min_nnz = c.count_nnz();
    }
    free_sym(c);
  } while (std::next_permutation(p.begin(), p.end()));
  sx::check("the search succeeds if every permutation can be factorised", info == (all ? Eigen::Success : Eigen::NumericalIssue));
  if (all) {
    SymbolicBlockMatrix c(nb, nb);
    symbolic_deep_copy(in, c, best);
    c.performed_llt = false;
    c.llt_in_place();
    sx::check("the permutation found has the fewest nonzeros", c.count_nnz() == min_nnz);
    free_sym(c);
    sx::reach("end");
  }
  free_sym(st); free_sym(in);
}
