// Symbolic run time: path-exploring symbolic execution of instrumented code.
//
// Values.  A double is either an ordinary number or a NaN whose top 16 bits are
// TAG_SYM; its low 48 bits index a table of symbolic terms.
//  * Real mode: a term is a Laurent polynomial with rational coefficients over
//    atoms (inputs, square roots, if-then-else terms, non-monomial divisors).
//    Arithmetic is exact; +-inf and NaN stay concrete.
//  * FP mode: a term is an SMT FloatingPoint expression (IEEE-754 binary64,
//    round-to-nearest-even), bit-precise.
// A comparison on a symbolic term asks the SMT solver which outcomes are
// feasible under the path condition; both are explored (the alternative is
// re-executed from the start in a fresh process).  sx_check_b is an obligation:
// the solver must show path-condition and not(obligation) unsatisfiable.
#include "sx.hpp"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <gmpxx.h>
#include <map>
#include <memory>
#include <poll.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using std::string;
using std::vector;

SxHarness *&SxHarness::head() {
  static SxHarness *h = nullptr;
  return h;
}

// ---------------------------------------------------------------- settings
static bool g_fp = false;
static bool g_branch_abs = true;
static int g_feas_ms = 3000;
static int g_obl_ms = 20000;
static int g_path_s = 300;
static long g_max_paths = 100000;
static int g_jobs = 8;
static string g_dir = ".";
static string g_z3 = "z3-new";
static long g_max_terms = 6000;
static std::map<string, int> g_params;
static bool g_trace = false;

// ---------------------------------------------------------------- tagging
static const uint64_t TAG_SYM = 0x7FFDull << 48, TAG_POI = 0x7FFEull << 48, TAG_MASK = 0xFFFFull << 48;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool is_sym(double d) { return (bits(d) & TAG_MASK) == TAG_SYM; }
static inline bool is_poison(double d) { return (bits(d) & TAG_MASK) == TAG_POI; }
static inline bool is_escaped(double d) { return (bits(d) & TAG_MASK) == (TAG_SYM | (1ull << 63)); }
static inline double mk(uint64_t id) { return dbl(TAG_SYM | id); }
static const double POISON = dbl(TAG_POI | 0x7FFE7FFE7FFEull);

// ---------------------------------------------------------------- polynomials
typedef vector<std::pair<int, int>> Mono;
typedef std::map<Mono, mpq_class> Poly;

enum AtomKind { A_INPUT, A_SQRT, A_ITE, A_DEN, A_DEF };
struct Atom {
  AtomKind kind;
  string name;
  Poly p, p2;     // SQRT arg / DEN def / DEF def / ITE branches
  int cond = -1;  // ITE condition (B id)
  bool has_lo = false, has_hi = false;
  mpq_class lo, hi;
};
static vector<Atom> g_atoms;
static vector<std::shared_ptr<Poly>> g_vals;
static std::unordered_map<size_t, vector<int>> g_valhash;

static Poly pconst(const mpq_class &c) {
  Poly p;
  if (c != 0) p[Mono()] = c;
  return p;
}
static bool is_const(const Poly &p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
static mpq_class const_of(const Poly &p) { return p.empty() ? mpq_class(0) : p.begin()->second; }

static size_t phash(const Poly &p) {
  size_t h = 1469598103934665603ull;
  auto mix = [&](size_t x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; };
  for (auto &t : p) {
    for (auto &e : t.first) { mix(e.first * 31 + e.second); }
    mix(mpz_get_si(t.second.get_num_mpz_t()));
    mix(mpz_get_si(t.second.get_den_mpz_t()) * 7);
    mix(0x9e3779b97f4a7c15ull);
  }
  return h;
}

static void die_unsupported(const string &m);
static Poly padd(const Poly &a, const Poly &b, int sgn = 1) {
  Poly r = a;
  for (auto &t : b) {
    auto it = r.find(t.first);
    if (it == r.end()) r.emplace(t.first, sgn > 0 ? t.second : mpq_class(-t.second));
    else {
      if (sgn > 0) it->second += t.second; else it->second -= t.second;
      if (it->second == 0) r.erase(it);
    }
  }
  return r;
}
static Poly pscale(const Poly &a, const mpq_class &c) {
  Poly r;
  if (c == 0) return r;
  for (auto &t : a) r.emplace(t.first, t.second * c);
  return r;
}
static Mono mmul(const Mono &a, const Mono &b, int sb = 1) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, sb * b[j].second}); j++; }
    else {
      int e = a[i].second + sb * b[j].second;
      if (e) r.push_back({a[i].first, e});
      i++; j++;
    }
  }
  return r;
}
static Poly pmul_raw(const Poly &a, const Poly &b) {
  Poly r;
  for (auto &x : a)
    for (auto &y : b) {
      Mono m = mmul(x.first, y.first);
      mpq_class c = x.second * y.second;
      auto it = r.find(m);
      if (it == r.end()) r.emplace(std::move(m), c);
      else { it->second += c; if (it->second == 0) r.erase(it); }
    }
  return r;
}
static Poly ppow(const Poly &a, int k) {
  Poly r = pconst(1);
  for (int i = 0; i < k; i++) r = pmul_raw(r, a);
  return r;
}
// replace: positive powers of DEN atoms by their definition, s^2 by p for SQRT
static Poly pnormal(Poly p) {
  for (int guard = 0; guard < 1000; guard++) {
    bool again = false;
    for (auto it = p.begin(); it != p.end(); ++it) {
      for (size_t k = 0; k < it->first.size(); k++) {
        int a = it->first[k].first, e = it->first[k].second;
        if ((g_atoms[a].kind == A_DEN && e > 0) || (g_atoms[a].kind == A_SQRT && (e >= 2 || e <= -1))) {
          // rewrite all terms that carry this atom the same way
          Mono rest = it->first;
          mpq_class c = it->second;
          Poly sub;
          if (g_atoms[a].kind == A_DEN) {
            rest.erase(rest.begin() + k);
            sub = ppow(g_atoms[a].p, e);
          } else if (e >= 2) {
            int q = e / 2;
            if (e % 2) rest[k].second = 1; else rest.erase(rest.begin() + k);
            sub = ppow(g_atoms[a].p, q);
          } else { // 1/s = s/p when p is a monomial; otherwise leave
            const Poly &sp = g_atoms[a].p;
            if (sp.size() != 1) continue;
            int q = (-e + 1) / 2;             // s^e = s^(e+2q) / p^q
            int r = e + 2 * q;                // 0 or 1
            if (r) rest[k].second = r; else rest.erase(rest.begin() + k);
            Poly inv;
            Mono im;
            for (auto &ee : sp.begin()->first) im.push_back({ee.first, -ee.second});
            inv[im] = 1 / sp.begin()->second;
            sub = ppow(inv, q);
          }
          Poly one; one[rest] = c;
          p.erase(it);
          p = padd(p, pmul_raw(one, sub));
          again = true;
          break;
        }
      }
      if (again) break;
    }
    if (!again) return p;
  }
  return p;
}
static Poly pmul(const Poly &a, const Poly &b) { return pnormal(pmul_raw(a, b)); }

static bool has_kind(const Poly &p, AtomKind k) {
  for (auto &t : p) for (auto &e : t.first) if (g_atoms[e.first].kind == k) return true;
  return false;
}
// minimal exponents (content monomial); negative if there are inverse powers
static Mono content(const Poly &p) {
  std::map<int, int> mn;
  bool first = true;
  for (auto &t : p) {
    if (first) { for (auto &e : t.first) mn[e.first] = e.second; first = false; continue; }
    std::map<int, int> cur;
    for (auto &e : t.first) cur[e.first] = e.second;
    for (auto &kv : mn) { auto it = cur.find(kv.first); kv.second = std::min(kv.second, it == cur.end() ? 0 : it->second); }
    for (auto &kv : cur) if (!mn.count(kv.first)) mn[kv.first] = std::min(0, kv.second);
  }
  Mono m;
  for (auto &kv : mn) if (kv.second) m.push_back(kv);
  return m;
}
static Poly pdivmono(const Poly &p, const Mono &m, const mpq_class &c = 1) {
  Poly r;
  for (auto &t : p) r.emplace(mmul(t.first, m, -1), t.second / c);
  return r;
}
// exact division of polynomials without negative exponents (graded order via
// plain lexicographic map order on dense comparison)
static int mcmp_lex(const Mono &a, const Mono &b) {
  // lex with smaller atom index more significant
  size_t i = 0, j = 0;
  while (true) {
    if (i == a.size() && j == b.size()) return 0;
    if (j == b.size()) return a[i].second > 0 ? 1 : -1;
    if (i == a.size()) return b[j].second > 0 ? -1 : 1;
    if (a[i].first < b[j].first) return a[i].second > 0 ? 1 : -1;
    if (a[i].first > b[j].first) return b[j].second > 0 ? -1 : 1;
    if (a[i].second != b[j].second) return a[i].second > b[j].second ? 1 : -1;
    i++; j++;
  }
}
struct LexLess { bool operator()(const Mono &a, const Mono &b) const { return mcmp_lex(a, b) < 0; } };
static bool pdivexact(const Poly &num, const Poly &den, Poly &quot) {
  quot.clear();
  if (num.empty()) return true;
  if (num.size() > 4000) return false;
  std::map<Mono, mpq_class, LexLess> r(num.begin(), num.end());
  auto lead = den.begin();
  for (auto it = den.begin(); it != den.end(); ++it) if (mcmp_lex(lead->first, it->first) < 0) lead = it;
  long steps = 0;
  while (!r.empty()) {
    auto lt = std::prev(r.end());
    Mono q = mmul(lt->first, lead->first, -1);
    for (auto &e : q) if (e.second < 0) return false;
    mpq_class c = lt->second / lead->second;
    quot[q] = c;
    for (auto &t : den) {
      Mono m = mmul(t.first, q);
      mpq_class v = t.second * c;
      auto it = r.find(m);
      if (it == r.end()) r.emplace(std::move(m), -v);
      else { it->second -= v; if (it->second == 0) r.erase(it); }
    }
    if (++steps > 4000 || r.size() > 8000) return false;
  }
  return true;
}
// try to cancel DEN atoms: for each, if the part of p carrying the most
// negative power is divisible by the definition, cancel.
static Poly preduce(Poly p) {
  if (p.size() > 600) return p;
  bool again = true;
  int guard = 0;
  while (again && guard++ < 50) {
    again = false;
    std::map<int, int> dens;
    for (auto &t : p) for (auto &e : t.first)
      if (g_atoms[e.first].kind == A_DEN && e.second < 0) dens[e.first] = std::min(dens[e.first], e.second);
    for (auto &kv : dens) {
      Poly part, rest;
      for (auto &t : p) {
        bool in = false;
        for (auto &e : t.first) if (e.first == kv.first && e.second == kv.second) in = true;
        if (in) part.insert(t); else rest.insert(t);
      }
      Poly stripped = pdivmono(part, Mono{{kv.first, kv.second}});
      Mono c = content(stripped);
      Poly clean = pdivmono(stripped, c);
      Poly q;
      if (pdivexact(clean, g_atoms[kv.first].p, q)) {
        Poly back = pdivmono(q, mmul(Mono(), c, -1));
        Mono m{{kv.first, kv.second + 1}};
        if (kv.second + 1 != 0) back = pdivmono(back, mmul(Mono(), m, -1));
        p = pnormal(padd(rest, back));
        again = true;
        break;
      }
    }
  }
  return p;
}

// ---------------------------------------------------------------- values
static double to_double_if_exact(const mpq_class &c, bool &exact) {
  double d = c.get_d();
  exact = std::isfinite(d) && mpq_class(d) == c;
  return d;
}
static double mkval(Poly p) {
  if (is_const(p)) {
    bool ex;
    mpq_class c = const_of(p);
    double d = to_double_if_exact(c, ex);
    if (ex) return d;
  }
  if ((long)p.size() > g_max_terms) {
    // name the polynomial by a definition atom
    Atom a; a.kind = A_DEF; a.p = p; a.name = "def" + std::to_string(g_atoms.size());
    g_atoms.push_back(a);
    Poly q; q[Mono{{(int)g_atoms.size() - 1, 1}}] = 1;
    p = q;
  }
  size_t h = phash(p);
  for (int id : g_valhash[h]) if (*g_vals[id] == p) return mk(id);
  g_vals.push_back(std::make_shared<Poly>(std::move(p)));
  g_valhash[h].push_back((int)g_vals.size() - 1);
  return mk(g_vals.size() - 1);
}
static Poly topoly(double d) {
  if (is_sym(d)) return *g_vals[bits(d) & ~TAG_MASK];
  return pconst(mpq_class(d));
}

// ---------------------------------------------------------------- FP terms
struct FNode { string decl; bool input; string name; };
static vector<FNode> g_fn;
static std::map<string, int> g_fnhash;
static string fpconst(double d) {
  if (std::isnan(d)) return "(_ NaN 11 53)";
  char b[64];
  snprintf(b, sizeof b, "((_ to_fp 11 53) #x%016llx)", (unsigned long long)bits(d));
  return b;
}
static string fpref(double d) {
  if (is_sym(d)) return "f" + std::to_string(bits(d) & ~TAG_MASK);
  return fpconst(d);
}
static double mkfp(const string &expr) {
  auto it = g_fnhash.find(expr);
  if (it != g_fnhash.end()) return mk(it->second);
  int id = (int)g_fn.size();
  FNode n; n.input = false;
  n.decl = "(define-fun f" + std::to_string(id) + " () (_ FloatingPoint 11 53) " + expr + ")";
  g_fn.push_back(n);
  g_fnhash[expr] = id;
  return mk(id);
}

// ---------------------------------------------------------------- booleans
enum BKind { B_CONST, B_LIT, B_AND, B_OR, B_NOT, B_FP };
struct BNode { BKind k; bool v = false; int lit = -1; int mask = 0; int a = -1, b = -1; string s; };
static vector<BNode> g_b;
// canonical literal polynomials
static vector<Poly> g_lits;
static std::map<Poly, int> g_lithash;
static vector<int> g_known; // known sign mask per literal poly (1:-, 2:0, 4:+)

static int bconst(bool v) { BNode n; n.k = B_CONST; n.v = v; g_b.push_back(n); return g_b.size() - 1; }
static bool bis(int b, bool v) { return g_b[b].k == B_CONST && g_b[b].v == v; }

// clear denominators keeping the sign; result has no negative exponents
static Poly pclear(Poly p) {
  for (int guard = 0; guard < 200; guard++) {
    // highest-index DEN atom with a negative exponent first (definitions only
    // mention earlier atoms)
    int a = -1, mn = 0;
    std::map<int, int> neg;
    for (auto &t : p) for (auto &e : t.first) if (e.second < 0) neg[e.first] = std::min(neg[e.first], e.second);
    if (neg.empty()) return p;
    a = neg.rbegin()->first; mn = neg.rbegin()->second;
    int k = -mn;
    if (k % 2) k++;
    Poly mult; mult[Mono{{a, k}}] = 1;
    p = pnormal(pmul_raw(p, mult));
    if (g_atoms[a].kind == A_SQRT) { /* s^k handled by pnormal */ }
  }
  die_unsupported("pclear did not terminate");
  return p;
}
// returns literal index and sets flip if sign(p) = -sign(lit)
static int canon(const Poly &p0, bool &flip) {
  Poly p = pclear(p0);
  // drop even monomial content? sign of content matters; only strip squares
  if (p.size() >= 1) {
    Mono c = content(p), ev;
    for (auto &e : c) if (e.second >= 2) ev.push_back({e.first, e.second - (e.second % 2)});
    // x^2k content: sign(p)=sign(p/x^2k) unless x==0, keep one square
    for (auto &e : ev) e.second -= 2;
    Mono ev2; for (auto &e : ev) if (e.second > 0) ev2.push_back(e);
    if (!ev2.empty()) p = pdivmono(p, ev2);
  }
  flip = false;
  if (!p.empty()) {
    mpq_class c = p.rbegin()->second;
    if (c < 0) { flip = true; }
    mpq_class ac = abs(c);
    p = pscale(p, (flip ? mpq_class(-1) : mpq_class(1)) / ac);
  }
  auto it = g_lithash.find(p);
  if (it != g_lithash.end()) return it->second;
  int id = g_lits.size();
  g_lits.push_back(p);
  g_lithash[p] = id;
  g_known.push_back(7);
  return id;
}
static int flipmask(int m) { return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); }

static int mul_sign(int a, int b) {
  int r = 0;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
    if ((a >> i & 1) && (b >> j & 1)) { int s = (i - 1) * (j - 1); r |= 1 << (s + 1); }
  return r;
}
static int add_sign(int a, int b) {
  int r = 0;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
    if ((a >> i & 1) && (b >> j & 1)) {
      int x = i - 1, y = j - 1;
      if (x == 0) r |= 1 << (y + 1);
      else if (y == 0 || x == y) r |= 1 << (x + 1);
      else r |= 7;
    }
  return r;
}
static int atom_sign(int a) {
  Poly p; p[Mono{{a, 1}}] = 1;
  int m = 7;
  auto it = g_lithash.find(p);
  if (it != g_lithash.end()) m = g_known[it->second];
  const Atom &A = g_atoms[a];
  if (A.kind == A_SQRT) m &= 6;
  if (A.has_lo) { if (A.lo > 0) m &= 4; else if (A.lo == 0) m &= 6; }
  if (A.has_hi) { if (A.hi < 0) m &= 1; else if (A.hi == 0) m &= 3; }
  return m;
}
static int sign_of(int lit) {
  int m = g_known[lit];
  const Poly &p = g_lits[lit];
  if (p.empty()) return 2;
  if (p.size() > 200) return m;
  int tot = 2;
  for (auto &t : p) {
    int s = t.second > 0 ? 4 : 1;
    for (auto &e : t.first) {
      int as = atom_sign(e.first);
      if (e.second % 2 == 0) { // even power
        int r = 0;
        if (as & 5) r |= 4;
        if (as & 2) r |= 2;
        as = r;
      }
      s = mul_sign(s, as);
    }
    tot = add_sign(tot, s);
    if (tot == 7) break;
  }
  return m & tot;
}
// truth of a boolean that the path already decides: 1, 0 or -1
static int bknown(int b) {
  const BNode n = g_b[b];
  if (n.k == B_CONST) return n.v;
  if (n.k == B_LIT) { int sg = sign_of(n.lit); return (sg & ~n.mask) == 0 ? 1 : (sg & n.mask) == 0 ? 0 : -1; }
  if (n.k == B_NOT) { int v = bknown(n.a); return v < 0 ? v : !v; }
  if (n.k == B_AND || n.k == B_OR) {
    int x = bknown(n.a), y = bknown(n.b), stop = n.k == B_OR;
    if (x == stop || y == stop) return stop;
    return x < 0 || y < 0 ? -1 : !stop;
  }
  return -1;
}
// replace ite atoms whose condition the path decides by their branch
static Poly pite(Poly p) {
  std::set<int> left; // undecided, or in a denominator
  for (;;) {
    int a = -1;
    for (auto &t : p) for (auto &e : t.first) if (g_atoms[e.first].kind == A_ITE && !left.count(e.first) && e.first > a) a = e.first;
    if (a < 0) return p;
    left.insert(a);
    int v = bknown(g_atoms[a].cond);
    if (v < 0) continue;
    bool neg = false;
    for (auto &t : p) for (auto &e : t.first) if (e.first == a && e.second < 0) neg = true;
    if (neg) continue;
    const Poly br = v ? g_atoms[a].p : g_atoms[a].p2;
    Poly r;
    for (auto &t : p) {
      Mono rest;
      int k = 0;
      for (auto &e : t.first) if (e.first == a) k = e.second; else rest.push_back(e);
      Poly one; one[rest] = t.second;
      r = padd(r, k ? pmul(one, ppow(br, k)) : one);
    }
    p = pnormal(r);
  }
}
static int blit(const Poly &p0, int mask) {
  const Poly p = pite(p0);
  if (is_const(p)) {
    int s = sgn(const_of(p));
    return bconst(mask >> (s + 1) & 1);
  }
  bool flip;
  int l = canon(p, flip);
  if (is_const(g_lits[l])) {
    int s = sgn(const_of(g_lits[l])) * (flip ? -1 : 1);
    return bconst(mask >> (s + 1) & 1);
  }
  if (flip) mask = flipmask(mask);
  int sg = sign_of(l);
  if ((sg & ~mask) == 0) return bconst(true);
  if ((sg & mask) == 0) return bconst(false);
  BNode n; n.k = B_LIT; n.lit = l; n.mask = mask;
  g_b.push_back(n);
  return g_b.size() - 1;
}
static int bfp(const string &s) { BNode n; n.k = B_FP; n.s = s; g_b.push_back(n); return g_b.size() - 1; }

// ---------------------------------------------------------------- SMT text
static string q2s(const mpq_class &c) {
  string s;
  mpz_class n = abs(c.get_num());
  s = n.get_str() + ".0";
  if (c.get_den() != 1) s = "(/ " + s + " " + c.get_den().get_str() + ".0)";
  if (c < 0) s = "(- " + s + ")";
  return s;
}
static string aname(int a) { return "a" + std::to_string(a); }
static string p2s(const Poly &p) {
  if (p.empty()) return "0.0";
  vector<string> ts;
  for (auto &t : p) {
    vector<string> num, den;
    for (auto &e : t.first) for (int k = 0; k < std::abs(e.second); k++) (e.second > 0 ? num : den).push_back(aname(e.first));
    string s;
    if (num.empty() && den.empty()) s = q2s(t.second);
    else {
      if (t.second != 1 || num.empty()) num.insert(num.begin(), q2s(t.second));
      if (num.size() == 1) s = num[0];
      else { s = "(*"; for (auto &x : num) s += " " + x; s += ")"; }
      if (!den.empty()) {
        string d;
        if (den.size() == 1) d = den[0]; else { d = "(*"; for (auto &x : den) d += " " + x; d += ")"; }
        s = "(/ " + s + " " + d + ")";
      }
    }
    ts.push_back(s);
  }
  if (ts.size() == 1) return ts[0];
  string r = "(+";
  for (auto &x : ts) r += " " + x;
  return r + ")";
}

static vector<string> g_decls;       // everything declared so far, in order
static std::set<int> g_declared;
static size_t g_fpdeclared = 0;
static string b2s(int b, bool neg, double margin);
static void collect_b(int b);

static void declare_atom(int a);
static void declare_poly(const Poly &p) {
  for (auto &t : p) for (auto &e : t.first) declare_atom(e.first);
}
static void emit(const string &s) { g_decls.push_back(s); }
static void declare_atom(int a) {
  if (!g_declared.insert(a).second) return;
  // copy: g_atoms may grow
  Atom A = g_atoms[a];
  if (A.kind != A_INPUT) { declare_poly(A.p); declare_poly(A.p2); if (A.cond >= 0) collect_b(A.cond); }
  emit("(declare-const " + aname(a) + " Real)");
  switch (A.kind) {
  case A_INPUT:
    if (A.has_lo) emit("(assert (>= " + aname(a) + " " + q2s(A.lo) + "))");
    if (A.has_hi) emit("(assert (<= " + aname(a) + " " + q2s(A.hi) + "))");
    break;
  case A_SQRT:
    emit("(assert (>= " + aname(a) + " 0.0))");
    emit("(assert (= (* " + aname(a) + " " + aname(a) + ") " + p2s(A.p) + "))");
    break;
  case A_DEN: case A_DEF:
    emit("(assert (= " + aname(a) + " " + p2s(A.p) + "))");
    break;
  case A_ITE:
    emit("(assert (ite " + b2s(A.cond, false, 0) + " (= " + aname(a) + " " + p2s(A.p) + ") (= " + aname(a) + " " + p2s(A.p2) + ")))");
    break;
  }
}
static void collect_b(int b) {
  BNode n = g_b[b];
  if (n.k == B_LIT) declare_poly(g_lits[n.lit]);
  if (n.a >= 0) collect_b(n.a);
  if (n.b >= 0) collect_b(n.b);
}
static string lit2s(int lit, int mask, double margin) {
  const Poly &p = g_lits[lit];
  string z = "0.0", s = p2s(p);
  string e = "0.0", me = "0.0";
  if (margin > 0) { e = q2s(mpq_class(margin)); me = "(- " + e + ")"; }
  switch (mask) {
  case 0: return "false";
  case 1: return margin > 0 ? "(<= " + s + " " + me + ")" : "(< " + s + " 0.0)";
  case 2: return "(= " + s + " 0.0)";
  case 3: return "(<= " + s + " 0.0)";
  case 4: return margin > 0 ? "(>= " + s + " " + e + ")" : "(> " + s + " 0.0)";
  case 5: return margin > 0 ? "(or (<= " + s + " " + me + ") (>= " + s + " " + e + "))" : "(not (= " + s + " 0.0))";
  case 6: return "(>= " + s + " 0.0)";
  default: return "true";
  }
}
static string b2s(int b, bool neg, double margin) {
  const BNode n = g_b[b];
  switch (n.k) {
  case B_CONST: return (n.v != neg) ? "true" : "false";
  case B_LIT: return lit2s(n.lit, neg ? (7 & ~n.mask) : n.mask, margin);
  case B_FP: return neg ? "(not " + n.s + ")" : n.s;
  case B_NOT: return b2s(n.a, !neg, margin);
  case B_AND: return string(neg ? "(or " : "(and ") + b2s(n.a, neg, margin) + " " + b2s(n.b, neg, margin) + ")";
  case B_OR: return string(neg ? "(and " : "(or ") + b2s(n.a, neg, margin) + " " + b2s(n.b, neg, margin) + ")";
  }
  return "true";
}

// ---------------------------------------------------------------- statistics / report of one path
struct Stats {
  long queries = 0, unknown = 0, feas = 0, obl = 0, obl_triv = 0, obl_smt = 0, obl_unk = 0, viol = 0, obl_skip = 0;
  double solver_s = 0;
  long decisions = 0;
} g_st;
static FILE *g_rep = nullptr;
static string jstr(const string &s) {
  string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) { r += ' '; }
    else r += c;
  }
  return r + "\"";
}
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- solver process
struct Proc {
  pid_t pid = -1;
  int in = -1, out = -1;
  string buf;
  bool start(const vector<string> &argv) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) return false;
    pid = fork();
    if (pid == 0) {
      dup2(a[0], 0); dup2(b[1], 1);
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
      close(a[0]); close(a[1]); close(b[0]); close(b[1]);
      alarm(0);
      vector<char *> av;
      for (auto &s : argv) av.push_back(const_cast<char *>(s.c_str()));
      av.push_back(nullptr);
      execvp(av[0], av.data());
      _exit(127);
    }
    close(a[0]); close(b[1]);
    in = a[1]; out = b[0];
    return pid > 0;
  }
  void send(const string &s) {
    size_t o = 0;
    string t = s + "\n";
    while (o < t.size()) {
      ssize_t k = write(in, t.data() + o, t.size() - o);
      if (k <= 0) return;
      o += k;
    }
  }
  // read one line; false on eof / timeout
  bool line(string &l, int ms) {
    double end = now() + ms / 1000.0;
    while (true) {
      size_t p = buf.find('\n');
      if (p != string::npos) { l = buf.substr(0, p); buf.erase(0, p + 1); return true; }
      int left = (int)((end - now()) * 1000);
      if (left <= 0) return false;
      struct pollfd f{out, POLLIN, 0};
      int r = poll(&f, 1, left);
      if (r <= 0) return false;
      char tmp[65536];
      ssize_t k = read(out, tmp, sizeof tmp);
      if (k <= 0) return false;
      buf.append(tmp, k);
    }
  }
  void stop() {
    if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); close(in); close(out); pid = -1; buf.clear(); }
  }
};
static Proc g_solver;
static size_t g_sent = 0;                  // g_decls sent
static vector<int> g_pc;                   // asserted booleans
static size_t g_pcsent = 0;

static void declare_for(int b) {
  collect_b(b);
  if (g_fp) while (g_fpdeclared < g_fn.size()) {
    const FNode &f = g_fn[g_fpdeclared];
    emit(f.decl);
    g_fpdeclared++;
  }
}
static void solver_sync() {
  if (g_solver.pid < 0) {
    g_solver.start({g_z3, "-in", "-smt2"});
    g_solver.send("(set-option :pp.decimal true)(set-option :pp.decimal_precision 20)");
    g_sent = 0; g_pcsent = 0;
  }
  for (int b : g_pc) collect_b(b);
  if (g_fp) declare_for(g_b.empty() ? bconst(true) : 0);
  while (g_sent < g_decls.size()) g_solver.send(g_decls[g_sent++]);
  while (g_pcsent < g_pc.size()) g_solver.send("(assert " + b2s(g_pc[g_pcsent++], false, 0) + ")");
}
enum Res { SAT, UNSAT, UNK };
static Res read_res(Proc &p, int ms) {
  string l;
  while (p.line(l, ms)) {
    if (l == "sat") return SAT;
    if (l == "unsat") return UNSAT;
    if (l == "unknown" || l == "timeout") return UNK;
    if (l.find("(error") != string::npos) { fprintf(stderr, "solver: %s\n", l.c_str()); return UNK; }
  }
  return UNK;
}
// query: extra assertions under push/pop in the incremental solver
static Res query(const vector<string> &extra, int ms, vector<string> *getvals = nullptr, vector<string> *vals = nullptr) {
  double t0 = now();
  solver_sync();
  g_st.queries++;
  string s = "(push 1)(set-option :timeout " + std::to_string(ms) + ")";
  for (auto &e : extra) s += "(assert " + e + ")";
  s += "(check-sat)";
  g_solver.send(s);
  Res r = read_res(g_solver, ms + 3000);
  bool dead = false;
  if (r == UNK) {
    // make sure the solver is responsive
    g_solver.send("(echo \"sync\")");
    string l; bool ok = false;
    while (g_solver.line(l, 3000)) if (l.find("sync") != string::npos) { ok = true; break; }
    if (!ok) { g_solver.stop(); dead = true; }
  }
  if (r == SAT && getvals) {
    vals->clear();
    for (auto &v : *getvals) {
      g_solver.send("(get-value (" + v + "))(echo \"@@\")");
      string l, acc;
      while (g_solver.line(l, 5000)) { if (l.find("@@") != string::npos) break; acc += l + " "; }
      vals->push_back(acc);
    }
  }
  if (!dead) g_solver.send("(pop 1)");
  g_st.solver_s += now() - t0;
  if (r == UNK) g_st.unknown++;
  return r;
}
// one-shot portfolio for an undecided query
static string full_script(const vector<string> &extra, const string &logic, const string &check) {
  string s = "(set-logic " + logic + ")\n";
  for (auto &d : g_decls) s += d + "\n";
  for (int b : g_pc) s += "(assert " + b2s(b, false, 0) + ")\n";
  for (auto &e : extra) s += "(assert " + e + ")\n";
  return s + check + "\n";
}
static Res portfolio(const vector<string> &extra, int ms) {
  double t0 = now();
  for (int b : g_pc) collect_b(b);
  vector<std::pair<vector<string>, string>> runs;
  if (!g_fp) {
    runs.push_back({{g_z3, "-in", "-smt2"}, full_script(extra, "QF_NRA", "(check-sat-using (then simplify solve-eqs simplify qfnra-nlsat))")});
    runs.push_back({{g_z3, "-in", "-smt2"}, full_script(extra, "QF_NRA", "(check-sat)")});
    runs.push_back({{"cvc5", "--lang=smt2", "--nl-cov"}, full_script(extra, "QF_NRA", "(check-sat)")});
  } else {
    runs.push_back({{g_z3, "-in", "-smt2"}, full_script(extra, "QF_FP", "(check-sat)")});
    runs.push_back({{"cvc5", "--lang=smt2"}, full_script(extra, "QF_FP", "(check-sat)")});
  }
  Res res = UNK;
  vector<std::unique_ptr<Proc>> ps;
  for (auto &r : runs) {
    auto p = std::make_unique<Proc>();
    p->start(r.first);
    p->send(r.second);
    close(p->in); p->in = open("/dev/null", O_WRONLY);
    ps.push_back(std::move(p));
    g_st.queries++;
  }
  double end = now() + ms / 1000.0;
  size_t alive = ps.size();
  vector<bool> done(ps.size(), false);
  while (res == UNK && alive && now() < end) {
    for (size_t i = 0; i < ps.size(); i++) {
      if (done[i]) continue;
      string l;
      if (ps[i]->line(l, 50)) {
        if (l == "sat") res = SAT;
        else if (l == "unsat") res = UNSAT;
        else if (l == "unknown" || l.find("(error") != string::npos) { done[i] = true; alive--; }
      } else {
        int st;
        if (ps[i]->pid > 0 && waitpid(ps[i]->pid, &st, WNOHANG) == ps[i]->pid) {
          string l2;
          while (ps[i]->line(l2, 1)) { if (l2 == "sat") res = SAT; if (l2 == "unsat") res = UNSAT; }
          ps[i]->pid = -1; done[i] = true; alive--;
        }
      }
      if (res != UNK) break;
    }
  }
  for (auto &p : ps) { if (p->pid > 0) p->stop(); else { close(p->in); close(p->out); } }
  g_st.solver_s += now() - t0;
  return res;
}

// ---------------------------------------------------------------- path state
static vector<int> g_prefix, g_dec;
static vector<vector<int>> g_alts;
struct In { string name; int atom; bool fp; int fid; };
static vector<In> g_inputs;
static vector<std::pair<string, int>> g_choices;
static std::map<string, int> g_namecount;
static int g_candcount = 0;
static string g_pathname;
static vector<string> g_reached;

[[noreturn]] static void path_end(const string &status, const string &msg);
static void die_unsupported(const string &m) { path_end("unsupported", m); }

static string uniq(const char *name) {
  string n = name;
  for (char &c : n) if (isspace((unsigned char)c) || c == '"' || c == '|') c = '_';
  int k = g_namecount[n]++;
  return k ? n + "#" + std::to_string(k) : n;
}

static void learn(int b) { // record sign knowledge from an asserted boolean
  const BNode n = g_b[b];
  if (n.k == B_LIT) g_known[n.lit] &= n.mask;
  else if (n.k == B_AND) { learn(n.a); learn(n.b); }
  else if (n.k == B_NOT && g_b[n.a].k == B_LIT) g_known[g_b[n.a].lit] &= ~g_b[n.a].mask;
  else if (n.k == B_NOT && g_b[n.a].k == B_OR) {
    BNode o = g_b[n.a];
    BNode x; x.k = B_NOT; x.a = o.a; g_b.push_back(x); learn(g_b.size() - 1);
    x.a = o.b; g_b.push_back(x); learn(g_b.size() - 1);
  }
}
static int bnot(int a) {
  if (g_b[a].k == B_CONST) return bconst(!g_b[a].v);
  if (g_b[a].k == B_NOT) return g_b[a].a;
  if (g_b[a].k == B_LIT) { BNode n = g_b[a]; n.mask = 7 & ~n.mask; g_b.push_back(n); return g_b.size() - 1; }
  BNode n; n.k = B_NOT; n.a = a; g_b.push_back(n); return g_b.size() - 1;
}
static void assert_pc(int b) { g_pc.push_back(b); learn(b); }
// second run of a path that died without a report (heap corruption): write a
// model of the path condition and the open alternatives at every decision
static bool g_eager = false;
static string g_eagerfile;
static void eager_dump();

static int take(int n, const std::function<bool(int)> &feasible, const std::function<void(int)> &commit) {
  g_st.decisions++;
  size_t k = g_dec.size();
  if (k < g_prefix.size()) {
    int d = g_prefix[k];
    g_dec.push_back(d);
    commit(d);
    if (g_eager && g_dec.size() == g_prefix.size()) eager_dump();
    return d;
  }
  int first = -1;
  for (int i = 0; i < n; i++) {
    if (!feasible(i)) continue;
    if (first < 0) first = i;
    else { vector<int> alt = g_dec; alt.push_back(i); g_alts.push_back(alt); }
  }
  if (first < 0) path_end("infeasible", "");
  g_dec.push_back(first);
  if (g_dec.size() > 20000) path_end("toolong", "decision limit");
  commit(first);
  if (g_eager) eager_dump();
  return first;
}
// decide a boolean on this path
static bool decide(int b) {
  if (g_b[b].k == B_CONST) return g_b[b].v;
  int nb = bnot(b);
  Res rt = UNK; bool have = false;
  int d = take(2,
    [&](int i) {
      if (i == 0) {
        declare_for(b);
        rt = query({b2s(b, false, 0)}, g_feas_ms); have = true;
        return rt != UNSAT;
      }
      if (have && rt == UNSAT) return true; // path itself is feasible
      declare_for(b);
      return query({b2s(b, true, 0)}, g_feas_ms) != UNSAT;
    },
    [&](int i) { assert_pc(i == 0 ? b : nb); });
  if (g_trace) fprintf(stderr, "decide %s -> %d\n", b2s(b, false, 0).substr(0, 300).c_str(), d == 0);
  return d == 0;
}

// ---------------------------------------------------------------- models -> candidate files
static bool parse_real(const string &s0, double &out) {
  // "((a3 (- 1.25?)))" or "((a3 (/ 1.0 3.0)))" -> evaluate
  size_t p = s0.find(' ');
  if (p == string::npos) return false;
  string s = s0.substr(p + 1);
  size_t i = 0;
  std::function<bool(double &)> expr = [&](double &v) -> bool {
    while (i < s.size() && s[i] == ' ') i++;
    if (i >= s.size()) return false;
    if (s[i] == '(') {
      i++;
      while (s[i] == ' ') i++;
      char op = s[i++];
      vector<double> a;
      while (true) {
        while (i < s.size() && s[i] == ' ') i++;
        if (i >= s.size()) return false;
        if (s[i] == ')') { i++; break; }
        double x; if (!expr(x)) return false;
        a.push_back(x);
      }
      if (op == '-') { v = a.size() == 1 ? -a[0] : a[0] - a[1]; return true; }
      if (op == '/' && a.size() == 2) { v = a[0] / a[1]; return true; }
      if (op == '+') { v = 0; for (double x : a) v += x; return true; }
      if (op == '*') { v = 1; for (double x : a) v *= x; return true; }
      return false;
    }
    size_t j = i;
    while (j < s.size() && s[j] != ' ' && s[j] != ')' && s[j] != '?') j++;
    string t = s.substr(i, j - i);
    char *e; v = strtod(t.c_str(), &e);
    if (e == t.c_str()) return false;
    i = j;
    if (i < s.size() && s[i] == '?') i++;
    return true;
  };
  return expr(out);
}
static bool parse_fp(const string &s0, double &out) {
  if (s0.find("NaN") != string::npos) { out = NAN; return true; }
  if (s0.find("+oo") != string::npos) { out = INFINITY; return true; }
  if (s0.find("-oo") != string::npos) { out = -INFINITY; return true; }
  if (s0.find("+zero") != string::npos) { out = 0.0; return true; }
  if (s0.find("-zero") != string::npos) { out = -0.0; return true; }
  size_t p = s0.find("(fp ");
  if (p == string::npos) return false;
  uint64_t u = 0;
  string s = s0.substr(p + 4);
  size_t i = 0;
  while (i < s.size() && s[i] != ')') {
    if (s[i] == '#' && s[i + 1] == 'b') { i += 2; while (s[i] == '0' || s[i] == '1') u = (u << 1) | (s[i++] - '0'); }
    else if (s[i] == '#' && s[i + 1] == 'x') { i += 2; while (isxdigit(s[i])) { int c = s[i++]; u = (u << 4) | (isdigit(c) ? c - '0' : tolower(c) - 'a' + 10); } }
    else i++;
  }
  out = dbl(u);
  return true;
}
static string write_cand(const vector<double> &vals, const string &tag) {
  string fn = g_dir + "/" + tag + "_" + g_pathname + "_" + std::to_string(g_candcount++) + ".txt";
  FILE *f = fopen(fn.c_str(), "w");
  for (auto &c : g_choices) fprintf(f, "choice %s %d\n", c.first.c_str(), c.second);
  for (size_t i = 0; i < g_inputs.size(); i++) fprintf(f, "real %s %.17g\n", g_inputs[i].name.c_str(), vals[i]);
  for (auto &p : g_params) fprintf(f, "param %s %d\n", p.first.c_str(), p.second);
  if (g_fp) fprintf(f, "fp\n");
  fclose(f);
  return fn;
}
static Res get_model(const vector<string> &extra, int ms, vector<double> &vals) {
  for (auto &in : g_inputs) if (!in.fp) declare_atom(in.atom);
  vector<string> names, out;
  for (auto &in : g_inputs) names.push_back(in.fp ? "f" + std::to_string(in.fid) : aname(in.atom));
  Res r = query(extra, ms, &names, &out);
  if (r != SAT) return r;
  vals.clear();
  for (size_t i = 0; i < names.size(); i++) {
    double v = 0;
    bool ok = i < out.size() && (g_inputs[i].fp ? parse_fp(out[i], v) : parse_real(out[i], v));
    if (!ok) v = 0;
    vals.push_back(v);
  }
  return SAT;
}
static vector<string> margin_extra(int level) {
  vector<string> ex;
  if (g_fp) return ex;
  double bound = level == 0 ? 8 : level == 1 ? 256 : 0;
  double mpc = level == 0 ? 1.0 / 16 : level == 1 ? 1.0 / 4096 : 0;
  if (bound > 0) for (auto &in : g_inputs) {
    const Atom &A = g_atoms[in.atom];
    if (!(A.has_hi && A.hi > bound) && !(A.has_lo && A.lo > bound)) ex.push_back("(<= " + aname(in.atom) + " " + q2s(mpq_class(bound)) + ")");
    if (!(A.has_lo && A.lo < -bound) && !(A.has_hi && A.hi < -bound)) ex.push_back("(>= " + aname(in.atom) + " " + q2s(mpq_class(-bound)) + ")");
  }
  if (mpc > 0) for (int b : g_pc) ex.push_back(b2s(b, false, mpc));
  return ex;
}
// fix a share of the inputs to pseudo-random small values, so that looking for
// a model of a high-degree constraint becomes easy
static void guess_extra(int k, vector<string> &ex) {
  static const double vals[] = {1.5, -0.75, 2, 0.5, -1.25, 3, -2, 0.375, 1, -0.5, 2.5, -1.75};
  uint64_t h = 0x9E3779B97F4A7C15ull * (k + 1);
  for (auto &in : g_inputs) {
    if (in.fp) continue;
    h ^= h << 13; h ^= h >> 7; h ^= h << 17;
    if ((int)(h % 100) >= 100 - 22 * k) continue;
    const Atom &A = g_atoms[in.atom];
    mpq_class v = vals[(h >> 20) % 12];
    if (A.has_lo && v < A.lo) v = A.has_hi ? mpq_class((A.lo + A.hi) / 2) : mpq_class(A.lo + abs(v));
    else if (A.has_hi && v > A.hi) v = A.has_lo ? mpq_class((A.lo + A.hi) / 2) : mpq_class(A.hi - abs(v));
    ex.push_back("(= " + aname(in.atom) + " " + q2s(v) + ")");
  }
}
static bool guess_candidates(int b, const string &tag, vector<string> &files) {
  if (g_fp) return false;
  for (auto &in : g_inputs) if (!in.fp) declare_atom(in.atom);
  for (int k = 0; k < 4; k++) {
    vector<string> ex = margin_extra(k < 2 ? 0 : 1);
    if (b >= 0) ex.push_back(b2s(b, true, k < 2 ? 1.0 / 16 : 1.0 / 4096));
    guess_extra(k, ex);
    vector<double> v;
    if (get_model(ex, 1000, v) == SAT) { files.push_back(write_cand(v, tag)); return true; }
  }
  return false;
}
// find concrete inputs on this path that violate b (b<0: any model of the path)
static vector<string> candidates(int b, const string &tag) {
  vector<string> files;
  if (guess_candidates(b, tag, files)) return files;
  for (auto &in : g_inputs) if (!in.fp) declare_atom(in.atom);
  for (int level = 0; level < (g_fp ? 1 : 3); level++) {
    vector<string> ex = margin_extra(level);
    if (b >= 0) ex.push_back(b2s(b, true, level == 0 ? 1.0 / 16 : level == 1 ? 1.0 / 4096 : 0));
    vector<double> v;
    if (get_model(ex, level == 2 ? g_obl_ms : std::min(g_obl_ms, 5000), v) == SAT) { files.push_back(write_cand(v, tag)); if (level == 0 && b >= 0) break; }
  }
  return files;
}

// counts per label, shared by all paths: once a label has failed on a dozen
// paths further failures of it need not be enumerated
struct LabelCount { uint64_t h; int viol, undec; };
static LabelCount *g_labels = nullptr;
static const int g_nlabels = 8192;
static LabelCount *label_slot(const char *label) {
  static LabelCount dummy;
  if (!g_labels) return &dummy;
  uint64_t h = std::hash<string>()(label) | 1;
  for (int i = 0; i < 64; i++) {
    LabelCount *c = &g_labels[(h + i) % g_nlabels];
    uint64_t z = 0;
    if (__atomic_compare_exchange_n(&c->h, &z, h, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) || z == h) return c;
  }
  dummy = LabelCount();
  return &dummy;
}
// candidates for a failure that ends the path (crash, exception, ...)
static vector<string> end_candidates(const char *label) {
  LabelCount *lc = label_slot(label);
  if (__atomic_add_fetch(&lc->viol, 1, __ATOMIC_SEQ_CST) > 12 && !g_trace) return {};
  return candidates(-1, "cand");
}
static void rep_obl(const string &label, const string &status, const vector<string> &cands = {}, const string &smt = "") {
  string s = "{\"t\":\"obl\",\"label\":" + jstr(label) + ",\"status\":\"" + status + "\"";
  if (!cands.empty()) {
    s += ",\"cands\":[";
    for (size_t i = 0; i < cands.size(); i++) s += (i ? "," : "") + jstr(cands[i]);
    s += "]";
  }
  if (!smt.empty()) s += ",\"smt\":" + jstr(smt);
  fprintf(g_rep, "%s}\n", s.c_str());
  fflush(g_rep);
}

static bool g_want_witness = false;
[[noreturn]] static void path_end(const string &status, const string &msg) {
  static bool in = false;
  if (!in) {
    in = true;
    string wit;
    if (g_want_witness && status == "done" && (!g_inputs.empty() || !g_choices.empty())) {
      vector<double> v;
      for (int level = 0; level < 2; level++) {
        auto ex = margin_extra(level);
        if (get_model(ex, 3000, v) == SAT) { wit = write_cand(v, "wit"); break; }
      }
    }
    string s = "{\"t\":\"path\",\"status\":" + jstr(status) + ",\"msg\":" + jstr(msg) + ",\"dec\":[";
    for (size_t i = 0; i < g_dec.size(); i++) s += (i ? "," : "") + std::to_string(g_dec[i]);
    s += "],\"choices\":[";
    for (size_t i = 0; i < g_choices.size(); i++) s += (i ? "," : "") + jstr(g_choices[i].first + "=" + std::to_string(g_choices[i].second));
    s += "],\"reach\":[";
    for (size_t i = 0; i < g_reached.size(); i++) s += (i ? "," : "") + jstr(g_reached[i]);
    s += "]";
    if (!wit.empty()) s += ",\"wit\":" + jstr(wit);
    char b[512];
    snprintf(b, sizeof b, ",\"queries\":%ld,\"unknown\":%ld,\"obl\":%ld,\"triv\":%ld,\"smt\":%ld,\"undec\":%ld,\"viol\":%ld,\"solver_s\":%.3f,\"pc\":%zu,\"inputs\":%zu}",
             g_st.queries, g_st.unknown, g_st.obl, g_st.obl_triv, g_st.obl_smt, g_st.obl_unk, g_st.viol, g_st.solver_s, g_pc.size(), g_inputs.size());
    fprintf(g_rep, "%s%s\n", s.c_str(), b);
    for (auto &a : g_alts) {
      fprintf(g_rep, "A");
      for (int d : a) fprintf(g_rep, " %d", d);
      fprintf(g_rep, "\n");
    }
    fflush(g_rep);
  }
  g_solver.stop();
  _exit(0);
}

static void eager_dump() {
  for (auto &a : g_alts) {
    fprintf(g_rep, "A");
    for (int d : a) fprintf(g_rep, " %d", d);
    fprintf(g_rep, "\n");
  }
  g_alts.clear();
  fflush(g_rep);
  vector<string> c = candidates(-1, "cand");
  FILE *f = fopen(g_eagerfile.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"t\":\"obl\",\"label\":\"__crash_died\",\"status\":\"violated\",\"cands\":[");
  for (size_t i = 0; i < c.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(c[i]).c_str());
  fprintf(f, "]}\n");
  fclose(f);
}

// ---------------------------------------------------------------- harness API
extern "C" {
int sx_is_native(void) { return 0; }
int sx_fp_mode(void) { return g_fp; }
int sx_is_sym(double x) { return is_sym(x); }
int sx_int_param(const char *name, int dflt) {
  auto it = g_params.find(name);
  return it == g_params.end() ? dflt : it->second;
}
void sx_set_branch_abs(int on) { g_branch_abs = on; }
void sx_tol(double) {}
void sx_note(const char *m) { if (g_trace) fprintf(stderr, "note: %s\n", m); }
void sx_reach(const char *l) { g_reached.push_back(l); }
void sx_stop(void) { path_end("stopped", ""); }
void sx_print(const char *l, double x) {
  if (!g_trace) return;
  if (is_poison(x)) fprintf(stderr, "%s = <uninit>\n", l);
  else if (is_sym(x)) {
    if (g_fp) fprintf(stderr, "%s = %s\n", l, g_fn[bits(x) & ~TAG_MASK].decl.c_str());
    else { string s = p2s(topoly(x)); if (s.size() > 600) s = s.substr(0, 600) + "..."; fprintf(stderr, "%s = %s\n", l, s.c_str()); }
  } else fprintf(stderr, "%s = %.17g\n", l, x);
}
double sx_real_c(const char *name, int has_lo, double lo, int has_hi, double hi) {
  string n = uniq(name);
  if (g_fp) {
    int id = g_fn.size();
    FNode f; f.input = true; f.name = n;
    f.decl = "(declare-const f" + std::to_string(id) + " (_ FloatingPoint 11 53))";
    g_fn.push_back(f);
    g_inputs.push_back({n, -1, true, id});
    double d = mk(id);
    // without bounds: any double including infinities; never NaN
    assert_pc(bfp("(not (fp.isNaN " + fpref(d) + "))"));
    if (has_lo) assert_pc(bfp("(fp.leq " + fpref(lo) + " " + fpref(d) + ")"));
    if (has_hi) assert_pc(bfp("(fp.leq " + fpref(d) + " " + fpref(hi) + ")"));
    return d;
  }
  Atom a; a.kind = A_INPUT; a.name = n;
  a.has_lo = has_lo; a.has_hi = has_hi;
  if (has_lo) a.lo = mpq_class(lo);
  if (has_hi) a.hi = mpq_class(hi);
  g_atoms.push_back(a);
  g_inputs.push_back({n, (int)g_atoms.size() - 1, false, -1});
  Poly p; p[Mono{{(int)g_atoms.size() - 1, 1}}] = 1;
  return mkval(p);
}
int sx_choice_c(const char *name, int n) {
  string nm = uniq(name);
  int d = take(n, [](int) { return true; }, [](int) {});
  g_choices.push_back({nm, d});
  return d;
}
int sx_b_const(int v) { return bconst(v); }
static int cmpb(double a, double b, int mask, const char *fpop, bool concrete) {
  if (is_poison(a) || is_poison(b)) return bconst(false);
  if (!is_sym(a) && !is_sym(b)) return bconst(concrete);
  if (g_fp) return bfp(string("(") + fpop + " " + fpref(a) + " " + fpref(b) + ")");
  if (std::isnan(a) && !is_sym(a)) return bconst(false);
  if (std::isnan(b) && !is_sym(b)) return bconst(false);
  if (!is_sym(a) && std::isinf(a)) return bconst(mask >> ((a > 0 ? 1 : -1) + 1) & 1);
  if (!is_sym(b) && std::isinf(b)) return bconst(mask >> ((b > 0 ? -1 : 1) + 1) & 1);
  return blit(padd(topoly(a), topoly(b), -1), mask);
}
int sx_b_lt(double a, double b) { return cmpb(a, b, 1, "fp.lt", a < b); }
int sx_b_le(double a, double b) { return cmpb(a, b, 3, "fp.leq", a <= b); }
int sx_b_eq(double a, double b) { return cmpb(a, b, 2, "fp.eq", a == b); }
int sx_b_and(int a, int b) {
  if (bis(a, false) || bis(b, false)) return bconst(false);
  if (bis(a, true)) return b;
  if (bis(b, true)) return a;
  BNode n; n.k = B_AND; n.a = a; n.b = b; g_b.push_back(n); return g_b.size() - 1;
}
int sx_b_or(int a, int b) {
  if (bis(a, true) || bis(b, true)) return bconst(true);
  if (bis(a, false)) return b;
  if (bis(b, false)) return a;
  BNode n; n.k = B_OR; n.a = a; n.b = b; g_b.push_back(n); return g_b.size() - 1;
}
int sx_b_not(int a) { return bnot(a); }
void sx_assume_b(int b) {
  if (bis(b, true)) return;
  if (bis(b, false)) path_end("assume", "");
  declare_for(b);
  if (g_dec.size() >= g_prefix.size())
    if (query({b2s(b, false, 0)}, g_feas_ms) == UNSAT) path_end("assume", "");
  assert_pc(b);
}
void sx_check_b(const char *label, int b) {
  g_st.obl++;
  if (bis(b, true)) { g_st.obl_triv++; return; }
  LabelCount *lc = label_slot(label);
  if (lc->viol >= 12 && !g_trace) { g_st.obl_skip++; return; }
  declare_for(b);
  if (bis(b, false)) {
    // violated for every input of this path, provided the path is feasible
    Res r = g_pc.empty() ? SAT : query({}, g_obl_ms);
    if (r == UNSAT) path_end("infeasible", "");
    __atomic_add_fetch(&lc->viol, 1, __ATOMIC_SEQ_CST);
    g_st.viol++;
    rep_obl(label, "violated", candidates(-1, "cand"));
    return;
  }
  int q1 = std::min(1500, g_obl_ms / 2);
  Res r = query({b2s(b, true, 0)}, q1);
  if (r == UNK) {
    vector<string> g;
    if (guess_candidates(b, "cand", g)) {
      __atomic_add_fetch(&lc->viol, 1, __ATOMIC_SEQ_CST);
      g_st.viol++;
      rep_obl(label, "violated", g);
      return;
    }
    if (g_obl_ms / 2 > q1) r = query({b2s(b, true, 0)}, g_obl_ms / 2);
  }
  if (r == UNK) r = portfolio({b2s(b, true, 0)}, g_obl_ms);
  if (r == UNSAT) { g_st.obl_smt++; return; }
  if (r == SAT) {
    __atomic_add_fetch(&lc->viol, 1, __ATOMIC_SEQ_CST);
    g_st.viol++;
    rep_obl(label, "violated", candidates(b, "cand"));
    return;
  }
  g_st.obl_unk++;
  // still look for a counterexample at bounded magnitude
  vector<string> c;
  if (__atomic_add_fetch(&lc->undec, 1, __ATOMIC_SEQ_CST) <= 6) c = candidates(b, "cand");
  string fn = g_dir + "/undec_" + g_pathname + "_" + std::to_string(g_candcount++) + ".smt2";
  FILE *f = fopen(fn.c_str(), "w");
  fputs(full_script({b2s(b, true, 0)}, g_fp ? "QF_FP" : "QF_NRA", "(check-sat)").c_str(), f);
  fclose(f);
  rep_obl(label, "undecided", c, fn);
}

// ---------------------------------------------------------------- instrumented operations
static void uninit_branch() {
  g_st.obl++; g_st.viol++;
  rep_obl("__uninitialised_value_in_branch", "violated", end_candidates("__uninit"));
  path_end("uninit", "");
}
static inline bool isfin(double d) { return std::isfinite(d); }

void *sx_malloc(size_t n) {
  void *p = malloc(n ? n : 1);
  uint64_t w; memcpy(&w, &POISON, 8);
  size_t k = n / 8;
  for (size_t i = 0; i < k; i++) ((uint64_t *)p)[i] = w;
  return p;
}
static inline void guard(double a) { if (is_escaped(a)) die_unsupported("symbolic double escaped to native code"); }

#define POI2 if (is_poison(a) || is_poison(b)) return POISON;
static int sgn_dec(double a) { // decides the sign of symbolic a on this path
  Poly p = topoly(a);
  if (decide(blit(p, 2))) return 0;
  return decide(blit(p, 4)) ? 1 : -1;
}
double sxi_fadd(double a, double b) {
  if (!is_sym(a) && !is_sym(b)) {
    POI2
    guard(a); guard(b);
    double s = a + b;
    if (g_fp || !isfin(s)) return s;
    double bb = s - a, e = (a - (s - bb)) + (b - bb);
    if (e == 0) return s;
    return mkval(pconst(mpq_class(a) + mpq_class(b)));
  }
  POI2
  if (g_fp) return mkfp("(fp.add RNE " + fpref(a) + " " + fpref(b) + ")");
  if (!is_sym(a)) { if (!isfin(a)) return a; if (a == 0) return b; }
  if (!is_sym(b)) { if (!isfin(b)) return b; if (b == 0) return a; }
  Poly r = padd(topoly(a), topoly(b));
  if (has_kind(r, A_DEN)) r = preduce(r);
  return mkval(r);
}
double sxi_fneg(double a) {
  if (is_poison(a)) return POISON;
  if (!is_sym(a)) return -a;
  if (g_fp) return mkfp("(fp.neg " + fpref(a) + ")");
  return mkval(pscale(topoly(a), -1));
}
double sxi_fsub(double a, double b) {
  if (!is_sym(a) && !is_sym(b)) {
    POI2
    return sxi_fadd(a, -b);
  }
  POI2
  if (g_fp) return mkfp("(fp.sub RNE " + fpref(a) + " " + fpref(b) + ")");
  return sxi_fadd(a, sxi_fneg(b));
}
double sxi_fmul(double a, double b) {
  if (!is_sym(a) && !is_sym(b)) {
    POI2
    guard(a); guard(b);
    double p = a * b;
    if (g_fp || !isfin(p) || !isfin(a) || !isfin(b)) return p;
    double e = std::fma(a, b, -p);
    if (e == 0 && (p != 0 ? std::fabs(p) > 1e-280 : (a == 0 || b == 0))) return p;
    return mkval(pconst(mpq_class(a) * mpq_class(b)));
  }
  POI2
  if (g_fp) return mkfp("(fp.mul RNE " + fpref(a) + " " + fpref(b) + ")");
  for (int k = 0; k < 2; k++) {
    double c = k ? b : a, o = k ? a : b;
    if (!is_sym(c)) {
      if (c == 0) return 0.0;
      if (c == 1) return o;
      if (std::isnan(c)) return c;
      if (std::isinf(c)) { int s = sgn_dec(o); return s == 0 ? NAN : s > 0 ? c : -c; }
    }
  }
  Poly pa = topoly(a), pb = topoly(b);
  if ((double)pa.size() * pb.size() > 50.0 * g_max_terms) {
    // name the bigger factor
    Poly &big = pa.size() > pb.size() ? pa : pb;
    Atom at; at.kind = A_DEF; at.p = big; at.name = "def";
    g_atoms.push_back(at);
    Poly q; q[Mono{{(int)g_atoms.size() - 1, 1}}] = 1;
    big = q;
  }
  Poly r = pmul(pa, pb);
  if (has_kind(r, A_DEN)) r = preduce(r);
  return mkval(r);
}
double sxi_fdiv(double a, double b) {
  if (!is_sym(a) && !is_sym(b)) {
    POI2
    guard(a); guard(b);
    double q = a / b;
    if (g_fp || !isfin(q) || !isfin(a) || !isfin(b) || b == 0) return q;
    if (std::fma(q, b, -a) == 0 && (q == 0 ? a == 0 : std::fabs(q) > 1e-280)) return q;
    return mkval(pconst(mpq_class(a) / mpq_class(b)));
  }
  POI2
  if (g_fp) return mkfp("(fp.div RNE " + fpref(a) + " " + fpref(b) + ")");
  if (!is_sym(a) && std::isnan(a)) return a;
  if (!is_sym(b) && std::isnan(b)) return b;
  if (!is_sym(b)) {
    if (std::isinf(b)) return 0.0;
    if (b == 0) { int s = sgn_dec(a); return s == 0 ? NAN : (s > 0) == !std::signbit(b) ? INFINITY : -INFINITY; }
    return mkval(pscale(topoly(a), 1 / mpq_class(b)));
  }
  Poly d = topoly(b);
  if (is_const(d)) {
    if (!is_sym(a) && std::isinf(a)) return sgn(const_of(d)) > 0 ? a : -a;
    return mkval(pscale(topoly(a), 1 / const_of(d)));
  }
  if (decide(blit(d, 2))) {
    // division by an exact zero (sign of zero is not tracked: +0)
    if (!is_sym(a)) return a == 0 ? NAN : a > 0 ? INFINITY : -INFINITY;
    int s = sgn_dec(a);
    return s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY;
  }
  if (!is_sym(a)) {
    if (a == 0) return 0.0;
    if (std::isinf(a)) return sgn_dec(b) > 0 ? a : -a;
  }
  Poly n = topoly(a);
  if (d.size() == 1) {
    Poly r = pdivmono(n, d.begin()->first, d.begin()->second);
    return mkval(preduce(pnormal(r)));
  }
  // strip monomial contents, try exact division
  Mono cd = content(d), cn = content(n);
  Poly dd = pdivmono(d, cd), nn = pdivmono(n, cn), q;
  Mono m = mmul(cn, cd, -1);
  if (pdivexact(nn, dd, q)) return mkval(preduce(pnormal(pdivmono(q, mmul(Mono(), m, -1)))));
  // opaque denominator atom for the monic polynomial dd
  mpq_class lc = dd.rbegin()->second;
  dd = pscale(dd, 1 / lc);
  int at = -1;
  for (size_t i = 0; i < g_atoms.size(); i++) if (g_atoms[i].kind == A_DEN && g_atoms[i].p == dd) at = i;
  if (at < 0) {
    Atom A; A.kind = A_DEN; A.p = dd; A.name = "den";
    g_atoms.push_back(A);
    at = g_atoms.size() - 1;
  }
  Poly r = pscale(pdivmono(pdivmono(nn, mmul(Mono(), m, -1)), Mono{{at, 1}}), 1 / lc);
  return mkval(preduce(pnormal(r)));
}
double sxi_frem(double a, double b) {
  if (is_sym(a) || is_sym(b)) die_unsupported("frem");
  return std::fmod(a, b);
}
static int cmp_b(int pred, double a, double b) {
  // returns a B for ordered comparison ignoring NaN (neither is NaN)
  switch (pred & 7) {
  case 1: return sx_b_eq(a, b);
  case 2: return sx_b_lt(b, a);
  case 3: return sx_b_le(b, a);
  case 4: return sx_b_lt(a, b);
  case 5: return sx_b_le(a, b);
  case 6: return bnot(sx_b_eq(a, b));
  }
  return bconst(false);
}
static bool native_cmp(int pred, double a, double b) {
  bool un = std::isnan(a) || std::isnan(b);
  bool r = false;
  switch (pred & 7) {
  case 0: r = false; break;
  case 1: r = a == b; break;
  case 2: r = a > b; break;
  case 3: r = a >= b; break;
  case 4: r = a < b; break;
  case 5: r = a <= b; break;
  case 6: r = a < b || a > b; break;
  case 7: r = true; break;
  }
  if (un) return pred >= 8;
  if (pred == 8) return false; // uno
  return r;
}
static int fcmp_b(int pred, double a, double b) {
  // general boolean term of an LLVM fcmp
  if (pred == 0) return bconst(false);
  if (pred == 15) return bconst(true);
  if (!is_sym(a) && !is_sym(b)) return bconst(native_cmp(pred, a, b));
  if (!g_fp) {
    if ((!is_sym(a) && std::isnan(a)) || (!is_sym(b) && std::isnan(b))) return bconst(pred >= 8);
    if (pred == 7) return bconst(true);
    if (pred == 8) return bconst(false);
    return cmp_b(pred, a, b);
  }
  string A = fpref(a), B = fpref(b);
  string un = "(or (fp.isNaN " + A + ") (fp.isNaN " + B + "))";
  string r;
  switch (pred & 7) {
  case 1: r = "(fp.eq " + A + " " + B + ")"; break;
  case 2: r = "(fp.gt " + A + " " + B + ")"; break;
  case 3: r = "(fp.geq " + A + " " + B + ")"; break;
  case 4: r = "(fp.lt " + A + " " + B + ")"; break;
  case 5: r = "(fp.leq " + A + " " + B + ")"; break;
  case 6: r = "(or (fp.lt " + A + " " + B + ") (fp.gt " + A + " " + B + "))"; break;
  case 7: return bfp("(not " + un + ")");
  case 0: return bfp(un);
  }
  if (pred >= 8) r = "(or " + un + " " + r + ")";
  return bfp(r);
}
bool sxi_fcmp(int pred, double a, double b) {
  if (!is_sym(a) && !is_sym(b)) {
    if (is_poison(a) || is_poison(b)) uninit_branch();
    guard(a); guard(b);
    return native_cmp(pred, a, b);
  }
  if (is_poison(a) || is_poison(b)) uninit_branch();
  return decide(fcmp_b(pred, a, b));
}
static double ite(int c, double x, double y) {
  if (bis(c, true)) return x;
  if (bis(c, false)) return y;
  if (bits(x) == bits(y)) return x;
  if (g_fp) {
    declare_for(c);
    return mkfp("(ite " + b2s(c, false, 0) + " " + fpref(x) + " " + fpref(y) + ")");
  }
  bool fx = is_sym(x) || isfin(x), fy = is_sym(y) || isfin(y);
  if (!fx || !fy || is_poison(x) || is_poison(y)) return decide(c) ? x : y;
  Poly px = topoly(x), py = topoly(y);
  for (size_t i = 0; i < g_atoms.size(); i++)
    if (g_atoms[i].kind == A_ITE && g_atoms[i].p == px && g_atoms[i].p2 == py &&
        g_b[g_atoms[i].cond].k == B_LIT && g_b[c].k == B_LIT && g_b[g_atoms[i].cond].lit == g_b[c].lit &&
        g_b[g_atoms[i].cond].mask == g_b[c].mask) {
      Poly p; p[Mono{{(int)i, 1}}] = 1;
      return mkval(p);
    }
  Atom A; A.kind = A_ITE; A.cond = c; A.p = px; A.p2 = py; A.name = "ite";
  g_atoms.push_back(A);
  Poly p; p[Mono{{(int)g_atoms.size() - 1, 1}}] = 1;
  return mkval(p);
}
double sxi_select(int pred, double a, double b, double x, double y) {
  if (!is_sym(a) && !is_sym(b)) {
    if (is_poison(a) || is_poison(b)) {
      if (bits(x) == bits(y)) return x;
      return POISON;
    }
    guard(a); guard(b);
    return native_cmp(pred, a, b) ? x : y;
  }
  if (is_poison(a) || is_poison(b)) return POISON;
  int c = fcmp_b(pred, a, b);
  if (g_b[c].k == B_CONST) return g_b[c].v ? x : y;
  if (g_branch_abs && !g_fp) return decide(c) ? x : y;
  return ite(c, x, y);
}
double sxi_fabs(double a) {
  if (is_poison(a)) return POISON;
  if (!is_sym(a)) return std::fabs(a);
  if (g_fp) return mkfp("(fp.abs " + fpref(a) + ")");
  int c = blit(topoly(a), 6);
  if (g_b[c].k == B_CONST) return g_b[c].v ? a : sxi_fneg(a);
  if (g_branch_abs) return decide(c) ? a : sxi_fneg(a);
  return ite(c, a, sxi_fneg(a));
}
double sxi_sqrt(double a) {
  if (is_poison(a)) return POISON;
  if (!is_sym(a)) return std::sqrt(a);
  if (g_fp) return mkfp("(fp.sqrt RNE " + fpref(a) + ")");
  Poly p = topoly(a);
  if (is_const(p)) return std::sqrt(const_of(p).get_d());
  if (decide(blit(p, 1))) return NAN;
  // perfect square monomial
  if (p.size() == 1) {
    bool ok = true;
    Mono h;
    for (auto &e : p.begin()->first) { if (e.second % 2) ok = false; h.push_back({e.first, e.second / 2}); }
    mpq_class c = p.begin()->second;
    if (ok && mpz_perfect_square_p(c.get_num_mpz_t()) && mpz_perfect_square_p(c.get_den_mpz_t())) {
      mpq_class r(sqrt(c.get_num()), sqrt(c.get_den()));
      r.canonicalize();
      Poly q; q[h] = r;
      return sxi_fabs(mkval(q));
    }
  }
  for (size_t i = 0; i < g_atoms.size(); i++)
    if (g_atoms[i].kind == A_SQRT && g_atoms[i].p == p) { Poly q; q[Mono{{(int)i, 1}}] = 1; return mkval(q); }
  Atom A; A.kind = A_SQRT; A.p = p; A.name = "sqrt";
  g_atoms.push_back(A);
  Poly q; q[Mono{{(int)g_atoms.size() - 1, 1}}] = 1;
  return mkval(q);
}
double sxi_fma(double a, double b, double c) {
  if (g_fp && (is_sym(a) || is_sym(b) || is_sym(c)))
    return mkfp("(fp.fma RNE " + fpref(a) + " " + fpref(b) + " " + fpref(c) + ")");
  return sxi_fadd(sxi_fmul(a, b), c);
}
double sxi_fmin(double a, double b) {
  if (!is_sym(a) && std::isnan(a) && !is_poison(a)) return b;
  if (!is_sym(b) && std::isnan(b) && !is_poison(b)) return a;
  if (g_fp && (is_sym(a) || is_sym(b))) return ite(fcmp_b(4, a, b), a, ite(fcmp_b(8, a, a), b, ite(fcmp_b(8, b, b), a, b)));
  return sxi_select(4, a, b, a, b);
}
double sxi_fmax(double a, double b) {
  if (!is_sym(a) && std::isnan(a) && !is_poison(a)) return b;
  if (!is_sym(b) && std::isnan(b) && !is_poison(b)) return a;
  if (g_fp && (is_sym(a) || is_sym(b))) return ite(fcmp_b(2, a, b), a, ite(fcmp_b(8, a, a), b, ite(fcmp_b(8, b, b), a, b)));
  return sxi_select(2, a, b, a, b);
}
double sxi_copysign(double a, double b) {
  POI2
  if (!is_sym(a) && !is_sym(b)) return std::copysign(a, b);
  if (g_fp) die_unsupported("copysign in FP mode");
  double m = sxi_fabs(a);
  if (!is_sym(b)) return std::signbit(b) ? sxi_fneg(m) : m;
  return decide(blit(topoly(b), 6)) ? m : sxi_fneg(m);
}
static double conc(double a, const char *what) {
  if (!is_sym(a)) return a;
  if (!g_fp) { Poly p = topoly(a); if (is_const(p)) return const_of(p).get_d(); }
  die_unsupported(string("symbolic argument of ") + what);
  return 0;
}
double sxi_concrete(double a) { return conc(a, "conversion"); }
double sxi_pow(double a, double b) {
  POI2
  if (is_sym(b)) b = conc(b, "pow");
  if (!is_sym(a)) return std::pow(a, b);
  if (b == 0) return 1;
  if (b == 1) return a;
  if (b == 0.5) return sxi_sqrt(a);
  if (!g_fp && std::floor(b) == b && std::fabs(b) <= 8) {
    double r = a;
    for (int i = 1; i < (int)std::fabs(b); i++) r = sxi_fmul(r, a);
    return b > 0 ? r : sxi_fdiv(1.0, r);
  }
  return std::pow(conc(a, "pow"), b);
}
#define CONC1(N) double sxi_##N(double a) { if (is_poison(a)) return POISON; return std::N(conc(a, #N)); }
CONC1(exp) CONC1(log) CONC1(log10) CONC1(sin) CONC1(cos) CONC1(floor) CONC1(ceil)
double sxi_hypot(double a, double b) { return sxi_sqrt(sxi_fadd(sxi_fmul(a, a), sxi_fmul(b, b))); }
double sxi_unsupported1(double) { die_unsupported("libm function"); return 0; }
double sxi_unsupported2(double, double) { die_unsupported("libm function"); return 0; }
double sxi_ldexp(double a, int e) { return sxi_fmul(a, std::ldexp(1.0, e)); }
int64_t sxi_fptosi_i64(double a) { return (int64_t)conc(a, "fptosi"); }
int32_t sxi_fptosi_i32(double a) { return (int32_t)conc(a, "fptosi"); }
uint64_t sxi_fptoui_i64(double a) { return (uint64_t)conc(a, "fptoui"); }
uint32_t sxi_fptoui_i32(double a) { return (uint32_t)conc(a, "fptoui"); }
uint64_t sxi_bits(double a) { return bits(a); }
bool sxi_fpclass(double a, int m) {
  if (is_poison(a)) uninit_branch();
  if (!is_sym(a)) {
    bool s = std::signbit(a);
    int c = std::isnan(a) ? 3 : std::isinf(a) ? (s ? 4 : 512) : a == 0 ? (s ? 32 : 64)
            : std::fpclassify(a) == FP_SUBNORMAL ? (s ? 16 : 128) : (s ? 8 : 256);
    return c & m;
  }
  if (g_fp) die_unsupported("is.fpclass");
  // finite symbolic real
  bool neg = m & (8 | 16), zero = m & (32 | 64), pos = m & (128 | 256);
  return decide(blit(topoly(a), (neg ? 1 : 0) | (zero ? 2 : 0) | (pos ? 4 : 0)));
}
} // extern C

// ---------------------------------------------------------------- explorer
static void on_signal(int s) {
  static const char *nm = "signal";
  (void)nm;
  if (s == SIGALRM) path_end("timeout", "");
  // crash of the code under test: report with inputs
  static bool once = false;
  if (once) _exit(9);
  once = true;
  g_st.obl++; g_st.viol++;
  string sn = s == SIGABRT ? "abort" : s == SIGSEGV ? "segfault" : s == SIGFPE ? "fpe" : "signal";
  rep_obl("__crash_" + sn, "violated", end_candidates("__crash"));
  path_end("crash", sn);
}

static void run_child(SxHarness *h, const vector<int> &prefix, const string &name, const string &rep) {
  g_prefix = prefix;
  g_pathname = name;
  g_rep = fopen(rep.c_str(), "w");
  signal(SIGALRM, on_signal);
  signal(SIGABRT, on_signal);
  signal(SIGSEGV, on_signal);
  signal(SIGFPE, on_signal);
  signal(SIGBUS, on_signal);
  signal(SIGPIPE, SIG_IGN);
  if (!g_trace) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    dup2(dn, 2);
  }
  alarm(g_path_s);
  struct rlimit rl{3ul << 30, 3ul << 30};
  setrlimit(RLIMIT_AS, &rl);
  if (g_eager && prefix.empty()) eager_dump();
  try {
    h->fn();
  } catch (const std::exception &e) {
    g_st.obl++; g_st.viol++;
    rep_obl(string("__exception"), "violated", end_candidates("__exception"));
    path_end("exception", e.what());
  } catch (...) {
    g_st.obl++; g_st.viol++;
    rep_obl("__exception", "violated", end_candidates("__exception"));
    path_end("exception", "?");
  }
  path_end("done", "");
}

int main(int argc, char **argv) {
  string want;
  vector<int> prefix0;
  int witnesses = 16;
  double deadline = 0;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nxt = [&]() { return string(argv[++i]); };
    if (a == "--harness") want = nxt();
    else if (a == "--fp") g_fp = true;
    else if (a == "--jobs") g_jobs = atoi(nxt().c_str());
    else if (a == "--dir") g_dir = nxt();
    else if (a == "--max-paths") g_max_paths = atol(nxt().c_str());
    else if (a == "--feas-ms") g_feas_ms = atoi(nxt().c_str());
    else if (a == "--obl-ms") g_obl_ms = atoi(nxt().c_str());
    else if (a == "--path-s") g_path_s = atoi(nxt().c_str());
    else if (a == "--deadline") deadline = now() + atof(nxt().c_str());
    else if (a == "--witnesses") witnesses = atoi(nxt().c_str());
    else if (a == "--param") { string p = nxt(); size_t e = p.find('='); g_params[p.substr(0, e)] = atoi(p.substr(e + 1).c_str()); }
    else if (a == "--ite") g_branch_abs = false;
    else if (a == "--trace") g_trace = true;
    else if (a == "--prefix") { string s = nxt(); char *p = &s[0]; while (*p) { prefix0.push_back(strtol(p, &p, 10)); while (*p == ',' || *p == ' ') p++; } }
    else if (a == "--list") { for (auto *h = SxHarness::head(); h; h = h->next) printf("%s\n", h->name); return 0; }
  }
  SxHarness *h = SxHarness::head();
  while (h && want != h->name) h = h->next;
  g_labels = (LabelCount *)mmap(nullptr, sizeof(LabelCount) * g_nlabels, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (g_labels == MAP_FAILED) g_labels = nullptr;
  if (!h) { fprintf(stderr, "no harness %s\n", want.c_str()); return 2; }
  std::deque<vector<int>> q;
  q.push_back(prefix0);
  struct Run { string rep; vector<int> prefix; string name; bool eager; };
  std::deque<vector<int>> again;
  std::map<pid_t, Run> running;
  long started = 0, finished = 0;
  bool truncated = false;
  long redone = 0;
  while (!q.empty() || !running.empty() || !again.empty()) {
    if (deadline > 0 && now() > deadline) {
      truncated = true;
      for (auto &r : running) kill(r.first, SIGKILL);
      break;
    }
    while ((!q.empty() || !again.empty()) && (int)running.size() < g_jobs && (started < g_max_paths || !again.empty())) {
      bool eager = !again.empty();
      vector<int> p = eager ? again.back() : q.back();
      (eager ? again : q).pop_back();
      string name = std::to_string(started++);
      string rep = g_dir + "/rep_" + name + ".txt";
      fflush(stdout);
      g_want_witness = witnesses > 0 && started <= witnesses;
      pid_t pid = fork();
      if (pid == 0) { g_eager = eager; g_eagerfile = rep + ".eager"; run_child(h, p, name, rep); }
      running[pid] = {rep, p, name, eager};
    }
    if (running.empty()) { if (!q.empty()) truncated = true; break; }
    int st;
    pid_t pid = waitpid(-1, &st, deadline > 0 ? WNOHANG : 0);
    if (pid == 0) { usleep(2000); continue; }
    auto it = running.find(pid);
    if (it == running.end()) continue;
    FILE *f = fopen(it->second.rep.c_str(), "r");
    bool ok = false;
    if (f) {
      char *line = nullptr; size_t cap = 0;
      while (getline(&line, &cap, f) > 0) {
        if (line[0] == 'A') {
          vector<int> p; char *c = line + 1;
          while (true) { char *e; long v = strtol(c, &e, 10); if (e == c) break; p.push_back(v); c = e; }
          q.push_back(p);
        } else {
          fputs(line, stdout);
          if (strncmp(line, "{\"t\":\"path\"", 11) == 0) ok = true;
        }
      }
      free(line);
      fclose(f);
      unlink(it->second.rep.c_str());
    }
    if (!ok && !it->second.eager && redone++ < 64) { again.push_back(it->second.prefix); running.erase(it); continue; }
    if (!ok) {
      FILE *ef = fopen((it->second.rep + ".eager").c_str(), "r");
      if (ef) { int c; while ((c = fgetc(ef)) != EOF) fputc(c, stdout); fclose(ef); }
    }
    unlink((it->second.rep + ".eager").c_str());
    if (!ok) printf("{\"t\":\"path\",\"status\":\"died\",\"msg\":\"status %d\",\"dec\":[],\"choices\":[],\"reach\":[],\"queries\":0,\"unknown\":0,\"obl\":0,\"triv\":0,\"smt\":0,\"undec\":0,\"viol\":0,\"solver_s\":0,\"pc\":0,\"inputs\":0}\n", st);
    finished++;
    running.erase(it);
  }
  printf("{\"t\":\"end\",\"paths\":%ld,\"queued\":%zu,\"truncated\":%s}\n", finished, q.size(), truncated ? "true" : "false");
  return 0;
}
