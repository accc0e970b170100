// Concrete replay run time: same harness, ordinary doubles, inputs from a file.
// exit 0: every check passed; 3: a check failed; 4: an assumption failed (the
// inputs are outside the claim); other: crash / uncaught exception.
#include "sx.hpp"
#include <new>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

SxHarness *&SxHarness::head() {
  static SxHarness *h = nullptr;
  return h;
}
static std::map<std::string, double> g_vals;
static std::map<std::string, int> g_choices, g_params, g_count;
static bool g_fp = false;
static double g_tol = 1e-7;
static int g_failed = 0;
static double g_fill = 0;
static bool g_dofill = false;

static std::string uniq(const char *name) {
  std::string n = name;
  for (char &c : n) if (isspace((unsigned char)c) || c == '"' || c == '|') c = '_';
  int k = g_count[n]++;
  return k ? n + "#" + std::to_string(k) : n;
}
struct NB { bool def, poss; };
static std::vector<NB> g_b;
static int mkb(bool d, bool p) { g_b.push_back({d, p}); return (int)g_b.size() - 1; }
static double tol(double a, double b) {
  if (g_fp) return 0;
  return g_tol * (1 + std::fabs(a) + std::fabs(b));
}
extern "C" {
int sx_is_native(void) { return 1; }
int sx_fp_mode(void) { return g_fp; }
int sx_is_sym(double) { return 0; }
int sx_int_param(const char *name, int d) { auto it = g_params.find(name); return it == g_params.end() ? d : it->second; }
void sx_set_branch_abs(int) {}
void sx_tol(double t) { g_tol = t; }
void sx_note(const char *) {}
void sx_reach(const char *) {}
void sx_stop(void) { exit(g_failed ? 3 : 0); }
void sx_print(const char *l, double x) { fprintf(stderr, "%s = %.17g\n", l, x); }
double sx_real_c(const char *name, int has_lo, double lo, int has_hi, double hi) {
  std::string n = uniq(name);
  auto it = g_vals.find(n);
  double v = it == g_vals.end() ? 0.5 : it->second;
  if (has_lo && v < lo) v = lo;
  if (has_hi && v > hi) v = hi;
  return v;
}
int sx_choice_c(const char *name, int n) {
  std::string k = uniq(name);
  auto it = g_choices.find(k);
  int v = it == g_choices.end() ? 0 : it->second;
  return v < n ? v : 0;
}
int sx_b_const(int v) { return mkb(v, v); }
int sx_b_lt(double a, double b) {
  if (a == b && std::isinf(a)) return mkb(false, false);
  if (std::isinf(a) || std::isinf(b)) return mkb(a < b, a < b);
  double t = tol(a, b);
  return mkb(a < b - t || (g_fp && a < b), a < b + t);
}
int sx_b_le(double a, double b) {
  if (std::isinf(a) || std::isinf(b)) return mkb(a <= b, a <= b);
  double t = tol(a, b);
  return mkb(a <= b - t, a <= b + t);
}
int sx_b_eq(double a, double b) {
  if (std::isinf(a) || std::isinf(b)) return mkb(a == b, a == b);
  if (std::isnan(a) || std::isnan(b)) return mkb(false, false);
  return mkb(a == b, std::fabs(a - b) <= tol(a, b));
}
int sx_b_and(int a, int b) { return mkb(g_b[a].def && g_b[b].def, g_b[a].poss && g_b[b].poss); }
int sx_b_or(int a, int b) { return mkb(g_b[a].def || g_b[b].def, g_b[a].poss || g_b[b].poss); }
int sx_b_not(int a) { return mkb(!g_b[a].poss, !g_b[a].def); }
void sx_assume_b(int b) {
  if (!g_b[b].poss) { fprintf(stderr, "assumption not met\n"); exit(g_failed ? 3 : 4); }
}
void sx_check_b(const char *label, int b) {
  if (!g_b[b].poss) { printf("FAILED %s\n", label); fflush(stdout); g_failed++; }
}
}
// uninitialised heap memory is filled so that its use shows
extern "C" void *__real_malloc(size_t);
extern "C" void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n ? n : 1);
  if (g_dofill && p) { size_t k = n / 8; for (size_t i = 0; i < k; i++) memcpy((char *)p + 8 * i, &g_fill, 8); }
  return p;
}
// operator new of the shared library calls malloc where it cannot be wrapped
void *operator new(size_t n) {
  void *p = __wrap_malloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
int main(int argc, char **argv) {
  std::string want, file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--harness") want = argv[++i];
    else if (a == "--in") file = argv[++i];
    else if (a == "--fill") { g_dofill = true; g_fill = NAN; }
    else if (a == "--param") { std::string p = argv[++i]; size_t e = p.find('='); g_params[p.substr(0, e)] = atoi(p.substr(e + 1).c_str()); }
  }
  std::ifstream f(file);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k, n, v;
    s >> k >> n >> v;
    if (k == "real") g_vals[n] = strtod(v.c_str(), nullptr);
    else if (k == "choice") g_choices[n] = atoi(v.c_str());
    else if (k == "param") g_params[n] = atoi(v.c_str());
    else if (k == "fp") g_fp = true;
  }
  SxHarness *h = SxHarness::head();
  while (h && want != h->name) h = h->next;
  if (!h) return 2;
  try {
    h->fn();
  } catch (const std::exception &e) {
    printf("FAILED __exception %s\n", e.what());
    return 3;
  }
  return g_failed ? 3 : 0;
}
