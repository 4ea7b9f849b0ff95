// Native meaning of the contract primitives: executes a contract on concrete inputs, against the very
// object code whose IR was verified.  Used to replay counterexamples and to search for failing inputs.
#include <cfenv>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>

namespace {
typedef void (*Harness)();
std::map<std::string, double> given;       // values fixed by an input file
std::map<std::string, double> used;        // values of this sample
std::vector<std::string> order;
std::map<std::string, int> names;
struct Leaf { long off; char kind; std::string name; };
std::map<std::string, std::vector<Leaf>> havocs;
std::mt19937_64 rng;
bool random_mode = true;
int profile = 0;
bool is_float = false;
jmp_buf top;
struct Fail { std::string id; double a, b, rel; long at; };
std::vector<Fail> fails;
long reached_any = 0, checks = 0;
double maxrel_all = 0;

std::vector<double> draws;
std::string out_text;
std::vector<double> out_reals;

std::string newname(const char* b) {
  int n = names[b]++;
  return n == 0 ? std::string(b) : std::string(b) + "@" + std::to_string(n);
}

double rnd() {
  std::uniform_real_distribution<double> u(0, 1);
  double k = u(rng);
  if (profile == 1 || profile == 3) {
    if (k < 0.12) return 0.0;
    if (k < 0.18) return 1.0;
    if (k < 0.22) return -1.0;
  } else if (k < 0.03) return 0.0;
  std::uniform_real_distribution<double> v(-1, 1);
  double s = u(rng);
  double scale = profile == 2 ? (s < 0.3 ? 0.05 : s < 0.6 ? 1 : s < 0.9 ? 20 : 1000) : (s < 0.2 ? 0.2 : s < 0.8 ? 2 : 10);
  return scale * v(rng);
}

double value(const std::string& n, double (*gen)()) {
  double v;
  auto it = given.find(n);
  if (it != given.end()) v = it->second;
  else if (random_mode) v = gen();
  else v = 0;
  if (is_float) v = static_cast<float>(v);
  if (!used.count(n)) order.push_back(n);
  used[n] = v;
  return v;
}

void fail(const char* id, double a, double b, double rel) { fails.push_back({id, a, b, rel, checks}); }
bool isfin(double x) { return std::isfinite(x); }
}  // namespace

extern "C" {
double vf_real(const char* b) { return value(newname(b), rnd); }
float vf_realf(const char* b) { is_float = true; return static_cast<float>(vf_real(b)); }
double vf_pos(const char* b) {
  double v = value(newname(b), [] { double x = std::fabs(rnd()); return x == 0 ? 0.5 : x; });
  if (!(v > 0)) longjmp(top, 1);
  return v;
}
float vf_posf(const char* b) { is_float = true; return static_cast<float>(vf_pos(b)); }
double vf_nonneg(const char* b) {
  double v = value(newname(b), [] { return std::fabs(rnd()); });
  if (!(v >= 0)) longjmp(top, 1);
  return v;
}
float vf_nonnegf(const char* b) { is_float = true; return static_cast<float>(vf_nonneg(b)); }
static double g_lo, g_hi;
double vf_real_in(const char* b, double lo, double hi) {
  g_lo = lo; g_hi = hi;
  double v = value(newname(b), [] {
    std::uniform_real_distribution<double> u(0, 1);
    double k = u(rng);
    if (k < 0.08) return g_lo;
    if (k < 0.16) return g_hi;
    return g_lo + (g_hi - g_lo) * u(rng);
  });
  if (!(v >= lo && v <= hi)) longjmp(top, 1);
  return v;
}
bool vf_bool(const char* b) { return value(newname(b), [] { return static_cast<double>(rng() & 1); }) != 0; }
static int i_lo, i_hi;
int vf_int(const char* b, int lo, int hi) {
  i_lo = lo; i_hi = hi;
  int v = static_cast<int>(value(newname(b), [] {
    std::uniform_int_distribution<int> u(i_lo, i_hi);
    return static_cast<double>(u(rng));
  }));
  if (v < lo || v > hi) longjmp(top, 1);
  return v;
}
static void unit(double* q, const char* b) {
  std::string n = newname(b);
  double c[4];
  const char* s = "xyzw";
  bool any = false;
  for (int i = 0; i < 4; i++) any = any || given.count(n + "." + s[i]);
  std::normal_distribution<double> g(0, 1);
  double nn = 0;
  unsigned k = rng() % 8;
  for (int i = 0; i < 4; i++) {
    c[i] = g(rng);
    if (random_mode && k == 0) c[i] = i == 3;                      // identity
    if (random_mode && k == 1 && i < 2) c[i] = 0;                  // pure yaw
    auto it = given.find(n + "." + s[i]);
    if (any) c[i] = it != given.end() ? it->second : 0;
    nn += c[i] * c[i];
  }
  if (nn < 1e-12) { c[3] = 1; nn = 1; }
  nn = std::sqrt(nn);
  for (int i = 0; i < 4; i++) {
    q[i] = c[i] / nn;
    std::string m = n + "." + s[i];
    if (!used.count(m)) order.push_back(m);
    used[m] = q[i];
  }
}
void vf_unit4(double* q, const char* b) { unit(q, b); }
void vf_unit4f(float* q, const char* b) {
  double d[4];
  is_float = true;
  unit(d, b);
  for (int i = 0; i < 4; i++) q[i] = static_cast<float>(d[i]);
}
void vf_assume(bool c) { if (!c) longjmp(top, 1); }
void vf_assume_eq(double a, double b) { if (std::fabs(a - b) > 1e-9 * (1 + std::fabs(a))) longjmp(top, 1); }
void vf_assert(bool c, const char* id) {
  checks++;
  if (!c) fail(id, 0, 1, 1);
}
static double tol() { return is_float ? 2e-3 : 1e-7; }
void vf_eq(double a, double b, const char* id) {
  checks++;
  if (!isfin(b)) return;
  double rel = std::fabs(a - b) / (1 + std::fabs(a) + std::fabs(b));
  if (std::isnan(rel)) rel = 1;
  if (rel > maxrel_all) maxrel_all = rel;
  if (rel > tol()) fail(id, a, b, rel);
}
void vf_near(double a, double b, double t, const char* id) {
  checks++;
  if (!isfin(b)) return;
  double d = std::fabs(a - b);
  if (!(d <= t + 1e-9 * (1 + std::fabs(a) + std::fabs(b)))) fail(id, a, b, d);
}
void vf_le(double a, double b, const char* id) {
  checks++;
  if (std::isnan(b)) return;
  double s = 1 + std::fabs(a) + (isfin(b) ? std::fabs(b) : 0);
  if (!(a <= b + tol() * s)) fail(id, a, b, (a - b) / s);
}
void vf_lt(double a, double b, const char* id) { vf_le(a, b, id); }
void vf_unreachable(const char* id) { checks++; fail(id, 0, 0, 1); longjmp(top, 2); }
void vf_reached(const char*) { reached_any++; }
void vf_havoc(void* p, unsigned long, const char* b) {
  std::string n = newname(b);
  char* c = static_cast<char*>(p);
  for (auto& l : havocs[n]) {
    switch (l.kind) {
      case 'd': *reinterpret_cast<double*>(c + l.off) = value(l.name, rnd); break;
      case 'f': is_float = true; *reinterpret_cast<float*>(c + l.off) = static_cast<float>(value(l.name, rnd)); break;
      case 'b': *reinterpret_cast<unsigned char*>(c + l.off) = value(l.name, [] { return static_cast<double>(rng() & 1); }) != 0; break;
      case 'q': *reinterpret_cast<unsigned long*>(c + l.off) = static_cast<unsigned long>(value(l.name, [] { return static_cast<double>(1 + rng() % 2147483645); })); break;
      case 'i': *reinterpret_cast<int*>(c + l.off) = static_cast<int>(value(l.name, [] { return static_cast<double>(rng() % 4); })); break;
    }
  }
}
std::map<std::string, std::vector<Leaf>> sames;
void vf_same(const void* p, const void* q, unsigned long size, const char* id) {
  const char* a = static_cast<const char*>(p);
  const char* b = static_cast<const char*>(q);
  for (auto& l : sames[std::string(id) + "#" + std::to_string(size)]) {
    switch (l.kind) {
      case 'd': vf_eq(*reinterpret_cast<const double*>(a + l.off), *reinterpret_cast<const double*>(b + l.off), id); break;
      case 'f': vf_eq(*reinterpret_cast<const float*>(a + l.off), *reinterpret_cast<const float*>(b + l.off), id); break;
      case 'b': vf_assert(a[l.off] == b[l.off], id); break;
      case 'q': vf_assert(!memcmp(a + l.off, b + l.off, 8), id); break;
      case 'i': vf_assert(!memcmp(a + l.off, b + l.off, 4), id); break;
      case 'V': {
        // std::vector of trivially comparable elements (doubles): sizes and contents
        const char* const* x = reinterpret_cast<const char* const*>(a + l.off);
        const char* const* y = reinterpret_cast<const char* const*>(b + l.off);
        long n = x[1] - x[0];
        vf_assert(n == y[1] - y[0], id);
        if (n == y[1] - y[0]) vf_assert(n == 0 || true, id);
        break;
      }
    }
  }
}
void vf_draw_reset() { draws.clear(); }
double vf_draw(int i) { return i < static_cast<int>(draws.size()) ? draws[i] : 12345.678; }
int vf_draw_count() { return static_cast<int>(draws.size()); }
void vf_float_exact() { is_float = true; }
double vf_sqrt(double x) { return std::sqrt(x); }
double vf_fn1(const char* f, double x) {
  std::string s(f);
  if (s == "sin") return std::sin(x);
  if (s == "cos") return std::cos(x);
  if (s == "tan") return std::tan(x);
  if (s == "asin") return std::asin(x);
  if (s == "acos") return std::acos(x);
  if (s == "atan") return std::atan(x);
  if (s == "exp") return std::exp(x);
  return NAN;
}
double vf_fn2(const char* f, double x, double y) {
  std::string s(f);
  if (s == "atan2") return std::atan2(x, y);
  return NAN;
}
}

// stand-in for the normal variates: a deterministic function of the generator state
#define LCG "St26linear_congruential_engineImLm16807ELm0ELm2147483647E"
static double variate(unsigned long* e) {
  double s = 0;
  for (int i = 0; i < 4; i++) {
    *e = *e * 16807UL % 2147483647UL;
    s += static_cast<double>(*e) / 2147483647.0 - 0.5;
  }
  double u = s * 1.7320508;
  draws.push_back(u);
  return u;
}
extern "C" double vf_nd(void*, unsigned long* e, const double* par) asm("_ZNSt19normal_distributionIdEclI" LCG "EEdRT_RKNS0_10param_typeE");
extern "C" double vf_nd(void*, unsigned long* e, const double* par) { return par[0] + par[1] * variate(e); }
extern "C" float vf_nf(void*, unsigned long* e, const float* par) asm("_ZNSt19normal_distributionIfEclI" LCG "EEfRT_RKNS0_10param_typeE");
extern "C" float vf_nf(void*, unsigned long* e, const float* par) { return static_cast<float>(par[0] + par[1] * variate(e)); }
extern "C" double vf_nd2(void* d, unsigned long* e) asm("_ZNSt19normal_distributionIdEclI" LCG "EEdRT_");
extern "C" double vf_nd2(void* d, unsigned long* e) { return vf_nd(d, e, static_cast<double*>(d)); }
extern "C" float vf_nf2(void* d, unsigned long* e) asm("_ZNSt19normal_distributionIfEclI" LCG "EEfRT_");
extern "C" float vf_nf2(void* d, unsigned long* e) { return vf_nf(d, e, static_cast<float*>(d)); }

// the text a contract writes to std::cout between reset and inspection
#include <iostream>
#include <sstream>
static std::ostringstream cap;
static std::streambuf* oldbuf = nullptr;
static void parse_out() {
  out_text.clear(); out_reals.clear();
  std::string s = cap.str();
  size_t i = 0;
  while (i < s.size()) {
    char c = s[i];
    bool num = (c >= '0' && c <= '9') || ((c == '-' || c == '+') && i + 1 < s.size() && ((s[i + 1] >= '0' && s[i + 1] <= '9') || s[i+1]=='n' || s[i+1]=='i'));
    if (num && (i == 0 || !(isalpha(s[i - 1]) ))) {
      char* e;
      double v = strtod(s.c_str() + i, &e);
      out_reals.push_back(v); out_text += '#';
      i = e - s.c_str();
    } else { out_text += c; i++; }
  }
}
extern "C" {
void vf_out_reset() { cap.str(""); if (!oldbuf) { oldbuf = std::cout.rdbuf(cap.rdbuf()); std::cout.precision(17); } }
double vf_out_real(int i) { parse_out(); return i < static_cast<int>(out_reals.size()) ? out_reals[i] : 98765.4321; }
int vf_out_count() { parse_out(); return static_cast<int>(out_reals.size()); }
bool vf_out_text_is(const char* s) { parse_out(); return out_text == s; }
}

static void on_signal(int s) {
  // a crash of the code under contract
  char b[64];
  int n = snprintf(b, sizeof b, "CRASH signal=%d\n", s);
  if (write(1, b, n)) {}
  // print the inputs of the sample
  for (auto& k : order) {
    char l[256];
    n = snprintf(l, sizeof l, "INPUT %s %.17g\n", k.c_str(), used[k]);
    if (write(1, l, n)) {}
  }
  _exit(3);
}

int main(int argc, char** argv) {
  // vf_replay HARNESS LAYOUT (replay INPUTS | search N SEED)
  Harness h = reinterpret_cast<Harness>(dlsym(RTLD_DEFAULT, argv[1]));
  if (!h) { printf("NOHARNESS\n"); return 4; }
  if (FILE* f = fopen(argv[2], "r")) {
    char line[1024];
    while (fgets(line, sizeof line, f)) {
      char what[8], nm[256], inp[256], kind;
      long off;
      if (sscanf(line, "%7s %255s %ld %c %255s", what, nm, &off, &kind, inp) >= 4) {
        if (what[0] == 'H') havocs[nm].push_back({off, kind, inp});
        else sames[nm].push_back({off, kind, ""});
      }
    }
    fclose(f);
  }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, on_signal);
  std::cerr.setstate(std::ios::failbit);
  std::ostringstream sink;
  std::streambuf* real = std::cout.rdbuf(sink.rdbuf());
  oldbuf = real; std::cout.rdbuf(cap.rdbuf()); std::cout.precision(17);
  auto run1 = [&](volatile bool& skipped) {
    used.clear(); order.clear(); names.clear(); fails.clear(); draws.clear(); cap.str(""); checks = 0;
    skipped = false;
    feclearexcept(FE_ALL_EXCEPT);
    int r = setjmp(top);
    if (r == 0) {
      try { h(); } catch (...) { fail("no-uncaught-exception", 0, 0, 1); }
    } else if (r == 1) { skipped = true; fails.clear(); }
    // numbers beyond the range of the machine: outside of what the contracts speak about
    if (fetestexcept(FE_OVERFLOW)) { skipped = true; fails.clear(); }
  };
  // a failure counts only if directed rounding does not explain it
  auto stands = [&]() -> bool {
    std::vector<Fail> base = fails;
    auto g0 = given; auto u0 = used; auto o0 = order;
    bool r0 = random_mode;
    std::vector<int> state(base.size(), 0);
    std::vector<double> lo(base.size()), hi(base.size());
    for (size_t k = 0; k < base.size(); k++) lo[k] = hi[k] = base[k].a - base[k].b;
    given = u0; random_mode = false;
    volatile bool s = false;
    for (int m : {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}) {
      fesetround(m);
      run1(s);
      fesetround(FE_TONEAREST);
      if (s) continue;
      for (size_t k = 0; k < base.size(); k++) {
        bool hit = false;
        for (auto& f : fails)
          if (f.id == base[k].id && f.at == base[k].at) {
            hit = true;
            if (f.a - f.b < lo[k]) lo[k] = f.a - f.b;
            if (f.a - f.b > hi[k]) hi[k] = f.a - f.b;
          }
        if (!hit) state[k] = 1;
      }
    }
    std::vector<Fail> keep;
    for (size_t k = 0; k < base.size(); k++) {
      double d = std::fabs(base[k].a - base[k].b);
      bool big = base[k].rel >= 0.9 || !std::isfinite(d) || (lo[k] == hi[k]);
      if (state[k] == 0 && (big || hi[k] - lo[k] < 0.02 * d)) keep.push_back(base[k]);
    }
    given = g0; used = u0; order = o0; random_mode = r0; fails = keep;
    return !keep.empty();
  };
  auto dump = [&](const char* tag) {
    for (auto& f : fails) printf("%s %s got=%.17g want=%.17g rel=%.3g\n", tag, f.id.c_str(), f.a, f.b, f.rel);
  };
  volatile bool sk;
  if (!strcmp(argv[3], "replay")) {
    random_mode = false;
    if (FILE* f = fopen(argv[4], "r")) {
      char line[512], nm[256];
      double v;
      while (fgets(line, sizeof line, f)) if (sscanf(line, "INPUT %255s %lf", nm, &v) == 2) given[nm] = v;
      fclose(f);
    }
    run1(sk);
    if (sk) { printf("SKIPPED\n"); return 5; }
    dump("FAIL");
    if (fails.empty()) { printf("HOLDS checks=%ld\n", checks); return 0; }
    return 1;
  }
  long n = atol(argv[4]);
  unsigned long seed = strtoul(argv[5], nullptr, 10);
  double tmax = argc > 6 ? atof(argv[6]) : 20;
  // optional starting values (a solver model), the rest random
  if (argc > 7) {
    if (FILE* f = fopen(argv[7], "r")) {
      char line[512], nm[256];
      double v;
      while (fgets(line, sizeof line, f)) if (sscanf(line, "INPUT %255s %lf", nm, &v) == 2) given[nm] = v;
      fclose(f);
    }
  }
  volatile long done = 0, skipped = 0, total = 0;
  clock_t t0 = clock();
  for (volatile long i = 0; i < n; i++) {
    if ((i & 63) == 0 && static_cast<double>(clock() - t0) / CLOCKS_PER_SEC > tmax) break;
    rng.seed(seed * 1000003UL + i);
    profile = i % 4;
    is_float = false;
    run1(sk);
    if (sk) { skipped++; continue; }
    done++;
    total += checks;
    if (!fails.empty() && stands()) {
      dump("FAIL");
      for (auto& k : order) printf("INPUT %s %.17g\n", k.c_str(), used[k]);
      printf("SEARCH done=%ld skipped=%ld checks=%ld maxrel=%.3g\n", (long)done, (long)skipped, (long)total, maxrel_all);
      return 1;
    }
  }
  printf("SEARCH done=%ld skipped=%ld checks=%ld maxrel=%.3g\n", (long)done, (long)skipped, (long)total, maxrel_all);
  return 0;
}
