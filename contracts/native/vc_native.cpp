// Native runtime of the contract language: replays one set of inputs, or validates a contract on sampled inputs,
// against the code of /repo compiled with the real Kokkos and the real flags.
#include "../vc.h"
#include <Kokkos_Core.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <chrono>
#include <random>
#include <csignal>
#include <csetjmp>
#include <unistd.h>

struct Fn { const char* n; void (*f)(); };
static std::vector<Fn>& fns() { static std::vector<Fn> v; return v; }
vc::Reg::Reg(const char* n, void (*f)()) { fns().push_back({n, f}); }

static std::map<std::string, std::string> given;      // replay inputs
static std::map<std::string, std::string> used;       // inputs of this run
static std::map<std::string, int> cnt;
static std::map<std::string, long> covers;
static std::mt19937_64 rng;
static bool replay = false;
static std::string failure;
static std::vector<double> recent;
static std::vector<uint64_t> recent_i;
struct TooLarge {};

static std::string uniq(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static uint64_t R() { return rng(); }
static uint64_t rnd_u(uint64_t lo, uint64_t hi) {
  if (hi <= lo) return lo;
  uint64_t w = hi - lo;
  switch (R() % 8) {
    case 0: return lo;
    case 1: return hi;
    case 2: return lo + (w < 3 ? R() % (w + 1) : R() % 4);
    case 3: return hi - (w < 3 ? R() % (w + 1) : R() % 4);
    case 4: { uint64_t b = R() & R() & R(); return lo + (w == ~0ull ? b : b % (w + 1)); }
    case 5: if (recent_i.size()) { uint64_t v = recent_i[R() % recent_i.size()]; if (v >= lo && v <= hi) return v; } // fallthrough
    case 6: { int sh = R() % 64; uint64_t v = R() >> sh; return lo + (w == ~0ull ? v : v % (w + 1)); }
    default: return lo + (w == ~0ull ? R() : R() % (w + 1));
  }
}
static double rnd_r(double lo, double hi) {
  if (lo < -1e6) lo = -1e3; if (hi > 1e6) hi = std::max(1e3, lo + 1e3);
  if (hi <= lo) return lo;
  double v;
  switch (R() % 10) {
    case 0: v = 0; break;
    case 1: v = lo; break;
    case 2: v = hi; break;
    case 3: v = std::floor(lo + (hi - lo) * (R() % 1024) / 1024.0); break;
    case 4: v = recent.empty() ? lo : recent[R() % recent.size()]; break;
    case 5: v = recent.empty() ? lo : -recent[R() % recent.size()]; break;
    case 6: { v = lo + (hi - lo) * (double)(R() % 17) / 16.0; break; }
    default: v = lo + (hi - lo) * ((double)(R() >> 11) / 9007199254740992.0);
  }
  if (v < lo || v > hi) v = lo + (hi - lo) * ((double)(R() >> 11) / 9007199254740992.0);
  return v;
}
static bool has(const std::string& k, std::string& v) { auto it = given.find(k); if (it == given.end()) return false; v = it->second; return true; }
static uint64_t get_u(const std::string& k, uint64_t lo, uint64_t hi, uint64_t nhi) {
  std::string s; uint64_t v;
  if (replay && has(k, s)) { v = std::strtoull(s.c_str(), nullptr, 10); if (v > nhi && nhi < hi) throw TooLarge(); if (v < lo || v > hi) throw vc::Reject(); }
  else v = replay ? lo : rnd_u(lo, nhi);
  used[k] = std::to_string(v); if (recent_i.size() < 64) recent_i.push_back(v);
  return v;
}
static double get_r(const std::string& k, double lo, double hi) {
  std::string s; double v;
  if (replay && has(k, s)) { v = std::strtod(s.c_str(), nullptr); if (v < lo) v = lo; if (v > hi) v = hi; }
  else if (replay) v = (lo <= 0 && hi >= 0) ? 0 : lo;
  else v = rnd_r(lo, hi);
  char b[64]; snprintf(b, 64, "%.17g", v); used[k] = b; if (recent.size() < 64) recent.push_back(v);
  return v;
}
static std::string idxname(const char* n, const uint64_t* i, int r) { std::string s = n; s += "["; for (int k = 0; k < r; k++) { if (k) s += ","; s += std::to_string(i[k]); } return s + "]"; }
static std::string curview;
namespace vc {
void view_input_begin(const char* name) { curview = uniq(name); }
double elem_real(const char* n, const uint64_t* i, int r, double lo, double hi) { return get_r(idxname(curview.c_str(), i, r), lo, hi); }
uint64_t elem_uint(const char* n, const uint64_t* i, int r, uint64_t lo, uint64_t hi) { return get_u(idxname(curview.c_str(), i, r), lo, hi, hi); }
}
static void fail(const char* what, const std::string& d) { if (failure.empty()) failure = std::string(what) + (d.empty() ? "" : "  [" + d + "]"); }
extern "C" {
uint64_t __vc_uint(const char* n, int bits, uint64_t lo, uint64_t hi, uint64_t nhi) { if (lo > hi) throw vc::Reject(); return get_u(uniq(n), lo, hi, std::min(hi, nhi)); }
int64_t __vc_sint(const char* n, int bits, int64_t lo, int64_t hi) {
  std::string k = uniq(n), s; int64_t v;
  if (replay && has(k, s)) { v = std::strtoll(s.c_str(), nullptr, 10); if (v < lo || v > hi) throw vc::Reject(); }
  else v = replay ? (lo <= 0 && hi >= 0 ? 0 : lo) : (int64_t)(rnd_u(0, (uint64_t)(hi - lo)) + (uint64_t)lo);
  used[k] = std::to_string(v); return v;
}
double __vc_real(const char* n, double lo, double hi) { return get_r(uniq(n), lo, hi); }
void __vc_assume(bool c) { if (!c) throw vc::Reject(); }
void __vc_check(bool c, const char* l) { if (!c) fail(l, ""); }
void __vc_check_eq(double a, double b, double sc, const char* l) {
  double tol = 1e-8 * (std::fabs(a) + std::fabs(b) + std::fabs(sc));
  if (!(std::fabs(a - b) <= tol)) { char s[128]; snprintf(s, 128, "%.17g vs %.17g", a, b); fail(l, s); }
}
void __vc_check_le(double a, double b, double sc, const char* l) {
  double tol = 1e-8 * (std::fabs(a) + std::fabs(b) + std::fabs(sc));
  if (!(a <= b + tol)) { char s[128]; snprintf(s, 128, "%.17g > %.17g", a, b); fail(l, s); }
}
void __vc_cover(bool c, const char* l) { covers[l] += c ? 1 : 0; }
void __vc_abort(const char* m) { throw std::runtime_error(m); }
double __vc_uf(const char* n, double a, double b, double c, double d) {
  // an arbitrary but fixed smooth function of its arguments and of the run's seed
  double h = 0.37; for (const char* p = n; *p; p++) h = h * 1.31 + *p * 0.017; h -= std::floor(h);
  return std::sin(h * 7 + a * 1.3) + 0.5 * std::cos(b * 0.7 + h) + 0.25 * std::sin(c * 1.1 + 2 * h) + 0.125 * std::cos(d * 0.9 - h);
}
}
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::string cur_fn;
static FILE* out = nullptr;
static void emit(const std::string& fn, long runs, long rej, const std::string& fl, long big) {
  fprintf(out, "{\"fn\":\"%s\",\"runs\":%ld,\"rejected\":%ld,\"toolarge\":%ld,\"fail\":\"%s\",\"inputs\":{", fn.c_str(), runs, rej, big, jesc(fl).c_str());
  bool f = true; if (!fl.empty()) for (auto& p : used) { fprintf(out, "%s\"%s\":\"%s\"", f ? "" : ",", jesc(p.first).c_str(), p.second.c_str()); f = false; }
  fprintf(out, "},\"covers\":{"); f = true; for (auto& p : covers) { fprintf(out, "%s\"%s\":%ld", f ? "" : ",", jesc(p.first).c_str(), p.second); f = false; }
  fprintf(out, "}}\n"); fflush(out);
}
static volatile bool in_run = false;
static void on_sig(int s) { emit(cur_fn, 1, 0, std::string("signal ") + std::to_string(s), 0); _exit(0); }
// native <outfile> sample <fn> <seed> <n> <seconds> | replay <fn> <file> | list
int main(int argc, char** argv) {
  std::string mode = argc > 2 ? argv[2] : "list";
  if (mode == "list") { for (auto& f : fns()) printf("%s\n", f.n); return 0; }
  out = fopen(argv[1], "w"); if (!out) return 3;
  bool verbose = getenv("VC_VERBOSE") != nullptr;
  if (!verbose) { if (!freopen("/dev/null", "w", stdout)) return 3; std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); }
  Kokkos::initialize(argc, argv);
  int rc = 0;
  {
    std::string fn = argv[3]; cur_fn = fn;
    void (*f)() = nullptr; for (auto& x : fns()) if (fn == x.n) f = x.f;
    if (!f) { fprintf(stderr, "no such contract\n"); rc = 3; }
    else {
      signal(SIGSEGV, on_sig); signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGBUS, on_sig);
      long N = 1; double T = 10; uint64_t seed = 0;
      if (mode == "replay") {
        replay = true; std::ifstream in(argv[4]); std::string ln;
        while (std::getline(in, ln)) { auto p = ln.find('='); if (p != std::string::npos) given[ln.substr(0, p)] = ln.substr(p + 1); }
      } else { seed = strtoull(argv[4], 0, 10); N = atol(argv[5]); T = atof(argv[6]); }
      auto t0 = std::chrono::steady_clock::now(); long runs = 0, rej = 0, big = 0;
      for (long i = 0; i < N; i++) {
        uint64_t h = 1469598103934665603ull; for (char c : fn) h = (h ^ c) * 1099511628211ull;
        rng.seed(seed * 1000003 + i + h);
        used.clear(); cnt.clear(); recent.clear(); recent_i.clear(); failure.clear();
        bool rejected = false;
        try { f(); }
        catch (vc::Reject&) { rejected = true; }
        catch (TooLarge&) { rejected = true; big++; }
        catch (std::exception& e) { fail("exception", e.what()); }
        runs++; if (rejected) rej++;
        if (!failure.empty() ) { emit(fn, runs, rej, failure, big); goto done; }
        if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > T) break;
      }
      emit(fn, runs, rej, "", big);
    }
  }
done:
  fflush(out);
  _exit(rc);
}
