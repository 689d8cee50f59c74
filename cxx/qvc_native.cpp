// Native driver: replays recorded inputs against the real code, or searches
// for failing inputs by random generation (bounded stand-in).
//   prog --replay HARNESS file      file: lines "name value"
//   prog --search HARNESS N seed [seconds]
#include "qvc.h"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
namespace {
struct Skip {};
struct Failed { std::string tag; };
std::map<std::string, double> given;
std::map<std::string, double> used;
std::vector<std::string> order;
bool replaying = false;
std::mt19937_64 rng;
long n_checks = 0;
std::string harness;
std::vector<double> recent;
void dump(const char *tag)
{
  std::printf("FAIL %s\n", tag);
  for (const auto &n : order) std::printf("INPUT %s %.17g\n", n.c_str(), used[n]);
  std::fflush(stdout);
}
void on_sig(int s)
{
  dump(s == SIGABRT ? "program aborts (assertion or uncaught exception)" : "program crashes (invalid memory access or arithmetic trap)");
  _exit(3);
}
double take(const std::string &n, double fresh)
{
  const auto it = used.find(n);
  if (it != used.end()) return it->second;
  double v = fresh;
  if (replaying) { const auto g = given.find(n); v = g == given.end() ? 0.0 : g->second; }
  used[n] = v;
  order.push_back(n);
  return v;
}
}// namespace
extern "C" {
void __asan_on_error() { dump("invalid memory access (address sanitizer)"); _exit(3); }
double qv_real(const char *name)
{
  const auto k = rng() % 16;
  double v;
  if (k < 10) v = static_cast<double>(static_cast<long>(rng() % 65) - 32) / 16.0;
  else if (k < 12) v = static_cast<double>(static_cast<long>(rng() % 17) - 8);
  else if (k < 14 && !recent.empty()) v = recent[rng() % recent.size()];
  else v = static_cast<double>(rng() % 17) / 16.0;
  recent.push_back(v);
  return take(name, v);
}
std::int64_t qv_int(const char *name, std::int64_t lo, std::int64_t hi)
{
  // large ranges: concentrate on small distances from the ends
  std::int64_t v;
  const auto span = static_cast<std::uint64_t>(hi - lo);
  if (span < 64) v = lo + static_cast<std::int64_t>(rng() % (span + 1));
  else {
    const auto k = rng() % 8;
    if (k < 4) v = lo + static_cast<std::int64_t>(rng() % 8);
    else if (k < 6) v = lo + static_cast<std::int64_t>(rng() % 64);
    else if (k < 7) v = hi - static_cast<std::int64_t>(rng() % 8);
    else v = lo + static_cast<std::int64_t>(rng() % (span + 1 == 0 ? ~0ULL : span + 1));
  }
  const auto r = static_cast<std::int64_t>(take(name, static_cast<double>(v)));
  if (r < lo || r > hi) throw Skip{};
  return r;
}
std::int64_t qv_each(const char *name, std::int64_t lo, std::int64_t hi) { return qv_int(name, lo, hi); }
bool qv_bool(const char *name) { return take(name, static_cast<double>(rng() % 2)) != 0.0; }
void qv_assume(bool c) { if (!c) throw Skip{}; }
void qv_check(bool c, const char *tag) { ++n_checks; if (!c) throw Failed{ tag }; }
void qv_check_eq(double a, double b, const char *tag)
{
  ++n_checks;
  const bool fa = std::isfinite(a), fb = std::isfinite(b);
  if (!fa && !fb) return;
  if (fa != fb) throw Failed{ tag };
  if (std::abs(a - b) > 1.0e-9 * (1.0 + std::abs(a) + std::abs(b))) throw Failed{ tag };
}
void qv_check_deriv(double, double, double, const char *) {}
bool qv_symbolic() { return false; }
double qv_trunc(double x) { return x; }
}
static int run_once(void (*f)())
{
  used.clear();
  order.clear();
  recent.clear();
  try {
    f();
    return 0;
  } catch (const Skip &) {
    return 1;
  } catch (const Failed &e) {
    dump(e.tag.c_str());
    return 3;
  }
}
int main(int argc, char **argv)
{
  if (argc < 3) return 2;
  harness = argv[2];
  void *self = dlopen(nullptr, RTLD_NOW);
  auto f = reinterpret_cast<void (*)()>(dlsym(self, ("h_" + harness).c_str()));
  if (!f) { std::printf("NOHARNESS\n"); return 2; }
  for (int s : { SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS }) std::signal(s, on_sig);
  if (!std::strcmp(argv[1], "--replay")) {
    std::ifstream in(argv[3]);
    std::string l;
    while (std::getline(in, l)) {
      std::istringstream is(l);
      std::string w, n;
      double v;
      is >> w;
      if (w == "INPUT") is >> n >> v; else { n = w; if (!(is >> v)) continue; }
      given[n] = v;
    }
    replaying = true;
    const int r = run_once(f);
    std::printf("REPLAY %s\n", r == 0 ? "holds" : r == 1 ? "skipped (precondition)" : "violates");
    return r == 3 ? 3 : 0;
  }
  const long n = std::atol(argv[3]);
  rng.seed(static_cast<unsigned long>(std::atol(argv[4])) * 1000003ULL + 17);
  const double secs = argc > 5 ? std::atof(argv[5]) : 1.0e9;
  const auto t0 = std::chrono::steady_clock::now();
  long done = 0, skipped = 0;
  for (long i = 0; i < n; ++i) {
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    const int r = run_once(f);
    if (r == 3) return 3;
    if (r == 1) ++skipped; else ++done;
  }
  std::printf("SEARCH runs %ld skipped %ld checks %ld\n", done, skipped, n_checks);
  return 0;
}
