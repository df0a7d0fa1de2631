// Native runtime of the specification interface: replays a given input
// assignment or searches at random, on the real code.
//
//   exe list
//   exe replay HARNESS FILE          exit 1 when an obligation fails
//   exe search HARNESS SEED SECONDS MAXRUNS OUT
#include <dlfcn.h>
#include <elf.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>

#include "vf.hpp"

namespace {
struct Rejected {};
struct Failed {};

std::mt19937_64 rng;
bool replaying = false;
std::map<std::string, std::string> given;
std::map<std::string, int> counts;
std::vector<std::pair<std::string, std::string>> used;
std::string failure;
int mode = 0;

std::string key(const char* n) {
  int k = counts[n]++;
  if (!k) return n;
  return std::string(n) + "#" + std::to_string(k);
}

std::string hex(double v) {
  char b[64];
  if (std::isnan(v)) return "nan";
  snprintf(b, sizeof b, "%a", v);
  return b;
}

double pick_real(double lo, double hi) {
  std::uniform_real_distribution<double> u(0, 1);
  double v;
  switch (rng() % 8) {
    case 0:
      v = lo;
      break;
    case 1:
      v = hi;
      break;
    case 2:  // integral values
      v = std::floor(lo + (hi - lo) * u(rng));
      break;
    case 3:  // small magnitudes
      v = (lo > 0 || hi < 0) ? lo + (hi - lo) * u(rng) * 1e-3
                             : (u(rng) - 0.5) * std::min(10.0, hi - lo);
      break;
    case 4:  // multiples of 1/4, ties
      v = std::floor((lo + (hi - lo) * u(rng)) * 4) / 4;
      break;
    default:
      v = lo + (hi - lo) * u(rng);
  }
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}

double real_value(const std::string& k, double lo, double hi, bool nan) {
  auto it = given.find(k);
  double v;
  if (it != given.end()) {
    v = it->second == "nan" ? std::numeric_limits<double>::quiet_NaN()
                            : strtod(it->second.c_str(), nullptr);
  } else if (replaying) {
    v = lo <= 0 && hi >= 0 ? 0 : lo;
  } else if (nan && rng() % 5 == 0) {
    v = std::numeric_limits<double>::quiet_NaN();
  } else {
    v = pick_real(lo, hi);
  }
  used.emplace_back(k, hex(v));
  return v;
}

long int_value(const std::string& k, long lo, long hi) {
  auto it = given.find(k);
  long v;
  if (it != given.end())
    v = strtol(it->second.c_str(), nullptr, 10);
  else if (replaying)
    v = lo <= 0 && hi >= 0 ? 0 : lo;
  else {
    unsigned long span = (unsigned long)hi - (unsigned long)lo;
    switch (span > 200 ? rng() % 4 : 3) {
      case 0:
        v = lo + (long)(rng() % 8);
        break;
      case 1:
        v = hi - (long)(rng() % 8);
        break;
      case 2:
        v = lo + (long)(rng() % 64);
        break;
      default:
        v = span == ~0UL ? (long)rng() : lo + (long)(rng() % (span + 1));
    }
  }
  used.emplace_back(k, std::to_string(v));
  return v;
}
}  // namespace

extern "C" {
double vf_real(const char* n, double lo, double hi) {
  return real_value(key(n), lo, hi, false);
}
double vf_real_or_nan(const char* n, double lo, double hi) {
  return real_value(key(n), lo, hi, true);
}
long vf_int(const char* n, long lo, long hi) {
  std::string k = key(n);
  if (lo == hi) return lo;
  return int_value(k, lo, hi);
}
long vf_split(const char* n, long lo, long hi) { return vf_int(n, lo, hi); }
bool vf_bool(const char* n) { return int_value(key(n), 0, 1) != 0; }
void vf_fill_real(double* p, long n, const char* nm, double lo, double hi,
                  bool nan) {
  std::string k = key(nm);
  for (long i = 0; i < n; i++)
    p[i] = real_value(k + "[" + std::to_string(i) + "]", lo, hi, nan);
}
void vf_fill_float(float* p, long n, const char* nm, double lo, double hi,
                   bool nan) {
  std::string k = key(nm);
  for (long i = 0; i < n; i++)
    p[i] = (float)real_value(k + "[" + std::to_string(i) + "]", lo, hi, nan);
}
void vf_fill_int(void* p, long n, const char* nm, long lo, long hi, int es) {
  std::string k = key(nm);
  for (long i = 0; i < n; i++) {
    long v = int_value(k + "[" + std::to_string(i) + "]", lo, hi);
    memcpy((char*)p + i * es, &v, es);
  }
}
void vf_assume(bool c) {
  if (!c) throw Rejected();
}
void vf_assert(bool c, const char* what) {
  if (!c) {
    failure = what;
    throw Failed();
  }
}
void vf_close(double a, double b, double tol, const char* what) {
  if (!(std::fabs(a - b) <= tol)) {
    char buf[400];
    snprintf(buf, sizeof buf, "%s: %.17g vs %.17g (tolerance %g)", what, a, b,
             tol);
    failure = buf;
    throw Failed();
  }
}
void vf_close2(double a, double b, double c, double tol, const char* what) {
  if (std::fabs(a - b) <= tol) return;
  vf_close(a, c, tol, what);
}
void vf_same(double a, double b, double tol, const char* what) {
  if (std::isnan(a) && std::isnan(b)) return;
  vf_close(a, b, tol, what);
}
void vf_cover(const char*) {}
bool vf_symbolic() { return false; }
static double ufv(const char* n, const double* a, int k) {
  uint64_t h = 1469598103934665603ULL;
  for (; *n; n++) h = (h ^ (unsigned char)*n) * 1099511628211ULL;
  for (int i = 0; i < k; i++) {
    uint64_t b;
    double v = a[i] + 0.0;
    memcpy(&b, &v, 8);
    h = (h ^ b) * 1099511628211ULL;
    h ^= h >> 29;
  }
  return (double)(h % 2000001) / 1000.0 - 1000.0;
}
double vf_uf1(const char* n, double a) { return ufv(n, &a, 1); }
double vf_uf2(const char* n, double a, double b) {
  double v[] = {a, b};
  return ufv(n, v, 2);
}
double vf_uf3(const char* n, double a, double b, double c) {
  double v[] = {a, b, c};
  return ufv(n, v, 3);
}
}

static std::map<std::string, void (*)()>& table() {
  static std::map<std::string, void (*)()> t;
  return t;
}
VfReg::VfReg(const char* name, void (*fn)()) { table()[name] = fn; }

static sigjmp_buf jb;
static void on_signal(int s) {
  failure = std::string("crash: signal ") + strsignal(s);
  siglongjmp(jb, s);
}

// 0 held, 1 failed, 2 rejected by a precondition
static int once(void (*fn)()) {
  counts.clear();
  used.clear();
  failure.clear();
  if (sigsetjmp(jb, 1)) return 1;
  try {
    fn();
  } catch (const Rejected&) {
    return 2;
  } catch (const Failed&) {
    return 1;
  } catch (const std::exception& e) {
    failure = std::string("unexpected exception: ") + e.what();
    return 1;
  } catch (...) {
    failure = "unexpected exception";
    return 1;
  }
  return 0;
}

static void write_out(const char* path, const char* h) {
  std::ofstream f(path);
  f << "# harness " << h << "\n# failed: " << failure << "\n";
  for (auto& kv : used) f << kv.first << " = " << kv.second << "\n";
}

int main(int argc, char** argv) {
  if (argc < 2) return 3;
  std::string cmd = argv[1];
  if (cmd == "list") {
    for (auto& e : table()) puts(e.first.c_str());
    return 0;
  }
  void (*fn)() = nullptr;
  if (argc > 2 && table().count(argv[2])) fn = table()[argv[2]];
  if (!fn) {
    fprintf(stderr, "no harness %s\n", argv[2]);
    return 3;
  }
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER;
    sigaction(s, &sa, nullptr);
  }
  if (cmd == "replay") {
    replaying = true;
    std::ifstream f(argv[3]);
    std::string l;
    while (std::getline(f, l)) {
      if (l.empty() || l[0] == '#') continue;
      auto p = l.find(" = ");
      if (p == std::string::npos) continue;
      given[l.substr(0, p)] = l.substr(p + 3);
    }
    alarm(60);
    int r = once(fn);
    printf("%s\n", r == 0 ? "held" : r == 1 ? ("FAILED: " + failure).c_str()
                                            : "rejected by a precondition");
    if (r == 1 && argc > 4) write_out(argv[4], argv[2]);
    return r;
  }
  if (cmd == "search") {
    unsigned long seed = strtoul(argv[3], nullptr, 10);
    double secs = atof(argv[4]);
    long maxruns = atol(argv[5]);
    rng.seed(seed * 1000003UL + 17);
    auto t0 = std::chrono::steady_clock::now();
    long runs = 0, rejected = 0;
    while (runs < maxruns) {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
              .count() > secs)
        break;
      alarm(30);
      int r = once(fn);
      runs++;
      if (r == 2) rejected++;
      if (r == 1) {
        write_out(argv[6], argv[2]);
        printf("FAILED after %ld runs: %s\n", runs, failure.c_str());
        return 1;
      }
    }
    printf("runs=%ld rejected=%ld\n", runs, rejected);
    return 0;
  }
  return 3;
}
