// vpbt: a small property-based testing engine.
//
// A property is a function of a vp::Gen.  Every random decision is drawn from
// the Gen as a bounded integer choice, so a case IS its list of choices: the
// list can be replayed, and shrunk (deleting / zeroing / lowering choices)
// without the property knowing.  Cases run in forked workers whose current
// choice list lives in shared memory, so a crash, a sanitizer report, a failed
// assert or a hang of the code under test is an ordinary, shrinkable failure.
//
// The case with index i of sub-property s is a pure function of
// (seed, name of s, i): nothing depends on the number of workers or the clock.
// Every eighth case that a worker runs is the one before it with some choices
// drawn anew or moved a little: functions that should not remember anything are
// called again with some arguments the same, or nearly.  What only fails after the cases before it is
// replayed, and shrunk, as that history of cases.
#pragma once
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#ifdef VP_ASAN
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace vp {

inline std::string vfmt(const char *f, va_list ap) {
  va_list ap2;
  va_copy(ap2, ap);
  const int n = std::vsnprintf(nullptr, 0, f, ap2);
  va_end(ap2);
  std::string s(n > 0 ? n : 0, '\0');
  if (n > 0)
    std::vsnprintf(&s[0], n + 1, f, ap);
  return s;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  return s;
}

struct Fail {
  std::string msg;
};
struct Discard {};

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const char *s) {
  uint64_t h = 1469598103934665603ULL;
  for (; *s; ++s)
    h = (h ^ (unsigned char)*s) * 1099511628211ULL;
  return h;
}

struct Choice {
  uint64_t v, n; // value in [0,n);  n==0: full 64 bit range
};

constexpr uint32_t MAXC = 1u << 18;

// shared with the parent
struct Shared {
  volatile uint64_t index;     // index of the running case
  volatile uint32_t status;    // 0 running, 1 pass, 2 fail, 3 discard, 4 hang
  volatile uint32_t done;      // worker finished normally
  volatile uint32_t nchoices;
  char msg[4096];
  Choice choices[MAXC];
};

class Gen {
public:
  Gen(Shared *s, uint64_t seed) : sh(s), st(seed) { sh->nchoices = 0; }
  Gen(Shared *s, const std::vector<Choice> *r) : sh(s), replay(r) {
    sh->nchoices = 0;
  }
  bool verbose = false;
  std::string notes;
  int note_fd = -1;
  std::map<std::string, uint64_t> *labels = nullptr;
  std::map<std::string, uint64_t> *excluded = nullptr;
  const std::vector<std::string> *known_ids = nullptr;
  bool nontriv = false;

  // uniform in [0,n); the simplest value is 0
  uint64_t choose(uint64_t n) {
    uint64_t v;
    const uint32_t k = sh->nchoices;
    if (k >= MAXC)
      throw Discard{};
    if (replay) {
      v = k < replay->size() ? (*replay)[k].v : 0;
      if (n)
        v = v < n ? v : n - 1;
    } else {
      uint64_t z = next(st);
      if (vst) { // a variant: draw some choices anew
        const uint64_t a = next(vst);
        if ((a & 1023) < vp) // (every other one close to what it was)
          z = a & 1024 ? next(vst) : z ^ (next(vst) >> (1 + (a >> 16) % 63));
      }
      v = n ? (uint64_t)(((unsigned __int128)z * n) >> 64) : z;
    }
    sh->choices[k].v = v;
    sh->choices[k].n = n;
    sh->nchoices = k + 1;
    return v;
  }
  // inclusive range, shrinks towards lo
  int64_t integer(int64_t lo, int64_t hi) {
    return lo + (int64_t)choose((uint64_t)(hi - lo) + 1);
  }
  // true with probability about p; shrinks to false
  bool boolean(double p = 0.5) { return choose(1024) >= 1024 * (1 - p); }
  // index with the given weights; shrinks to the first
  int weighted(std::initializer_list<unsigned> w) {
    unsigned tot = 0;
    for (auto x : w)
      tot += x;
    uint64_t r = choose(tot);
    int i = 0;
    for (auto x : w) {
      if (r < x)
        return i;
      r -= x;
      ++i;
    }
    return i - 1;
  }
  template <class T> T pick(std::initializer_list<T> l) {
    return *(l.begin() + choose(l.size()));
  }
  template <class C> auto pickc(const C &c) -> decltype(c[0]) {
    return c[choose(c.size())];
  }
  // uniform real in [lo,hi]; shrinks towards lo
  double real(double lo, double hi) {
    const uint64_t k = choose((1ULL << 53));
    return lo + (hi - lo) * (double(k) * 0x1p-53);
  }
  // real with the interesting values given a fair share
  double realb(double lo, double hi, std::initializer_list<double> special,
               double p = 0.15) {
    if (special.size() && boolean(p)) {
      const double v = pick(special);
      if (v >= lo && v <= hi)
        return v;
    }
    return real(lo, hi);
  }
  // log-uniform in [lo,hi], lo>0
  double logreal(double lo, double hi) {
    return std::exp(real(std::log(lo), std::log(hi)));
  }
  double sign() { return choose(2) ? -1e0 : 1e0; }
  // fresh 64-bit word
  uint64_t word() { return choose(0); }

  void label(const std::string &s) {
    if (labels)
      ++(*labels)[s];
  }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  __attribute__((format(printf, 2, 3))) void note(const char *f, ...) {
    if (!verbose || notes.size() > 20000)
      return;
    va_list ap;
    va_start(ap, f);
    std::string l = vfmt(f, ap) + "\n";
    va_end(ap);
    notes += l;
    if (note_fd >= 0 && ::write(note_fd, l.data(), l.size()) < 0)
      note_fd = -1;
  }
  // is the finding listed in the known-findings file?  Counts the exclusion.
  bool known(const char *id) {
    if (known_ids)
      for (const auto &s : *known_ids)
        if (s == id) {
          if (excluded)
            ++(*excluded)[id];
          return true;
        }
    return false;
  }
  [[noreturn]] void discard() { throw Discard{}; }
  uint64_t case_hash() const {
    uint64_t h = 0x1234567;
    for (uint32_t i = 0; i < sh->nchoices; ++i)
      h = mix64(h ^ sh->choices[i].v);
    return h;
  }

  // a variant of what the seed gives: each choice is another one with
  // probability p/1024
  void vary(uint64_t seed, uint32_t p) { vst = seed | 1, vp = p; }

private:
  static uint64_t next(uint64_t &s) {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  Shared *sh;
  uint64_t st = 0, vst = 0;
  uint32_t vp = 0;
  const std::vector<Choice> *replay = nullptr;
};

__attribute__((format(printf, 1, 2))) [[noreturn]] inline void fail(const char *f,
                                                                    ...) {
  va_list ap;
  va_start(ap, f);
  Fail x{vfmt(f, ap)};
  va_end(ap);
  throw x;
}
#define VP_CHECK(cond, ...)                                                    \
  do {                                                                         \
    if (!(cond))                                                               \
      vp::fail(__VA_ARGS__);                                                   \
  } while (0)

// |a-b| <= abs + rel*max(|a|,|b|), and both finite (or identical)
inline bool near(double a, double b, double rel, double abs_ = 0e0) {
  if (a == b)
    return true;
  if (!std::isfinite(a) || !std::isfinite(b))
    return false;
  return std::fabs(a - b) <=
         abs_ + rel * std::fmax(std::fabs(a), std::fabs(b));
}

// currently live heap bytes (0 without ASan)
inline std::size_t live_bytes() {
#ifdef VP_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

struct Sub {
  std::string name;
  std::string rule; // what makes a case non-trivial
  uint64_t nquick, nthorough;
  std::function<void(Gen &)> fn;
};
inline std::vector<Sub> &subs() {
  static std::vector<Sub> v;
  return v;
}
struct Reg {
  Reg(const char *n, const char *rule, uint64_t q, uint64_t t,
      std::function<void(Gen &)> f) {
    subs().push_back({n, rule, q, t, f});
  }
};
// a listed finding and a probe that says whether it is still there (a probe
// that crashes says yes)
struct Probe {
  std::string id, text;
  std::function<bool()> fn;
};
inline std::vector<Probe> &probes() {
  static std::vector<Probe> v;
  return v;
}
struct RegProbe {
  RegProbe(const char *id, const char *text, std::function<bool()> f) {
    probes().push_back({id, text, f});
  }
};
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define VP_PROP(name, nq, nt, rule)                                            \
  static void name(vp::Gen &g);                                                \
  static vp::Reg VP_CAT(reg_, name)(#name, rule, nq, nt, name);                \
  static void name(vp::Gen &g)
#define VP_PROBE(name, id, text)                                               \
  static bool name();                                                          \
  static vp::RegProbe VP_CAT(regp_, name)(id, text, name);                     \
  static bool name()

// scratch directory of this run (removed by the driver)
inline std::string &scratch_dir() {
  static std::string s = "/tmp";
  return s;
}
// a file name private to this process
inline std::string scratch_file(const char *tag) {
  return scratch_dir() + "/" + tag + "." + std::to_string(getpid());
}
inline void write_file(const std::string &p, const std::string &data) {
  FILE *f = std::fopen(p.c_str(), "wb");
  if (!f) {
    std::perror(p.c_str());
    std::_Exit(99);
  }
  std::fwrite(data.data(), 1, data.size(), f);
  std::fclose(f);
}
// silences a FILE* (the code under test reports errors on stderr)
struct Mute {};

std::string json_escape(const std::string &s);
int engine_main(int argc, char **argv);

} // namespace vp
