// Flag sets: the enum bit set, the SP3 event flag, the packed measurement flag.
#include <bits/stdc++.h>
#include "enum_bitset.hpp"
// the two programs of var, as they are
namespace sp3prog {
#define main flags_main
#include "var/flags.cc"
#undef main
} // namespace sp3prog
namespace meas {
#define main meas_main
#include "var/compound_measurement.cc"
#undef main
} // namespace meas
#include "vpbt.hpp"
using namespace vp;

template <typename E, int BITS> static void bitset(Gen &g, const char *what) {
  using B = dso::EnumBitset<E>;
  auto bit = [](int i) { return static_cast<E>(static_cast<typename std::underlying_type<E>::type>(1ull << i)); };
  struct S {
    B b;
    std::set<int> m;
  };
  std::vector<S> v(1);
  v.reserve(32);
  const int n = (int)g.integer(1, 20);
  for (int k = 0; k < n; k++) {
    S &s = v[g.choose(v.size())];
    const int i = (int)g.choose(BITS);
    switch (g.weighted({6, 4, 1, 2, 2, 2})) {
    case 0:
      s.b.set(bit(i)), s.m.insert(i), g.note("set %d of %d", i, int(&s - v.data()));
      break;
    case 1:
      s.b.clear(bit(i)), s.m.erase(i), g.note("clear %d of %d", i, int(&s - v.data()));
      break;
    case 2:
      s.b.clear(), s.m.clear(), g.note("clear all of %d", int(&s - v.data()));
      break;
    case 3: { // from one
      S t{B(bit(i)), {i}};
      v.push_back(t), g.note("new from %d", i);
      break;
    }
    case 4: { // from several
      const int a = (int)g.choose(BITS), b = (int)g.choose(BITS);
      S t{B{bit(i), bit(a), bit(b)}, {i, a, b}};
      v.push_back(t), g.note("new from %d %d %d", i, a, b);
      break;
    }
    case 5: { // copy, chained
      S t = s;
      const int a = (int)g.choose(BITS);
      t.b.set(bit(i)).set(bit(a)).clear(bit(i));
      t.m.insert(a), t.m.erase(i);
      v.push_back(t), g.note("copy of %d, set %d, %d, clear %d", int(&s - v.data()), i, a, i);
      break;
    }
    }
    for (auto &x : v) {
      for (int i = 0; i < BITS; i++)
        VP_CHECK(x.b.check(bit(i)) == (x.m.count(i) > 0), "%s: flag %d of set %d is %s", what, i, int(&x - v.data()), x.b.check(bit(i)) ? "on" : "off");
      VP_CHECK(x.b.is_clean() == x.m.empty(), "%s: is_clean", what);
      for (auto &y : v)
        VP_CHECK((x.b == y.b) == (x.m == y.m) && (x.b != y.b) == (x.m != y.m), "%s: comparison of sets %d and %d", what, int(&x - v.data()), int(&y - v.data()));
    }
    if (v.size() > 1 && s.m.size() > 1)
      g.nontrivial();
  }
  g.label(what);
}
namespace {
enum class Narrow : char {};
enum class Byte : unsigned char {};
enum class Plain {};
enum class Wide : uint64_t {};
} // namespace
VP_PROP(enum_bitset, 40000, 600000, "two sets, one of several flags") {
  switch (g.choose(4)) {
  case 0: return bitset<Narrow, 8>(g, "char");
  case 1: return bitset<Byte, 8>(g, "unsigned char");
  case 2: return bitset<Plain, 32>(g, "int");
  default: return bitset<Wide, 64>(g, "64 bits");
  }
}

VP_PROP(sp3_flag, 40000, 600000, "several events set, one of them cleared or set as a group") {
  using namespace sp3prog;
  constexpr int N = (int)Sp3Event::has_clk_rate_stdev + 1;
  static const bool quiet = (std::cout.setstate(std::ios::badbit), true);
  (void)quiet;
  Sp3Flag f;
  std::set<int> m, unknown;
  const int n = (int)g.integer(1, 25);
  for (int k = 0; k < n; k++) {
    const int i = (int)g.choose(N), j = (int)g.choose(N), l = (int)g.choose(N);
    switch (g.weighted({6, 4, 1, 2})) {
    case 0: f.set((Sp3Event)i), m.insert(i), unknown.erase(i), g.note("set %d", i); break;
    case 1: f.clear((Sp3Event)i), g.nontrivial(m.size() > 1), m.erase(i), unknown.erase(i), g.note("clear %d", i); break;
    case 2: f.reset(), m.clear(), unknown.clear(), g.note("reset"); break;
    case 3:
      // whether a group is added to or replaces what was set is left open
      for (int x : m)
        unknown.insert(x);
      m.clear();
      if (g.boolean()) {
        f.set((Sp3Event)i | (Sp3Event)j), m = {i, j}, g.note("set %d|%d", i, j);
      } else {
        f.set((Sp3Event)i | (Sp3Event)j | (Sp3Event)l), m = {i, j, l}, g.note("set %d|%d|%d", i, j, l);
      }
      for (int x : m)
        unknown.erase(x);
      // from here on what it did is known
      for (int x : unknown)
        if (f.is_set((Sp3Event)x))
          m.insert(x);
      unknown.clear();
      g.nontrivial();
      break;
    }
    for (int e = 0; e < N; e++)
      VP_CHECK(f.is_set((Sp3Event)e) == (m.count(e) > 0), "event %d is %s", e, f.is_set((Sp3Event)e) ? "set" : "not set");
    VP_CHECK(f.is_clean() == m.empty(), "is_clean() is %d with %d events set", f.is_clean(), (int)m.size());
  }
}

VP_PROP(packed_flag, 40000, 600000, "at least three writes") {
  meas::Flag f;
  int a = 0, b = 0, c = 0;
  const int n = (int)g.integer(1, 12);
  for (int k = 0; k < n; k++) {
    const int v = (int)g.integer(0, 255);
    switch (g.choose(3)) {
    case 0: f.set_flag1(v), a = v, g.note("flag1 = %d", v); break;
    case 1: f.set_flag2(v), b = v, g.note("flag2 = %d", v); break;
    case 2: f.set_missing(v), c = v, g.note("missing = %d", v); break;
    }
    VP_CHECK(f.get_flag1() == a && f.get_flag2() == b && f.get_missing() == c, "flag1 %d flag2 %d missing %d, should be %d %d %d", (int)f.get_flag1(), (int)f.get_flag2(), (int)f.get_missing(), a, b, c);
  }
  g.nontrivial(n >= 3);
  // the three layouts of a measurement stand for the same one
  const double val = g.boolean(0.1) ? 0 : g.sign() * g.logreal(1e-5, 1e9);
  const int f1 = (int)g.integer(0, 127), f2 = (int)g.integer(0, 127), miss = (int)g.choose(2);
  meas::Measurement1 m1{val, (int_fast8_t)miss, (int_fast8_t)f1, (int_fast8_t)f2};
  meas::Measurement2 m2{miss ? meas::MISSING : val, (int_fast8_t)f1, (int_fast8_t)f2};
  meas::Measurement3 m3{val, {}};
  m3.flag_.set_flag1(f1);
  m3.flag_.set_missing(miss);
  m3.flag_.set_flag2(f2);
  const double r1 = meas::foo1(m1), r2 = meas::foo1(m2), r3 = meas::foo1(m3);
  const double want = miss ? -999.99 : f1 > 16 ? val + 1e3 : f2 < 16 ? val - 1e-3 : val / 1e3;
  VP_CHECK(r1 == want && r2 == want && r3 == want, "value %.17g, flags %d %d, missing %d: %.17g %.17g %.17g, should be %.17g", val, f1, f2, miss, r1, r2, r3, want);
}
