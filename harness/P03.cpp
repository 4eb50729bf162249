// The coefficient container: every C(n,m) and S(n,m) is a cell of its own,
// over any history of writes, resizes and moves; nothing leaks.
#include "harmonic_coeffs.hpp"
#include "vpbt.hpp"
#include <memory>
#include <utility>
using namespace vp;
using HC = dso::HarmonicCoeffs;
namespace {
struct Ref {
  int deg = -1; // -1: empty
  std::map<std::pair<int, int>, double> c, s;
  double gm = 0, re = 0;
  bool norm = true;
};
void compare(const HC &h, const Ref &r, const char *when) {
  VP_CHECK(h.degree() == std::max(0, r.deg), "%s: degree %d, expected %d", when, h.degree(), r.deg);
#ifndef VARIANT_VAR
  if (r.deg >= 0) {
    VP_CHECK(h.GM() == r.gm && h.Re() == r.re && h.normalized() == r.norm, "%s: GM, Re or normalisation flag changed", when);
    auto it = r.c.find({2, 0});
    if (it != r.c.end() && r.deg >= 2)
      VP_CHECK(h.J2() == -it->second, "%s: J2 is not -C(2,0)", when);
  }
#endif
  for (auto &kv : r.c) {
    const int n = kv.first.first, m = kv.first.second;
    VP_CHECK(h.C(n, m) == kv.second, "%s: C(%d,%d) = %g, written %g (degree %d)", when, n, m, h.C(n, m), kv.second, r.deg);
    VP_CHECK(h.C_row(n)[m] == kv.second, "%s: C row %d[%d]", when, n, m);
  }
  for (auto &kv : r.s) {
    const int n = kv.first.first, m = kv.first.second;
    VP_CHECK(h.S(n, m) == kv.second, "%s: S(%d,%d) = %g, written %g (degree %d)", when, n, m, h.S(n, m), kv.second, r.deg);
    VP_CHECK(h.S_row(n)[m - 1] == kv.second, "%s: S row %d[%d]", when, n, m - 1);
  }
}
} // namespace

VP_PROP(histories, 100000, 1500000, "a history with a write followed by a resize or a move, or a fully written container") {
  // (the first allocation of the engine's own strings is outside)
  const int P = 3;
  const size_t before = live_bytes();
  {
    std::unique_ptr<HC> h[P];
    Ref r[P];
    double next = 1;
    bool wrote = false;
    const int steps = (int)g.integer(1, 25);
    for (int st = 0; st < steps; st++) {
      const int i = (int)g.choose(P), j = (int)g.choose(P);
      if (!h[i]) {
        switch (g.choose(3)) {
        case 0:
          h[i].reset(new HC());
          r[i] = Ref();
          g.note("%d: default", i);
          break;
        case 1:
          r[i] = Ref();
          r[i].deg = (int)g.integer(0, 12);
          h[i].reset(new HC(r[i].deg));
          g.note("%d: degree %d", i, r[i].deg);
          break;
        default:
          r[i] = Ref();
          r[i].deg = (int)g.integer(1, 40);
#ifndef VARIANT_VAR
          r[i].gm = 2.5;
          r[i].re = 3.5;
          h[i].reset(new HC(r[i].deg, 2.5, 3.5));
#else
          h[i].reset(new HC(r[i].deg));
#endif
          g.note("%d: degree %d with constants", i, r[i].deg);
        }
        compare(*h[i], r[i], "construction");
        continue;
      }
      switch (g.weighted({6, 3, 3, 2, 3, 2, 1, 1})) {
      case 0: // a few cells
        if (r[i].deg >= 0)
          for (int k = 0; k < 6; k++) {
            const int n = (int)g.integer(0, r[i].deg), m = (int)g.integer(0, n);
            r[i].c[{n, m}] = h[i]->C(n, m) = next++;
            if (m)
              r[i].s[{n, m}] = h[i]->S(n, m) = next++;
            wrote = true;
          }
        g.note("%d: write cells", i);
        break;
      case 1: // everything, through cells or rows, in either order
        if (r[i].deg >= 0) {
          const bool rows = g.choose(2), up = g.choose(2);
          for (int q = 0; q <= r[i].deg; q++) {
            const int n = up ? q : r[i].deg - q;
            for (int m = 0; m <= n; m++) {
              r[i].c[{n, m}] = next;
              (rows ? h[i]->C_row(n)[m] : h[i]->C(n, m)) = next++;
              if (m) {
                r[i].s[{n, m}] = next;
                (rows ? h[i]->S_row(n)[m - 1] : h[i]->S(n, m)) = next++;
              }
            }
          }
          g.nontrivial(r[i].deg > 0);
          g.label("fully written");
          g.note("%d: write all", i);
        }
        break;
      case 2: // resize
#ifndef VARIANT_VAR
      {
        const int d = g.weighted({4, 1}) ? std::max(0, r[i].deg) : (int)g.integer(0, 45);
        g.note("%d: resize %d -> %d", i, r[i].deg, d);
        h[i]->resize(d);
        g.label(d < r[i].deg ? "shrunk" : "grown");
        g.nontrivial(wrote);
        if (r[i].deg < 0) { // empty, maybe moved from: its constants are not specified
          r[i].gm = h[i]->GM();
          r[i].re = h[i]->Re();
          r[i].norm = h[i]->normalized();
        }
        r[i].deg = d;
        r[i].c.clear(); // what a resize leaves is not specified
        r[i].s.clear();
      }
#endif
        break;
      case 3: // move-construct
        if (i != j) {
          g.note("%d: move-constructed from %d", j, i);
          h[j].reset(new HC(std::move(*h[i])));
          r[j] = r[i];
          const Ref old = r[i];
          r[i] = Ref();
          r[i].gm = old.gm;
          VP_CHECK(h[i]->degree() == 0, "a moved-from container has degree %d", h[i]->degree());
          g.nontrivial(wrote);
          g.label("moved");
          if (r[j].deg < 0)
            r[j].deg = -1;
          compare(*h[j], r[j], "move construction");
        }
        break;
      case 4: // move-assign
        if (h[j]) {
          g.note("%d = move(%d)", j, i);
          *h[j] = std::move(*h[i]);
          if (i != j) {
            r[j] = r[i];
            r[i] = Ref();
          }
          g.nontrivial(wrote);
          g.label(i == j ? "self-moved" : "move-assigned");
          compare(*h[j], r[j], "move assignment");
        }
        break;
      case 5:
        g.note("%d: destroyed", i);
        h[i].reset();
        r[i] = Ref();
        break;
      case 6: // constants
#ifndef VARIANT_VAR
        if (r[i].deg >= 0) {
          r[i].gm = h[i]->GM() = next++;
          r[i].re = h[i]->Re() = next++;
          r[i].norm = h[i]->normalized() = g.choose(2);
        }
#endif
        break;
      default:
        break;
      }
      for (int k = 0; k < P; k++)
        if (h[k])
          compare(*h[k], r[k], "later");
    }
  }
  // the notes and labels are the engine's; only count a case without them
  if (!g.verbose) {
    const size_t after = live_bytes();
    VP_CHECK(after <= before + 512, "%zu bytes allocated before, %zu after all containers are gone", before, after);
  }
}

// leaks on their own, with sizes that stand out
VP_PROP(large, 1000, 15000, "always; degrees to 500") {
  const int d = (int)g.integer(41, g.boolean(0.2) ? 500 : 150);
  g.note("degree %d", d);
  HC h(d);
  for (int n = 0; n <= d; n++)
    for (int m = 0; m <= n; m++) {
      h.C(n, m) = n * 1000 + m;
      if (m)
        h.S(n, m) = -(n * 1000 + m);
    }
  if (g.choose(2)) {
    HC k(std::move(h));
    h = std::move(k);
  }
  for (int n = 0; n <= d; n++)
    for (int m = 0; m <= n; m++) {
      VP_CHECK(h.C(n, m) == n * 1000 + m, "C(%d,%d) = %g", n, m, h.C(n, m));
      VP_CHECK(!m || h.S(n, m) == -(n * 1000 + m), "S(%d,%d) = %g", n, m, h.S(n, m));
    }
  g.nontrivial();
}
VP_PROP(no_leak, 20000, 300000, "a resize to a smaller or larger degree, or a move onto a live container") {
  const int a = (int)g.integer(0, 60), b = (int)g.integer(0, 60);
  const bool mv = g.choose(2);
  g.note("degrees %d and %d, %s", a, b, mv ? "move" : "resize");
  const size_t before = live_bytes();
  {
    HC x(a);
    if (mv) {
      HC y(b);
      y = std::move(x);
    }
#ifndef VARIANT_VAR
    else {
      x.resize(b);
      x.resize((a + b) / 2);
    }
#endif
  }
  const size_t after = live_bytes();
  VP_CHECK(after == before, "%zu bytes before, %zu after", before, after);
  g.nontrivial(a != b);
}
