// Compact 2-D matrices: each stored element is a cell of its own, copies are
// deep and equal, moves transfer, nothing leaks; for the three storage kinds.
#ifdef VARIANT_VAR
#include "compact2dmat.hpp"
#else
#include "cmat2d.hpp"
#endif
#include "vpbt.hpp"
#include <memory>
#include <utility>
using namespace vp;
using dso::MatrixStorageType;
namespace {
struct Ref {
  int rows = 0, cols = 0;
  bool hollow = true; // moved from
  std::vector<double> v;
  std::vector<char> set;
};
template <MatrixStorageType S> struct Layout;
template <> struct Layout<MatrixStorageType::RowWise> {
  static int width(int, int c, int) { return c; }
  static constexpr bool bycol = false;
};
template <> struct Layout<MatrixStorageType::Trapezoid> {
  static int width(int, int c, int i) { return std::min(i + 1, c); }
  static constexpr bool bycol = false;
};
template <> struct Layout<MatrixStorageType::ColumnWise> {
  static int width(int r, int, int) { return r; }
  static constexpr bool bycol = true;
};
// position in storage order of (i,j): computed by walking the layout
template <MatrixStorageType S> std::vector<std::pair<int, int>> walk(int r, int c) {
  std::vector<std::pair<int, int>> o;
  const int outer = Layout<S>::bycol ? c : r;
  for (int a = 0; a < outer; a++)
    for (int b = 0; b < Layout<S>::width(r, c, a); b++)
      o.push_back(Layout<S>::bycol ? std::make_pair(b, a) : std::make_pair(a, b));
  return o;
}
template <MatrixStorageType S> void compare(const dso::Mat2D<S> &m, const Ref &r, const char *when) {
  if (r.hollow)
    return;
  VP_CHECK(m.rows() == r.rows && m.cols() == r.cols, "%s: %dx%d, expected %dx%d", when, m.rows(), m.cols(), r.rows, r.cols);
  VP_CHECK(m.num_elements() == (long)r.v.size(), "%s: %ld elements, expected %zu", when, m.num_elements(), r.v.size());
  const auto o = walk<S>(r.rows, r.cols);
  for (size_t k = 0; k < o.size(); k++) {
    if (!r.set[k])
      continue;
    const int i = o[k].first, j = o[k].second;
    VP_CHECK(m(i, j) == r.v[k], "%s: (%d,%d) of %dx%d = %g, written %g", when, i, j, r.rows, r.cols, m(i, j), r.v[k]);
    const int a = Layout<S>::bycol ? j : i, b = Layout<S>::bycol ? i : j;
    VP_CHECK(m.slice(a)[b] == r.v[k], "%s: slice(%d)[%d] differs", when, a, b);
    VP_CHECK(m.data()[k] == r.v[k], "%s: data()[%zu] differs", when, k);
  }
}
template <MatrixStorageType S> void history(Gen &g) {
  using M = dso::Mat2D<S>;
  const int P = 3;
  const size_t before = live_bytes();
  {
    std::unique_ptr<M> x[P];
    Ref r[P];
    double next = 1;
    bool wrote = false;
    const int steps = (int)g.integer(1, 18);
    for (int st = 0; st < steps; st++) {
      const int i = (int)g.choose(P), j = (int)g.choose(P);
      if (!x[i]) {
        const int a = (int)g.integer(1, 12), b = (int)g.integer(1, 12); // a trapezoid may be wider than high
        x[i].reset(new M(a, b));
        r[i].rows = a;
        r[i].cols = b;
        r[i].hollow = false;
        r[i].v.assign(walk<S>(a, b).size(), 0);
        r[i].set.assign(r[i].v.size(), 0);
        g.note("%d: new %dx%d", i, a, b);
        compare(*x[i], r[i], "construction");
        continue;
      }
      const auto o = walk<S>(r[i].rows, r[i].cols);
      switch (g.weighted({5, 3, 2, 2, 2, 3, 3, 1})) {
      case 0: // single cells
        if (!r[i].hollow)
          for (int q = 0; q < 5; q++) {
            const size_t k = g.choose(o.size());
            (*x[i])(o[k].first, o[k].second) = r[i].v[k] = next++;
            r[i].set[k] = 1;
            wrote = true;
          }
        g.note("%d: cells", i);
        break;
      case 1: // all, by element or slice
        if (!r[i].hollow) {
          const bool sl = g.choose(2), up = g.choose(2);
          for (size_t q = 0; q < o.size(); q++) {
            const size_t k = up ? q : o.size() - 1 - q;
            const int a = Layout<S>::bycol ? o[k].second : o[k].first, b = Layout<S>::bycol ? o[k].first : o[k].second;
            (sl ? x[i]->slice(a)[b] : (*x[i])(o[k].first, o[k].second)) = r[i].v[k] = next++;
            r[i].set[k] = 1;
          }
          wrote = true;
          g.nontrivial(o.size() > 3);
        }
        g.note("%d: all", i);
        break;
      case 2:
        if (!r[i].hollow) {
          x[i]->fill_with(next);
          std::fill(r[i].v.begin(), r[i].v.end(), next++);
          std::fill(r[i].set.begin(), r[i].set.end(), 1);
          wrote = true;
        }
        g.note("%d: filled", i);
        break;
      case 3: // copy-construct
        if (i != j && !r[i].hollow) {
          x[j].reset(new M(*x[i]));
          r[j] = r[i];
          g.note("%d: copy of %d", j, i);
          g.label("copied");
          g.nontrivial(wrote);
          compare(*x[j], r[j], "copy construction");
        }
        break;
      case 4: // move-construct
        if (i != j && !r[i].hollow) {
          x[j].reset(new M(std::move(*x[i])));
          r[j] = r[i];
          r[i].hollow = true;
          g.note("%d: moved from %d", j, i);
          g.label("moved");
          g.nontrivial(wrote);
          compare(*x[j], r[j], "move construction");
        }
        break;
      case 5: // copy-assign
        if (x[j] && !r[i].hollow) {
          g.note("%d = %d", j, i);
          g.label(i == j ? "self-assigned" : r[j].hollow ? "assigned to a hollow one" : r[j].v.size() == r[i].v.size() ? "assigned, same size" : "assigned, other size");
          VP_CHECK(&(*x[j] = *x[i]) == x[j].get(), "assignment does not return its left side");
          r[j] = Ref(r[i]);
          g.nontrivial(wrote);
          compare(*x[j], r[j], "copy assignment");
        }
        break;
      case 6: // move-assign
        if (x[j] && !r[i].hollow) {
          g.note("%d = move(%d)", j, i);
          g.label(i == j ? "self-moved" : "move-assigned");
          VP_CHECK(&(*x[j] = std::move(*x[i])) == x[j].get(), "move assignment does not return its left side");
          if (i != j) {
            r[j] = Ref(r[i]);
            r[i].hollow = true;
          }
          g.nontrivial(wrote);
          compare(*x[j], r[j], "move assignment");
        }
        break;
      default:
        x[i].reset();
        g.note("%d: destroyed", i);
        r[i] = Ref();
      }
      for (int k = 0; k < P; k++)
        if (x[k])
          compare(*x[k], r[k], "later");
    }
  }
  if (!g.verbose) {
    const size_t after = live_bytes();
    VP_CHECK(after <= before + 640, "%zu bytes before, %zu after all matrices are gone", before, after);
  }
}
template <MatrixStorageType S> void leak(Gen &g) {
  using M = dso::Mat2D<S>;
  const int a = (int)g.integer(1, 40), b = (int)g.integer(1, a), c = (int)g.integer(1, 40), d = (int)g.integer(1, c);
  const int how = (int)g.choose(3);
  g.note("%dx%d and %dx%d, %d", a, b, c, d, how);
  const size_t before = live_bytes();
  {
    M x(a, b), y(c, d);
    x.fill_with(1);
    y.fill_with(2);
    if (how == 0)
      y = std::move(x);
    else if (how == 1)
      y = x;
    else {
      M z(std::move(x));
      x = y;
      y = z;
    }
  }
  const size_t after = live_bytes();
  VP_CHECK(after == before, "%zu bytes before, %zu after", before, after);
  g.nontrivial(a != c || b != d);
}
} // namespace
VP_PROP(trapezoid, 30000, 400000, "a write followed by a copy or move, or a fully written matrix") { history<MatrixStorageType::Trapezoid>(g); }
VP_PROP(rowwise, 30000, 400000, "same") { history<MatrixStorageType::RowWise>(g); }
VP_PROP(columnwise, 30000, 400000, "same") { history<MatrixStorageType::ColumnWise>(g); }
// every cell has a place of its own whatever the size
template <MatrixStorageType S> static void big(Gen &g) {
  int a = (int)g.integer(13, 300), b = (int)g.integer(1, 300);
  if (g.boolean(0.2))
    a = (int)g.integer(301, 5000), b = (int)g.integer(1, 40);
  if (S == MatrixStorageType::Trapezoid)
    b = std::min(a, b);
  else if (g.choose(2))
    std::swap(a, b);
  g.note("%dx%d", a, b);
  dso::Mat2D<S> m(a, b);
  Ref r;
  r.rows = a, r.cols = b, r.hollow = false;
  const auto o = walk<S>(a, b);
  r.v.resize(o.size()), r.set.assign(o.size(), 1);
  double *const data = m.slice(0);
  VP_CHECK(data == m.data(), "slice(0) is not the data");
  for (size_t k = 0; k < o.size(); k++)
    data[k] = r.v[k] = (double)k + 0.5;
  const size_t step = 1 + o.size() / 3000; // (the offset of a cell may take a walk)
  for (size_t k = g.choose(step); k < o.size(); k += step) {
    const int i = o[k].first, j = o[k].second, s = Layout<S>::bycol ? j : i, t = Layout<S>::bycol ? i : j;
    VP_CHECK(&m(i, j) == m.data() + k, "(%d,%d) of %dx%d is at %td of the data, not %zu", i, j, a, b, &m(i, j) - m.data(), k);
    VP_CHECK(m.slice(s) + t == m.data() + k, "slice(%d) of %dx%d is at %td of the data", s, a, b, m.slice(s) - m.data());
  }
  const dso::Mat2D<S> c(m);
  VP_CHECK(m.num_elements() == (long)o.size() && c.num_elements() == (long)o.size(), "%ld and %ld elements, expected %zu", m.num_elements(), c.num_elements(), o.size());
  for (size_t k = 0; k < o.size(); k++)
    VP_CHECK(c.data()[k] == r.v[k], "the copy of a %dx%d matrix has %g at %zu", a, b, c.data()[k], k);
  g.nontrivial();
}
VP_PROP(large, 2500, 40000, "always; up to 5000 rows") {
  switch (g.choose(3)) {
  case 0: big<MatrixStorageType::Trapezoid>(g); break;
  case 1: big<MatrixStorageType::RowWise>(g); break;
  default: big<MatrixStorageType::ColumnWise>(g);
  }
}
VP_PROP(no_leak, 15000, 300000, "two different shapes") {
  switch (g.choose(3)) {
  case 0: leak<MatrixStorageType::Trapezoid>(g); break;
  case 1: leak<MatrixStorageType::RowWise>(g); break;
  default: leak<MatrixStorageType::ColumnWise>(g);
  }
}
