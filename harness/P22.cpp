// DORIS RINEX data records.
#include "rnxgen.hpp"
using namespace vp;
using namespace rnx;
using dt_t = dso::datetime<dso::nanoseconds>;
static bool at(const dt_t &t, long mjd, int64_t ns) {
  const int64_t day = 86400LL * 1000000000LL;
  mjd += ns / day, ns %= day;
  if (ns < 0)
    ns += day, --mjd;
  return t.mjd().as_underlying_type() == mjd && t.sec().as_underlying_type() == ns;
}
// all records, through the iterator or skipping some
VP_PROP(records, 12000, 150000, "a file of several epochs with several beacons, missing values and scale factors") {
  File f = gen(g, 6, g.boolean(0.03) ? 99 : 8);
  const Lines L = lines(f, g);
  const string fn = scratch_file("rnx");
  write_file(fn, L.text(!g.boolean(0.2) || f.ep.empty()));
  g.note("%s", L.text().c_str());
  auto r = open(fn);
  VP_CHECK(r, "a valid file is refused");
  dso::RinexDataBlockIterator it(r.get());
  const double skip = g.boolean(0.3) ? 0.4 : 0;
  int nb = 0, missing = 0;
  for (size_t e = 0; e < f.ep.size(); e++) {
    const Epoch &x = f.ep[e];
    if (skip && g.boolean(skip)) {
      char line[dso::DorisObsRinex::MAX_RECORD_CHARS];
      dso::RinexDataRecordHeader h;
      VP_CHECK(r->stream().getline(line, sizeof line), "no line for block %zu", e);
      VP_CHECK(r->resolve_data_epoch(line, h) == 0, "epoch line refused: %s", line);
      r->skip_data_block(h);
      continue;
    }
    const int err = it.next();
    VP_CHECK(err == 0, "next() returns %d at block %zu of %zu", err, e, f.ep.size());
    same_epoch(f, x, it.cheader, it.cblock);
    for (const auto &s : f.st) {
      auto b = it.contains_beacon(s.in.c_str());
      size_t k = 0;
      while (k < x.b.size() && x.b[k].in != s.in)
        ++k;
      VP_CHECK((size_t)(b - it.cblock.begin()) == k, "contains_beacon(%s)", s.in.c_str());
    }
    for (const auto &b : x.b) {
      ++nb;
      for (const auto &v : b.v)
        missing += v.kind != 0;
    }
    const int64_t corr = f.clk == 1 ? 0 : x.off;
    VP_CHECK(at(it.proper_time(), x.mjd, x.ns), "proper time of block %zu", e);
    VP_CHECK(at(it.corrected_l1_epoch(), x.mjd, x.ns + corr), "corrected L1 epoch of block %zu: %ld %ld, expected offset %lld ns from %ld %lld", e,
             it.corrected_l1_epoch().mjd().as_underlying_type(), it.corrected_l1_epoch().sec().as_underlying_type(), (long long)corr, x.mjd, (long long)x.ns);
    dt_t t2;
    VP_CHECK(at(it.corrected_l1_epoch(t2), x.mjd, x.ns + corr), "corrected L1 epoch (with L2) of block %zu", e);
    VP_CHECK(at(t2, x.mjd, x.ns + corr + f.l12), "corrected L2 epoch of block %zu: %ld %ld", e, t2.mjd().as_underlying_type(), t2.sec().as_underlying_type());
    auto h = it.cheader;
    h.apply_clock_offset();
    VP_CHECK(at(h.m_epoch, x.mjd, x.ns + x.off), "epoch with the clock offset applied, block %zu", e);
  }
  VP_CHECK(it.next() == -1, "no end of file after the last block");
  VP_CHECK(it.next() == -1, "end of file does not last");
  g.nontrivial(f.ep.size() > 1 && nb > 3 && missing && f.scaled);
}
// Doppler counts: the change of the first two observables of each beacon since it was last seen
VP_PROP(doppler, 6000, 60000, "a beacon seen at least three times") {
  File f = gen(g, 10, 4);
  if (f.codes.size() < 2 || f.ep.empty())
    g.discard();
  const Lines L = lines(f, g);
  const string fn = scratch_file("rnx");
  write_file(fn, L.text());
  g.note("%s", L.text().c_str());
  auto r = open(fn);
  VP_CHECK(r, "a valid file is refused");
  if (g.boolean(0.3)) { // from wherever the stream is
    dso::RinexDataBlockIterator it(r.get());
    for (int i = (int)g.choose(f.ep.size() + 1); i--;)
      it.next();
  }
  int err = -1;
  const string out = captured([&] { err = r->get_doppler_counts(); });
  VP_CHECK(err == 0, "get_doppler_counts returns %d", err);
  size_t p = 0;
  auto line = [&]() {
    size_t e = out.find('\n', p);
    string s = out.substr(p, e - p);
    p = e == string::npos ? out.size() : e + 1;
    return s;
  };
  std::map<string, std::pair<size_t, const Beacon *>> last;
  std::map<string, int> seen;
  int most = 0;
  for (size_t e = 0; e < f.ep.size(); e++) {
    const Epoch &x = f.ep[e];
    for (const auto &b : x.b) {
      auto it = last.find(b.in);
      if (it != last.end()) {
        const string s = line();
        char id[8];
        double mjd, d[2], sec;
        VP_CHECK(sscanf(s.c_str(), "%7s %lf %lf %lf %lf", id, &mjd, d, d + 1, &sec) == 5, "block %zu beacon %s: \"%s\"", e, b.in.c_str(), s.c_str());
        VP_CHECK(b.in == id, "block %zu: count of %s where %s is due", e, id, b.in.c_str());
        VP_CHECK(std::fabs(mjd - ((double)x.mjd + (double)x.ns / 86400e9)) < 1.1e-5, "block %zu: date %.5f", e, mjd);
        const Epoch &y = f.ep[it->second.first];
        const double want = (double)(x.mjd - y.mjd) * 86400. + (double)(x.ns - y.ns) / 1e9;
        VP_CHECK(std::fabs(sec - want) < 1.1e-7, "block %zu beacon %s: interval %.7f, true %.7f", e, b.in.c_str(), sec, want);
        for (int k = 0; k < 2; k++) {
          const Val &v = b.v[k], &w = it->second.second->v[k];
          if (v.kind || w.kind)
            continue;
          const double c = ((double)v.milli - (double)w.milli) / 1e3 / f.factor[k];
          VP_CHECK(near(d[k], c, 1e-14, 1.1e-5 + 4e-16 * std::fmax(std::fabs((double)v.milli), std::fabs((double)w.milli)) / 1e3), "block %zu beacon %s: count %d is %.6f, true %.6f", e, b.in.c_str(), k, d[k], c);
        }
      }
    }
    for (const auto &b : x.b)
      last[b.in] = {e, &b}, most = std::max(most, ++seen[b.in]);
  }
  int n;
  const string s = line();
  VP_CHECK(sscanf(s.c_str(), "Number of data blocks parsed: %d", &n) == 1 && n == (int)f.ep.size() - 1, "last line \"%s\", %zu blocks", s.c_str(), f.ep.size());
  VP_CHECK(p >= out.size(), "more output than counts: %s", out.substr(p).c_str());
  g.nontrivial(most > 2);
}
