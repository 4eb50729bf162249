// Generator of DORIS RINEX 3.0 files together with the model of what they say.
#pragma once
#include "doris_rinex.hpp"
#include "vpbt.hpp"
#include <memory>
#include <sys/syscall.h>
#include <sys/mman.h>
namespace rnx {
using vp::fmt;
using vp::Gen;
using std::string;
using std::vector;

struct Code {
  char t;
  int f; // 0: none
  string str() const { return f ? fmt("%c%d", t, f) : string(1, t); }
  dso::ObservationCode code() const { return dso::ObservationCode(dso::char_to_observationType(t), f); }
};
struct Station {
  string in, id, name, domes;
  int type, shift;
};
struct Val {
  int kind; // 0 value, 1 blank, 2 written as zero
  int64_t milli;
  char f1, f2;
  string text() const {
    if (kind == 1)
      return string(14, ' ');
    const int64_t a = milli < 0 ? -milli : milli;
    string s = fmt("%s%lld.%03lld", milli < 0 ? "-" : "", (long long)(a / 1000), (long long)(a % 1000));
    return string(14 - s.size(), ' ') + s;
  }
};
struct Beacon {
  string in;
  vector<Val> v;
};
struct Epoch {
  long mjd;
  int64_t ns; // of day
  int flag, cflag;
  bool has_off, has_cflag;
  int64_t off; // [ns]
  vector<Beacon> b;
};
struct Time {
  long mjd;
  int64_t ns;
};
struct File {
  string version = "3.00", sat, cospar, chain, rtype, rver;
  double approx[3], com[3];
  vector<Code> codes;
  vector<int> factor;
  bool scaled = false, has_l12 = true;
  Time first, refdate;
  int64_t l12 = 0; // [ns]
  int clk = -1;
  vector<Station> st;
  vector<string> hdr; // header lines
  vector<Epoch> ep;
  vector<int> hdr_kind; // what each header line is (see below)
};
enum { H_VERSION, H_PGM, H_SAT, H_COSPAR, H_MARKER, H_OBSERVER, H_REC, H_ANT, H_APPROX, H_COM, H_TYPES, H_FIRST, H_SCALE, H_L12, H_NST,
       H_STATION, H_NREF, H_REF, H_REFDATE, H_CLK, H_COMMENT, H_END };

inline string pad(const string &s, size_t n) { return s.size() < n ? s + string(n - s.size(), ' ') : s.substr(0, n); }
inline string word(Gen &g, int lo, int hi, const char *abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-") {
  const int n = (int)g.integer(lo, hi), m = (int)strlen(abc);
  string s;
  for (int i = 0; i < n; i++)
    s += abc[g.choose(m)];
  return s;
}
inline string ymd(long mjd, const char *f) {
  int y, m, d;
  dso::vp_mjd2ymd(mjd, y, m, d);
  return fmt(f, y, m, d);
}

inline File gen(Gen &g, int max_epochs, int max_st = 8) {
  File f;
  f.version = g.pick<string>({"3.00", "3.0", "3.01"});
  f.sat = word(g, 1, 12);
  if (g.boolean(0.3))
    f.sat += " " + word(g, 1, 20);
  else if (g.boolean(0.1))
    f.sat += " " + word(g, 20, 45);
  f.cospar = fmt("%04d-%03d%c", (int)g.integer(1990, 2030), (int)g.integer(0, 999), (char)('A' + g.choose(26)));
  f.chain = "CHAIN" + fmt("%d", (int)g.integer(1, 2));
  f.rtype = word(g, 1, 18), f.rver = word(g, 1, 18, "0123456789.");
  for (double &x : f.approx)
    x = (double)g.integer(-99999999, 99999999) / 1e4;
  for (double &x : f.com)
    x = (double)g.integer(-99999999, 99999999) / 1e4;
  // observation codes
  vector<Code> all{{'L', 1}, {'L', 2}, {'C', 1}, {'C', 2}, {'W', 1}, {'W', 2}, {'F', 0}, {'P', 0}, {'T', 0}, {'H', 0}};
  if (g.boolean(0.5)) {
    f.codes = all;
  } else {
    const int n = (int)g.integer(1, 10);
    for (int i = 0; i < n; i++) {
      const int k = (int)g.choose(all.size());
      f.codes.push_back(all[k]);
      all.erase(all.begin() + k);
    }
  }
  const int nc = (int)f.codes.size();
  f.factor.assign(nc, 1);
  f.first.mjd = g.integer(54000, 61000), f.first.ns = g.integer(0, 86399) * 1000000000LL + g.integer(0, 999999999) / 100 * 100;
  f.refdate.mjd = f.first.mjd, f.refdate.ns = 0;
  f.has_l12 = !g.boolean(0.1);
  f.l12 = f.has_l12 ? g.integer(-9999999, 9999999) : 0;
  f.clk = (int)g.choose(3) - 1;
  const int ns = (int)g.integer(2, max_st);
  vector<int> num(99); // numbers of the beacons: 1, 2, ... or any
  for (int i = 0; i < 99; i++)
    num[i] = i + 1;
  if (g.boolean(0.5))
    for (int i = 0; i < ns; i++)
      std::swap(num[i], num[i + g.choose(99 - i)]);
  for (int i = 0; i < ns; i++) {
    Station s;
    s.in = fmt("D%02d", num[i]);
    s.id = word(g, 3, 3, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") + g.pick<string>({"A", "B", "C"});
    s.name = word(g, 1, g.boolean(0.1) ? 29 : 14, "ABCDEFGHIJKLMNOPQRSTUVWXYZ");
    if (g.boolean(0.1))
      s.name = pad(s.name + " " + word(g, 30, 30), 30);
    while (s.name.back() == ' ')
      s.name += 'X', s.name.erase(s.name.begin());
    if (s.name.size() > 30)
      s.name.resize(30);
    s.domes = fmt("%05d%c%03d", (int)g.integer(10000, 99999), g.pick({'S', 'M'}), (int)g.integer(1, 999));
    s.type = (int)g.integer(1, 4);
    s.shift = g.boolean(0.5) ? 0 : (int)g.integer(-99, 999);
    f.st.push_back(s);
  }
  // header
  auto add = [&](int kind, string body, string label) {
    f.hdr.push_back(pad(body, 60) + label);
    f.hdr_kind.push_back(kind);
  };
  add(H_VERSION, pad("     " + f.version, 20) + pad("O", 20) + "D", "RINEX VERSION / TYPE");
  add(H_PGM, "Expert              CNES                20200109 120000 UTC", "PGM / RUN BY / DATE");
  vector<std::function<void()>> recs;
  recs.push_back([&] { add(H_SAT, f.sat, "SATELLITE NAME"); });
  recs.push_back([&] { add(H_COSPAR, f.cospar, "COSPAR NUMBER"); });
  recs.push_back([&] { add(H_MARKER, "SPACEBORNE", "MARKER TYPE"); });
  recs.push_back([&] { add(H_OBSERVER, "SPA_BN1_4.7P1       CNES", "OBSERVER / AGENCY"); });
  recs.push_back([&] { add(H_REC, pad(f.chain, 20) + pad(f.rtype, 20) + f.rver, "REC # / TYPE / VERS"); });
  recs.push_back([&] { add(H_ANT, pad("DORIS", 20) + "STAREC", "ANT # / TYPE"); });
  recs.push_back([&] { add(H_APPROX, fmt("%14.4f%14.4f%14.4f", f.approx[0], f.approx[1], f.approx[2]), "APPROX POSITION XYZ"); });
  recs.push_back([&] { add(H_COM, fmt("%14.4f%14.4f%14.4f", f.com[0], f.com[1], f.com[2]), "CENTER OF MASS: XYZ"); });
  recs.push_back([&] {
    string s = fmt("D  %3d", nc);
    for (const auto &c : f.codes)
      s += " " + pad(c.str(), 3);
    add(H_TYPES, s, "SYS / # / OBS TYPES");
    // scale factors come after the types
    const int how = g.weighted({2, 3, 2, 1});
    if (how == 1 || how == 2) { // disjoint subsets
      f.scaled = true;
      vector<int> left(nc);
      for (int i = 0; i < nc; i++)
        left[i] = i;
      for (int k = 0; k < (how == 1 ? 1 : 3) && !left.empty(); k++) {
        const int fac = g.pick({10, 100, 1000, 1, 2});
        const int n = (int)g.integer(1, (int)left.size());
        string l = fmt("D %4d  %2d", fac, n);
        for (int i = 0; i < n; i++) {
          const int j = (int)g.choose(left.size());
          f.factor[left[j]] = fac;
          l += " " + pad(f.codes[left[j]].str(), 3);
          left.erase(left.begin() + j);
        }
        add(H_SCALE, l, "SYS / SCALE FACTOR");
      }
    } else if (how == 3) {
      f.scaled = true;
      const int fac = g.pick({10, 100, 1000});
      f.factor.assign(nc, fac);
      add(H_SCALE, fmt("D %4d", fac), "SYS / SCALE FACTOR");
    }
  });
  auto tm = [](const Time &t) {
    const long s = t.ns / 1000000000LL;
    return ymd(t.mjd, "%6d%6d%6d") + fmt("%6ld%6ld%5ld.%07lld     DOR", s / 3600, s / 60 % 60, s % 60, (long long)(t.ns % 1000000000LL / 100));
  };
  recs.push_back([&] { add(H_FIRST, tm(f.first), "TIME OF FIRST OBS"); });
  if (f.has_l12)
    recs.push_back([&] {
      const int64_t a = f.l12 < 0 ? -f.l12 : f.l12;
      add(H_L12, "D  " + fmt("%14s", fmt("%s%lld.%03lld", f.l12 < 0 ? "-" : "", (long long)(a / 1000), (long long)(a % 1000)).c_str()), "L2 / L1 DATE OFFSET");
    });
  if (f.clk >= 0)
    recs.push_back([&] { add(H_CLK, fmt("%6d", f.clk), "RCV CLOCK OFFS APPL"); });
  recs.push_back([&] {
    add(H_NST, fmt("%6d", ns), "# OF STATIONS");
    for (const auto &s : f.st)
      add(H_STATION, s.in + "  " + s.id + " " + pad(s.name, 30) + pad(s.domes, 10) + fmt("%d %3d", s.type, s.shift), "STATION REFERENCE");
    const int nr = (int)g.integer(0, ns - 1);
    if (nr) {
      add(H_NREF, fmt("%6d", nr), "# TIME REF STATIONS");
      const int from = (int)g.choose(ns); // any of the stations
      for (int i = 0; i < nr; i++)
        add(H_REF, f.st[(from + i) % ns].in + "  " + fmt("%14.3f%14.3f", (double)g.integer(-9999999, 9999999) / 1e3, (double)g.integer(-9999999, 9999999) / 1e3), "TIME REF STATION");
      add(H_REFDATE, tm(f.refdate), "TIME REF STAT DATE");
    } else {
      add(H_REFDATE, tm(f.refdate), "TIME REF STAT DATE");
    }
  });
  if (g.boolean(0.4))
    recs.push_back([&] { add(H_COMMENT, "any text SATELLITE NAME", "COMMENT"); });
  if (g.boolean(0.5)) // any order
    for (size_t i = recs.size(); i-- > 1;)
      std::swap(recs[i], recs[g.choose(i + 1)]);
  for (auto &r : recs)
    r();
  add(H_END, "", "END OF HEADER");
  // all lines padded to 80, or label trimmed
  if (g.boolean(0.5))
    for (auto &l : f.hdr)
      l = pad(l, 80);
  // data
  const int ne = (int)g.integer(0, max_epochs);
  long mjd = f.first.mjd;
  int64_t t = f.first.ns;
  for (int e = 0; e < ne; e++) {
    Epoch x;
    x.mjd = mjd, x.ns = t;
    x.flag = g.boolean(0.1);
    x.has_off = g.boolean(0.85);
    x.off = x.has_off ? g.integer(-9999999999LL, 99999999999LL) / (g.choose(2) ? 1 : 100000) : 0;
    x.has_cflag = x.has_off || g.boolean(0.5);
    x.cflag = x.has_cflag ? (int)g.choose(2) : 0;
    vector<int> who(ns);
    for (int i = 0; i < ns; i++)
      who[i] = i;
    const int nb = (int)g.integer(e || g.boolean(0.8) ? 1 : 0, ns > 20 && g.boolean(0.5) ? ns : std::min(ns, 5));
    for (int i = 0; i < nb; i++) {
      const int k = (int)g.choose(who.size());
      Beacon b;
      b.in = f.st[who[k]].in;
      who.erase(who.begin() + k);
      for (int c = 0; c < nc; c++) {
        Val v;
        v.kind = g.weighted({12, 2, 1});
        v.milli = v.kind ? 0 : g.sign() * g.integer(1, g.choose(2) ? 999999 : 999999999999LL);
        v.f1 = g.pick({' ', '0', '1'}), v.f2 = g.pick({' ', '7', '1'});
        if (v.kind == 1 && g.boolean(0.7))
          v.f1 = v.f2 = ' ';
        b.v.push_back(v);
      }
      x.b.push_back(b);
    }
    f.ep.push_back(x);
    t += g.integer(1, 20) * 500000000LL + g.integer(0, 999999999);
    if (t >= 86400LL * 1000000000LL)
      t -= 86400LL * 1000000000LL, ++mjd;
  }
  return f;
}
inline string rtrim(string s) {
  while (!s.empty() && s.back() == ' ')
    s.pop_back();
  return s;
}
inline string epoch_line(const Epoch &x, bool zeros = false) {
  const int64_t s = x.ns / 1000000000LL;
  string l = "> " + ymd(x.mjd, "%04d %02d %02d") + fmt(" %02lld %02lld", (long long)(s / 3600), (long long)(s / 60 % 60));
  l += fmt(zeros ? " %02lld.%09lld" : " %2lld.%09lld", (long long)(s % 60), (long long)(x.ns % 1000000000LL));
  l += fmt("  %d%3d      ", x.flag, (int)x.b.size());
  if (x.has_off) {
    const int64_t a = x.off < 0 ? -x.off : x.off;
    l += fmt("%13s", fmt("%s%lld.%09lld", x.off < 0 ? "-" : "", (long long)(a / 1000000000LL), (long long)(a % 1000000000LL)).c_str());
  } else {
    l += string(13, ' ');
  }
  l += x.has_cflag ? fmt(" %d ", x.cflag) : "   ";
  return l;
}
inline vector<string> data_lines(const Beacon &b) {
  vector<string> v;
  for (size_t i = 0; i < b.v.size(); i++) {
    if (i % 5 == 0)
      v.push_back(i ? "   " : b.in);
    v.back() += b.v[i].text() + b.v[i].f1 + b.v[i].f2;
  }
  return v;
}
struct Lines {
  vector<string> l;
  vector<int> epoch;  // of each line, -1 in the header
  vector<bool> head;  // an epoch line
  string text(bool final_newline = true) const {
    string s;
    for (const auto &x : l)
      s += x + "\n";
    if (!final_newline && !l.empty() && !l.back().empty())
      s.pop_back();
    return s;
  }
};
inline Lines lines(const File &f, Gen &g) {
  Lines o;
  const int trim = (int)g.choose(3); // none, all, some
  const bool zeros = g.boolean(0.5);
  for (const auto &h : f.hdr)
    o.l.push_back(h), o.epoch.push_back(-1), o.head.push_back(false);
  for (size_t e = 0; e < f.ep.size(); e++) {
    vector<string> v{epoch_line(f.ep[e], zeros)};
    for (const auto &b : f.ep[e].b)
      for (const auto &s : data_lines(b))
        v.push_back(s);
    for (size_t i = 0; i < v.size(); i++) {
      if (trim == 1 || (trim == 2 && g.choose(2)))
        v[i] = rtrim(v[i]);
      o.l.push_back(v[i]), o.epoch.push_back((int)e), o.head.push_back(i == 0);
    }
  }
  return o;
}

// stdout of fn
template <class F> string captured(F fn) {
  fflush(stdout);
  const int mem = (int)syscall(SYS_memfd_create, "out", 0);
  const int old = dup(1);
  dup2(mem, 1);
  fn();
  fflush(stdout);
  dup2(old, 1);
  close(old);
  string s;
  char buf[4096];
  lseek(mem, 0, SEEK_SET);
  for (ssize_t n; (n = read(mem, buf, sizeof buf)) > 0;)
    s.append(buf, n);
  close(mem);
  return s;
}
// the reader of a file, or null if it is refused
inline std::unique_ptr<dso::DorisObsRinex> open(const string &fn) {
  std::unique_ptr<dso::DorisObsRinex> r;
  captured([&] {
    try {
      r.reset(new dso::DorisObsRinex(fn.c_str()));
    } catch (std::runtime_error &) {
    }
  });
  return r;
}

inline void same_epoch(const File &f, const Epoch &x, const dso::RinexDataRecordHeader &h, const vector<dso::BeaconObservations> &b) {
  VP_CHECK(h.m_epoch.mjd().as_underlying_type() == x.mjd && h.m_epoch.sec().as_underlying_type() == x.ns, "epoch read: %ld %ld, written %ld %lld",
           h.m_epoch.mjd().as_underlying_type(), h.m_epoch.sec().as_underlying_type(), x.mjd, (long long)x.ns);
  VP_CHECK(h.m_num_stations == (int)x.b.size() && h.m_flag == x.flag && h.m_clock_flag == x.cflag, "epoch header: %d stations flag %d clock flag %d, written %d %d %d",
           (int)h.m_num_stations, (int)h.m_flag, (int)h.m_clock_flag, (int)x.b.size(), x.flag, x.cflag);
  const double off = x.has_off ? strtod(epoch_line(x).substr(43, 13).c_str(), nullptr) : dso::RECEIVER_CLOCK_OFFSET_MISSING;
  VP_CHECK(vp::near(h.m_clock_offset, off, 1e-15), "clock offset %.12g, written %.12g", h.m_clock_offset, off);
  VP_CHECK(b.size() == x.b.size(), "%zu beacons read, %zu written", b.size(), x.b.size());
  for (size_t i = 0; i < b.size(); i++) {
    VP_CHECK(!strncmp(b[i].id(), x.b[i].in.c_str(), 3), "beacon %zu is %.3s, written %s", i, b[i].id(), x.b[i].in.c_str());
    VP_CHECK(b[i].m_values.size() == f.codes.size(), "%zu values, %zu observation types", b[i].m_values.size(), f.codes.size());
    for (size_t c = 0; c < f.codes.size(); c++) {
      const Val &v = x.b[i].v[c];
      const double want = v.kind ? dso::OBSERVATION_VALUE_MISSING : strtod(v.text().c_str(), nullptr) / f.factor[c];
      const auto &got = b[i].m_values[c];
      VP_CHECK(vp::near(got.m_value, want, 4e-16), "beacon %s %s: %.17g, written %s (factor %d)", x.b[i].in.c_str(), f.codes[c].str().c_str(), got.m_value,
               v.kind == 1 ? "blank" : v.text().c_str(), f.factor[c]);
      VP_CHECK(got.m_flag1 == v.f1 && got.m_flag2 == v.f2, "beacon %s %s: flags [%c%c], written [%c%c]", x.b[i].in.c_str(), f.codes[c].str().c_str(), got.m_flag1,
               got.m_flag2, v.f1, v.f2);
    }
  }
}
} // namespace rnx
