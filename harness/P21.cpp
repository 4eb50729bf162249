// DORIS RINEX header.
#include "rnxgen.hpp"
using namespace vp;
using namespace rnx;
VP_PROP(header, 15000, 200000, "scale factors, time reference stations and a shuffled record order or trimmed labels") {
  File f = gen(g, 0, g.boolean(0.05) ? 99 : 8);
  const Lines L = lines(f, g);
  const string fn = scratch_file("rnx");
  write_file(fn, L.text(!g.boolean(0.2) || f.ep.empty()));
  g.note("%s", L.text().c_str());
  auto r = open(fn);
  VP_CHECK(r, "a valid header is refused");
  VP_CHECK(r->observation_codes().size() == f.codes.size(), "%zu observation codes read, %zu written", r->observation_codes().size(), f.codes.size());
  for (size_t i = 0; i < f.codes.size(); i++) {
    VP_CHECK(r->observation_codes()[i] == f.codes[i].code(), "observation code %zu differs", i);
    VP_CHECK(r->get_observation_code_index(f.codes[i].code()) == (int)i, "index of %s is %d, should be %zu", f.codes[i].str().c_str(),
             r->get_observation_code_index(f.codes[i].code()), i);
  }
  for (const Code &c : {Code{'L', 1}, Code{'L', 2}, Code{'C', 1}, Code{'W', 2}, Code{'F', 0}, Code{'H', 0}}) {
    bool in = false;
    for (const auto &x : f.codes)
      in = in || (x.t == c.t && x.f == c.f);
    VP_CHECK(in || r->get_observation_code_index(c.code()) == -1, "a code the file does not have is found");
  }
  VP_CHECK(r->stations().size() == f.st.size(), "%zu stations read, %zu written", r->stations().size(), f.st.size());
  for (size_t i = 0; i < f.st.size(); i++) {
    const auto &a = r->stations()[i];
    const auto &s = f.st[i];
    VP_CHECK(!strncmp(a.m_internal_code, s.in.c_str(), 3) && !strncmp(a.m_station_id, s.id.c_str(), 4), "station %zu: %.3s %.4s, written %s %s", i,
             a.m_internal_code, a.m_station_id, s.in.c_str(), s.id.c_str());
    const size_t n = strnlen(a.m_station_name, sizeof a.m_station_name);
    VP_CHECK(string(a.m_station_name, n) == s.name, "station name [%s], written [%s]", string(a.m_station_name, n).c_str(), s.name.c_str());
    VP_CHECK(string(a.m_station_domes, strnlen(a.m_station_domes, 10)) == s.domes, "DOMES [%.10s], written [%s]", a.m_station_domes, s.domes.c_str());
    VP_CHECK(a.m_type == s.type && a.m_shift_factor == s.shift, "station type %d shift %d, written %d %d", (int)a.m_type, a.m_shift_factor, s.type, s.shift);
    const char *id = r->beacon_internal_id2id(s.in.c_str());
    VP_CHECK(id && !strncmp(id, s.id.c_str(), 4), "beacon_internal_id2id(%s)", s.in.c_str());
    int k = -12345;
    VP_CHECK(r->beacon_shift_factor(s.in.c_str(), k) == 0 && k == s.shift, "beacon_shift_factor(%s) = %d", s.in.c_str(), k);
    auto it = r->beacon_internal_id2BeaconStation(s.in.c_str());
    VP_CHECK(it == r->stations().cbegin() + i, "beacon_internal_id2BeaconStation(%s)", s.in.c_str());
    // the first of those with that name
    size_t first = 0;
    while (f.st[first].id != s.id)
      ++first;
    const char *in = r->beacon_id2internal_id(s.id.c_str());
    VP_CHECK(in && !strncmp(in, f.st[first].in.c_str(), 3), "beacon_id2internal_id(%s)", s.id.c_str());
  }
  int k = 77;
  VP_CHECK(!r->beacon_internal_id2id("D00") && !r->beacon_id2internal_id("0000") && r->beacon_shift_factor("D00", k) != 0 &&
               r->beacon_internal_id2BeaconStation("D00") == r->stations().cend(),
           "an unknown beacon is found");
  VP_CHECK(r->time_of_first_obs().mjd().as_underlying_type() == f.first.mjd && r->time_of_first_obs().sec().as_underlying_type() == f.first.ns, "time of first observation");
  VP_CHECK(r->ref_datetime().mjd().as_underlying_type() == f.refdate.mjd && r->ref_datetime().sec().as_underlying_type() == f.refdate.ns, "time reference date");
  VP_CHECK(r->l21_date_offset().as_underlying_type() == f.l12, "L2/L1 date offset %ld ns, written %lld", r->l21_date_offset().as_underlying_type(), (long long)f.l12);
  VP_CHECK(r->receiver_clock_offsets_applied() == (f.clk == 1), "clock offsets applied: %d, written %d", (int)r->receiver_clock_offsets_applied(), f.clk);
  const string m = captured([&] { r->print_metadata(); });
  auto has = [&](const string &label, const string &v) {
    size_t p = m.find(label);
    VP_CHECK(p != string::npos, "no %s in the metadata", label.c_str());
    const string l = m.substr(p, m.find('\n', p) - p);
    VP_CHECK(l.size() >= v.size() && l.find(": " + v) != string::npos && l.size() == l.find(": " + v) + 2 + v.size(), "metadata: \"%s\", written \"%s\"", l.c_str(), v.c_str());
  };
  has("RINEX version", fmt("%.2f", (double)strtof(f.version.c_str(), nullptr)));
  has("Satellite Name", f.sat);
  has("COSPAR", f.cospar);
  has("Recvr Chain", f.chain);
  has("Recvr Type", f.rtype);
  has("Recvr Version", f.rver);
  has("Antenna Type", "STAREC");
  has("Antenna Number", "DORIS");
  auto xyz = [](const double *d) { return fmt("[%.3f, %.3f, %.3f]", (double)(float)d[0], (double)(float)d[1], (double)(float)d[2]); };
  has("Apprx Position", xyz(f.approx));
  has("Mass Center", xyz(f.com));
  string s = fmt("(%zu) ", f.codes.size()), q = s;
  for (size_t i = 0; i < f.codes.size(); i++)
    s += fmt("[%c%d]", f.codes[i].t, f.codes[i].f), q += fmt("[%2d]", f.factor[i]);
  has("Obs. Codes", s);
  has("Scale Factors", q);
  g.label(f.scaled ? "scaled" : "no scale factors");
  g.nontrivial(f.scaled && f.st.size() > 1);
}
VP_PROP(refused, 15000, 200000, "always") {
  File f = gen(g, 0);
  Lines L = lines(f, g);
  auto pick = [&](int kind) {
    vector<int> v;
    for (size_t i = 0; i < f.hdr_kind.size(); i++)
      if (f.hdr_kind[i] == kind)
        v.push_back((int)i);
    return v.empty() ? -1 : v[g.choose(v.size())];
  };
  int i;
  string what;
  auto set = [&](int line, size_t col, const string &s) {
    if (line < 0)
      g.discard();
    L.l[line].replace(col, s.size(), s);
  };
  switch (g.choose(31)) {
  case 0: i = pick(H_VERSION), what = "version"; set(i, 0, "      xx"); break;
  case 1: i = pick(H_VERSION), what = "file type"; set(i, 20, g.pick<string>({"N", " ", "M"})); break;
  case 2: i = pick(H_VERSION), what = "system"; set(i, 40, g.pick<string>({"G", " ", "M"})); break;
  case 3: i = pick(H_TYPES), what = "system of types"; set(i, 0, "G"); break;
  case 4: i = pick(H_TYPES), what = "number of types"; set(i, 3, f.codes.size() == 10 ? " 11" : fmt("%3d", (int)f.codes.size() + 1)); break;
  case 5: i = pick(H_TYPES), what = "number of types"; set(i, 3, g.pick<string>({"  0", " -1", " 99", "xyz"})); break;
  case 6: {
    i = pick(H_TYPES), what = "an unknown type";
    const int k = (int)g.choose(f.codes.size());
    set(i, 7 + 4 * k, g.pick<string>({"X1 ", "l1 ", "L3 ", "L0 ", "C  ", "   "}));
    break;
  }
  case 7: i = pick(H_SCALE), what = "scale factor"; set(i, 2, g.pick<string>({"   0", "abcd"})); break;
  case 8: i = pick(H_SCALE), what = "scaled types"; set(i, 8, g.pick<string>({" 0", "50", "x1"})); break;
  case 9: i = pick(H_NST), what = "number of stations"; set(i, 0, fmt("%6d", (int)f.st.size() + (int)g.pick({1, -1, 5}))); break;
  case 10: i = pick(H_NST), what = "number of stations"; set(i, 0, g.pick<string>({"  many", "     0", "    -3", "9999999999"})); break;
  case 11: {
    i = pick(H_STATION), what = "a lost station";
    L.l.erase(L.l.begin() + i);
    break;
  }
  case 12: i = pick(H_STATION), what = "shift factor"; set(i, 52, "xyz"); break;
  case 13: i = pick(H_FIRST), what = "time of first observation"; set(i, 6, g.pick<string>({"    13", "   abc", "     0"})); break;
  case 15: { // a reference station which is not among the stations, though it may look like one
    i = pick(H_REF), what = "an unknown reference station";
    string in;
    auto known = [&] {
      for (const auto &s : f.st)
        if (s.in == in)
          return true;
      return false;
    };
    if (i < 0)
      g.discard();
    for (int k = 0; (in.empty() || known()) && k < 20; k++)
      in = g.boolean() ? L.l[i].substr(0, 2) + (char)('0' + g.choose(10)) : fmt("D%02d", (int)g.integer(0, 99));
    if (known())
      g.discard();
    set(i, 0, in);
    break;
  }
  case 16: i = pick(H_REF), what = "bias of a reference station"; set(i, 5, pad(g.pick<string>({"   abc", "   -x"}), 14)); break;
  case 17: i = pick(H_REF), what = "shift of a reference station"; set(i, 19, pad(g.pick<string>({"   abc", "   -x"}), 14)); break;
  case 18: i = pick(H_MARKER), what = "marker type"; set(i, 0, g.pick<string>({"GEODETIC  ", "          ", "spaceborne", "SPACEBORN "})); break;
  case 19: i = pick(H_ANT), what = "antenna"; set(i, g.pick({0, 20}), g.pick<string>({"GNSS  ", "ALCATEL", "       "})); break;
  case 20: i = pick(H_APPROX), what = "approximate position"; set(i, 14 * g.choose(3), pad("      xyz", 14)); break;
  case 21: i = pick(H_COM), what = "centre of mass"; set(i, 14 * g.choose(3), pad("      xyz", 14)); break;
  case 22: i = pick(H_FIRST), what = "time system"; set(i, 48, g.pick<string>({"GPS", "   ", "TAI"})); break;
  case 23: i = pick(H_REFDATE), what = "date of the time reference"; set(i, 6, g.pick<string>({"    13", "   abc", "     0"})); break;
  case 24: i = pick(H_CLK), what = "clock offsets applied"; set(i, 0, g.pick<string>({"     2", "    -1", "     x", "      "})); break;
  case 25: i = pick(H_L12), what = "L2/L1 date offset"; g.boolean() ? set(i, 0, "G") : set(i, 3, pad("     -abc", 14)); break;
  case 26: {
    what = "differential code biases";
    i = pick(H_COMMENT);
    if (i < 0)
      g.discard();
    L.l[i] = pad("D prog              file", 60) + "SYS / DCBS APPLIED  ";
    break;
  }
  case 27: i = pick(g.pick({(int)H_SAT, (int)H_COSPAR, (int)H_REC})), what = "an empty field"; set(i, 0, string(59, ' ')); break;
  case 28: i = pick(H_SCALE), what = "scaled types"; if (i >= 0 && L.l[i][9] == ' ') g.discard(); set(i, 11, g.pick<string>({"X1 ", "L3 ", "   "})); break;
  case 29: { // a factor for a type the file does not have
    i = pick(H_SCALE), what = "a type scaled that is not there";
    if (i < 0 || L.l[i][9] == ' ' || f.codes.size() == 10)
      g.discard();
    vector<string> no;
    for (const char *c : {"L1 ", "L2 ", "C1 ", "C2 ", "W1 ", "W2 ", "F  ", "P  ", "T  ", "H  "}) {
      bool in = false;
      for (const auto &x : f.codes)
        in = in || pad(x.str(), 3) == c;
      if (!in)
        no.push_back(c);
    }
    set(i, 11, no[g.choose(no.size())]);
    break;
  }
  case 14: {
    what = "no end of header";
    L.l.resize(g.integer(0, (int)f.hdr.size() - 1));
    break;
  }
  default: {
    what = "cut within";
    string t = L.text();
    t.resize(g.integer(0, (int)t.size() - 40 > 0 ? (int)t.size() - 40 : 0));
    const size_t e = t.find("END OF HEADER");
    if (e != string::npos)
      t.resize(e);
    L.l = {t};
  }
  }
  const string fn = scratch_file("rnx");
  write_file(fn, L.text());
  g.note("%s", L.text().c_str());
  g.label(what);
  VP_CHECK(!open(fn), "accepted with damaged header (%s)", what.c_str());
  g.nontrivial();
}
