// Observation codes and station records.
#include "doris_system_info.hpp"
#include "vpbt.hpp"
#include <memory>
using namespace vp;
using std::string;
static const string TYPES = "LCWFPTH";
static bool with_freq(char c) { return c == 'L' || c == 'C' || c == 'W'; }
VP_PROP(codes, 30000, 500000, "a valid code") {
  const bool any = g.boolean(0.3);
  const char c = any ? (char)g.choose(256) : TYPES[g.choose(7)];
  const int f = g.boolean(0.3) ? (int)g.integer(-128, 127) : (int)g.integer(0, 3);
  const bool known = c && TYPES.find(c) != string::npos;
  dso::ObservationType t{};
  bool thrown = false;
  try {
    t = dso::char_to_observationType(c);
  } catch (std::runtime_error &) {
    thrown = true;
  }
  VP_CHECK(thrown == !known, "character %d %s", c, thrown ? "refused" : "accepted");
  if (!known)
    return;
  VP_CHECK(dso::ObservationType_to_char(t) == c, "'%c' comes back as '%c'", c, dso::ObservationType_to_char(t));
  VP_CHECK(dso::observationType_has_frequency(t) == with_freq(c), "has_frequency of '%c'", c);
  const bool valid = !with_freq(c) || f == 1 || f == 2;
  std::unique_ptr<dso::ObservationCode> o;
  try {
    o.reset(new dso::ObservationCode(t, (int_fast8_t)f));
  } catch (std::runtime_error &) {
  }
  VP_CHECK((bool)o == valid, "code %c%d %s", c, f, o ? "accepted" : "refused");
  if (!valid)
    return;
  const int want = with_freq(c) ? f : 0;
  VP_CHECK(o->type() == t && o->has_frequency() == with_freq(c) && o->m_freq == want, "code %c%d has frequency %d", c, f, (int)o->m_freq);
  char buf[3] = {'x', 'x', 'x'};
  VP_CHECK(o->to_str(buf) == buf && string(buf) == fmt("%c%d", c, want), "code %c%d prints as %.3s", c, f, buf);
  // equality is that of what they say
  const char c2 = TYPES[g.choose(7)];
  const int f2 = with_freq(c2) ? (int)g.integer(1, 2) : (int)g.integer(0, 5);
  const dso::ObservationCode o2(dso::char_to_observationType(c2), (int_fast8_t)f2);
  const bool eq = c == c2 && (!with_freq(c) || f == f2);
  VP_CHECK((*o == o2) == eq && (*o != o2) == !eq, "%c%d and %c%d are %s", c, f, c2, f2, eq ? "different" : "equal");
  g.nontrivial();
}
static string pad(string s, size_t n) { return s.size() < n ? s + string(n - s.size(), ' ') : s.substr(0, n); }
VP_PROP(station, 20000, 400000, "a name with several words") {
  const char *abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'-()";
  auto word = [&](int lo, int hi) {
    string s;
    for (int n = (int)g.integer(lo, hi); n--;)
      s += abc[g.choose(strlen(abc))];
    return s;
  };
  const string in = fmt("D%02d", (int)g.integer(1, 99)), id = word(4, 4);
  string name = word(1, 30);
  bool words = false;
  while (name.size() < 27 && g.boolean(0.4))
    name = (name + string(g.integer(1, 2), ' ') + word(1, 30)).substr(0, 30), words = true;
  while (name.back() == ' ')
    name.pop_back();
  const string domes = g.boolean(0.9) ? fmt("%05d%c%03d", (int)g.integer(0, 99999), g.pick({'S', 'M'}), (int)g.integer(0, 999)) : word(1, 9);
  const int type = (int)g.integer(1, 9), shift = (int)g.integer(-99, 999);
  string l = in + "  " + id + " " + pad(name, 30) + pad(domes, 10) + fmt(g.boolean(0.15) ? "%d %03d" : "%d %3d", type, shift);
  const int trim = (int)g.choose(3);
  if (trim == 0)
    l = pad(l, 60) + "STATION REFERENCE";
  else if (trim == 1)
    l = pad(l, 60);
  else
    l = pad(l, 80);
  dso::BeaconStation s;
  memset(&s, g.boolean() ? 'X' : 0, sizeof s);
  errno = g.pick({0, ERANGE, EINVAL});
  g.note("\"%s\"", l.c_str());
  // the line in a block of its own size
  std::vector<char> line(l.c_str(), l.c_str() + l.size() + 1);
  VP_CHECK(s.set_from_rinex_line(line.data()) == 0, "a station record is refused: \"%s\"", l.c_str());
  VP_CHECK(!memcmp(s.m_internal_code, in.data(), 3) && !memcmp(s.m_station_id, id.data(), 4), "codes %.3s %.4s", s.m_internal_code, s.m_station_id);
  VP_CHECK(string(s.m_station_name, strnlen(s.m_station_name, 30)) == name, "name \"%.30s\", written \"%s\"", s.m_station_name, name.c_str());
  VP_CHECK(string(s.m_station_domes, strnlen(s.m_station_domes, 10)) == domes, "DOMES \"%.10s\", written \"%s\"", s.m_station_domes, domes.c_str());
  VP_CHECK(s.m_type == type && s.m_shift_factor == shift, "type %d shift %d, written %d %d", (int)s.m_type, s.m_shift_factor, type, shift);
  const string want = "[" + in + "/" + id + "_" + domes + "](" + name + ")";
  std::vector<char> buf(want.size() + 1, 'x');
  VP_CHECK(s.to_str(buf.data()) == buf.data() && want == buf.data(), "printed as \"%s\"", buf.data());
  // antenna by the last letter of the code
  bool thrown = false;
  dso::GroundAntennaType t{};
  try {
    t = s.type();
  } catch (std::runtime_error &) {
    thrown = true;
  }
  const char a = id[3];
  VP_CHECK(thrown == (a != 'A' && a != 'B' && a != 'C'), "antenna type of %s", id.c_str());
  if (!thrown)
    VP_CHECK(t == (a == 'A' ? dso::GroundAntennaType::Alcatel : a == 'B' ? dso::GroundAntennaType::Starec_B : dso::GroundAntennaType::Starec_C), "antenna type of %s", id.c_str());
  // damaged
  string d = l;
  switch (g.choose(3)) {
  case 0: d.resize(g.choose(60)); break;
  case 1: d.replace(50, 2, g.pick<string>({"x ", "- ", "+ "})); break;
  default: d = pad(d.substr(0, 52), 80), d.replace(52, 3, g.pick<string>({"   ", "x 1", "- 1", "abc"}));
  }
  std::vector<char> dl(d.c_str(), d.c_str() + d.size() + 1);
  VP_CHECK(s.set_from_rinex_line(dl.data()) != 0, "a damaged record is accepted: \"%s\"", d.c_str());
  g.nontrivial(words);
}
