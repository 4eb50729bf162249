// Damaged DORIS RINEX data records.
#include "rnxgen.hpp"
using namespace vp;
using namespace rnx;
static int number_of_blocks(dso::DorisObsRinex &r, const File &f, int good, const string &what) {
  dso::RinexDataBlockIterator it(&r);
  int e = 0;
  for (;; e++) {
    const int err = it.next();
    if (err)
      return err < 0 ? -1 - e : e; // -1-e: ended after e blocks; e: refused there
    VP_CHECK(e < 1000, "no end");
    if (e < good) {
      try {
        same_epoch(f, f.ep[e], it.cheader, it.cblock);
      } catch (Fail &x) {
        fail("block %d, before the damage (%s at block %d): %s", e, what.c_str(), good, x.msg.c_str());
      }
    }
  }
}
VP_PROP(damaged, 24000, 200000, "damage after at least one sound block") {
  File f = gen(g, 6);
  if (f.ep.empty())
    g.discard();
  Lines L = lines(f, g);
  // a record line of the data
  vector<int> data, head;
  for (size_t i = 0; i < L.l.size(); i++)
    if (L.epoch[i] >= 0)
      (L.head[i] ? head : data).push_back((int)i);
  const int how = (int)g.choose(10);
  bool must = false; // a whole line of the damaged block is gone
  string what, text;
  int good = 0;
  if (how <= 3 && data.empty())
    g.discard();
  const size_t nv = f.codes.size();
  switch (how) {
  case 0: { // a data line is lost
    const int i = data[g.choose(data.size())];
    good = L.epoch[i], what = "a lost line";
    L.l.erase(L.l.begin() + i);
    break;
  }
  case 1: { // a data line is doubled
    const int i = data[g.choose(data.size())];
    good = L.epoch[i], what = "a doubled line";
    const string s = L.l[i];
    // doubling moves everything after it by one line; a single-line record doubled is one beacon too many
    L.l.insert(L.l.begin() + i, s);
    break;
  }
  case 2: { // an unreadable value
    const int i = data[g.choose(data.size())];
    good = L.epoch[i];
    int first = i;
    while (L.l[first][0] != 'D')
      --first;
    const int k0 = 5 * (i - first), n = std::min<int>(5, (int)nv - k0);
    const int k = (int)g.choose(n);
    what = fmt("value %d unreadable", k0 + k);
    string &s = L.l[i];
    if (s.size() < 83)
      s = pad(s, 83);
    s.replace(3 + 16 * k, 14, g.pick<string>({"      abc     ", "     1.2.3    ", "     12x.000  ", "        -     ", "      1 2.0   ", "**************"}));
    break;
  }
  case 3: { // a record begins with something else
    const int i = data[g.choose(data.size())];
    if (L.l[i][0] != 'D')
      g.discard();
    good = L.epoch[i], what = "a record without beacon";
    L.l[i][0] = g.pick({' ', 'X', '>', '0', 'd'});
    break;
  }
  case 4: { // an epoch line is lost
    const int i = head[g.choose(head.size())];
    good = L.epoch[i], what = "a lost epoch line";
    if (f.ep[good].b.empty()) // a block of nothing
      g.discard();
    L.l.erase(L.l.begin() + i);
    break;
  }
  case 5: { // an unreadable field in an epoch line
    const int i = head[g.choose(head.size())];
    good = L.epoch[i];
    string &s = L.l[i];
    s = pad(s, 59);
    switch (g.choose(7)) {
    case 0: what = "epoch sign", s[0] = g.pick({' ', '<', 'D'}); break;
    case 1: what = "month", s.replace(7, 2, g.pick<string>({"13", "00", "xx"})); break;
    case 2: what = "number of stations", s.replace(34, 3, g.pick<string>({" x1", "   ", " -1", "1.5"})); break;
    case 3: what = "flag", s.replace(31, 3, g.pick<string>({"  x", "   "})); break;
    case 4: what = "clock offset", s.replace(43, 13, g.pick<string>({"          abc", "     1.2.3   ", "      -      ", "  1.0 2.0    "})); break;
    case 5: what = "clock flag", s.replace(56, 3, g.pick<string>({" x ", " - "})); break;
    default: what = "day", s.replace(10, 2, g.pick<string>({"32", "00", "yy"}));
    }
    break;
  }
  case 6: { // one station more or less than there are
    const int i = head[g.choose(head.size())];
    good = L.epoch[i];
    const int n = (int)f.ep[good].b.size() + (g.boolean() ? 1 : -1);
    if (n < 0)
      g.discard();
    what = fmt("%d stations announced", n);
    L.l[i] = pad(L.l[i], 59);
    L.l[i].replace(34, 3, fmt("%3d", n));
    break;
  }
  case 7: { // cut anywhere within a block
    size_t h = 0;
    for (const auto &x : f.hdr)
      h += x.size() + 1;
    text = L.text();
    const size_t at = h + g.choose(text.size() - h);
    text.resize(at);
    what = "cut";
    // blocks complete before the cut
    size_t p = 0, i = 0;
    vector<size_t> end(f.ep.size());
    for (; i < L.l.size(); i++) {
      p += L.l[i].size();
      if (L.epoch[i] >= 0)
        end[L.epoch[i]] = p;
      ++p;
    }
    while (good < (int)f.ep.size() && end[good] <= at)
      ++good;
    size_t start = 0, last = 0; // of the block, and of its last line
    for (i = 0, p = 0; i < L.l.size(); i++) {
      if (L.epoch[i] == good)
        (L.head[i] ? start : last) = p;
      p += L.l[i].size() + 1;
    }
    must = last && at > start && at <= last;
    break;
  }
  case 9: { // a line far too long
    const bool h = data.empty() || g.boolean(0.3);
    const int i = h ? head[g.choose(head.size())] : data[g.choose(data.size())];
    good = L.epoch[i], what = "a line too long";
    L.l[i] = pad(L.l[i], 90) + string(g.integer(33, 400), g.pick({'x', '1', ' '}));
    break;
  }
  default: { // any byte changed or lost
    size_t h = 0;
    for (const auto &x : f.hdr)
      h += x.size() + 1;
    text = L.text();
    const size_t at = h + g.choose(text.size() - h);
    what = fmt("byte %zu changed", at - h);
    if (g.boolean())
      text[at] = (char)g.choose(256);
    else
      text.erase(at, 1);
    size_t p = 0, i = 0;
    for (; p + L.l[i].size() + 1 <= at; i++)
      p += L.l[i].size() + 1;
    good = L.epoch[i];
  }
  }
  if (text.empty())
    text = L.text();
  const string fn = scratch_file("rnx");
  write_file(fn, text);
  g.note("%s at block %d\n%s", what.c_str(), good, text.c_str());
  g.label(how == 2 ? "a value" : how == 5 ? "an epoch field" : what.substr(0, 8));
  auto r = open(fn);
  VP_CHECK(r, "the header is refused");
  const int e = number_of_blocks(*r, f, good, what);
  const int ended = e < 0 ? -1 - e : -1, refused = e < 0 ? -1 : e;
  // blocks before the damage are all delivered
  VP_CHECK((ended < 0 ? refused : ended) >= good, "only %d of the %d blocks before the damage (%s) are read", ended < 0 ? refused : ended, good, what.c_str());
  if (how <= 6)
    VP_CHECK(refused == good || refused == good + 1, "block %d with damage (%s) is %s", good, what.c_str(), ended >= 0 ? fmt("read without an error, %d blocks in all", ended).c_str() : fmt("accepted; refused %d", refused).c_str());
  if (how == 9) // (to ignore the rest would do)
    VP_CHECK(ended < 0 || ended == (int)f.ep.size(), "the file ends after %d of %zu blocks, without an error (%s at block %d)", ended, f.ep.size(), what.c_str(), good);
  if (how == 2 || how == 3 || how == 5 || must)
    VP_CHECK(refused == good, "block %d with damage (%s) is accepted", good, what.c_str());
  g.nontrivial(good > 0);
}
// anything at all: no crash, no hang
VP_PROP(garbage, 4000, 200000, "always") {
  File f = gen(g, 4);
  const Lines L = lines(f, g);
  string t = L.text();
  for (int k = (int)g.integer(1, 8); k-- && !t.empty();) {
    const size_t at = g.choose(t.size());
    switch (g.choose(6)) {
    case 0: t[at] = (char)g.choose(256); break;
    case 1: t.erase(at, g.integer(1, 200)); break;
    case 2: t.insert(at, string(g.integer(1, 300), (char)g.pick({' ', '9', 'D', '\n', '>', '-'}))); break;
    case 3: t.insert(at, t.substr(g.choose(t.size()), g.integer(1, 400))); break;
    case 4: t.resize(at); break;
    default: t[at] = g.pick({'\0', '\n', '9', '-', ' ', '\xff'});
    }
  }
  const string fn = scratch_file("rnx");
  write_file(fn, t);
  g.note("%s", t.c_str());
  auto r = open(fn);
  if (r) {
    g.label("header accepted");
    dso::RinexDataBlockIterator it(r.get());
    long n = 0;
    for (; !it.next(); n++) {
      VP_CHECK(n < 100000, "no end");
      for (const auto &b : it.cblock)
        VP_CHECK(b.m_values.size() == r->observation_codes().size(), "%zu values in a record, %zu observation types", b.m_values.size(), r->observation_codes().size());
      VP_CHECK((int)it.cblock.size() == it.cheader.m_num_stations, "%zu records, %d announced", it.cblock.size(), (int)it.cheader.m_num_stations);
    }
    captured([&] { r->print_metadata(); });
  }
  g.nontrivial();
}
