// script/fetch_celestrak_space_weather_data_csv.py: space weather files are
// those of the server, under the name asked for.
#include "pychild.hpp"
using namespace vp;
using std::string;
using std::vector;
namespace {
const char *SCRIPT = "script/fetch_celestrak_space_weather_data_csv.py";
string bytes(Gen &g) {
  string s = "DATE,BSRN,ND,KP1\n";
  uint64_t w = g.word();
  const int kind = g.weighted({4, 1, 1});
  const long n = g.boolean(0.1) ? g.integer(0, 300000) : g.integer(0, 2000);
  if (kind == 2)
    s.clear();
  for (long i = 0; i < n; i++) {
    w += 0x9e3779b97f4a7c15ULL;
    const uint64_t z = mix64(w);
    s += kind ? (char)(z & 255) : "0123456789,.-\n\r ABC"[z % 19];
  }
  return s;
}
bool slurp(const string &f, string &s) {
  FILE *h = fopen(f.c_str(), "r");
  if (!h)
    return false;
  s.clear();
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, h)) > 0)
    s.append(b, n);
  fclose(h);
  return true;
}
} // namespace
VP_PROP(saved, 6000, 150000, "a file that is there") {
  const string d = scratch_file("sw");
  for (const char *s : {"", "/remote", "/data", "/data/x"})
    mkdir((d + s).c_str(), 0700);
  const char *NAME[2] = {"SW-Last5Years.csv", "SW-All.csv"};
  string text[2];
  bool there[2];
  int status[2];
  for (int i = 0; i < 2; i++) {
    text[i] = bytes(g), there[i] = g.boolean(0.85);
    status[i] = g.boolean(0.12) ? (int)g.pick({404, 500, 503, 403, 429}) : 200;
    if (there[i])
      write_file(d + "/remote/" + NAME[i], text[i]);
    if (status[i] != 200)
      write_file(d + "/remote/" + NAME[i] + ".status", std::to_string(status[i]));
  }
  const bool down = g.boolean(0.06);
  if (down)
    write_file(d + "/remote/unreachable", "");
  const int all = (int)g.choose(2), where = (int)g.choose(4);
  const bool named = g.boolean(0.6);
  vector<string> a = {"run", SCRIPT, d};
  if (all)
    a.push_back("--csv-all");
  const char *dirs[] = {"", "data", "data/x", "nowhere"};
  if (where)
    a.push_back("-O"), a.push_back(g.boolean() ? d + "/" + dirs[where] : dirs[where]);
  const string name = named ? g.pick<const char *>({"sw.csv", "data", "SW-All.csv", "a b.txt", "sw"}) : NAME[all];
  // (a name that is a whole path goes there, whatever the directory)
  const bool whole = named && where != 3 && g.boolean(0.2);
  const string out = d + "/" + (whole ? "data" : dirs[where]) + "/" + name;
  if (named)
    a.push_back("-o"), a.push_back(whole ? out : name);
  if (whole)
    g.label("a whole path");
  const bool isdir = !whole && where == 0 && name == "data";
  // there may be an older, longer file
  const string old = g.boolean(0.3) ? string(400000, 'o') : "";
  if (!old.empty() && where != 3 && !isdir)
    write_file(out, old);
  g.note("%s '%s' into '%s' as '%s'; there %d status %d, down %d", NAME[all], text[all].substr(0, 40).c_str(), dirs[where], name.c_str(), there[all], status[all], down);
  const PyResult r = pyrun(a);
  string got;
  const bool file = !isdir && slurp(out, got);
  unlink(out.c_str());
  for (int i = 0; i < 2; i++)
    unlink((d + "/remote/" + NAME[i]).c_str()), unlink((d + "/remote/" + NAME[i] + ".status").c_str());
  unlink((d + "/remote/unreachable").c_str());
  int left = 0; // nothing else is written
  for (const char *s : {"/data/x", "/data", "/remote", ""})
    left += rmdir((d + s).c_str()) != 0;
  if (where != 3 && !isdir)
    VP_CHECK(left == 0, "other files were written");
  if (there[all] && status[all] == 200 && !down && where != 3 && !isdir) {
    VP_CHECK(r.rc == 0, "ended with %d: %s", r.rc, r.err.c_str());
    VP_CHECK(file, "there is no file %s", name.c_str());
    VP_CHECK(got == text[all], "%zu bytes were saved, the server has %zu (or others)", got.size(), text[all].size());
    g.nontrivial();
  } else {
    VP_CHECK(r.rc != 0, "success was reported, of a file that is %s", !there[all] ? "not there" : down ? "not to be reached" : where == 3 ? "for no directory" : "refused");
    VP_CHECK(!file || got == old, "what was saved is not the server's file");
  }
}
