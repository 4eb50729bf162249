// gfc_fortran2c.py: FORTRAN exponents in gravity model files.
#include "pychild.hpp"
using namespace vp;
using std::string;
using std::vector;
namespace {
string number(Gen &g, bool &d) {
  string s = g.pick<const char *>({"", "-", "+"});
  const int w = g.weighted({4, 1, 2}) == 0 ? 1 : (int)g.integer(0, 4);
  for (int i = 0; i < w; i++)
    s += (char)('0' + g.choose(10));
  s += ".";
  for (int i = (int)g.integer(1, 18); i > 0; i--)
    s += (char)('0' + g.choose(10));
  const int k = g.weighted({4, 3, 1, 1, 1});
  if (k < 4) {
    s += "Dded"[k];
    if (k == 3)
      s.back() = 'E';
    s += g.pick<const char *>({"-", "+", ""});
    s += g.boolean(0.8) ? fmt("%02ld", g.integer(0, 30)) : fmt("%ld", g.integer(0, 300));
    d = d || s.find_first_of("Dd") != string::npos;
  }
  return s;
}
string spaces(Gen &g) { return g.boolean(0.1) ? string("\t") : string(1 + g.choose(4), ' '); }
// a line of the data, its words
string data(Gen &g, bool &d) {
  if (g.boolean(0.05))
    return "";
  const int k = g.weighted({6, 1, 1, 1, 1});
  string s = string(g.boolean(0.2) ? 2 : 0, ' ') + (k == 0 ? "gfc" : k == 1 ? "gfct" : k == 2 ? "trnd" : k == 3 ? "asin" : "dot");
  s += spaces(g) + std::to_string(g.integer(0, 2190)) + spaces(g) + std::to_string(g.integer(0, 2190));
  for (int i = g.boolean(0.3) ? 2 : 4; i > 0; i--)
    s += spaces(g) + number(g, d);
  if (k == 1)
    s += spaces(g) + fmt("%ld.%04ld", g.integer(19500101, 20221231), g.integer(0, 2359));
  else if (k == 3)
    s += spaces(g) + "1.0";
  return s + string(g.choose(3), ' ');
}
string header(Gen &g, bool &d) {
  switch (g.choose(9)) {
  case 0: return "product_type                gravity_field";
  case 1: return "modelname   D1D2.5D-3_" + std::to_string(g.choose(99));
  case 2: return "earth_gravity_constant    0.3986004415" + string(g.pick<const char *>({"D", "E", "d"})) + "+15"; // (the header is kept as it is)
  case 3: return "radius " + number(g, d);
  case 4: return "   tide_system   zero_tide  ";
  case 5: return "";
  case 6: return "begin_of_head ====================";
  case 7: return "see end_of_head and 1.5D-10 below";
  default: return "key    L    M    C    S    sigma C   sigma S";
  }
}
string strip(const string &s) {
  const size_t a = s.find_first_not_of(" \t\r\n");
  return a == string::npos ? "" : s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1);
}
// the line, with the exponents of its numbers written as in C
string expected(const string &s) {
  string o;
  for (size_t i = 0; i < s.size();) {
    size_t j = s.find_first_of(" \t", i);
    if (j == string::npos)
      j = s.size();
    string w = s.substr(i, j - i);
    const size_t e = w.find_first_of("Dd");
    if (e != string::npos && e && w.find('.') < e && w.find_first_not_of("+-.0123456789") == e)
      w[e] = 'e';
    o += w;
    for (i = j; i < s.size() && (s[i] == ' ' || s[i] == '\t'); i++)
      o += s[i];
  }
  return strip(o);
}
PyResult convert(Gen &g, const string &t) {
  const string fn = scratch_file("gfc");
  write_file(fn, t);
  const PyResult r = pyrun({"run", g.boolean() ? "script/gfc_fortran2c.py" : "var/icgem/script/gfc_fortran2c.py", scratch_dir(), fn});
  unlink(fn.c_str());
  return r;
}
vector<string> split(const string &t) {
  vector<string> v;
  for (size_t p = 0; p < t.size();) {
    size_t e = t.find('\n', p);
    if (e == string::npos)
      e = t.size();
    v.push_back(t.substr(p, e - p));
    p = e + 1;
  }
  return v;
}
} // namespace

VP_PROP(converted, 12000, 400000, "data with FORTRAN exponents") {
  bool d = false, no = false;
  vector<string> in, out;
  for (int i = (int)g.integer(0, 8); i > 0; i--)
    in.push_back(header(g, no)), out.push_back(strip(in.back()));
  in.push_back((g.boolean(0.2) ? "  end_of_head" : "end_of_head") + string(g.boolean() ? " ==================" : "")), out.push_back(strip(in.back()));
  for (int i = g.boolean(0.005) ? (int)g.integer(100, 3000) : (int)g.integer(0, 12); i > 0; i--)
    in.push_back(data(g, d)), out.push_back(expected(in.back()));
  if (g.boolean(0.2))
    in.push_back("end_of_head"), out.push_back(in.back());
  string t;
  for (auto &l : in)
    t += l + "\n";
  const bool nl = in.back().empty() || g.boolean(0.8);
  if (!nl)
    t.pop_back();
  g.note("%s", t.c_str());
  const PyResult r = convert(g, t);
  VP_CHECK(r.rc == 0, "ended with %d: %s", r.rc, r.err.c_str());
  const vector<string> o = split(r.out);
  VP_CHECK(o.size() == out.size(), "%zu lines became %zu", out.size(), o.size());
  for (size_t i = 0; i < o.size(); i++)
    VP_CHECK(strip(o[i]) == out[i], "line %zu: '%s' became '%s', should be '%s'", i + 1, in[i].c_str(), o[i].c_str(), out[i].c_str());
  // twice changes nothing more
  if (g.boolean(0.2)) {
    const PyResult q = convert(g, r.out);
    VP_CHECK(q.rc == 0 && q.out == r.out, "converting the converted file changed it");
  }
  g.nontrivial(d);
}
VP_PROP(headless, 2000, 60000, "every case") {
  bool d = false;
  string t;
  for (int i = (int)g.integer(0, 5); i > 0; i--)
    t += header(g, d) + "\n";
  for (int i = (int)g.integer(0, 5); i > 0; i--)
    t += data(g, d) + "\n";
  g.note("%s", t.c_str());
  const PyResult r = convert(g, t);
  VP_CHECK(r.rc != 124, "no end for a file without end_of_head");
  VP_CHECK(r.rc != 0, "a file without end_of_head was reported converted");
  const PyResult q = pyrun({"run", "script/gfc_fortran2c.py", scratch_dir(), scratch_file("none")});
  VP_CHECK(q.rc != 0 && q.rc != 124, "a file that is not there: %d", q.rc);
  g.nontrivial();
}
VP_PROP(wrapped, 2000, 60000, "a header with lines") {
  static const char *w[] = {"#ifndef A_H", "#define A_H", "void f(int, double*);", "    int g(void);", "\tdouble x;", "/* } */", "", "struct s {", "};", "#endif", "typedef int (*F)(char const *)", "// \xce\xb1"};
  vector<string> in;
  string t;
  for (int i = (int)g.integer(0, 15); i > 0; i--)
    in.push_back(w[g.choose(12)]), t += in.back() + "\n";
  if (!t.empty() && !in.back().empty() && g.boolean(0.2))
    t.pop_back();
  const string fn = scratch_file("h");
  write_file(fn, t);
  g.note("%s", t.c_str());
  const PyResult r = pyrun({"run", "script/jpl/c2cpp_header.py", scratch_dir(), fn});
  unlink(fn.c_str());
  VP_CHECK(r.rc == 0, "ended with %d: %s", r.rc, r.err.c_str());
  vector<string> o, head, tail;
  for (auto &l : split(r.out))
    o.push_back(strip(l));
  const vector<string> H = {"#ifdef __cplusplus", "extern \"C\" {", "#endif"}, T = {"#ifdef __cplusplus", "}", "#endif"};
  size_t a = 0, b = o.size(), k = 0;
  for (k = 0; a < o.size() && k < 3; a++)
    if (!o[a].empty()) {
      VP_CHECK(o[a] == H[k], "line %zu is '%s', not '%s'", a + 1, o[a].c_str(), H[k].c_str());
      k++;
    }
  for (k = 3; b > a && k > 0; b--)
    if (!o[b - 1].empty()) {
      VP_CHECK(o[b - 1] == T[k - 1], "line %zu is '%s', not '%s'", b, o[b - 1].c_str(), T[k - 1].c_str());
      k--;
    }
  VP_CHECK(k == 0, "the header is not closed");
  vector<string> x, y;
  for (auto &l : in)
    if (!l.empty())
      x.push_back(strip(l));
  for (; a < b; a++)
    if (!o[a].empty())
      y.push_back(o[a]);
  VP_CHECK(x == y, "%zu lines that say something became %zu, or others: %s", x.size(), y.size(), r.out.c_str());
  g.nontrivial(x.size() > 1);
}
