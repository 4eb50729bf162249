// Settings read from YAML files.
#include "var_utils.hpp"
#include "vpbt.hpp"
#include <memory>
using namespace vp;
using std::string;
using std::vector;
namespace {
struct Node {
  enum Kind { Null, Int, Real, Text, List, Map } kind = Null;
  long i = 0;
  double d = 0;
  string s; // of texts, and the digits of numbers
  vector<std::pair<string, std::shared_ptr<Node>>> map;
  vector<long> list;
  const Node *get(const string &k) const {
    if (kind == Map)
      for (auto &e : map)
        if (e.first == k)
          return e.second.get();
    return nullptr;
  }
};
typedef std::shared_ptr<Node> Ptr;
const char *WORDS[] = {"data", "gravity", "degree", "order", "model", "eop-info", "naif-kernels", "spk", "a", "b", "sp3", "x_1", "station.file", "Data", "fo o"};
string key(Gen &g) { return WORDS[g.choose(sizeof WORDS / sizeof *WORDS)]; }
string text(Gen &g) {
  static const char c[] = "abcXYZ019 /._-:#'\"\\%&*![]{},|>@`?=~\t\xc3\xa9";
  string s;
  const int n = (int)g.weighted({4, 1}) ? (int)g.integer(40, 300) : (int)g.integer(1, 20);
  for (int i = 0; i < n; i++) {
    const char ch = c[g.choose(sizeof c - 1)];
    s += (unsigned char)ch >= 0x80 ? string("\xc3\xa9") : string(1, ch);
  }
  return s;
}
// texts that mean themselves without quotes
string plain(Gen &g) {
  static const char c[] = "abcdefgXYZ0123456789/._-";
  string s(1, "abcXYZ/"[g.choose(7)]);
  const int n = (int)g.integer(0, 30);
  for (int i = 0; i < n; i++)
    s += c[g.choose(sizeof c - 1)];
  return s + "q"; // (no word has a q at the end that means something)
}
Ptr value(Gen &g, int depth) {
  auto n = std::make_shared<Node>();
  const int k = depth >= 4 ? g.weighted({3, 3, 3, 1, 1}) : g.weighted({3, 3, 3, 1, 1, depth == 0 ? 60u : depth == 1 ? 14u : 5u});
  switch (k) {
  case 0:
    n->kind = Node::Int, n->i = g.boolean(0.2) ? g.integer(-2147483648L, 2147483647L) : g.integer(-1000, 1000), n->d = (double)n->i, n->s = std::to_string(n->i);
    break;
  case 1: {
    char b[64];
    snprintf(b, sizeof b, g.boolean() ? "%.17g" : "%.6e", g.sign() * g.logreal(1e-20, 1e20));
    n->kind = Node::Real, n->s = b;
    if (n->s.find_first_of(".e") == string::npos)
      n->s += ".0";
    n->d = strtod(n->s.c_str(), nullptr);
    break;
  }
  case 2: n->kind = Node::Text, n->s = g.boolean() ? plain(g) : text(g); break;
  case 3:
    n->kind = Node::List;
    for (int i = (int)g.integer(0, 4); i > 0; i--)
      n->list.push_back(g.integer(-99, 99));
    break;
  case 4: n->kind = Node::Null; break;
  default:
    n->kind = Node::Map;
    for (int i = (int)g.integer(0, 6); i > 0; i--) {
      const string w = key(g);
      if (!n->get(w))
        n->map.push_back({w, value(g, depth + 1)});
    }
  }
  return n;
}
string quoted(Gen &g, const string &s) {
  bool single = g.boolean(), bare = !s.empty() && s.back() == 'q' && s.find_first_not_of("abcdefgXYZ0123456789/._-q") == string::npos && isalpha((unsigned char)s[0]);
  if (bare && g.boolean(0.7))
    return s;
  string o(1, single ? '\'' : '"');
  for (char c : s)
    if (single)
      o += c == '\'' ? "''" : string(1, c);
    else
      o += c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\t' ? "\\t" : string(1, c);
  return o + (single ? '\'' : '"');
}
void emit(Gen &g, const Node &n, string &o, int indent, bool flow) {
  switch (n.kind) {
  case Node::Int:
  case Node::Real: o += n.s; return;
  case Node::Text: o += quoted(g, n.s); return;
  case Node::Null: o += g.boolean() ? "~" : "null"; return;
  case Node::List:
    o += "[";
    for (size_t i = 0; i < n.list.size(); i++)
      o += (i ? ", " : "") + std::to_string(n.list[i]);
    o += "]";
    return;
  default: break;
  }
  if (flow || n.map.empty()) {
    o += "{";
    for (size_t i = 0; i < n.map.size(); i++) {
      o += (i ? ", " : "") + (n.map[i].first.find(' ') != string::npos || g.boolean(0.2) ? "\"" + n.map[i].first + "\"" : n.map[i].first) + ": ";
      emit(g, *n.map[i].second, o, 0, true);
    }
    o += "}";
    return;
  }
  const int step = (int)g.integer(1, 4);
  for (auto &e : n.map) {
    if (g.boolean(0.1))
      o += string(g.choose(6), ' ') + "# " + WORDS[g.choose(8)] + ": 7\n";
    if (g.boolean(0.1))
      o += "\n";
    o += string(indent, ' ') + (g.boolean(0.1) ? "\"" + e.first + "\"" : e.first) + ":";
    const bool block = e.second->kind == Node::Map && !e.second->map.empty() && g.boolean(0.8);
    if (block) {
      o += "\n";
      emit(g, *e.second, o, indent + step, false);
    } else {
      o += string(1 + g.choose(4), ' ');
      emit(g, *e.second, o, 0, true);
      o += g.boolean(0.15) ? "  # comment\n" : "\n";
    }
  }
}
string show(const Node *n) { return !n ? "nothing" : n->kind == Node::Map ? "a map" : n->kind == Node::List ? "a list" : n->kind == Node::Null ? "null" : n->s; }
// an existing path, if there is one, or any other
void path(Gen &g, const Node *n, int depth, string *k) {
  for (int i = 0; i < depth; i++) {
    if (n && n->kind == Node::Map && !n->map.empty() && g.boolean(0.85))
      k[i] = n->map[g.choose(n->map.size())].first;
    else
      k[i] = key(g);
    n = n ? n->get(k[i]) : nullptr;
  }
}
} // namespace

VP_PROP(settings, 12000, 500000, "a value found, and one not found") {
  const Ptr root = value(g, 0);
  string doc = g.boolean(0.3) ? "---\n" : "";
  emit(g, *root, doc, 0, g.boolean(0.15));
  doc += g.boolean(0.3) ? "\n...\n" : "\n";
  g.note("%s", doc.c_str());
  const YAML::Node y = YAML::Load(doc);
  bool hit = false, miss = false;
  for (int q = (int)g.integer(1, 8); q > 0; q--) {
    const int depth = g.boolean() ? 2 : 3;
    string k[3];
    path(g, root.get(), depth, k);
    const Node *n = root.get();
    for (int i = 0; i < depth; i++)
      n = n ? n->get(k[i]) : nullptr;
    const char *a = k[0].c_str(), *b = k[1].c_str(), *c = k[2].c_str();
    const string what = k[0] + "::" + k[1] + (depth == 3 ? "::" + k[2] : "");
    const int type = (int)g.choose(5);
    const bool scalar = n && (n->kind == Node::Int || n->kind == Node::Real || n->kind == Node::Text);
    const bool number = n && (n->kind == Node::Int || n->kind == Node::Real);
    g.note("asked for %s, type %d", what.c_str(), type);
    const auto status = [&](int rc, bool should) {
      VP_CHECK((rc == 0) == should, "%s (type %d) is %s: status %d", what.c_str(), type, show(n).c_str(), rc);
      (should ? hit : miss) = true;
      return should;
    };
    if (type == 0 || type == 1) {
      // (what of other kinds of values: any answer)
      if (n && !number && n->kind != Node::Map && n->kind != Node::List)
        continue;
      if (type == 0) {
        int v = -77;
        if (n && n->kind == Node::Real)
          continue;
        if (status(depth == 2 ? dso::get_yaml_value_depth2(y, a, b, v) : dso::get_yaml_value_depth3(y, a, b, c, v), number))
          VP_CHECK(v == n->i, "%s is %d, should be %ld", what.c_str(), v, n->i);
      } else {
        double v = -77;
        if (status(depth == 2 ? dso::get_yaml_value_depth2(y, a, b, v) : dso::get_yaml_value_depth3(y, a, b, c, v), number))
          VP_CHECK(near(v, n->d, 4e-16), "%s is %.17g, should be %.17g", what.c_str(), v, n->d);
      }
    } else if (n && n->kind == Node::Null) {
      continue;
    } else if (type == 2) {
      string v = "-";
      if (status(depth == 2 ? dso::get_yaml_value_depth2(y, a, b, v) : dso::get_yaml_value_depth3(y, a, b, c, v), scalar))
        VP_CHECK(v == n->s, "%s is \"%s\", should be \"%s\"", what.c_str(), v.c_str(), n->s.c_str());
    } else {
      // just enough room
      const size_t room = scalar ? n->s.size() + 1 : 1;
      std::unique_ptr<char[]> v(new char[room]);
      if (status(depth == 2 ? dso::get_yaml_value_depth2(y, a, b, v.get()) : dso::get_yaml_value_depth3(y, a, b, c, v.get()), scalar))
        VP_CHECK(n->s == v.get(), "%s is \"%s\", should be \"%s\"", what.c_str(), v.get(), n->s.c_str());
    }
    // looking is not touching
    VP_CHECK(y.IsMap() == (root->kind == Node::Map) && (!y.IsMap() || y.size() == root->map.size()), "the document has %zu entries after %s was asked for, had %zu", y.size(), what.c_str(), root->map.size());
  }
  g.nontrivial(hit && miss);
}
