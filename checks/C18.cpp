// C18: identifier substitution replaces exactly whole identifiers.
#include <deque>
#include <algorithm>

#include "io.hpp"
using namespace md;
using mc::Ctx;

mc::Property property() {
  return {"C18",
          "the substituted text is the input with each maximal identifier-or-number run that equals a given name replaced by @rank@, in parentheses or not, and nothing else changed; and where the parentheses are left out, putting a sum or difference in place of the marker gives an expression of the same value (all assignments of a small set)",
          {"names are sequences of letters, digits and underscores; an empty one is nowhere"}};
}
namespace {
bool word(char c) { return isalnum((unsigned char)c) && (unsigned char)c < 128 ? true : c == '_'; }
struct Piece { bool mark; string text; int rank; };
vector<Piece> pieces(const string& e, const vector<string>& names) {
  vector<Piece> v;
  for (size_t i = 0; i < e.size();) {
    if (word(e[i])) {
      size_t j = i;
      while (j < e.size() && word(e[j])) ++j;
      string w = e.substr(i, j - i);
      auto it = std::find(names.begin(), names.end(), w);
      if (it != names.end()) v.push_back({true, w, (int)(it - names.begin())});
      else v.push_back({false, w, 0});
      i = j;
    } else v.push_back({false, string(1, e[i++]), 0});
  }
  return v;
}
// "" when the output is right; fills in whether each marker has parentheses
string judge(const string& out, const vector<Piece>& ps, vector<bool>* paren = nullptr) {
  size_t at = 0;
  for (auto& p : ps) {
    string want = p.mark ? "@" + std::to_string(p.rank) + "@" : p.text;
    if (out.compare(at, want.size(), want) == 0) { at += want.size(); if (p.mark && paren) paren->push_back(false); }
    else if (p.mark && out.compare(at, want.size() + 2, "(" + want + ")") == 0) { at += want.size() + 2; if (paren) paren->push_back(true); }
    else return "expected " + want + " at '" + out.substr(at, 40) + "'";
  }
  return at == out.size() ? "" : "unexpected '" + out.substr(at, 40) + "'";
}
string subst(Ctx& c, const string& e, const vector<string>& names) {
  string copy = e;
  vector<char*> ids;
  std::deque<Text> exact;
  for (auto& n : names) { exact.emplace_back(n); ids.push_back(exact.back().base); }
  ids.push_back(nullptr);
  Blk<char*> list(ids);
  Text in(e);  // exact buffer: overreads are detected
  string out = take(osl_util_identifier_substitution(in.base, list.p));
  c.step();
  c.check(string(in.base) == copy, "the expression changed");
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
  return out;
}
const vector<vector<string>> NAMES = {{}, {"a"}, {"b", "a"}, {"ab", "a"}, {"a", "ab", "1"}, {"a1", "_", "a"}, {"a", "b", "aa"}, {"b1", "a", "b"}, {"a", "a"}, {""}, {"", "a"}};

void texts(Ctx& c, int len, const string& alphabet) {
  int n = c.choose(len + 1, "length");
  string e;
  for (int i = 0; i < n; i++) e += alphabet[c.choose((int)alphabet.size(), "character")];
  auto& names = NAMES[c.choose((int)NAMES.size(), "names")];
  c.state(e);
  string out = subst(c, e, names);
  auto ps = pieces(e, names);
  string bad = judge(out, ps);
  int marks = 0;
  for (auto& p : ps) marks += p.mark;
  c.outcome(std::to_string(marks) + " names");
  c.check(bad.empty(), "%zu names in '%s' gave '%s': %s", names.size(), e.c_str(), out.c_str(), bad.c_str());
}
// ------------------------------------------------- arithmetic expressions
struct Val { bool ok; long v; };
struct Parse {
  const string& s;
  const std::map<string, long>& env;
  size_t p = 0;
  bool ok = true;
  void sp() { while (p < s.size() && s[p] == ' ') ++p; }
  long prim() {
    sp();
    if (p < s.size() && s[p] == '(') {
      ++p;
      long v = sum();
      sp();
      if (p >= s.size() || s[p] != ')') ok = false; else ++p;
      return v;
    }
    if (p < s.size() && s[p] == '[') {  // an array access: its value depends on the index
      ++p;
      long v = sum();
      sp();
      if (p >= s.size() || s[p] != ']') ok = false; else ++p;
      return 1000 + 7 * v * v + v;
    }
    if (p < s.size() && s[p] == '-') { ++p; return -prim(); }
    if (p < s.size() && s[p] == '+') { ++p; return prim(); }
    size_t b = p;
    while (p < s.size() && word(s[p])) ++p;
    if (b == p) { ok = false; return 0; }
    string w = s.substr(b, p - b);
    if (isdigit(w[0])) return atol(w.c_str());
    auto it = env.find(w);
    if (it == env.end()) { ok = false; return 0; }
    return it->second;
  }
  long prod() {
    long v = prim();
    while (ok) {
      sp();
      if (p < s.size() && s[p] == '*') { ++p; v *= prim(); }
      else if (p < s.size() && s[p] == '/') { ++p; v = 13 * v + 7 * prim() + 1; }  // any function of the two will do
      else break;
    }
    return v;
  }
  long sum() {
    long v = prod();
    while (ok) {
      sp();
      if (p < s.size() && s[p] == '+') { ++p; v += prod(); }
      else if (p < s.size() && s[p] == '-') { ++p; v -= prod(); }
      else break;
    }
    return v;
  }
  long rel() {
    long v = sum();
    sp();
    if (ok && p < s.size() && s[p] == '<') { ++p; long w = sum(); return 11 * v - 29 * w; }
    if (ok && p < s.size() && (s[p] == '=' || s[p] == ',')) { char o = s[p++]; long w = rel(); return o == '=' ? 31 * w + 5 * v : 17 * w + 3 * v; }
    if (ok && p < s.size() && s[p] == ';') { ++p; }
    return v;
  }
  Val all() {
    long v = rel();
    sp();
    return {ok && p == s.size(), v};
  }
};
Val eval(const string& s, const std::map<string, long>& env) { Parse p{s, env}; return p.all(); }

void values(Ctx& c, int len) {
  static const vector<string> TOK = {"i", "2", "+", "-", "*", "(", ")", "[", "]", " ", "=", ",", ";", "ij", "/", "<"};
  int n = c.choose(len, "length") + 1;
  string e;
  int depth = 0;
  for (int i = 0; i < n; i++) {
    const string& t = TOK[c.choose((int)TOK.size(), "token")];
    if (t == "(" || t == "[") ++depth;
    if (t == ")" || t == "]") if (--depth < 0) return;
    e += t;
  }
  if (depth || e.find("++") != string::npos || e.find("--") != string::npos) return;  // those are other operators
  static const std::map<string, long> E0 = {{"i", 3}, {"ij", 5}};
  if (!eval(e, E0).ok) return;
  if (!c.state(e, 0)) return;
  static const vector<string> names = {"i"};
  string out = subst(c, e, names);
  vector<bool> par;
  string bad = judge(out, pieces(e, names), &par);
  c.check(bad.empty(), "'%s' gave '%s': %s", e.c_str(), out.c_str(), bad.c_str());
  // what replaces the identifier: a sum and a difference
  static const long U[] = {-2, 0, 3};
  for (const char* repl : {"u-v", "u+v"}) {
    string t = out;
    for (size_t p; (p = t.find("@0@")) != string::npos;) t.replace(p, 3, repl);
    for (long u : U)
      for (long v : {-1L, 4L}) {
        long i = repl[1] == '-' ? u - v : u + v;
        Val a = eval(e, {{"i", i}, {"ij", 5}}), b = eval(t, {{"u", u}, {"v", v}, {"ij", 5}});
        c.check(b.ok && a.v == b.v, "'%s' became '%s'; with %s for the identifier (u=%ld v=%ld) its value is %ld instead of %ld", e.c_str(), out.c_str(), repl, u, v, b.v, a.v);
      }
  }
}
// real identifiers at the limits of the library's buffers
void large(Ctx& c) {
  static const vector<int> L = {1, 9, 10, 11, 100, 101, 681, 682, 683, 1023, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 9000};
  int kind = c.choose(4, "shape"), n = c.pick(L, "size");
  string e;
  vector<string> names;
  switch (kind) {
    case 0: e = string(n, 'x') + "+i"; names = {"i", string(n, 'x')}; break;         // long names
    case 1: for (int k = 0; k < n; k++) e += "i*"; e += "2"; names = {"i"}; break;    // many replacements
    case 2: for (int k = 0; k < std::min(n, 1200); k++) { names.push_back("n" + std::to_string(k)); e += "n" + std::to_string(k) + " "; } break;  // many names
    case 3: e = string(n, ' ') + "i" + string(n, ' ') + "]"; names = {"i"}; break;
  }
  c.state(std::to_string(kind) + "," + std::to_string(n));
  string out = subst(c, e, names);
  string bad = judge(out, pieces(e, names));
  c.check(bad.empty(), "shape %d of size %d: %s", kind, n, bad.c_str());
}
void statements(Ctx& c) {
  static const vector<string> E = {"A[i][j] = B[i+1] * i_2 + foo(i, j);", "s.i += p->j / (i) - -j;", "if (i<=j && j!=i) x[i%2]=i?j:i;", "a = \"i j\"; // i", "for(i=0;i<n;i++) y[2*i-j]--;", "i", "", " i ", "ij+ji+iji", "\xc3\xa9i+i\xc3\xa9", "i\n+\tj", "0i+1j+i0"};
  static const vector<vector<string>> N = {{"i", "j"}, {"j", "i"}, {"i", "j", "n", "x", "A"}, {"foo", "i_2"}, {"ij", "ji", "i"}};
  auto& e = c.pick(E, "expression");
  auto& n = c.pick(N, "names");
  c.state(e + n[0]);
  string out = subst(c, e, n);
  string bad = judge(out, pieces(e, n));
  c.check(bad.empty(), "'%s' gave '%s': %s", e.c_str(), out.c_str(), bad.c_str());
}
}  // namespace

void setup() {
  mc::add("texts", "all texts of up to " + std::to_string(mc::q(5, 6)) + " characters over 8 with 9 name lists", [](Ctx& c) { texts(c, mc::q(5, 6), "ab1_+ [."); });
  mc::add("characters", "a name with every character before and every character after it", [](Ctx& c) {
    string e = "a";
    int x = c.choose(256, "before"), y = c.choose(256, "after");
    if (x) e = string(1, (char)x) + e;
    if (y) e += string(1, (char)y);
    c.state(e);
    static const vector<string> n = {"a", "Z"};
    string out = subst(c, e, n), bad = judge(out, pieces(e, n));
    c.check(bad.empty(), "characters %d and %d around the name gave '%s': %s", x, y, out.c_str(), bad.c_str());
  });
  mc::add("values", "all well-formed expressions of up to " + std::to_string(mc::q(5, 6)) + " tokens over 16, two replacements, 6 assignments", [](Ctx& c) { values(c, mc::q(5, 6)); });
  mc::add("large", "4 shapes at 18 sizes around the buffer limits", large);
  mc::add("statements", "12 statements, 5 name lists", statements);
}
