// C20: malformed input never corrupts or crashes.
#include "readers.hpp"
using namespace rd;

mc::Property property() {
  return {"C20",
          "every reader runs on every single corruption of its base texts (each truncation, byte deletion, byte substitution, token "
          "deletion, duplication, exchange and replacement, line deletion, duplication and exchange) under the address and undefined "
          "behaviour checkers; it must return or report an error and exit; what it returns can be dumped, copied, compared and freed "
          "without a leak.  Words and lines of every length around the internal limits must be kept whole or refused",
          {"requests above 512 MB fail, as they would on a small machine", "one or two corruptions at a time"}};
}
namespace {
void use(Ctx& c, const Reader& r, const string& t) {
  void* x = nullptr;
  c.step();
  c.note("%s", cut(t, 3000).c_str());
  bool died = mc::dies([&] { x = r.read(t); });
  if (died) {
    c.outcome("error");
    mc::forget();
    return;
  }
  string s;
  // numbers of thousands of digits cannot be shown: reported
  if (x && mc::dies([&] { s = r.look(x); })) { c.outcome("read, not shown"); mc::forget(); return; }
  if (x || r.null_frees) r.free(x);
  c.outcome(s);
  c.check(mc::live() == 0, "leak after reading '%s': %s", cut(t, 400).c_str(), mc::live_desc().c_str());
}
string corrupted(Ctx& c, const string& t, int kind) {
  static const string B = " \n\t#<>-/9a*\"\x01\xff";
  static const vector<string> T = {"-1", "0", "1", "2", "7", "1000", "2147483647", "-2147483648", "4294967297", "99999999999999999999", "x", "#", "<", ">", "<>", "</", "</OpenScop>", "<OpenScop>", "<body>", "</body>", "<unknown>", "(null)", "-", "WRITE", "CONTEXT", string(3000, 'z'), string(3000, '1')};
  string s = t;
  if (kind == 0) s.resize(c.choose((int)t.size() + 1, "length"));
  else if (kind == 1) s.erase(c.choose((int)t.size(), "deleted byte"), 1);
  else if (kind == 2) { int p = c.choose((int)t.size(), "byte"); s[p] = B[c.choose((int)B.size(), "becomes")]; }
  else if (kind == 3) { int p = c.choose((int)t.size(), "before byte"); s.insert(p, 1, B[c.choose((int)B.size(), "inserted")]); }
  else if (kind == 4) {
    vector<std::pair<size_t, size_t>> at;
    vector<string> v = split_tokens(t, at);
    int p = c.choose((int)v.size(), "token"), w = c.choose(3 + (int)T.size(), "change");
    if (w == 0) s.erase(at[p].first, at[p].second);
    else if (w == 1) s.insert(at[p].first, v[p] + " ");
    else if (w == 2) { if (p + 1 < (int)v.size()) { s.replace(at[p + 1].first, at[p + 1].second, v[p]); s.replace(at[p].first, at[p].second, v[p + 1]); } }
    else s.replace(at[p].first, at[p].second, T[w - 3]);
  } else {
    vector<string> v = split_lines(t);
    int p = c.choose((int)v.size(), "line"), w = c.choose(4, "change");
    if (w == 0) v.erase(v.begin() + p);
    else if (w == 1) v.insert(v.begin() + p, v[p]);
    else if (w == 2) { int q = c.choose((int)v.size(), "other line"); std::swap(v[p], v[q]); }
    else { int q = c.choose((int)v.size(), "other line"); v.insert(v.begin() + q, v[p]); }
    s = join(v);
  }
  return s;
}
void one(Ctx& c, const vector<Reader>& R, int lo, int hi) {
  const Reader& r = R[c.choose((int)R.size(), "reader")];
  int kind = lo + c.choose(hi - lo, "kind");
  string s = corrupted(c, r.text, kind);
  if (!c.state(r.name + s, 0)) return;
  use(c, r, s);
}
void two(Ctx& c, const vector<Reader>& R) {
  const Reader& r = R[c.choose((int)R.size(), "reader")];
  string s = corrupted(c, r.text, 4);
  if (!s.empty() && !blank(s)) s = corrupted(c, s, c.choose(2, "kind") * 4);
  if (!c.state(r.name + s, 0)) return;
  use(c, r, s);
}
// lengths around the limits of the buffers
void words(Ctx& c, const vector<Reader>& R) {
  const Reader& r = R[c.choose((int)R.size(), "reader")];
  if (r.name == "generic_read_one") return;  // reads the first only
  static const vector<int> L = {79, 80, 81, 254, 255, 256, 257, 1023, 1024, 1025, 2040, 2045, 2046, 2047, 2048, 2049, 2050, 2060, 4095, 4096, 4097, 9000};
  vector<std::pair<size_t, size_t>> at;
  vector<string> v = split_tokens(r.text, at), names;
  vector<size_t> w;
  for (size_t i = 0; i < v.size(); i++) if (v[i].compare(0, 4, "word") == 0) w.push_back(i);
  if (w.empty()) return;
  size_t k = w[c.choose((int)w.size(), "word")];
  int n = c.pick(L, "length");
  string longer = "b" + string(n - 2, 'o') + "e", s = r.text;
  if (c.flip("as part of the word")) longer = v[k].substr(0, v[k].find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789")) + longer;
  size_t tail = v[k].find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789");
  string rest = tail == string::npos ? "" : v[k].substr(tail);
  s.replace(at[k].first, at[k].second, longer + rest);
  if (!c.state(r.name + s, 0)) return;
  void* x = nullptr;
  c.step();
  if (mc::dies([&] { x = r.read(s); })) { c.outcome("refused"); mc::forget(); return; }
  c.check(x != nullptr, "%s: nothing was read with a word of %d characters", r.name.c_str(), n);
  string got = r.look(x);
  size_t p = got.find(longer);
  c.check(p != string::npos, "%s: word %zu of %d characters was cut without an error", r.name.c_str(), k, n);
  r.free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void lines_(Ctx& c, const vector<Reader>& R) {
  const Reader& r = R[c.choose((int)R.size(), "reader")];
  static const vector<int> L = {100, 1023, 1024, 1025, 2040, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 2060, 4095, 4096, 4097, 9000};
  vector<string> v = split_lines(r.text);
  int p = c.choose((int)v.size(), "line"), n = c.pick(L, "length"), how = c.choose(4, "filling");
  // the line itself is made n characters long
  string& l = v[p];
  string t = l.back() == '\n' ? l.substr(0, l.size() - 1) : l;
  if ((int)t.size() >= n) return;
  bool words = t.find("word") != string::npos || t.find("rem") != string::npos;
  size_t b = t.find(' ');
  if (how == 0) t = string(n - t.size(), ' ') + t;                    // in front
  else if (how == 1) { if (b == string::npos || words) return; t.insert(b, string(n - t.size(), ' ')); }  // between items
  else if (how == 2) t += string(n - t.size(), ' ');                  // behind
  else { if (words || t.find('<') != string::npos) return; t += " #" + string(std::max(0, n - (int)t.size() - 2), 'c'); }  // a comment
  // free texts keep their blanks
  l = t + "\n";
  string s = join(v);
  if (!c.state(r.name + s, 0)) return;
  void *x = nullptr, *y = nullptr;
  c.step();
  y = r.read(r.text);
  string want = r.look(y);
  r.free(y);
  if (mc::dies([&] { x = r.read(s); })) { c.outcome("refused"); mc::forget(); return; }
  string got = x ? r.look(x) : "nothing";
  auto norm = [](const string& a) { string q; for (char ch : a) if (!isspace((unsigned char)ch)) q += ch; return q; };
  c.check(norm(got) == norm(want), "%s: line %d of %d characters changes what is read: %s", r.name.c_str(), p, n, differ(norm(want), norm(got)).c_str());
  if (x) r.free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}

}  // namespace

void setup() {
  static vector<Reader> S = readers(false, true), P = readers(true, false), SMALL;
  for (auto& r : S) if (r.text.size() < 120) SMALL.push_back(r);
  for (auto& r : P) SMALL.push_back(r);
  mc::add("base texts", "every base text is read", [](Ctx& c) {
    auto& R = c.choose(2, "family") ? P : S;
    const Reader& r = R[c.choose((int)R.size(), "reader")];
    c.state(r.name + r.text, 0);
    void* x = nullptr;
    c.step();
    c.check(!mc::dies([&] { x = r.read(r.text); }), "%s: the base text is refused: %s", r.name.c_str(), cut(r.text, 400).c_str());
    if (r.null_frees || x) { r.look(x); r.free(x); }
    c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
  });
  mc::add("structures: bytes", "every truncation, byte deletion, substitution and insertion (14 bytes) of the base texts of relations, lists, statements, extensions and scops", [](Ctx& c) { one(c, S, 0, 4); });
  mc::add("structures: tokens", "every token deleted, repeated, exchanged with the next or replaced by 27 others", [](Ctx& c) { one(c, S, 4, 5); });
  mc::add("structures: lines", "every line deleted, repeated, moved, exchanged", [](Ctx& c) { one(c, S, 5, 6); });
  mc::add("payloads: bytes", "the same on the text of every extension payload", [](Ctx& c) { one(c, P, 0, 4); });
  mc::add("payloads: tokens", "the same on the text of every extension payload", [](Ctx& c) { one(c, P, 4, 5); });
  mc::add("payloads: lines", "the same on the text of every extension payload", [](Ctx& c) { one(c, P, 5, 6); });
  mc::add("long words", "22 lengths of every name", [](Ctx& c) { if (c.choose(2, "family")) words(c, P); else words(c, S); });
  mc::add("long lines", "17 lengths of every line, 4 fillings", [](Ctx& c) { if (c.choose(2, "family")) lines_(c, P); else lines_(c, S); });
  if (mc::thorough()) mc::add("two corruptions", "every pair of a token change and a token change or truncation, short texts", [](Ctx& c) { two(c, SMALL); });
}
