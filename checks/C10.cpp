// C10: string and name lists behave as sequences of names.
#include "subject.hpp"
using namespace gn;

mc::Property property() {
  return {"C10",
          "every history of string list operations up to the stated length against plain sequences; every generated prefix and "
          "count; every list of words in every generated layout (separators, leading and trailing space, comments, what "
          "follows, lengths around internal buffer sizes) read from memory and from a file, with the exact text consumed; "
          "every list printed and read back",
          {"words hold no blank and no '#' when they are read from a text", "reading needs at least one word"}};
}
namespace {
using L = vector<string>;
string show(bool null, const L& l) {
  if (null) return "NULL";
  string s = "<";
  for (auto& x : l) s += "'" + x + "' ";
  return s + ">";
}
void compare(Ctx& c, const char* op, osl_strings_p s, bool null, const L& m) {
  c.check(text(s) == show(null, m), "%s: %s", op, differ(show(null, m), text(s)).c_str());
  c.check(osl_strings_size(s) == m.size(), "%s: size %zu of %s", op, osl_strings_size(s), text(s).c_str());
  c.check(osl::osl_strings_to_cpp(s) == m, "%s: the C++ view of %s", op, text(s).c_str());
}
const L WORDS = {"a", "b2", "", "a b", "ab"};
void history(Ctx& c, int depth, int maxlen) {
  struct R { osl_strings_p s = nullptr; bool null = true; L m; } r[2];
  for (int i = 0; i < depth; i++) {
    if (!c.state(show(r[0].null, r[0].m) + show(r[1].null, r[1].m), depth - i)) break;
    int k = c.choose(2, "list");
    R &a = r[k], &b = r[1 - k];
    int op = c.choose(8, "operation");
    auto put = [](R& d, osl_strings_p s, bool null, const L& m) { osl_strings_free(d.s); d.s = s; d.null = null; d.m = m; };
    c.step();
    const char* name = "";
    bool skip = false;
    switch (op) {
      case 0: name = "malloc"; put(a, osl_strings_malloc(), false, {}); break;
      case 1: {
        name = "add";
        if (a.null || (int)a.m.size() >= maxlen) { skip = true; break; }
        string w = c.pick(WORDS, "word");
        char* buf = strdup(w.c_str());
        osl_strings_add(a.s, buf);
        free(buf);  // the list owns a copy
        a.m.push_back(w);
        break;
      }
      case 2: name = "clone"; put(b, osl_strings_clone(a.s), a.null, a.m); break;
      case 3: {
        name = "encapsulate";
        string w = c.pick(WORDS, "word");
        char* p = mc::lstrdup(w.c_str());
        put(a, osl_strings_encapsulate(p), false, {w});
        c.check(a.s->string[0] == p, "encapsulate does not hold the given string");
        break;
      }
      case 4: {
        name = "add_strings";
        if ((int)(a.m.size() + b.m.size()) > maxlen) { skip = true; break; }
        osl_strings_p d = nullptr;
        osl_strings_add_strings(&d, a.s, b.s);
        L m = a.m;
        m.insert(m.end(), b.m.begin(), b.m.end());
        compare(c, "first operand", a.s, a.null, a.m);
        compare(c, "second operand", b.s, b.null, b.m);
        put(b, d, false, m);
        break;
      }
      case 5: {
        name = "add_strings with itself";
        if ((int)(2 * a.m.size()) > maxlen) { skip = true; break; }
        osl_strings_p d = nullptr;
        osl_strings_add_strings(&d, a.s, a.s);
        L m = a.m;
        m.insert(m.end(), a.m.begin(), a.m.end());
        put(a, d, false, m);
        break;
      }
      case 6: {
        name = "generate";
        int n = c.choose(3, "count");
        put(a, osl_strings_generate("a", n), false, n == 2 ? L{"a1", "a2"} : n == 1 ? L{"a1"} : L{});
        break;
      }
      case 7: name = "free"; put(a, nullptr, true, {}); break;
    }
    if (skip) break;
    c.note("  %s -> %s %s", name, show(r[0].null, r[0].m).c_str(), show(r[1].null, r[1].m).c_str());
    for (auto& x : r) {
      compare(c, name, x.s, x.null, x.m);
      if (!x.null) for (auto& w : WORDS) {
        size_t want = std::find(x.m.begin(), x.m.end(), w) - x.m.begin();
        c.check(osl_strings_find(x.s, w.c_str()) == want, "%s: find '%s' in %s gives %zu", name, w.c_str(), text(x.s).c_str(), osl_strings_find(x.s, w.c_str()));
      }
    }
    bool eq = r[0].null == r[1].null && r[0].m == r[1].m;
    c.check(osl_strings_equal(r[0].s, r[1].s) == eq && osl_strings_equal(r[1].s, r[0].s) == eq, "%s: comparison should give %d", name, eq);
  }
  for (auto& x : r) osl_strings_free(x.s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void generation(Ctx& c) {
  static const L P = {"c", "", "N_", "a", "1", "%d", string(300, 'p'), string(2047, 'q'), string(5000, 'r')};
  static const vector<int> N = {-1, 0, 1, 2, 9, 10, 11, 100, 1234};
  string p = c.pick(P, "prefix");
  int n = c.pick(N, "count");
  if (p.size() > 1000 && n > 100) n = 12;
  L want;
  for (int i = 1; i <= n; i++) want.push_back(p + std::to_string(i));
  c.state(cut(p, 20) + std::to_string(n));
  c.step();
  osl_strings_p s = osl_strings_generate(p.c_str(), n);
  compare(c, "generate", s, false, want);
  osl_strings_free(s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void dim_names(Ctx& c) {
  static const L P = {"P", "i", "c", "l", "A"};
  int n[5];
  L want[5];
  for (int k = 0; k < 5; k++) {
    static const vector<int> N = {0, 1, 12, -1};
    n[k] = N[c.choose(k < 2 ? 4 : 3, "count")];
    want[k] = n[k] > 0 ? seq(P[k], n[k]) : L{};
  }
  c.state(std::to_string(n[0] + 20 * (n[1] + 20 * (n[2] + 20 * (n[3] + 20 * n[4])))));
  c.step();
  osl_names_p x = osl_names_generate(P[0].c_str(), n[0], P[1].c_str(), n[1], P[2].c_str(), n[2], P[3].c_str(), n[3], P[4].c_str(), n[4]);
  osl_names_p y = osl_names_clone(x);
  osl_strings_p f[2][5] = {{x->parameters, x->iterators, x->scatt_dims, x->local_dims, x->arrays}, {y->parameters, y->iterators, y->scatt_dims, y->local_dims, y->arrays}};
  for (int q = 0; q < 2; q++)
    for (int k = 0; k < 5; k++) compare(c, q ? "names clone" : "names", f[q][k], false, want[k]);
  for (int k = 0; k < 5; k++) c.check(f[0][k] != f[1][k], "a names clone shares a list");
  osl_names_free(x);
  osl_names_free(y);
  x = osl_names_malloc();
  c.check(!x->parameters && !x->iterators && !x->scatt_dims && !x->local_dims && !x->arrays, "fresh names are not empty");
  osl_names_free(x);
  osl_names_free(nullptr);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// reading: every layout
void layout(Ctx& c, int maxn, bool longs) {
  static const L SEP = {" ", "\t", "  \t "}, LEAD = {"", " ", "\n\n", "# c <x> 7\n", " \t\n  # a b\n\n\t"}, TRAIL = {"", " ", " \t"}, END = {"", "\n", "# note\n", "\nmore words\n", "\n\n# c\nmore"};
  L W = {"a", "b2", "<x>", "x_y.z[3]", "-17"};
  static const vector<int> LEN = {1, 1023, 1024, 2030, 2045, 2046, 2047, 2048, 2049, 2050, 4094, 4095, 4096, 4097, 10000};
  int n = longs ? 1 + c.choose(2, "words") : 1 + c.choose(maxn, "words");
  L w;
  string t = c.pick(LEAD, "before");
  for (int i = 0; i < n; i++) {
    string x;
    if (longs) { int len = c.pick(LEN, "length"); for (int k = 0; k < len; k++) x += (char)('a' + (k * 7 + i) % 26); }
    else x = c.pick(W, "word");
    w.push_back(x);
    t += x;
    if (i < n - 1) t += longs ? string(" ") : c.pick(SEP, "separator");
  }
  t += c.pick(TRAIL, "after");
  string end = c.pick(END, "end");
  t += end;
  c.state(t);
  c.step();
  osl_strings_p s;
  if (c.flip("file")) {
    In in(t);
    s = osl_strings_read(in.f);
    string rest = in.rest();
    string want = end.empty() ? "" : end[0] == '#' ? end.substr(end.find('\n') + 1) : end.substr(1);
    c.check(rest == want, "the file is left at '%s' instead of '%s'", cut(rest).c_str(), want.c_str());
  } else {
    Text in(t);
    s = osl_strings_sread(&in.pos);
    string rest = in.rest();
    string want = end.empty() ? "" : end[0] == '#' ? end : end.substr(1);
    c.check(rest == want, "the text is left at '%s' instead of '%s'", cut(rest).c_str(), want.c_str());
  }
  compare(c, "reading", s, false, w);
  osl_strings_free(s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// printing then reading, many words included
void round(Ctx& c) {
  static const vector<int> N = {1, 2, 3, 60, 682, 683, 684, 1023, 1024, 1025, 3000};
  static const vector<int> LEN = {1, 2, 3, 7, 2046, 2047, 2048};
  int n = c.pick(N, "words"), len = c.pick(LEN, "length");
  if ((long)n * len > 200000) n = 70;
  L w;
  for (int i = 0; i < n; i++) { string x = string(len, 'a' + i % 26); if (len > 2) x[len / 2] = 'A' + i / 26 % 26; w.push_back(x); }
  osl_strings_p s = build_strings(w);
  string t = take(osl_strings_sprint(s));
  string t2 = printed([&](FILE* o) { osl_strings_print(o, s); });
  c.check(t == t2, "print and sprint differ: %s", differ(t, t2).c_str());
  string want;
  for (int i = 0; i < n; i++) want += (i ? " " : "") + w[i];
  c.check(t == want + "\n", "print: %s", differ(want + "\n", t).c_str());
  c.state(std::to_string(n) + "x" + std::to_string(len));
  c.step();
  string tail = c.flip("something follows") ? "next 3\n" : "";
  osl_strings_p r;
  if (c.flip("file")) { In in(t + tail); r = osl_strings_read(in.f); c.check(in.rest() == tail, "wrong file position"); }
  else { Text in(t + tail); r = osl_strings_sread(&in.pos); c.check(in.rest() == tail, "wrong text position"); }
  compare(c, "print and read", r, false, w);
  c.check(osl_strings_equal(r, s), "the list read is not equal to the list printed");
  osl_strings_free(r);
  osl_strings_free(s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  mc::add("histories", "all histories of length " + std::to_string(mc::q(4, 5)) + " over 8 operations on two lists of at most 3 of 5 words", [](Ctx& c) { history(c, mc::q(4, 5), 3); });
  mc::add("generation", "9 prefixes, 9 counts", generation);
  mc::add("names", "counts -1..12 of every kind of name", dim_names);
  mc::add("layouts", "1.." + std::to_string(mc::q(2, 3)) + " words out of 5 in every combination of 3 separators, 5 beginnings, 3 trails, 5 ends", [](Ctx& c) { layout(c, mc::q(2, 3), false); });
  mc::add("long words", "words of lengths around internal buffer sizes in every layout", [](Ctx& c) { layout(c, 2, true); });
  mc::add("print and read", "lists of up to 3000 words", round);
}
