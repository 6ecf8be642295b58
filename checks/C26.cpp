// C26: the elementary text functions agree with a reference scanner.
#include <climits>
#include "io.hpp"
using namespace md;
using mc::Ctx;

mc::Property property() {
  return {"C26",
          "every text made of up to a bounded number of pieces (blanks, comment signs, digits, letters, brackets) is scanned by every "
          "sequence of the elementary readers, from a file and from a string; value, reading position after each of them and error "
          "must be those of a reference scanner.  Cutting a text at a flag or tag, tag contents, growing concatenation, duplication "
          "and the precision setting are compared with their definitions, at every length around the buffer sizes",
          {"flags and names are not empty", "an item glued to other characters (12abc) may be refused or read by its beginning", "data lines of about 2048 characters may be refused"}};
}
namespace {
bool sp(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }
void leak(Ctx& c) { c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str()); }

string show(const string& t) {
  string r = "'";
  for (char ch : t) r += ch == '\n' ? string("\\n") : ch == '\t' ? string("\\t") : string(1, ch);
  return r + "'";
}
enum Kind { SKIP, INT, WORD, LINE, TAG, KINDS };
const char* KIND[] = {"skip", "int", "string", "line", "tag"};
// what a reader must do at the beginning of some data
struct Want {
  enum { VALUE, NOTHING, ERROR, EITHER } what = VALUE;  // EITHER: the value or an error
  string value;
  size_t used = 0;
  bool place = true;  // the position is judged
};
size_t gap(const string& t, size_t p) {
  while (p < t.size()) {
    if (sp(t[p])) ++p;
    else if (t[p] == '#') while (p < t.size() && t[p] != '\n') ++p;
    else break;
  }
  return p;
}
Want item(Kind k, const string& t, size_t p, bool file) {
  Want w;
  size_t e = p;
  switch (k) {
    case SKIP: w.used = p; if (file) w.value = t.substr(p); break;
    case INT: {
      while (e < t.size() && !sp(t[e]) && t[e] != '#') ++e;
      string tok = t.substr(p, e - p);
      size_t d = tok.size() && (tok[0] == '-' || tok[0] == '+') ? 1 : 0, b = d;
      while (d < tok.size() && isdigit((unsigned char)tok[d])) ++d;
      w.used = e;
      string num = tok.substr(b, d - b);
      num.erase(0, std::min(num.find_first_not_of('0'), num.size()));
      long long v = num.size() > 12 ? LLONG_MAX : num.empty() ? 0 : atoll(num.c_str());
      if (tok[0] == '-') v = -v;
      if (b == d || v < INT_MIN || v > INT_MAX) w.what = Want::ERROR;
      else { w.value = std::to_string(v); if (d != tok.size()) { w.what = Want::EITHER; w.place = false; } }
      break;
    }
    case WORD:
      while (e < t.size() && !sp(t[e]) && t[e] != '#') ++e;
      w.value = t.substr(p, e - p);
      w.used = e;
      if (e == p) w.what = Want::ERROR;
      break;
    case LINE:
      while (e < t.size() && t[e] != '\n' && t[e] != '#') ++e;
      w.value = t.substr(p, e - p);
      w.used = e;
      break;
    case TAG: {
      w.used = p;
      if (p == t.size()) { w.what = Want::NOTHING; break; }
      w.what = Want::ERROR;
      if (t[p] != '<') break;
      size_t q = p + 1;
      if (q < t.size() && t[q] == '/') ++q;
      while (q < t.size() && (isalpha((unsigned char)t[q]) || t[q] == '_')) ++q;
      if (q == t.size() || t[q] != '>') break;
      w.what = Want::VALUE;
      w.value = t.substr(p + 1, q - p - 1);
      w.used = q + 1;
      break;
    }
    default: break;
  }
  return w;
}
// from a file every read takes a whole line of data
Want of_file(Kind k, const string& t, size_t p) {
  for (;;) {
    if (p >= t.size()) { Want w; w.used = t.size(); w.what = k == SKIP || k == TAG ? Want::NOTHING : Want::ERROR; return w; }
    size_t e = t.find('\n', p);
    e = e == string::npos ? t.size() : e + 1;
    string line = t.substr(p, e - p);
    size_t s = 0;
    while (s < line.size() && sp(line[s])) ++s;
    if (s == line.size() || line[s] == '#') { p = e; continue; }
    Want w = item(k, line, s, true);
    w.used = e;
    w.place = true;
    return w;
  }
}
Want of_string(Kind k, const string& t, size_t p) { return item(k, t, gap(t, p), false); }

struct Got { int what; string value; };
Got run(Kind k, FILE* f, char** s) {
  Got g{Want::VALUE, ""};
  char buf[OSL_MAX_STRING];
  char* r = nullptr;
  bool d = mc::dies([&] {
    switch (k) {
      case SKIP:
        if (f) { char* x = osl_util_skip_blank_and_comments(f, buf); if (x) g.value = x; else g.what = Want::NOTHING; }
        else osl_util_sskip_blank_and_comments(s);
        break;
      case INT: g.value = std::to_string(osl_util_read_int(f, s)); break;
      case WORD: r = osl_util_read_string(f, s); break;
      case LINE: r = osl_util_read_line(f, s); break;
      default: r = osl_util_read_tag(f, s); if (!r) g.what = Want::NOTHING;
    }
  });
  if (d) { mc::forget(); return {Want::ERROR, ""}; }
  if (r) g.value = take(r);
  return g;
}
const char* said(int w) { return w == Want::VALUE ? "a value" : w == Want::NOTHING ? "nothing" : w == Want::ERROR ? "an error" : "a value or an error"; }
// several reads on one text
void scan(Ctx& c, const string& t, bool file, const vector<Kind>& ks, bool exact = true) {
  Text in(t);
  In fin(t);
  size_t p = 0;
  for (size_t i = 0; i < ks.size(); i++) {
    Kind k = ks[i];
    Want w = file ? of_file(k, t, p) : of_string(k, t, p);
    Got g = run(k, file ? fin.f : nullptr, file ? nullptr : &in.pos);
    c.step();
    c.outcome(string(KIND[k]) + " " + said(w.what) + " " + said(g.what));
    bool may = w.what == g.what || (w.what == Want::EITHER && g.what != Want::NOTHING) || (!exact && g.what == Want::ERROR);
    c.check(may, "read %zu (%s, %s) of %s: %s instead of %s", i + 1, KIND[k], file ? "file" : "string", cut(show(t)).c_str(), said(g.what), said(w.what));
    if (g.what == Want::ERROR) { leak(c); return; }
    if (k == SKIP && file) { g.value = g.value.substr(0, g.value.find('#')); w.value = w.value.substr(0, w.value.find('#')); }
    if (g.what == Want::VALUE)
      c.check(g.value == w.value, "read %zu (%s, %s) of %s gave %s, not %s", i + 1, KIND[k], file ? "file" : "string", cut(show(t)).c_str(), cut(show(g.value)).c_str(), cut(show(w.value)).c_str());
    if (!w.place) break;
    p = w.used;
    if (!file) c.check(in.at() == (long)p, "read %zu (%s) of %s stopped at %ld instead of %zu", i + 1, KIND[k], cut(show(t)).c_str(), in.at(), p);
  }
  if (file) { string r = fin.rest(); c.check(r == t.substr(p), "%zu reads of %s from a file left %s", ks.size(), cut(show(t)).c_str(), cut(show(r)).c_str()); }
  leak(c);
}
string compose(Ctx& c, const vector<string>& pieces, int max) {
  string t;
  int n = c.choose(max + 1, "length");
  for (int i = 0; i < n; i++) t += pieces[c.choose((int)pieces.size(), "piece")];
  return t;
}
void scans(Ctx& c, const vector<string>& pieces, int len, int reads) {
  string t = compose(c, pieces, len);
  if (!c.state(t, reads)) return;  // the choices below are made for each text once
  bool file = c.flip("file");
  vector<Kind> ks;
  for (int i = 0; i < reads; i++) ks.push_back((Kind)c.choose(KINDS, "reader"));
  scan(c, t, file, ks);
}
void numbers(Ctx& c) {
  static const vector<string> N = {"0", "-0", "+5", "007", "2147483647", "-2147483648", "2147483648", "-2147483649", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808",
                                   "-9223372036854775809", "18446744073709551617", "99999999999999999999999", "-", "+", "--1", "+-1", "0x10", "1e3", "1.5", "x", "1-", "000000000000000000000000000012"};
  static const vector<string> B = {"", " ", "\n\n", "# 9\n", "\t"}, A = {"", " ", "\n", " 8", "#7", "\n6"};
  string t = c.pick(B, "before") + c.pick(N, "number") + c.pick(A, "after");
  bool file = c.flip("file");
  if (!c.state(t + (file ? "f" : "s"), 0)) return;
  scan(c, t, file, {INT});
}
// items around the size of the buffers
const vector<int> SIZES = {1, 2, 100, 2000, 2040, 2045, 2046, 2047, 2048, 2049, 2050, 2051, 4090, 4094, 4095, 4096, 4097, 4098, 6143, 6144, 6145, 9000};
void lengths(Ctx& c) {
  int n = c.pick(SIZES, "size"), shape = c.choose(9, "shape");
  bool file = c.flip("file");
  Kind k = (Kind)c.choose(KINDS, "reader");
  string x(n, 'x'), t;
  bool exact = true;  // whether being too long excuses an error
  switch (shape) {
    case 0: t = x + "\nnext\n"; exact = n < 2040; break;
    case 1: t = "# " + x + "\n12 y\n<z>\n"; break;          // a long comment line
    case 2: t = string(n, ' ') + "\n12 y\n<z>\n"; break;    // a long blank line
    case 3: t = "12 #" + x + "\n13\n"; break;              // a comment behind an item
    case 4: t = string(n, ' ') + "12\n13\n"; exact = n < 2040; break;
    case 5: t = string(n, '0') + "12\n13\n"; exact = n < 2040; break;
    case 6: t = "<" + x + ">\n<y>\n"; exact = n < 2040; break;
    case 7: t = "# " + x; break;                           // no end of line
    case 8: t = x; exact = n < 2040; break;
  }
  if (k == WORD && !file) exact = true;
  if ((k == LINE || k == SKIP) && !file) exact = true;
  c.state(std::to_string(n) + "/" + std::to_string(shape) + (file ? "f" : "s") + KIND[k]);
  scan(c, t, file, {k, k}, exact);
}
// every byte at every place of a tag, an integer and a word
void alphabet(Ctx& c) {
  int ch = c.choose(255, "byte") + 1, place = c.choose(4, "place");
  Kind k = (Kind)c.choose(KINDS, "reader");
  bool file = c.flip("file");
  static const char* T[] = {"<?>\nx\n", "<a?b>\nx\n", "</a?>\nx\n", "?\nx\n", "-4? 5\nx\n", "4?5\nx\n", "a?b c\nx\n", "ab? c\nx\n"};
  string t = T[place + (k == TAG ? 0 : 4)];
  t[t.find('?')] = (char)ch;
  c.state(show(t) + KIND[k] + (file ? "f" : "s"));
  bool exact = ch < 128;
  scan(c, t, file, {k}, exact);
}
// ------------------------------------------------------------ cutting texts
struct Cut { bool found; string value; size_t used; };
Cut upto(const string& t, size_t p, const string& flag) {
  size_t q = t.find(flag, p);
  if (q == string::npos) return {false, "", t.size()};
  return {true, t.substr(p, q - p), q + flag.size()};
}
enum { FLAG, UPTOTAG, UPTOEND, CONTENT, CUTS };
const char* CUT[] = {"uptoflag", "uptotag", "uptoendtag", "tag_content"};
void cut_one(Ctx& c, const string& t, int how, const string& name, bool file, int times) {
  string flag = how == FLAG ? name : how == UPTOTAG ? "<" + name + ">" : "</" + name + ">";
  Text in(t), nm(name);
  In fin(t);
  size_t p = 0;
  for (int i = 0; i < times; i++) {
    char* r;
    Cut w;
    if (how == CONTENT) {
      size_t s = t.find("<" + name + ">");
      w = s == string::npos ? Cut{false, "", 0} : upto(t, s + name.size() + 2, flag);
      r = osl_util_tag_content(in.base, nm.base);
    } else {
      w = upto(t, p, flag);
      FILE* f = file ? fin.f : nullptr;
      char** s = file ? nullptr : &in.pos;
      r = how == FLAG ? osl_util_read_uptoflag(f, s, nm.base) : how == UPTOTAG ? osl_util_read_uptotag(f, s, nm.base) : osl_util_read_uptoendtag(f, s, nm.base);
    }
    c.step();
    c.check((r != nullptr) == w.found, "%s %s (%s) in %s: %s", CUT[how], name.c_str(), file ? "file" : "string", cut(show(t)).c_str(), r ? "found" : "not found");
    if (r) { string v = take(r); c.check(v == w.value, "%s %s in %s gave %s", CUT[how], name.c_str(), cut(show(t)).c_str(), cut(show(v)).c_str()); }
    if (how == CONTENT) break;
    p = w.used;
    if (!file) c.check(in.at() == (long)p, "%s %s in %s stopped at %ld instead of %zu", CUT[how], name.c_str(), cut(show(t)).c_str(), in.at(), p);
    if (!w.found) break;
  }
  if (file && how != CONTENT) { string r = fin.rest(); c.check(r == t.substr(p), "%s %s in %s left %s", CUT[how], name.c_str(), cut(show(t)).c_str(), cut(show(r)).c_str()); }
  c.check(string(in.base, in.n) == t, "the text changed");
  leak(c);
}
void cuts(Ctx& c, int len) {
  static const vector<string> P = {"<a>", "</a>", "<ab>", "</ab>", "<", "a", "b", "/", ">", "\n", "</", "aab"};
  string t = compose(c, P, len);
  if (!c.state(t, 0)) return;
  int how = c.choose(CUTS, "function");
  static const vector<string> F = {"a", "aab", "ab", "</a", "aa", ">\n"}, N = {"a", "ab", "b"};
  string name = how == FLAG ? c.pick(F, "flag") : c.pick(N, "name");
  bool file = how != CONTENT && c.flip("file");
  cut_one(c, t, how, name, file, 3);
}
void cut_lengths(Ctx& c) {
  int a = c.pick(SIZES, "size"), how = c.choose(CUTS, "function"), tail = c.choose(3, "tail");
  bool file = how != CONTENT && c.flip("file"), complete = c.flip("complete"), lt = c.flip("almost");
  string name = c.flip("long name") ? string(2100, 'n') : "q";
  string flag = how == FLAG ? name : how == UPTOTAG ? "<" + name + ">" : "</" + name + ">";
  string body;
  for (int i = 0; i < a; i++) body += lt && i % 3 == 0 ? '<' : char('A' + i % 26);
  string t = (how == CONTENT ? "<" + name + ">" : "") + body + (complete ? flag : flag.substr(0, flag.size() - 1)) + (tail == 0 ? "" : tail == 1 ? "z" : flag + "y" + flag);
  c.state(std::to_string(a) + CUT[how] + std::to_string(tail) + (file ? "f" : "s") + (complete ? "1" : "0") + (lt ? "1" : "0") + std::to_string(name.size()));
  cut_one(c, t, how, name, file, 3);
}
// ------------------------------------------------------------ strings
void grows(Ctx& c) {
  static const vector<int> L = {0, 1, 2, 1023, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 9000};
  static const vector<int> H = {1, 2, 100, 2047, 2048, 2049, 4096, 10000};
  int h = c.pick(H, "allocated"), steps = mc::q(2, 3);
  string want(std::min(h - 1, c.pick(L, "length")), 'd');
  size_t hwm = h;
  char* d = (char*)mc::lalloc(h);
  strcpy(d, want.c_str());
  c.state(std::to_string(h) + "/" + std::to_string(want.size()));
  for (int i = 0; i < steps; i++) {
    int n = c.pick(L, "added");
    string s;
    for (int k = 0; k < n; k++) s += char('a' + (k + i) % 26);
    Text src(s);
    osl_util_safe_strcat(&d, src.base, &hwm);
    c.step();
    want += s;
    c.check(want == d, "appending %d characters to %zu", n, want.size() - n);
    c.check(hwm > want.size(), "%zu characters in a buffer of %zu", want.size(), hwm);
    d[hwm - 1] = 0;  // the buffer has the size it says
    c.check(want == d, "the buffer is full");
    c.state(std::to_string(h) + "/" + std::to_string(want.size()) + "/" + std::to_string(hwm));
  }
  mc::lfree(d);
  leak(c);
}
void dups(Ctx& c) {
  string s(c.choose(mc::q(300, 5000), "length"), 's');
  for (size_t i = 0; i < s.size(); i++) s[i] = char(1 + (i * 7 + s.size()) % 255);
  Text t(s);
  char* d = osl_util_strdup(t.base);
  c.step();
  c.state(std::to_string(s.size()));
  c.check(d && d != t.base && s == d, "duplicating %zu characters", s.size());
  mc::lfree(d);
  leak(c);
}
void settings(Ctx& c) {
  static const vector<string> V = {"", "0", "32", "64", "00", "1", "320", "6", "3", "MP", " 64", "64 ", "128", "-1"};
  int v = c.choose((int)V.size() + 1, "value");
  if (v) setenv("OSL_PRECISION", V[v - 1].c_str(), 1); else unsetenv("OSL_PRECISION");
  int want = v == 3 ? OSL_PRECISION_SP : v == 4 ? OSL_PRECISION_DP : OSL_PRECISION_MP, got = osl_util_get_precision(), again = osl_util_get_precision();
  unsetenv("OSL_PRECISION");
  c.step();
  c.state(v ? V[v - 1] : "unset");
  c.check(got == want && again == want, "OSL_PRECISION '%s' gives precision %d", v ? V[v - 1].c_str() : "(unset)", got);
  leak(c);
}
void provided(Ctx& c) {
  int p = c.choose(4, "provided") - 1, n = c.pick(vector<int>{0, 1, 20, 3000}, "length");
  string title(n, 'T');
  string out = printed([&](FILE* f) { osl_util_print_provided(f, p, title.c_str()); });
  c.step();
  c.state(std::to_string(p) + "," + std::to_string(n));
  In in(out);
  int v = osl_util_read_int(in.f, nullptr);
  c.check(v == (p != 0), "provided %d reads back as %d", p, v);
  c.check(out.find(title) != string::npos, "the title is missing");
  leak(c);
}
// both or none of the two inputs
void misuse(Ctx& c) {
  int k = c.choose(KINDS + 2, "reader");
  if (k == SKIP) return;
  bool both = c.flip("both");
  Text t("12 <a> x a");
  In f("12 <a> x a");
  char** s = both ? &t.pos : nullptr;
  FILE* in = both ? f.f : nullptr;
  c.state(std::to_string(k) + (both ? "b" : "n"));
  c.step();
  bool d;
  if (k < KINDS) d = run((Kind)k, in, s).what == Want::ERROR;
  else {
    d = mc::dies([&] { char* r = k == KINDS ? osl_util_read_uptoflag(in, s, "a") : osl_util_read_uptotag(in, s, "a"); if (r) mc::lfree(r); });
    mc::forget();
  }
  c.check(d, "reader %d takes %s inputs", k, both ? "two" : "no");
  leak(c);
}
// any bytes: memory safety and agreement of the positions only
void bytes(Ctx& c, int len) {
  static const string A("\0\n#1<a\xff\x80 >\r", 11);
  int n = c.choose(len + 1, "length");
  string t;
  for (int i = 0; i < n; i++) t += A[c.choose((int)A.size(), "byte")];
  Kind k = (Kind)c.choose(KINDS, "reader");
  if (!c.state(t + KIND[k], 0)) return;
  In f(t);
  for (int i = 0; i < 3; i++) { c.step(); if (run(k, f.f, nullptr).what != Want::VALUE) break; }
  leak(c);
}
}  // namespace
void setup() {
  static const vector<string> P = {" ", "\n", "#", "1", "-", "a", "<", ">", "/", "\t", "27", "_b"};
  static const vector<string> LINES = {"12\n", "# c\n", "\n", " <a> ", "x y", "#", "</b>\n", "7", "\n"};
  int a = mc::q(5, 6), b = mc::q(4, 5), d = mc::q(4, 5);
  mc::add("one read", "all texts of up to " + std::to_string(a) + " of 12 pieces, 5 readers, file and string", [a](Ctx& c) { scans(c, P, a, 1); });
  mc::add("two reads", "all texts of up to " + std::to_string(b) + " of 12 pieces, all pairs of readers, file and string", [b](Ctx& c) { scans(c, P, b, 2); });
  mc::add("three reads", "all texts of up to " + std::to_string(d) + " of 9 lines and items, all triples of readers, file and string", [d](Ctx& c) { scans(c, LINES, d, 3); });
  mc::add("numbers", "25 spellings of numbers in 30 surroundings, file and string", numbers);
  mc::add("alphabet", "every byte at 4 places of tags and of 4 other items, 5 readers, file and string", alphabet);
  mc::add("lengths", "22 lengths around the buffer sizes, 9 shapes, 5 readers, file and string", lengths);
  mc::add("cuts", "all texts of up to " + std::to_string(mc::q(4, 5)) + " of 12 pieces, 4 functions, 3 to 6 flags or names, up to 3 cuts", [](Ctx& c) { cuts(c, mc::q(4, 5)); });
  mc::add("cut lengths", "22 lengths around the buffer sizes, 4 functions, complete or not, 3 tails", cut_lengths);
  mc::add("growing", "8 buffer sizes, 12 lengths, every sequence of " + std::to_string(mc::q(2, 3)) + " of 12 appended lengths", grows);
  mc::add("duplicates", "every length below " + std::to_string(mc::q(300, 5000)), dups);
  mc::add("precision setting", "15 values of OSL_PRECISION", settings);
  mc::add("provided", "4 values, 4 title lengths", provided);
  mc::add("misuse", "no or two inputs, 6 readers", misuse);
  mc::add("bytes", "all texts of up to " + std::to_string(mc::q(4, 5)) + " of 11 bytes, 5 file readers", [](Ctx& c) { bytes(c, mc::q(4, 5)); });
}
