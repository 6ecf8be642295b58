// C17: reading depends on content, not on layout or medium.
#include <regex>
#include "readers.hpp"
using namespace rd;

mc::Property property() {
  return {"C17",
          "a text edited in layout only (blank and comment lines, white space between, before and behind items, comments behind items, the union size of a "
          "single part) reads as the plain text does; both media give the same value; consecutive reads on one stream each get their own data; an unknown "
          "extension at any place of any extension list leaves the others as they are",
          {"free texts (comment, textual, clay payloads and body expressions) keep the layout they have", "texts that reach to the end of their line keep its end (file names, private variables, annotations, unrolled iterators, predicates)", "tags stand on lines of their own",
           "names of unknown extensions are made of letters and underscores and their content does not hold their closing tag"}};
}
namespace {
enum { DATA, TAG, FREE, EXPR, OPEN, CLOSE, SKIP };  // OPEN, CLOSE: the tags around free text
// what each line of a text is
string trimmed(string l) {
  l = l.substr(0, l.find('#'));
  while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back();
  size_t b = 0;
  while (b < l.size() && isspace((unsigned char)l[b])) ++b;
  return l.substr(b);
}
vector<int> kinds_of(const string& name, const vector<string>& v) {
  vector<int> k(v.size(), DATA);
  bool free_text = name == OSL_URI_COMMENT || name == OSL_URI_TEXTUAL || name == OSL_URI_CLAY, body = name == OSL_URI_BODY || name == OSL_URI_EXTBODY;
  string before;
  for (size_t i = 0; i < v.size(); i++) {
    string l = trimmed(v[i]), next;
    for (size_t j = i + 1; j < v.size() && next.empty(); j++) next = trimmed(v[j]);
    if (!l.empty() && l[0] == '<') {
      bool close = l[1] == '/';
      string n = l.substr(1 + close, l.find('>') - 1 - close);
      bool f = n == OSL_URI_COMMENT || n == OSL_URI_TEXTUAL || n == OSL_URI_CLAY;
      k[i] = f ? (close ? CLOSE : OPEN) : TAG;
      if (f) free_text = !close;
      if (n == OSL_URI_BODY) { body = !close; if (close) k[i] = CLOSE; }
    } else if (free_text) k[i] = FREE;
    else if (l.empty()) k[i] = SKIP;
    else if ((name == OSL_URI_PLUTO_UNROLL && isalpha((unsigned char)l[0])) || before == "<coordinates>") k[i] = EXPR;
    else if (l.find("omp") != string::npos || l.find_first_of("=,./(") != string::npos) k[i] = EXPR;  // a text to the end of the line
    else if (name == OSL_URI_IRREGULAR && isalpha((unsigned char)l[0])) k[i] = EXPR;
    else if (body && (next.empty() || next[0] == '<')) k[i] = EXPR;
    if (!l.empty()) before = l;
  }
  return k;
}
struct Edit { string what, text; };
const vector<string> FILL = {"\n", "  \t \n", "# a comment <tag> 12 </x>\n", "   # indented\n", "#\n", "# a\n\n \n# b\n", "#" + string(5000, 'x') + " 1 2 3\n", string(3000, ' ') + "\n", string(40, '\n')};
const vector<string> GAP = {"  ", "\t", " \t  ", "\v", "\f "}, BEFORE = {" ", "\t  ", "\v", "\f"}, AFTER = {"  ", "\t", " # note 3 <x>", " #", "#two words 7", "#", "\t#x\ty", "\r"};
// one layout edit of a text
string edited(Ctx& c, const string& name, const string& t) {
  vector<string> v = split_lines(t);
  vector<int> k = kinds_of(name, v);
  int p = c.choose((int)v.size() + 1, "line"), w = c.choose(5, "edit");
  if (w == 0) {  // before the line
    if (p == (int)v.size() ? (name == OSL_URI_COMMENT || name == OSL_URI_TEXTUAL || name == OSL_URI_CLAY || name == OSL_URI_BODY) : (k[p] == FREE || k[p] == CLOSE)) return "";
    v.insert(v.begin() + p, c.pick(FILL, "inserted"));
    return join(v);
  }
  if (p == (int)v.size()) return "";
  string& l = v[p];
  string e = l.back() == '\n' ? "\n" : "";
  string s = l.substr(0, l.size() - e.size());
  if (k[p] == FREE || k[p] == SKIP) return "";
  if (w == 1) { if (k[p] == CLOSE) return ""; s = c.pick(BEFORE, "before") + s; }
  else if (w == 2) {
    if (k[p] == EXPR || k[p] == OPEN) return "";
    s += c.pick(AFTER, "after");
  } else if (w == 3) {
    vector<size_t> g;
    for (size_t i = 0; i < s.size(); i++) if (s[i] == ' ') g.push_back(i);
    if (g.empty() || k[p] != DATA) return "";
    s.replace(g[c.choose((int)g.size(), "gap")], 1, c.pick(GAP, "becomes"));
  } else {  // the size of a single part union
    static const std::regex six("-?\\d+ -?\\d+ -?\\d+ -?\\d+ -?\\d+ -?\\d+"), type("[A-Z_]+");
    string q = p ? trimmed(v[p - 1]) : "";
    if (!std::regex_match(s, six) || (p ? !std::regex_match(q, type) : name != "relation_psread_polylib")) return "";
    s = c.pick(vector<string>{"1\n", "  1 # parts\n#\n\n", "+1\n"}, "written as") + s;
  }
  l = s + e;
  return join(v);
}
string value(const Reader& r, const string& t) {
  void* x = nullptr;
  if (mc::dies([&] { x = r.read(t); })) { mc::forget(); return "(an error)"; }
  string s = x ? r.look(x) : "(nothing)";
  if (x || r.null_frees) r.free(x);
  return s;
}
void layout(Ctx& c, const vector<Reader>& R, int n) {
  const Reader& r = R[c.choose((int)R.size(), "reader")];
  string s = r.text;
  for (int i = 0; i < n; i++) { s = edited(c, r.name, s); if (s.empty()) return; }
  if (!c.state(r.name + s, 0)) return;
  c.note("%s", s.c_str());
  string want = value(r, r.text), got = value(r, s);
  c.step();
  c.outcome(r.name);
  c.check(want == got, "%s: '%s' and '%s' are not read alike: %s", r.name.c_str(), r.text.c_str(), s.c_str(), differ(want, got).c_str());
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// the union size may be left out
void size(Ctx& c) {
  int pr = PRECS[c.choose(3, "precision")], type = c.pick(vector<int>{OSL_UNDEFINED, OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE}, "type");
  int cols = 2 + c.choose(4, "dimensions"), rows = c.choose(4, "rows");
  Part p = part(type, cols - 2, 0, 0, 0, {}, pr);
  for (int i = 0; i < rows; i++) { Row w; for (int j = 0; j < cols; j++) w.push_back(std::to_string(j ? 3 * i - j : i % 2)); p.m.push_back(w); }
  p.rows = rows;
  Rel m = {p};
  if (!c.state(str(m), 0)) return;
  osl_relation_p x = build(m);
  string t = bare(printed([&](FILE* f) { osl_relation_print(f, x); }));
  size_t nl = t.find('\n');
  osl_relation_free(x);
  for (string size : {"", "1\n", "1 \n\n"}) {
    string s = t.substr(0, nl + 1) + size + t.substr(nl + 1), b = t.substr(nl + 1);
    {
      In in(s + "tail\n");
      osl_relation_p y = osl_relation_pread(in.f, pr);
      c.check(str(see(y)) == str(m), "file: '%s' reads as %s", s.c_str(), str(see(y)).c_str());
      c.check(in.rest() == "tail\n", "file: reading '%s' does not stop behind it", s.c_str());
      osl_relation_free(y);
    }
    {
      Text in(s);
      osl_relation_p y = osl_relation_psread(&in.pos, pr);
      c.check(str(see(y)) == str(m), "string: '%s' reads as %s", s.c_str(), str(see(y)).c_str());
      c.check(blank(in.rest()), "string: reading '%s' leaves '%s'", s.c_str(), in.rest().c_str());
      osl_relation_free(y);
    }
    {
      Text in(size + b);
      osl_relation_p y = osl_relation_psread_polylib(&in.pos, pr);
      Rel k = m;
      k[0].type = OSL_UNDEFINED;
      c.check(str(see(y)) == str(k), "polylib string: '%s' reads as %s", (size + b).c_str(), str(see(y)).c_str());
      c.check(blank(in.rest()), "polylib string: reading '%s' leaves '%s'", s.c_str(), in.rest().c_str());
      osl_relation_free(y);
    }
    c.step();
  }
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
bool nothing(const string& t) {
  for (auto& l : split_lines(t)) if (!blank(l.substr(0, l.find('#')))) return false;
  return true;
}
// several values one after the other
void stream(Ctx& c, const vector<Reader>& R, int n) {
  static const vector<string> B = {"", "\n", "# a comment\n", " \n#\n\t\n"};
  vector<const Reader*> r;
  vector<string> want;
  string t = c.pick(B, "between"), name;
  bool file = false;
  for (int i = 0; i < n; i++) {
    r.push_back(&R[c.choose((int)R.size(), "reader")]);
    if (i && !!r[i]->file != file) return;
    file = !!r[i]->file;
    want.push_back(value(*r[i], r[i]->text));
    name += r[i]->name + " ";
    t += r[i]->text + c.pick(B, "between");
  }
  if (!c.state(name + t, 0)) return;
  const string tail = "the rest\n";
  In in(t + tail);
  Text tx(t + tail);
  for (int i = 0; i < n; i++) {
    void* x = nullptr;
    if (!file) osl_util_sskip_blank_and_comments(&tx.pos);
    if (mc::dies([&] { x = file ? r[i]->file(in.f) : r[i]->str(&tx.pos); })) c.fail("%s: value %d of '%s' is refused", name.c_str(), i, t.c_str());
    string got = x ? r[i]->look(x) : "(nothing)";
    if (x) r[i]->free(x);
    c.step();
    c.check(got == want[i], "%s: value %d of '%s': %s", name.c_str(), i, t.c_str(), differ(want[i], got).c_str());
  }
  if (!file) osl_util_sskip_blank_and_comments(&tx.pos);
  string rest = file ? in.rest() : tx.rest();
  c.check(rest.size() >= tail.size() && rest.substr(rest.size() - tail.size()) == tail && nothing(rest.substr(0, rest.size() - tail.size())),
          "%s: after '%s' what is left is '%s'", name.c_str(), t.c_str(), rest.c_str());
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}

// ---------------------------------------------------------------- extensions
struct Ext { string uri, text; };
const vector<Ext>& known() {
  static vector<Ext> v;
  if (v.empty()) for (auto& r : readers(true, false)) {
    string t = r.text;
    if (r.name == OSL_URI_TEXTUAL) continue;  // holds the line end behind its tag or not
    if (t.empty() || t.back() != '\n') t += "\n";
    v.push_back({r.name, "<" + r.name + ">\n" + t + "</" + r.name + ">\n"});
  }
  return v;
}
const vector<string>& unknown() {
  static const vector<string> v = {
      "<unknown>\n7 8\n</unknown>\n",
      "<unknown>\n</unknown>\n",
      "<unknown>\n\n#c\n<strings>\nx\n</strings>\n<body>\n</comment>\n</unknown>\n",
      "<bodyx>\n2\ni j\nk\n</bodyx>\n",
      "<bod>\n1\n</bod>\n",
      "<Strings>\na b\n</Strings>\n",
      "<un_known_>\n</unknown>\n<un_known>\n</ un_known_>\n</un_known_>\n",
      "<unknown>\n" + string(2100, 'x') + "\n" + string(5000, ' ') + "\n</unknown>\n",
  };
  return v;
}
// the list as a text
string look_list(const osl_generic_t* l) { return l ? text(l) : "(nothing)"; }
struct Reg { osl_interface_p g = registry(); ~Reg() { osl_interface_free(g); } };
const vector<string> MEDIA = {"osl_generic_sread", "osl_generic_read", "osl_generic_read_one", "osl_generic_sread_one", "statement", "scop", "scop statement", "sread"};
string through(const string& medium, const vector<string>& exts) {
  string t = join(exts), s;
  Reg r;
  if (medium == "osl_generic_sread") {
    Text in(t);
    osl_generic_p l = osl_generic_sread(&in.pos, r.g);
    s = look_list(l) + "|" + in.rest();
    osl_generic_free(l);
  } else if (medium == "osl_generic_read") {
    In in(t + "</OpenScop>\ntail\n");
    osl_generic_p l = osl_generic_read(in.f, r.g);
    s = look_list(l);
    string rest = in.rest();
    s += "|" + (rest == "\ntail\n" || rest == "tail\n" ? "" : rest);
    osl_generic_free(l);
  } else if (medium == "osl_generic_read_one" || medium == "osl_generic_sread_one") {
    bool f = medium == "osl_generic_read_one";
    In in(t + "tail\n");
    Text tx(t + "tail\n");
    osl_generic_p l = nullptr;
    for (size_t i = 0; i < exts.size(); i++) osl_generic_add(&l, f ? osl_generic_read_one(in.f, r.g) : osl_generic_sread_one(&tx.pos, r.g));
    s = look_list(l);
    string rest = f ? in.rest() : tx.rest();
    s += "|" + (rest == "\ntail\n" || rest == "tail\n" ? "" : rest);
    osl_generic_free(l);
  } else if (medium == "statement") {
    In in("1\n" + MATRIX + std::to_string(exts.size()) + "\n" + t + "tail\n");
    osl_statement_p x = osl_statement_pread(in.f, r.g, OSL_PRECISION_MP);
    s = look_list(x->extension);
    osl_relation_p d = nullptr;
    { In m(MATRIX); d = osl_relation_pread(m.f, OSL_PRECISION_MP); }
    if (!osl_relation_equal(d, x->domain)) s += "(another domain)";
    osl_relation_free(d);
    string rest = in.rest();
    s += "|" + (rest == "\ntail\n" || rest == "tail\n" ? "" : rest);
    osl_statement_free(x);
  } else if (medium == "sread") {  // each by its own reader
    osl_generic_p l = nullptr;
    for (auto& e : exts) {
      string u = e.substr(1, e.find('>') - 1);
      osl_interface_p i = osl_interface_lookup(r.g, u.c_str());
      if (!i) continue;
      size_t b = e.find('\n') + 1, q = e.rfind("</");
      Text in(e.substr(b, q - b));
      osl_generic_p g = osl_generic_malloc();
      g->interface = osl_interface_nclone(i, 1);
      g->data = i->sread(&in.pos);
      osl_generic_add(&l, g);
    }
    s = look_list(l) + "|";
    osl_generic_free(l);
  } else {
    bool st = medium == "scop statement";
    string a = "<OpenScop>\nC\nCONTEXT\n0 2 0 0 0 0\n0\n2\n", n = std::to_string(exts.size());
    a += "1\n" + MATRIX + (st ? n + "\n" + t : "0\n") + "1\n" + MATRIX + (st ? n + "\n" + t : "0\n");
    a += (st ? "" : t) + "</OpenScop>\n";
    a += "<OpenScop>\nC\nCONTEXT\n0 2 0 0 0 0\n0\n0\n</OpenScop>\n";
    In in(a);
    osl_scop_p x = osl_scop_pread(in.f, r.g, OSL_PRECISION_MP);
    if (!x->next || x->next->next) s += "(not two scops)";
    if (!x->statement || !x->statement->next || x->statement->next->next) s += "(not two statements)";
    else if (st) {
      string p = look_list(x->statement->extension), q = look_list(x->statement->next->extension);
      s += p;
      if (p != q) s += "(and) " + q;
      if (x->extension) s += "(scop) " + look_list(x->extension);
    } else {
      s += look_list(x->extension);
      if (x->statement->extension || x->statement->next->extension) s += "(statements)";
    }
    s += "|";
    osl_scop_free(x);
  }
  return s;
}
void extensions(Ctx& c, int n, int extra) {
  const auto& K = known();
  const auto& U = unknown();
  vector<string> e;
  vector<int> used;
  for (int i = 0; i < n; i++) {
    int k = c.choose((int)K.size(), "extension");
    for (int u : used) if (u == k) return;
    used.push_back(k);
    e.push_back(K[k].text);
  }
  vector<string> pure = e;
  for (int i = 0; i < extra; i++) {
    int at = c.choose((int)e.size() + 1, "place of an unknown extension");
    e.insert(e.begin() + at, c.pick(U, "unknown extension"));
  }
  static const vector<string> B = {"", "\n", "# a comment\n"};
  string b = c.pick(B, "before each");
  if (!c.state(b + join(e), 0)) return;
  c.note("%s", join(e).c_str());
  string want = through("sread", pure);
  for (auto& x : e) x = b + x;
  for (auto& m : MEDIA) {
    if (m == "sread") continue;
    string got;
    if (mc::dies([&] { got = through(m, e); })) c.fail("%s: '%s' is refused", m.c_str(), join(e).c_str());
    c.step();
    c.check(got == want, "%s: '%s' read: %s", m.c_str(), join(e).c_str(), differ(want, got).c_str());
  }
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// the same relation through every medium
void media(Ctx& c) {
  int pr = PRECS[c.choose(3, "precision")];
  static const vector<string> T = {MATRIX, ACCESS, SCATT, UNION, WIDE};
  string t = c.pick(T, "relation");
  c.state(t + pname(pr), 0);
  osl_relation_p a, b;
  { In in(t); a = osl_relation_pread(in.f, pr); }
  string want = str(see(a));
  { Text in(t); b = osl_relation_psread(&in.pos, pr); c.check(str(see(b)) == want, "'%s' read from a string is %s", t.c_str(), str(see(b)).c_str()); osl_relation_free(b); }
  { Text in(t.substr(t.find('\n') + 1)); b = osl_relation_psread_polylib(&in.pos, pr);
    for (osl_relation_p q = b; q; q = q->next) q->type = a->type;
    c.check(str(see(b)) == want, "'%s' read from a polylib string is %s", t.c_str(), str(see(b)).c_str()); osl_relation_free(b); }
  { In in("1\n" + t); osl_relation_list_p l = osl_relation_list_pread(in.f, pr); c.check(str(see(l->elt)) == want, "'%s' read in a list is %s", t.c_str(), str(see(l->elt)).c_str()); osl_relation_list_free(l); }
  { Reg r; In in("1\n" + t + "0\n"); osl_statement_p s = osl_statement_pread(in.f, r.g, pr);
    osl_relation_p q = s->domain ? s->domain : s->scattering ? s->scattering : s->access->elt;
    c.check(str(see(q)) == want, "'%s' read in a statement is %s", t.c_str(), str(see(q)).c_str()); osl_statement_free(s); }
  { Reg r; In in("<OpenScop>\nC\n" + t + "0\n1\n1\n" + t + "0\n</OpenScop>\n"); osl_scop_p s = osl_scop_pread(in.f, r.g, pr);
    c.check(str(see(s->context)) == want, "'%s' read as context is %s", t.c_str(), str(see(s->context)).c_str());
    osl_statement_p st = s->statement;
    osl_relation_p q = st->domain ? st->domain : st->scattering ? st->scattering : st->access->elt;
    c.check(str(see(q)) == want, "'%s' read in a scop is %s", t.c_str(), str(see(q)).c_str());
    osl_scop_free(s); }
  {
    setenv("OSL_PRECISION", penv(pr), 1);
    { Text in(t); b = osl_relation_sread(&in.pos); c.check(str(see(b)) == want, "'%s' read by sread is %s", t.c_str(), str(see(b)).c_str()); osl_relation_free(b); }
    { In in(t); b = osl_relation_read(in.f); c.check(str(see(b)) == want, "'%s' read by read is %s", t.c_str(), str(see(b)).c_str()); osl_relation_free(b); }
    unsetenv("OSL_PRECISION");
  }
  c.step();
  osl_relation_free(a);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// any sequence of the lines a relation is made of: both media accept it, as the same relation, or both refuse it
void lines(Ctx& c, int n) {
  static const vector<string> L = {"2", "3", "1", "0 2 0 0 0 0", "1 2 0 0 0 0\n1 7", "1 3 1 0 0 0\n0 -1 4", "0", "-1", "0 2", "0 2 0 0 0", "x", "# 5"};
  static const vector<string> T = {"DOMAIN", "READ"};
  string t = c.pick(T, "type") + "\n";
  for (int i = 0; i < n; i++) t += c.pick(L, "line") + (i + 1 < n || c.flip("last newline") ? "\n" : "");
  if (!c.state(t, 0)) return;
  c.note("%s", t.c_str());
  string s[2];
  for (int m = 0; m < 2; m++) {
    bool died = mc::dies([&] {
      osl_relation_p r;
      if (m) { In in(t); r = osl_relation_pread(in.f, OSL_PRECISION_SP); }
      else { Text in(t); r = osl_relation_psread(&in.pos, OSL_PRECISION_SP); }
      s[m] = str(see(r));
      osl_relation_free(r);
    });
    c.step();
    if (died) { mc::forget(); s[m] = "refused"; }
  }
  c.check(s[0] == s[1], "'%s' is %s from a string, %s from a file", t.c_str(), s[0].c_str(), s[1].c_str());
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// any sequence of the lines a statement is made of: a list is its announced number of relations, a statement is a list, a number and so many extensions
void composed(Ctx& c, int n) {
  static const vector<string> L = {"0", "1", "2", "3", "DOMAIN\n0 2 0 0 0 0", "SCATTERING\n1 3 1 0 0 0\n0 -1 4", "WRITE\n0 2 0 0 0 0", "CONTEXT\n0 2 0 0 0 0", "WRITE", "0 2 0 0 0 0"};
  string t;
  for (int i = 0; i < n; i++) t += c.pick(L, "line") + "\n";
  if (!c.state(t, 0)) return;
  c.note("%s", t.c_str());
  t += "end 1\n";
  vector<string> want, got;
  bool bad = mc::dies([&] {
    In in(t);
    int k = osl_util_read_int(in.f, nullptr);
    want.clear();
    if (k < 0) abort();
    for (int i = 0; i < k; i++) {
      osl_relation_p r = osl_relation_pread(in.f, OSL_PRECISION_SP);
      string x = str(see(r));
      want.push_back(x);
      osl_relation_free(r);
    }
    string rest = in.rest();
    want.push_back(rest);
  });
  c.step();
  if (bad) { mc::forget(); want = {"refused"}; }
  bad = mc::dies([&] {
    In in(t);
    osl_relation_list_p l = osl_relation_list_pread(in.f, OSL_PRECISION_SP);
    got.clear();
    for (osl_relation_list_p q = l; q; q = q->next) { string x = str(see(q->elt)); got.push_back(x); }
    osl_relation_list_free(l);
    string rest = in.rest();
    got.push_back(rest);
  });
  c.step();
  if (bad) { mc::forget(); got = {"refused"}; }
  auto show = [](const vector<string>& v) { string s; for (auto& x : v) s += x + ";"; return s; };
  c.check(want == got, "'%s' read relation by relation is %s, as a list %s", t.c_str(), show(want).c_str(), show(got).c_str());
  // the statement
  string ws = "refused", gs = "refused";
  if (want.size() != 1 || want[0] != "refused") {
    string rest = want.back(), d, k, a;
    int nd = 0, nk = 0, na = 0, count = -1, used = 0;
    for (size_t i = 0; i + 1 < want.size(); i++) {
      int ty = atoi(want[i].c_str() + want[i].find("{t") + 2);
      if (ty == OSL_TYPE_DOMAIN) nd++, d = want[i];
      else if (ty == OSL_TYPE_SCATTERING) nk++, k = want[i];
      else if (ty == OSL_TYPE_WRITE) na++, a += want[i];
      else nd = 2;
    }
    if (nd < 2 && nk < 2 && sscanf(rest.c_str(), "%d%n", &count, &used) == 1) {
      if (count > 0) return;  // extensions are read elsewhere
      size_t e = rest.find('\n');
      ws = d + "/" + k + "/" + a + "/" + rest.substr(e + 1);
    }
  }
  bad = mc::dies([&] {
    Reg r;
    In in(t);
    osl_statement_p s = osl_statement_pread(in.f, r.g, OSL_PRECISION_SP);
    string x = (s->domain ? str(see(s->domain)) : "") + "/" + (s->scattering ? str(see(s->scattering)) : "") + "/";
    for (osl_relation_list_p q = s->access; q; q = q->next) x += str(see(q->elt));
    if (s->extension) x += "(extensions)";
    osl_statement_free(s);
    x += "/" + in.rest();
    gs = x;
  });
  c.step();
  if (bad) mc::forget(), gs = "refused";
  c.outcome(ws);
  c.check(ws == gs, "'%s' is the statement %s, expected %s", t.c_str(), gs.c_str(), ws.c_str());
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// any sequence of the lines an extension list is made of
void tags(Ctx& c, int n) {
  static const vector<string> L = {"<comment>", "</comment>", "<other>", "</other>", "<scatnames>", "</scatnames>", "b0 i", "1", "# <comment>", ""};
  string t;
  for (int i = 0; i < n; i++) t += c.pick(L, "line") + "\n";
  if (!c.state(t, 0)) return;
  c.note("%s", t.c_str());
  string s[2];
  for (int m = 0; m < 2; m++) {
    bool died = mc::dies([&] {
      Reg r;
      osl_generic_p l;
      if (m) { In in(t + "</OpenScop>\n"); l = osl_generic_read(in.f, r.g); }
      else { Text in(t); l = osl_generic_sread(&in.pos, r.g); }
      s[m] = look_list(l);
      osl_generic_free(l);
    });
    c.step();
    if (died) { mc::forget(); s[m] = "refused"; }
  }
  c.check(s[0] == s[1], "'%s' is %s from a string, %s from a file", t.c_str(), s[0].c_str(), s[1].c_str());
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  static vector<Reader> S = readers(false, true), P = readers(true, false), ONE;
  for (auto& r : S) if (r.name.compare(0, 4, "scop") && r.name != "generic_sread" && r.name != "generic_read" && (r.name != "generic_read_one" )) ONE.push_back(r);
  mc::add("structures: one edit", "every place and layout edit of the base texts of relations, lists, statements, extensions, scops", [](Ctx& c) { layout(c, S, 1); });
  mc::add("payloads: one edit", "every place and layout edit of the text of every payload", [](Ctx& c) { layout(c, P, 1); });
  mc::add("payloads: two edits", "every pair of layout edits of the text of every payload", [](Ctx& c) { layout(c, P, 2); });
  if (mc::thorough()) mc::add("structures: two edits", "every pair of layout edits", [](Ctx& c) { layout(c, S, 2); });
  mc::add("union size", "7 types, 3 precisions, 2 to 5 columns, 0 to 3 rows, 3 forms, 3 readers", size);
  for (int n = 0; n <= mc::q(5, 6); n++)
    mc::add("any " + std::to_string(n) + " lines", "every sequence of the 12 kinds of line of a relation, 2 types", [n](Ctx& c) { lines(c, n); });
  for (int n = 1; n <= mc::q(5, 6); n++)
    mc::add("any " + std::to_string(n) + " lines of extensions", "every sequence of the 10 kinds of line of an extension list", [n](Ctx& c) { tags(c, n); });
  for (int n = 1; n <= mc::q(5, 6); n++)
    mc::add("any " + std::to_string(n) + " lines of a statement", "every sequence of the 10 kinds of line of a list or a statement without extension", [n](Ctx& c) { composed(c, n); });
  mc::add("media", "5 relations through 8 readers, 3 precisions", media);
  mc::add("stream of two", "every pair of readers on one stream, 4 fillers around each", [](Ctx& c) { stream(c, ONE, 2); });
  if (mc::thorough()) mc::add("stream of three", "every triple of readers on one stream", [](Ctx& c) { stream(c, ONE, 3); });
  mc::add("one extension", "every extension with 0 or 1 unknown, 7 readers", [](Ctx& c) { extensions(c, c.choose(2, "known"), c.choose(2, "unknown")); });
  mc::add("one extension, two unknown", "every extension, places and kinds of two unknown ones", [](Ctx& c) { extensions(c, 1, 2); });
  mc::add("two extensions", "every pair of extensions, every place of an unknown one", [](Ctx& c) { extensions(c, 2, c.choose(2, "unknown")); });
  if (mc::thorough()) mc::add("two extensions, two unknown", "every pair of extensions, places of two unknown ones", [](Ctx& c) { extensions(c, 2, 2); });
}
