// C21: the SCoPLib export states the same program.
#include "observers.hpp"
using namespace gn;

mc::Property property() {
  return {"C21",
          "the compatibility check answers 1 exactly for a well-formed single SCoP with one context matrix, domains without local dimensions, one schedule function in "
          "-Identity form per statement and accesses made of an array and its subscripts; what it accepts is exported as a text that an independent "
          "line-by-line parser turns back into the same context, parameters, domains, schedules, accesses and bodies, with every announced count exact; "
          "exporting anything else ends in an error",
          {"well-formedness itself is decided by the integrity check (C14)", "a statement without iterators may get a fake one fixed to 0",
           "array identifiers are at most some hundreds"}};
}
namespace {
// ------------------------------------------------------------- independent parser
struct Matrix { int cols = 0; vector<Row> m; };
struct PStatement { vector<Matrix> domain; Matrix scattering, reads, writes, maywrites; bool has_body = false, has_may = false; vector<string> iterators, expression; };
struct PScop { string language; Matrix context; bool has_params = false; vector<string> params; vector<PStatement> st; bool has_arrays = false; vector<std::pair<int, string>> arrays; };
vector<string> items(const string& l) {
  vector<string> v;
  string w;
  for (char ch : l + " ") { if (isspace((unsigned char)ch)) { if (!w.empty()) v.push_back(w); w.clear(); } else w += ch; }
  return v;
}
struct Bad { string what; };
bool number(const string& s) {
  size_t i = s.size() > 1 && (s[0] == '-' || s[0] == '+');
  if (i >= s.size()) return false;
  for (; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) return false;
  return true;
}
struct Parser {
  vector<string> l;
  size_t at = 0;
  explicit Parser(const string& t) {
    string w;
    for (char ch : t + "\n") {
      if (ch != '\n') { w += ch; continue; }
      w = w.substr(0, w.find('#'));
      if (!blank(w)) l.push_back(w);
      w.clear();
    }
  }
  const string& next(const char* what) { if (at >= l.size()) throw Bad{string("the text ends before ") + what}; return l[at++]; }
  vector<string> ints(const char* what, int n) {
    vector<string> v = items(next(what));
    for (auto& x : v) if (!number(x)) throw Bad{string("'") + x + "' is not a number in " + what};
    if ((int)v.size() != n) throw Bad{string(what) + ": " + std::to_string(v.size()) + " numbers, " + std::to_string(n) + " announced: '" + l[at - 1] + "'"};
    return v;
  }
  int one(const char* what) { return atoi(ints(what, 1)[0].c_str()); }
  Matrix matrix(const char* what) {
    vector<string> h = ints(what, 2);
    Matrix m;
    int rows = atoi(h[0].c_str());
    m.cols = atoi(h[1].c_str());
    if (rows < 0 || m.cols < 0 || rows > 100000) throw Bad{string(what) + ": strange sizes"};
    for (int i = 0; i < rows; i++) m.m.push_back(ints(what, m.cols));
    return m;
  }
  bool flag(const char* what) { int k = one(what); if (k != 0 && k != 1) throw Bad{string(what) + ": neither 0 nor 1"}; return k; }
  PScop scop() {
    PScop s;
    if (items(next("SCoP")) != vector<string>{"SCoP"}) throw Bad{"no SCoP line"};
    s.language = items(next("language"))[0];
    s.context = matrix("context");
    s.has_params = flag("parameters provided");
    if (s.has_params && !(s.context.cols == 2 && at < l.size() && number(items(l[at])[0]))) s.params = items(next("parameters"));
    int n = one("number of statements");
    for (int i = 0; i < n; i++) {
      PStatement st;
      int parts = one("number of domain parts");
      for (int k = 0; k < parts; k++) st.domain.push_back(matrix("domain"));
      if (!flag("scattering provided")) throw Bad{"no scattering"};
      st.scattering = matrix("scattering");
      if (!flag("access provided")) throw Bad{"no access"};
      st.reads = matrix("read accesses");
      st.writes = matrix("write accesses");
      if (at < l.size() && items(l[at]).size() == 2) { st.has_may = true; st.maywrites = matrix("may write accesses"); }
      st.has_body = flag("body provided");
      if (st.has_body) { st.iterators = items(next("iterators")); st.expression = items(next("expression")); }
      s.st.push_back(st);
    }
    if (at < l.size()) {
      if (items(l[at]) != vector<string>{"<arrays>"}) throw Bad{"'" + l[at] + "' after the last statement"};
      ++at;
      s.has_arrays = true;
      int k = one("number of arrays");
      for (int i = 0; i < k; i++) {
        vector<string> v = items(next("array"));
        if (v.size() != 2 || !number(v[0])) throw Bad{"array line"};
        s.arrays.push_back({atoi(v[0].c_str()), v[1]});
      }
      if (items(next("</arrays>")) != vector<string>{"</arrays>"}) throw Bad{"arrays not closed"};
    }
    if (at < l.size()) throw Bad{"'" + l[at] + "' at the end"};
    return s;
  }
};
// ------------------------------------------------------------- what is stated
struct St { Rel dom, scat; vector<Rel> acc; bool has_body = false, has_it = false; vector<string> it, ex; };
struct Sc { string lang; Rel ctx; bool has_par = false; vector<string> par; vector<St> st; bool has_arrays = false; vector<std::pair<int, string>> arrays; int scops = 1; };
Sc model(const osl_scop_t* x) {
  Sc s;
  s.lang = x->language ? x->language : "";
  s.ctx = see(x->context);
  for (const osl_scop_t* y = x->next; y; y = y->next) ++s.scops;
  if (auto p = (osl_strings_p)osl_generic_lookup(x->parameters, OSL_URI_STRINGS)) { s.has_par = true; s.par = see_strings(p); }
  if (auto a = (osl_arrays_p)osl_generic_lookup(x->extension, OSL_URI_ARRAYS)) { s.has_arrays = true; for (int i = 0; i < a->nb_names; i++) s.arrays.push_back({a->id[i], a->names[i]}); }
  for (const osl_statement_t* t = x->statement; t; t = t->next) {
    St q;
    q.dom = see(t->domain);
    q.scat = see(t->scattering);
    for (const osl_relation_list_t* l = t->access; l; l = l->next) if (l->elt) q.acc.push_back(see(l->elt));
    if (auto b = (osl_body_p)osl_generic_lookup(t->extension, OSL_URI_BODY)) {
      q.has_body = true;
      q.has_it = b->iterators != nullptr;
      if (b->iterators) q.it = see_strings(b->iterators);
      if (b->expression) for (auto& e : see_strings(b->expression)) for (auto& w : items(e.substr(0, e.find('#')))) q.ex.push_back(w);
    }
    s.st.push_back(q);
  }
  return s;
}
bool expressible(const Sc& s) {  // given a well-formed scop
  if (s.scops != 1 || s.ctx.size() != 1 || s.ctx[0].loc != 0) return false;
  for (auto& t : s.st) {
    if (t.dom.empty() || t.scat.size() != 1) return false;
    for (auto& p : t.dom) if (p.loc != 0) return false;
    auto identity = [](const Part& p) {
      if (p.loc != 0 || p.rows != p.out) return false;
      for (int i = 0; i < p.rows; i++) for (int j = 0; j <= p.out; j++) if (p.m[i][j] != (j == i + 1 ? "-1" : "0")) return false;
      return true;
    };
    if (!identity(t.scat[0])) return false;
    for (auto& a : t.acc) {
      if (a.size() != 1 || a[0].rows < 1 || !identity(a[0])) return false;
      if (a[0].type != OSL_TYPE_READ && a[0].type != OSL_TYPE_WRITE && a[0].type != OSL_TYPE_MAY_WRITE) return false;
      for (int j = 2; j < a[0].cols - 1; j++) if (a[0].m[0][j] != "0") return false;
    }
  }
  return true;
}
string show(const vector<Row>& m) { string s; for (auto& r : m) { s += "["; for (auto& x : r) s += " " + x; s += " ]"; } return s; }
// numbers without sign marks and leading zeros are already normal
vector<Row> affine(const Part& p, int skip, int fake, int from = 0) {  // rows without `skip` columns after the first; a zero for the fake iterator
  vector<Row> v;
  for (int i = from; i < p.rows; i++) {
    Row w = {p.m[i][0]};
    for (int j = 1 + skip; j < p.cols; j++) { if (fake && j == 1 + skip + (p.type == OSL_TYPE_DOMAIN ? p.out - skip : p.in)) w.push_back("0"); w.push_back(p.m[i][j]); }
    v.push_back(w);
  }
  return v;
}
void same(Ctx& c, const char* what, size_t k, const vector<Row>& want, const Matrix& got, const string& text) {
  c.check(got.m == want, "statement %zu, %s: %s expected, %s exported in:\n%s", k + 1, what, show(want).c_str(), show(got.m).c_str(), cut(text, 2500).c_str());
}
void compare(Ctx& c, const Sc& s, const string& text) {
  PScop p;
  try { p = Parser(text).scop(); } catch (Bad& b) { c.fail("%s in:\n%s", b.what.c_str(), cut(text, 2500).c_str()); }
  c.check(p.language == s.lang, "language '%s'", p.language.c_str());
  int par = s.ctx[0].par;
  c.check(p.context.cols == 2 + par, "context with %d columns", p.context.cols);
  same(c, "context", 0, affine(s.ctx[0], 0, 0), p.context, text);
  c.check(p.has_params == s.has_par && p.params == s.par, "parameter names differ in:\n%s", cut(text, 1500).c_str());
  c.check(p.has_arrays == s.has_arrays && p.arrays == s.arrays, "arrays differ in:\n%s", cut(text, 1500).c_str());
  c.check(p.st.size() == s.st.size(), "%zu statements exported for %zu", p.st.size(), s.st.size());
  for (size_t k = 0; k < s.st.size(); k++) {
    const St& t = s.st[k];
    const PStatement& q = p.st[k];
    int it = t.dom[0].out, cols = 2 + it + par, fake = 0;
    c.check(q.domain.size() == t.dom.size(), "statement %zu: %zu domain parts exported for %zu in:\n%s", k + 1, q.domain.size(), t.dom.size(), cut(text, 2500).c_str());
    if (it == 0 && q.scattering.cols == cols + 1) fake = 1;  // an iterator which is always 0
    for (size_t i = 0; i < t.dom.size(); i++) {
      vector<Row> w = affine(t.dom[i], 0, fake);
      if (fake) { Row r(cols + 1, "0"); r[1] = "1"; w.insert(w.begin(), r); }
      c.check(q.domain[i].cols == cols + fake, "statement %zu: domain part with %d columns in:\n%s", k + 1, q.domain[i].cols, cut(text, 2500).c_str());
      same(c, "domain", k, w, q.domain[i], text);
    }
    const Part& sc = t.scat[0];
    c.check(q.scattering.cols == cols + fake, "statement %zu: scattering with %d columns in:\n%s", k + 1, q.scattering.cols, cut(text, 2500).c_str());
    vector<Row> w = affine(sc, sc.out, fake);
    Matrix g = q.scattering;
    if (fake) {  // more dimensions, all at 0
      while (g.m.size() > w.size()) {
        Row r = g.m.back();
        c.check(r[0] == "0" && std::all_of(r.begin() + 2, r.end(), [](const string& x) { return x == "0"; }), "statement %zu: additional schedule dimension %s", k + 1, show({r}).c_str());
        g.m.pop_back();
      }
    }
    same(c, "scattering", k, w, g, text);
    struct { int type; const Matrix* m; const char* n; } A[] = {{OSL_TYPE_READ, &q.reads, "reads"}, {OSL_TYPE_WRITE, &q.writes, "writes"}, {OSL_TYPE_MAY_WRITE, &q.maywrites, "may writes"}};
    for (auto& a : A) {
      vector<Row> m;
      for (auto& r : t.acc) {
        if (r[0].type != a.type) continue;
        const Part& x = r[0];
        vector<Row> f = x.rows == 1 ? vector<Row>{Row(cols + fake, "0")} : affine(x, x.out, fake, 1);
        f[0][0] = x.m[0][x.cols - 1];
        m.insert(m.end(), f.begin(), f.end());
      }
      same(c, a.n, k, m, *a.m, text);
      if (!m.empty()) c.check(a.m->cols == cols + fake, "statement %zu: %s with %d columns in:\n%s", k + 1, a.n, a.m->cols, cut(text, 2500).c_str());
    }
    c.check(q.has_body == t.has_body, "statement %zu: body announced %d", k + 1, q.has_body);
    if (t.has_body) {
      c.check(q.expression == t.ex, "statement %zu: body differs in:\n%s", k + 1, cut(text, 2500).c_str());
      if (!t.it.empty()) c.check(q.iterators == t.it, "statement %zu: iterators differ in:\n%s", k + 1, cut(text, 2500).c_str());
    }
  }
}
void examine(Ctx& c, osl_scop_p x) {
  mc::Snap sn = mc::snapshot();
  int well = osl_scop_integrity_check(x);
  Sc s = model(x);
  bool want = well && expressible(s);
  int got = -1;
  c.step();
  c.check(!mc::dies([&] { got = osl_scop_check_compatible_scoplib(x); }), "the compatibility check ended the process");
  c.check(got == want, "the compatibility check answers %d for a scop that is %s", got, !well ? "not well-formed" : want ? "expressible" : "not expressible");
  string t;
  bool died = mc::dies([&] { t = printed([&](FILE* f) { osl_scop_print_scoplib(f, x); }); });
  c.step();
  c.check(died == !want, "exporting %s", died ? "an accepted scop ended in an error" : "a refused scop did not end in an error");
  c.check(mc::changed(sn).empty(), "exporting changed the scop");
  c.outcome(died ? "refused" : std::to_string(std::hash<string>()(t)));
  if (died) { mc::forget(); return; }  // the scop is dropped too
  compare(c, s, t);
  osl_scop_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// ------------------------------------------------------------- generators
int lab = 0;
string cell(bool big = false) { ++lab; return std::to_string((lab % 2 ? 1 : -1) * (lab + (big ? 1000000000 : 0))); }
Part gdom(int it, int par, int rows, int prec) {
  vector<Row> m;
  for (int i = 0; i < rows; i++) { Row w = {std::to_string((i + 1) % 2)}; for (int j = 0; j < it + par + 1; j++) w.push_back(cell()); m.push_back(w); }
  return part(OSL_TYPE_DOMAIN, it, 0, 0, par, m, prec);
}
Part gscat(int it, int par, int out, int prec) {
  vector<Row> m;
  for (int i = 0; i < out; i++) { Row w(1 + out, "0"); w[i + 1] = "-1"; for (int j = 0; j < it + par + 1; j++) w.push_back(cell()); m.push_back(w); }
  return part(OSL_TYPE_SCATTERING, out, it, 0, par, m, prec);
}
Part gacc(int type, int id, int dims, int it, int par, int prec) {
  int out = dims + 1;
  vector<Row> m;
  for (int i = 0; i < out; i++) {
    Row w(1 + out, "0");
    w[i + 1] = "-1";
    for (int j = 0; j < it + par + 1; j++) w.push_back(i ? cell() : j == it + par ? std::to_string(id) : "0");
    m.push_back(w);
  }
  return part(type, out, it, 0, par, m, prec);
}
Part gctx(int par, int rows, int prec) {
  vector<Row> m;
  for (int i = 0; i < rows; i++) { Row w = {"1"}; for (int j = 0; j < par + 1; j++) w.push_back(cell()); m.push_back(w); }
  return part(OSL_TYPE_CONTEXT, 0, 0, 0, par, m, prec);
}
osl_generic_p gbody(int it, bool names) {
  osl_body_p b = (osl_body_p)mc::lalloc(sizeof(osl_body_t));
  b->iterators = names ? build_strings(seq("it", it)) : nullptr;
  b->expression = build_strings({"x = f(x) + 1;"});
  return generic(OSL_URI_BODY, b);
}
osl_statement_p build(const St& t) {
  osl_statement_p s = osl_statement_malloc();
  if (!t.dom.empty()) s->domain = md::build(t.dom);
  if (!t.scat.empty()) s->scattering = md::build(t.scat);
  for (auto& a : t.acc) {
    osl_relation_list_p l = osl_relation_list_malloc();
    l->elt = a.empty() ? nullptr : md::build(a);
    osl_relation_list_add(&s->access, l);
  }
  if (t.has_body) s->extension = gbody(t.dom.empty() ? 0 : t.dom[0].out, t.has_it);
  return s;
}
osl_scop_p build(const Sc& s) {
  osl_scop_p x = osl_scop_malloc();
  x->language = mc::lstrdup(s.lang.c_str());
  if (!s.ctx.empty()) x->context = md::build(s.ctx);
  if (s.has_par) x->parameters = generic(OSL_URI_STRINGS, build_strings(s.par));
  if (s.has_arrays) {
    osl_arrays_p a = osl_arrays_malloc();
    a->nb_names = (int)s.arrays.size();
    a->id = (int*)mc::lalloc(sizeof(int) * (s.arrays.size() + 1));
    a->names = (char**)mc::lalloc(sizeof(char*) * (s.arrays.size() + 1));
    for (size_t i = 0; i < s.arrays.size(); i++) { a->id[i] = s.arrays[i].first; a->names[i] = mc::lstrdup(s.arrays[i].second.c_str()); }
    x->extension = generic(OSL_URI_ARRAYS, a);
  }
  for (auto& t : s.st) osl_statement_add(&x->statement, build(t));
  return x;
}
string canon(const Sc& s) {
  string r = s.lang + "|" + str(s.ctx) + "|";
  for (auto& p : s.par) r += p + ",";
  for (auto& a : s.arrays) r += std::to_string(a.first) + a.second + ",";
  for (auto& t : s.st) { r += "S" + str(t.dom) + str(t.scat); for (auto& a : t.acc) r += "A" + str(a); r += t.has_body ? t.has_it ? "B" : "b" : "-"; }
  return r + (s.has_par ? "P" : "") + (s.has_arrays ? "R" : "");
}
void go(Ctx& c, const Sc& s) {
  if (!c.state(canon(s), 0)) return;
  examine(c, build(s));
}
Sc base(int par, int prec) {
  lab = 0;
  Sc s;
  s.lang = "C";
  s.ctx = {gctx(par, 1, prec)};
  return s;
}
const vector<int> ATYPES = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};
void shapes(Ctx& c, int most) {
  int prec = PRECS[c.choose(3, "precision")], par = c.choose(most + 1, "parameters"), it = c.choose(most + 1, "iterators"), parts = 1 + c.choose(most, "parts");
  Sc s = base(par, prec);
  s.ctx = {gctx(par, c.choose(3, "context rows"), prec)};
  St t;
  for (int i = 0; i < parts; i++) t.dom.push_back(gdom(it, par, c.choose(3, "rows"), prec));
  t.scat = {gscat(it, par, c.choose(4, "schedule dimensions"), prec)};
  int how = c.choose(3, "accesses");
  if (how) t.acc.push_back({gacc(OSL_TYPE_READ, 1, how - 1, it, par, prec)});
  s.st = {t};
  go(c, s);
}
void accesses(Ctx& c, int n) {
  int par = c.choose(2, "parameters"), it = c.choose(3, "iterators");
  Sc s = base(par, OSL_PRECISION_MP);
  St t;
  t.dom = {gdom(it, par, c.choose(2, "rows"), OSL_PRECISION_MP)};
  t.scat = {gscat(it, par, 1 + c.choose(2, "schedule dimensions") * 2 * it, OSL_PRECISION_MP)};
  for (int i = 0; i < n; i++) {
    int k = c.choose(19, "access");
    if (k == 18) t.acc.push_back({});
    else t.acc.push_back({gacc(ATYPES[k % 3], k / 9 ? 7 : 1, k / 3 % 3, it, par, OSL_PRECISION_MP)});
  }
  s.st = {t};
  go(c, s);
}
void statements(Ctx& c, int n) {
  int par = c.choose(2, "parameters");
  Sc s = base(par, OSL_PRECISION_MP);
  for (int i = 0; i < n; i++) {
    St t;
    int k = c.choose(12, "statement");
    int it = k % 3, pr = OSL_PRECISION_MP;
    for (int q = 0; q < 1 + (k == 3 || k == 5); q++) t.dom.push_back(gdom(it, par, k >= 9 ? 0 : 1, pr));
    t.scat = {gscat(it, par, k == 9 ? 1 : k == 6 ? 0 : 2 * it + 1, pr)};
    if (k > 1) t.acc.push_back({gacc(OSL_TYPE_WRITE, 1 + k, k % 3, it, par, pr)});
    if (k > 3) t.acc.push_back({gacc(OSL_TYPE_READ, 2, (k + 1) % 3, it, par, pr)});
    if (k % 4 == 0) t.acc.push_back({gacc(OSL_TYPE_MAY_WRITE, 3, 1, it, par, pr)});
    t.has_body = k % 5 != 1;
    t.has_it = k != 7;
    s.st.push_back(t);
  }
  go(c, s);
}
void naming(Ctx& c) {
  int par = c.choose(3, "parameters");
  Sc s = base(par, OSL_PRECISION_MP);
  int p = c.choose(5, "parameter names"), a = c.choose(6, "arrays");
  if (p) { s.has_par = true; s.par = p == 1 ? seq("N", par) : p == 2 ? vector<string>{"a_long_parameter_name_indeed", string(400, 'q')} : p == 3 ? vector<string>{"M"} : seq("x", 5); }
  if (p == 1 && par == 0) return;  // an absent list
  if (a) {
    s.has_arrays = true;
    if (a == 1) s.arrays = {{1, "A"}, {2, "B"}, {3, "C"}};
    else if (a == 2) s.arrays = {{2, "B"}, {1, "A"}};
    else if (a == 3) s.arrays = {{7, "an_array_with_a_long_name"}};
    else if (a == 4) s.arrays = {{1, string(300, 'z')}};
    else s.arrays = {{3, "C"}, {3, "D"}, {0, "E"}, {-4, "F"}};
  }
  for (int k = 0; k < 2; k++) {
    St t;
    int it = 2 - k;
    t.dom = {gdom(it, par, 1, OSL_PRECISION_MP)};
    t.scat = {gscat(it, par, 2 * it + 1, OSL_PRECISION_MP)};
    t.acc = {{gacc(OSL_TYPE_WRITE, 1, it, it, par, OSL_PRECISION_MP)}, {gacc(OSL_TYPE_READ, 1 + c.choose(3, "array"), 0, it, par, OSL_PRECISION_MP)}, {gacc(OSL_TYPE_READ, 9, 1, it, par, OSL_PRECISION_MP)}};
    int b = c.choose(3, "body");
    t.has_body = b;
    t.has_it = b == 1;
    s.st.push_back(t);
  }
  s.lang = c.pick(vector<string>{"C", "FORTRAN", "caml"}, "language");
  go(c, s);
}
vector<string> values(int prec) {
  vector<string> v = {"0", "1", "-1", "2", "-10", "99999", "123456", "-999999", "2147483647", "-2147483648"};
  if (prec != OSL_PRECISION_SP) { v.push_back("9223372036854775807"); v.push_back("-9223372036854775808"); }
  if (prec == OSL_PRECISION_MP) { v.push_back("123456789012345678901234567890"); v.push_back("-1" + string(1200, '0')); }
  return v;
}
// one number anywhere takes any value
void numbers(Ctx& c) {
  int prec = PRECS[c.choose(3, "precision")], it = c.choose(3, "iterators");
  Sc s = base(1, prec);
  St t;
  t.dom = {gdom(it, 1, 2, prec), gdom(it, 1, 1, prec)};
  t.scat = {gscat(it, 1, 2, prec)};
  t.acc = {{gacc(OSL_TYPE_READ, 1, 2, it, 1, prec)}, {gacc(OSL_TYPE_WRITE, 2, 0, it, 1, prec)}, {gacc(OSL_TYPE_MAY_WRITE, 3, 1, it, 1, prec)}};
  s.st = {t};
  vector<string*> cells;
  auto all = [&](Rel& r) { for (auto& p : r) for (auto& w : p.m) for (auto& x : w) cells.push_back(&x); };
  all(s.ctx);
  all(s.st[0].dom);
  all(s.st[0].scat);
  for (auto& a : s.st[0].acc) all(a);
  int k = c.choose((int)cells.size(), "number");
  *cells[k] = c.pick(values(prec), "becomes");
  for (auto& a : s.st[0].acc) if (a[0].m[0].back().size() > 3) return;  // names of huge identifiers are not of interest
  go(c, s);
}
// what the format has no words for
struct Dev { string what; std::function<void(Sc&)> f; };
vector<Dev> deviations() {
  vector<Dev> v;
  v.push_back({"no context", [](Sc& s) { s.ctx.clear(); }});
  v.push_back({"context union", [](Sc& s) { if (!s.ctx.empty()) s.ctx.push_back(s.ctx[0]); }});
  v.push_back({"another scop", [](Sc& s) { s.scops = 2; }});
  auto local = [](Part& p) { ++p.loc; ++p.cols; for (auto& w : p.m) w.insert(w.end() - 1 - p.par, "0"); };
  auto undef = [](Part& p) { p.loc = OSL_UNDEFINED; };
  auto ineq = [](Part& p) { if (!p.m.empty()) p.m.back()[0] = "1"; };
  auto lessrow = [](Part& p) { if (!p.m.empty()) { p.m.pop_back(); --p.rows; } };
  auto morerow = [](Part& p) { p.m.push_back(Row(p.cols, "0")); ++p.rows; };
  auto swaprows = [](Part& p) { if (p.rows > 1) std::swap(p.m[0], p.m[1]); };
  auto plus = [](Part& p) { if (p.rows > 0 && p.out > 0) p.m.back()[p.rows] = "1"; };
  auto off = [](Part& p) { if (p.rows > 1) p.m[1][1] = "1"; };
  auto off2 = [](Part& p) { if (p.rows > 0 && p.out > 1) p.m[0][p.out] = "-1"; };
  auto it1 = [](Part& p) { if (p.rows > 0 && p.in > 0) p.m[0][1 + p.out] = "1"; };
  auto par1 = [](Part& p) { if (p.rows > 0 && p.par > 0) p.m[0][p.cols - 2] = "1"; };
  vector<std::pair<string, std::function<void(Part&)>>> P = {{"local dimension", local}, {"undefined locals", undef}, {"inequality", ineq}, {"row less", lessrow}, {"row more", morerow}, {"rows exchanged", swaprows},
                                                              {"+1", plus}, {"off the diagonal", off}, {"off the diagonal, first row", off2}, {"iterator in the first row", it1}, {"parameter in the first row", par1}};
  for (auto& p : P) {
    auto f = p.second;
    v.push_back({"context " + p.first, [f](Sc& s) { if (!s.ctx.empty()) f(s.ctx[0]); }});
    for (int k = 0; k < 2; k++) {
      string n = std::to_string(k);
      v.push_back({"domain " + n + " " + p.first, [f, k](Sc& s) { if (!s.st[k].dom.empty()) f(s.st[k].dom.back()); }});
      v.push_back({"scattering " + n + " " + p.first, [f, k](Sc& s) { if (!s.st[k].scat.empty()) f(s.st[k].scat[0]); }});
      for (int a = 0; a < 3; a++) v.push_back({"access " + n + std::to_string(a) + " " + p.first, [f, k, a](Sc& s) { if (!s.st[k].acc[a].empty()) f(s.st[k].acc[a][0]); }});
    }
  }
  for (int k = 0; k < 2; k++) {
    string n = std::to_string(k);
    v.push_back({"no domain " + n, [k](Sc& s) { s.st[k].dom.clear(); }});
    v.push_back({"no scattering " + n, [k](Sc& s) { s.st[k].scat.clear(); }});
    v.push_back({"domain union " + n, [k](Sc& s) { auto& d = s.st[k].dom; if (!d.empty()) d.push_back(d[0]); }});
    v.push_back({"scattering union " + n, [k](Sc& s) { auto& d = s.st[k].scat; if (!d.empty()) d.push_back(d[0]); }});
    for (int a = 0; a < 3; a++) {
      v.push_back({"access union " + n, [k, a](Sc& s) { auto& d = s.st[k].acc[a]; if (!d.empty()) d.push_back(d[0]); }});
      v.push_back({"no access " + n, [k, a](Sc& s) { s.st[k].acc[a].clear(); }});
      for (int type : {OSL_TYPE_ACCESS, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_TYPE_DOMAIN, OSL_UNDEFINED})
        v.push_back({"access type " + n, [k, a, type](Sc& s) { for (auto& p : s.st[k].acc[a]) p.type = type; }});
    }
  }
  return v;
}
void deviant(Ctx& c, int n) {
  static const vector<Dev> D = deviations();
  Sc s = base(1, OSL_PRECISION_MP);
  for (int k = 0; k < 2; k++) {
    St t;
    int it = 1 + k;
    t.dom = {gdom(it, 1, 1, OSL_PRECISION_MP)};
    t.scat = {gscat(it, 1, 2 + k, OSL_PRECISION_MP)};
    t.acc = {{gacc(OSL_TYPE_READ, 1, 1, it, 1, OSL_PRECISION_MP)}, {gacc(OSL_TYPE_WRITE, 2, 0, it, 1, OSL_PRECISION_MP)}, {gacc(OSL_TYPE_MAY_WRITE, 3, 2, it, 1, OSL_PRECISION_MP)}};
    s.st.push_back(t);
  }
  string what;
  int last = 0;
  for (int i = 0; i < n; i++) {
    int k = last + c.choose((int)D.size() - last, "deviation");
    last = k;
    D[k].f(s);
    what += D[k].what + "; ";
  }
  if (!c.state(canon(s) + std::to_string(s.scops), 0)) return;
  c.note("%s", what.c_str());
  osl_scop_p x = build(s);
  if (s.scops == 2) { Sc e = base(0, OSL_PRECISION_MP); x->next = build(e); }
  examine(c, x);
}
void anything(Ctx& c, int n) {
  G g(c);
  int prec = PRECS[mc::thorough() ? c.choose(3, "precision") : 2];
  osl_scop_p x = scop(g, prec, 0, c.choose(mc::q(2, 3), "richness"));
  for (int i = 0; i < n; i++) {
    Slots z(false, prec);
    z.scop_(&x, c);
    auto& m = z.v[c.choose((int)z.v.size(), "change")];
    if (!m.wf) { osl_scop_free(x); return; }
    m.f();
  }
  if (!x || !c.state(std::to_string(prec) + text(x), 0)) { osl_scop_free(x); return; }
  examine(c, x);
}
}  // namespace

void setup() {
  mc::add("shapes", "0 to 2 parameters, iterators; 1 or 2 domain parts of 0 to 2 rows; 0 to 3 schedule dimensions; 3 accesses", [](Ctx& c) { shapes(c, 2); });
  for (int n = 0; n <= mc::q(2, 3); n++)
    mc::add("accesses " + std::to_string(n), "lists of accesses of 3 types, 2 arrays, 0 to 2 dimensions or absent", [n](Ctx& c) { accesses(c, n); });
  for (int n = 0; n <= mc::q(3, 4); n++)
    mc::add("statements " + std::to_string(n), "sequences of 12 kinds of statements", [n](Ctx& c) { statements(c, n); });
  mc::add("names", "parameter names, arrays, bodies, languages", naming);
  mc::add("numbers", "every number of a statement takes 14 values", numbers);
  mc::add("deviations 1", "everything the format cannot express, one at a time", [](Ctx& c) { deviant(c, 1); });
  mc::add("deviations 2", "every pair", [](Ctx& c) { deviant(c, 2); });
  mc::add("any scop 1", "every single change of general scops", [](Ctx& c) { anything(c, 1); });
  if (mc::thorough()) {
    mc::add("shapes 3", "up to 3 of each", [](Ctx& c) { shapes(c, 3); });
    mc::add("deviations 3", "every triple", [](Ctx& c) { deviant(c, 3); });
    mc::add("any scop 2", "every pair of changes of general scops", [](Ctx& c) { anything(c, 2); });
  }
}
