// C22: printed comments state the constraint they annotate.
#include "observers.hpp"
using namespace gn;

mc::Property property() {
  return {"C22",
          "every comment of a printed relation is parsed into an affine form over the dimension names and compared with the row it stands next to, coefficient by coefficient (hence for every assignment), together with its operator; header names are those of the columns in order; accesses show the array they name",
          {"the name lists have a name for every dimension and the names are distinct",
           "the header shows names longer than its columns abbreviated"}};
}
namespace {
bool is_acc(int t) { return t == OSL_TYPE_ACCESS || t == OSL_TYPE_READ || t == OSL_TYPE_WRITE || t == OSL_TYPE_MAY_WRITE; }
struct Names { vector<string> par, it, sc, lo, ar; };
vector<string> columns(const Part& p, const Names& n) {
  vector<string> v = {"e/i"};
  for (int i = 0; i < p.out; i++) {
    if (is_acc(p.type)) v.push_back(i ? "[" + std::to_string(i) + "]" : "Arr");
    else v.push_back(p.type == OSL_TYPE_DOMAIN || p.type == OSL_TYPE_CONTEXT ? n.it[i] : n.sc[i]);
  }
  for (int i = 0; i < p.in; i++) v.push_back(n.it[i]);
  for (int i = 0; i < p.loc; i++) v.push_back(n.lo[i]);
  for (int i = 0; i < p.par; i++) v.push_back(n.par[i]);
  v.push_back("1");
  return v;
}
// ------------------------------------------------------- affine expressions
// text -> coefficient of each name ("1" for the constant), in wide integers
struct Wide {
  mpz_t z;
  Wide() { mpz_init(z); }
  explicit Wide(const string& s) { mpz_init_set_str(z, s.c_str(), 10); }
  Wide(const Wide& o) { mpz_init_set(z, o.z); }
  Wide& operator=(const Wide& o) { mpz_set(z, o.z); return *this; }
  ~Wide() { mpz_clear(z); }
};
using Form = std::map<string, Wide>;
bool affine(const string& s, const vector<string>& names, Form& f, string& why) {
  size_t p = 0;
  auto sp = [&] { while (p < s.size() && s[p] == ' ') ++p; };
  bool any = false;
  for (;;) {
    sp();
    if (p == s.size()) break;
    bool neg = false, sign = false;
    if (s[p] == '+' || s[p] == '-') { neg = s[p] == '-'; sign = true; ++p; sp(); }
    if (any && !sign) { why = "no operator at '" + s.substr(p) + "'"; return false; }
    string num;
    if (p < s.size() && s[p] == '-' && !neg) { neg = true; ++p; }
    while (p < s.size() && isdigit((unsigned char)s[p])) num += s[p++];
    sp();
    string name;
    bool times = false;
    if (!num.empty() && p < s.size() && s[p] == '*') { times = true; ++p; sp(); }
    if (num.empty() || times) {
      for (auto& n : names) if (n != "1" && n != "e/i" && s.compare(p, n.size(), n) == 0 && n.size() > name.size()) name = n;
      if (name.empty()) { why = "unknown name at '" + s.substr(p) + "'"; return false; }
      p += name.size();
    } else name = "1";
    Wide v(num.empty() ? "1" : num);
    if (neg) mpz_neg(v.z, v.z);
    Wide& t = f[name];
    mpz_add(t.z, t.z, v.z);
    any = true;
  }
  if (!any) { why = "empty expression"; return false; }
  return true;
}
string trim(const string& s) {
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
  return a == string::npos ? "" : s.substr(a, b - a + 1);
}
// "" when the comment states the row
string states(const string& comment, const Row& row, const Part& p, const vector<string>& cols, const Names& n) {
  size_t eq = comment.find("=="), ge = comment.find(">=");
  bool equality = eq != string::npos;
  if (equality == (ge != string::npos)) return "no single operator";
  if (equality != (row[0] == "0")) return "wrong operator";
  string l = trim(comment.substr(0, equality ? eq : ge)), r = trim(comment.substr((equality ? eq : ge) + 2));
  string why;
  Form a, b;
  if (!affine(l, cols, a, why)) return why;
  bool array = is_acc(p.type) && row[1] != "0" && std::find(n.ar.begin(), n.ar.end(), r) != n.ar.end();
  if (array) {
    long id = -atol(row[p.cols - 1].c_str()) / atol(row[1].c_str());
    if (l != cols[1]) return "an array for something that is not the array dimension";
    if (id < 1 || id > (long)n.ar.size() || n.ar[id - 1] != r) return "wrong array name";
    for (int j = 2; j < p.cols - 1; j++) if (row[j] != "0") return "a name for more than an array";
    return "";
  }
  if (!affine(r, cols, b, why)) return why;
  for (auto& x : b) { Wide& t = a[x.first]; mpz_sub(t.z, t.z, x.second.z); }
  // lhs - rhs is the row, or the opposite of the row for an equality
  for (int s = 0; s < (equality ? 2 : 1); s++) {
    bool ok = true;
    for (int j = 1; j < p.cols; j++) {
      Wide v(row[j]);
      if (s) mpz_neg(v.z, v.z);
      ok &= mpz_cmp(v.z, a[cols[j]].z) == 0;
    }
    if (ok) return "";
  }
  return "another constraint";
}
bool numeric(const string& t) {
  size_t i = t[0] == '-' ? 1 : 0;
  return i < t.size() && t.find_first_not_of("0123456789", i) == string::npos;
}
// checks all matrix rows found in a text against the parts, in order
void judge(Ctx& c, const string& text, const vector<std::pair<Part, Names>>& parts, bool headers = true) {
  size_t k = 0, row = 0;
  auto skip = [&] { while (k < parts.size() && row >= parts[k].first.m.size()) { ++k; row = 0; } };
  skip();
  size_t at = 0;
  bool header_seen = false;
  while (at < text.size()) {
    size_t e = text.find('\n', at);
    if (e == string::npos) e = text.size();
    string line = text.substr(at, e - at);
    at = e + 1;
    if (line.compare(0, 1, "#") == 0 && line.find("e/i") != string::npos) {
      c.check(k < parts.size(), "a header without rows: %s", line.c_str());
      if (headers) {
        vector<string> cols = columns(parts[k].first, parts[k].second);
        string h = line.substr(1);
        vector<string> tok;
        string w;
        for (char ch : h + " ") {
          if (ch == ' ' || ch == '|') { if (!w.empty()) tok.push_back(w); w.clear(); }
          else w += ch;
        }
        c.check(tok.size() == cols.size(), "%zu names in the header for %zu columns: %s", tok.size(), cols.size(), line.c_str());
        for (size_t j = 0; j < tok.size(); j++) {
          bool full = tok[j] == cols[j];
          bool abbr = tok[j].size() > 1 && tok[j].back() == '.' && tok[j].size() < cols[j].size() && cols[j].compare(0, tok[j].size() - 1, tok[j], 0, tok[j].size() - 1) == 0;
          c.check(full || abbr, "column %zu is called %s instead of %s: %s", j, tok[j].c_str(), cols[j].c_str(), line.c_str());
          if (cols[j].size() <= 3) c.check(full, "%s is abbreviated", cols[j].c_str());
        }
      }
      header_seen = true;
      continue;
    }
    size_t cm = line.find("##");
    if (cm == string::npos || line.compare(0, 1, "#") == 0) continue;
    skip();
    c.check(k < parts.size(), "one row too many: %s", line.c_str());
    c.check(header_seen, "no header above %s", line.c_str());
    const Part& p = parts[k].first;
    string nums = line.substr(0, cm);
    Row r;
    string w;
    for (char ch : nums + " ") {
      if (ch == ' ') { if (!w.empty()) r.push_back(w); w.clear(); }
      else w += ch;
    }
    c.check(r == p.m[row], "the row is %s instead of %s", md::str(r).c_str(), md::str(p.m[row]).c_str());
    string bad = states(trim(line.substr(cm + 2)), p.m[row], p, columns(p, parts[k].second), parts[k].second);
    c.step();
    c.check(bad.empty(), "%s: %s (type %d, %d output %d input %d local %d parameters)", bad.c_str(), line.c_str(), p.type, p.out, p.in, p.loc, p.par);
    ++row;
    skip();
    if (row == 0) header_seen = false;
  }
  c.check(k == parts.size(), "rows of part %zu are not annotated in '%s'", k, cut(text, 600).c_str());
}
const vector<int> TYPES = {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_UNDEFINED};
string printed_by(int how, osl_relation_p x, osl_names_p n) {
  switch (how) {
    case 0: return take(osl_relation_spprint(x, n));
    case 1: return printed([&](FILE* f) { osl_relation_pprint(f, x, n); });
    case 2: return take(osl_relation_spprint_polylib(x, n));
    case 3: return printed([&](FILE* f) { osl_relation_print(f, x); });
  }
  return "";
}
Names names_for(Ctx& c, int how, int set) {
  Names n;
  if (how == 3) { n.par = seq("P", 9); n.it = seq("i", 9); n.sc = seq("c", 9); n.lo = seq("l", 9); n.ar = seq("A", 9); return n; }
  (void)c;
  if (set == 0) { n.par = {"N", "M", "K"}; n.it = {"i", "j", "k"}; n.sc = {"c1", "c2", "c3"}; n.lo = {"l1", "l2"}; n.ar = {"A", "B", "C", "D", "E", "F", "G"}; }
  else { n.par = {"a_long_parameter", "np12", "npX"}; n.it = {"iterator_one", "it2", "iteX"}; n.sc = {"scattering", "sc22", "sca"}; n.lo = {"localdim", "loca"}; n.ar = {"Array", "B1234", "CCCCCC", "Dee", "Eeee", "F", "G"}; }
  return n;
}
osl_names_p mk(const Names& n, const Part* p = nullptr) {
  (void)p;
  return build_names(n.par, n.it, n.sc, n.lo, n.ar);
}
// the expression of every row, on its own
void expressions(Ctx& c, osl_relation_p x, const Part& p, const Names& n) {
  vector<string> cols = columns(p, n);
  vector<char*> v;
  for (auto& w : cols) v.push_back((char*)w.c_str());
  v.push_back(nullptr);
  for (int i = 0; i < p.rows; i++) {
    string e = take(osl_relation_expression(x, i, v.data())), why;
    Form f;
    c.step();
    c.check(affine(trim(e), cols, f, why), "the expression '%s' of row %s: %s", e.c_str(), md::str(p.m[i]).c_str(), why.c_str());
    for (int j = 1; j < p.cols; j++) c.check(mpz_cmp(Wide(p.m[i][j]).z, f[cols[j]].z) == 0, "'%s' is not the expression of row %s", e.c_str(), md::str(p.m[i]).c_str());
  }
  c.check(str(see(x)) == str(Rel{p}), "building expressions changes the relation");
}
// every row over an alphabet
void rows(Ctx& c, int out, int in, int loc, int par, const vector<string>& V) {
  int type = c.pick(TYPES, "type");
  if (type == OSL_TYPE_CONTEXT && (out || in)) return;
  if (type == OSL_TYPE_DOMAIN && in) return;
  if (is_acc(type) && !out) return;
  int pr = PRECS[c.choose(3, "precision")];
  Part p = part(type, out, in, loc, par, {}, pr);
  Row r = {std::to_string(c.choose(2, "marker"))};
  for (int j = 1; j < p.cols; j++) r.push_back(c.pick(V, "coefficient"));
  vector<Row> m = {r};
  if (is_acc(type)) {
    // make it a legal access: exactly one row names the array
    if (r[1] != "0") {
      for (int j = 2; j < p.cols - 1; j++) if (r[j] != "0") return;
      long d = atol(r[1].c_str()), k = atol(r[p.cols - 1].c_str());
      if (k % d || -k / d < 1 || -k / d > 7) return;
      m = {r};
    } else {
      Row a(p.cols, "0");
      a[1] = "-1";
      a[p.cols - 1] = "2";
      m.insert(m.begin(), a);
    }
  }
  p.m = m;
  p.rows = (int)m.size();
  if (!c.state(str(p), 0)) return;
  int set = c.choose(2, "names");
  for (int how = 0; how < 4; how++) {
    Names n = names_for(c, how, set);
    osl_relation_p x = build(p);
    osl_names_p on = mk(n);
    string t = printed_by(how, x, on);
    judge(c, t, {{p, n}});
    if (how == 0) expressions(c, x, p, n);
    osl_names_free(on);
    osl_relation_free(x);
  }
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// wide numbers
void large(Ctx& c) {
  int pr = PRECS[c.choose(3, "precision")];
  static const vector<string> B = {"9223372036854775807", "-9223372036854775808", "2147483648", "-1", "0"};
  vector<string> V = B;
  if (pr == OSL_PRECISION_MP) { V.push_back("123456789012345678901234567890"); V.push_back("-98765432109876543210987654321"); }
  int type = c.pick(vector<int>{OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING}, "type");
  Part p = part(type, 2, type == OSL_TYPE_SCATTERING ? 1 : 0, 0, 1, {}, pr);
  Row r = {std::to_string(c.choose(2, "marker"))};
  r.push_back(c.pick(V, "coefficient"));
  int how = c.choose(3, "printer");
  r.push_back("1");
  while ((int)r.size() < p.cols) r.push_back(c.pick(V, "coefficient"));
  p.m = {r};
  p.rows = 1;
  if (!c.state(str(p) + std::to_string(how), 0)) return;
  Names n = names_for(c, 0, 0);
  osl_relation_p x = build(p);
  osl_names_p on = mk(n);
  judge(c, printed_by(how, x, on), {{p, n}});
  osl_names_free(on);
  osl_relation_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// accesses and the arrays they name, with and without enough names
void accesses(Ctx& c) {
  int pr = PRECS[c.choose(3, "precision")], type = c.pick(vector<int>{OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE}, "type");
  int parts = c.choose(2, "parts") + 1, id = c.choose(6, "array") + 1, co = c.pick(vector<int>{-1, 1, 2, -3}, "coefficient"), rows = c.choose(3, "rows") + 1, at = c.choose(rows, "array row");
  Names n = names_for(c, 0, 0);
  n.ar.resize(c.choose(3, "array names") * 3);
  vector<std::pair<Part, Names>> ps;
  Rel u;
  for (int k = 0; k < parts; k++) {
    Part p = part(type, 3, 2, 0, 1, {}, pr);
    for (int i = 0; i < rows; i++) {
      Row r(p.cols, "0");
      if (i == at) { r[1] = std::to_string(co); r[p.cols - 1] = std::to_string(-co * id); }
      else { r[2 + i % 2] = i ? "-1" : "1"; r[4] = std::to_string(2 * i - 1); r[5] = "1"; r[p.cols - 1] = std::to_string(5 - k); }
      p.m.push_back(r);
    }
    p.rows = rows;
    u.push_back(p);
    ps.push_back({p, n});
  }
  if (!c.state(str(u) + std::to_string(n.ar.size()), 0)) return;
  osl_relation_p x = build(u);
  osl_names_p on = mk(n);
  string t = printed_by(c.choose(3, "printer"), x, on);
  judge(c, t, ps);
  bool shown = (co == -1 || co == 1) && id <= (int)n.ar.size();
  if (shown) c.check(t.find("Arr == " + n.ar[id - 1] + "\n") != string::npos, "array %s is not shown in %s", n.ar[id - 1].c_str(), t.c_str());
  osl_names_free(on);
  osl_relation_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// unions whose parts differ
void unions(Ctx& c) {
  int type = c.pick(vector<int>{OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_UNDEFINED}, "type");
  int n = c.choose(3, "parts") + 1, how = c.choose(4, "printer");
  Names nm = names_for(c, how, c.choose(how == 3 ? 1 : 2, "names"));
  Rel u;
  vector<std::pair<Part, Names>> ps;
  for (int k = 0; k < n; k++) {
    int loc = c.choose(3, "local"), rows = c.choose(3, "rows");
    Part p = part(type, type == OSL_TYPE_CONTEXT ? 0 : 2, type >= OSL_TYPE_SCATTERING || type == OSL_UNDEFINED ? 2 : 0, loc, 2, {}, OSL_PRECISION_MP);
    for (int i = 0; i < rows; i++) {
      Row r;
      for (int j = 0; j < p.cols; j++) r.push_back(std::to_string(j == 0 ? (i + k) % 2 : (3 * j + 5 * i + 7 * k) % 5 - 2));
      p.m.push_back(r);
    }
    p.rows = rows;
    u.push_back(p);
    ps.push_back({p, nm});
  }
  if (!c.state(str(u) + std::to_string(how), 0)) return;
  osl_relation_p x = build(u);
  osl_names_p on = mk(nm);
  judge(c, printed_by(how, x, on), ps);
  osl_names_free(on);
  osl_relation_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// statements and scops: which names annotate what
void scops(Ctx& c) {
  int nst = c.choose(3, "statements"), nsc = c.choose(2, "scops") + 1;
  vector<std::pair<Part, Names>> ps;
  osl_scop_p h = nullptr, *t = &h;
  auto mat = [&](int type, int out, int in, int tag) {
    Part p = part(type, out, in, 1, 1, {}, OSL_PRECISION_MP);
    for (int i = 0; i < 2; i++) {
      Row r(p.cols, "0");
      for (int j = 1; j < p.cols; j++) r[j] = std::to_string((3 * j + i + tag) % 4 - 1);
      r[0] = std::to_string(i);
      if (is_acc(type)) {
        r[0] = "0";
        if (i == 0) { r = Row(p.cols, "0"); r[1] = "-1"; r[p.cols - 1] = std::to_string(1 + tag % 3); }
        else r[1] = "0";
      }
      p.m.push_back(r);
    }
    p.rows = 2;
    return p;
  };
  for (int k = 0; k < nsc; k++) {
    bool params = c.flip("parameter names"), arrays = c.flip("array names");
    osl_scop_p s = fresh<osl_scop_t>();
    s->version = 1;
    s->language = mc::lstrdup("C");
    Names nm;
    nm.par = seq("P", 9); nm.it = seq("i", 9); nm.sc = seq("c", 9); nm.lo = seq("l", 9); nm.ar = seq("A", 3);
    // the last array any scop of the list names
    if (params) { s->parameters = generic(OSL_URI_STRINGS, build_strings({"Size" + std::to_string(k)})); nm.par = {"Size" + std::to_string(k)}; }
    if (arrays) {
      auto a = fresh<osl_arrays_t>();
      vector<string> v = {"alpha" + std::to_string(k), "beta", "gamma"};
      a->nb_names = 3;
      a->id = ints_of({3, 1, 2});
      a->names = (char**)mc::lalloc(3 * sizeof(char*));
      for (int i = 0; i < 3; i++) a->names[i] = mc::lstrdup(v[i].c_str());
      s->extension = generic(OSL_URI_ARRAYS, a);
      nm.ar = {"beta", "gamma", v[0]};
    }
    Part cx = mat(OSL_TYPE_CONTEXT, 0, 0, k);
    s->context = build(Rel{cx});
    ps.push_back({cx, nm});
    osl_statement_p* st = &s->statement;
    for (int i = 0; i < nst; i++) {
      int body = c.choose(2, "body");
      *st = fresh<osl_statement_t>();
      Names sn = nm;
      if (body) {
        osl_body_p b = fresh<osl_body_t>();
        b->iterators = build_strings({"it" + std::to_string(i), "jt"});
        b->expression = build_strings({"x;"});
        (*st)->extension = generic(OSL_URI_BODY, b);
        sn.it = {"it" + std::to_string(i), "jt"};
      }
      Part d = mat(OSL_TYPE_DOMAIN, 2, 0, i), sc = mat(OSL_TYPE_SCATTERING, 3, 2, i + k), a1 = mat(OSL_TYPE_READ, 2, 2, i), a2 = mat(OSL_TYPE_WRITE, 3, 2, i + 1);
      (*st)->domain = build(Rel{d});
      (*st)->scattering = build(Rel{sc});
      (*st)->access = rlist({{a1}, {a2}});
      for (auto& p : {d, sc, a1, a2}) ps.push_back({p, sn});
      st = &(*st)->next;
    }
    *t = s;
    t = &s->next;
  }
  if (!c.state(text(h), 0)) { osl_scop_free(h); return; }
  // generated array names reach the largest identifier of the list only
  judge(c, printed([&](FILE* f) { osl_scop_print(f, h); }), ps);
  osl_scop_free(h);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  static const vector<string> A = {"0", "1", "-1", "2", "-3"}, S3 = {"0", "1", "-1"};
  mc::add("two dimensions", "all rows of 1 output (or local), 1 parameter over 5 coefficients, 7 types, 3 precisions, 2 name sets, 4 printers", [](Ctx& c) { int w = c.choose(3, "kind"); if (w == 0) rows(c, 1, 0, 0, 1, A); else if (w == 1) rows(c, 0, 1, 0, 1, A); else rows(c, 0, 0, 1, 1, A); });
  mc::add("three dimensions", "all rows of 3 dimensions over " + std::to_string(mc::q(4, 5)) + " coefficients", [](Ctx& c) {
    static const vector<string> V(A.begin(), A.begin() + mc::q(4, 5));
    int w = c.choose(4, "kind");
    if (w == 0) rows(c, 2, 0, 0, 1, V); else if (w == 1) rows(c, 1, 1, 0, 1, V); else if (w == 2) rows(c, 1, 1, 1, 0, V); else rows(c, 0, 1, 1, 1, V);
  });
  mc::add("more dimensions", "all rows of " + std::to_string(mc::q(4, 5)) + " dimensions over 3 coefficients", [](Ctx& c) {
    int w = c.choose(3, "kind");
    if (!mc::thorough()) { if (w == 0) rows(c, 2, 1, 0, 1, S3); else if (w == 1) rows(c, 1, 1, 1, 1, S3); else rows(c, 2, 0, 1, 1, S3); }
    else { if (w == 0) rows(c, 2, 2, 0, 1, S3); else if (w == 1) rows(c, 1, 1, 1, 2, S3); else rows(c, 2, 1, 1, 1, S3); }
  });
  mc::add("large", "rows with coefficients at the limits of the representations", large);
  mc::add("accesses", "6 arrays, 4 coefficients, every array row of up to 3, up to 2 parts, 3 name list lengths", accesses);
  mc::add("unions", "all unions of up to 3 parts with up to 2 rows and 2 local dimensions", unions);
  mc::add("scops", "up to 2 scops of up to 2 statements, names from parameters, arrays and bodies", scops);
}
