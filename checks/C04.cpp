// C04: a printed SCoP reads back as the same SCoP.
#include "subject.hpp"
using namespace gn;

mc::Property property() {
  return {"C04",
          "every generated list of SCoPs, as is and with every single (thorough: every pair of) well-formed variation, is "
          "printed and read back from a stream that also holds other text around it; the contents of the public fields must "
          "be the same in every place, printing again must give the identical text, and the library must call them equal",
          {"a SCoP has a language and a context; the parameters extension is a list of names", "no textual extension (it prints nothing by design) and no irregular extension (not registered)",
           "array identifiers are small enough to name every array", "names hold no blank and no '#', text lines hold no '#'; comment and clay texts do not start with a line break; string lists have a word"}};
}
namespace {
void round_trip(Ctx& c, osl_scop_p x, int prec) {
  string want = text(x);
  c.state(want);
  string t = printed([&](FILE* o) { osl_scop_print(o, x); });
  c.check(text(x) == want, "printing modified the SCoP: %s", differ(want, text(x)).c_str());
  setenv("OSL_PRECISION", penv(prec), 1);
  In in(t);
  osl_scop_p y = osl_scop_read(in.f);
  c.step();
  unsetenv("OSL_PRECISION");
  string got = text(y);
  c.check(got == want, "read back %s", differ(want, got).c_str());
  c.check(osl_scop_equal(x, y) && osl_scop_equal(y, x), "the library says the SCoP read differs from the one printed");
  string t2 = printed([&](FILE* o) { osl_scop_print(o, y); });
  c.check(t2 == t, "printing what was read gives another text: %s", differ(t, t2).c_str());
  c.outcome(std::to_string(std::hash<string>()(t) % 1000));
  osl_scop_free(x);
  osl_scop_free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// ---- shapes
const vector<vector<string>>& exts() {
  static const vector<vector<string>> V = {
      {}, {OSL_URI_BODY}, {OSL_URI_BODY, OSL_URI_COMMENT}, {OSL_URI_EXTBODY}, {OSL_URI_COMMENT, OSL_URI_CLAY, OSL_URI_BODY}, {OSL_URI_ANNOTATION, OSL_URI_RELATION},
      {OSL_URI_STRINGS, OSL_URI_BODY, OSL_URI_SCATNAMES, OSL_URI_LOOP}};
  return V;
}
Rel plain(int type, int out, int in, int loc, int par, int rows, int tag, int parts, int prec) {
  Rel u;
  for (int k = 0; k < parts; k++) {
    vector<Row> m;
    int cols = 2 + out + in + loc + par;
    for (int i = 0; i < rows + (k && rows); i++) {
      Row w;
      for (int j = 0; j < cols; j++) w.push_back(j == 0 ? std::to_string((i + k + tag) % 2) : std::to_string((tag * 11 + k * 5 + i * 7 + j * 3) % 17 - 8));
      m.push_back(w);
    }
    u.push_back(part(type, out, in, loc, par, m, prec));
  }
  return u;
}
Rel access(int type, int dims, int in, int par, int id, int prec) {
  vector<Row> m;
  int cols = 2 + dims + 1 + in + par;
  for (int i = 0; i <= dims; i++) {
    Row w(cols, "0");
    w[1 + i] = "-1";
    if (i) { w[1 + dims + 1 + (i - 1) % std::max(1, in + par)] = "2"; w[cols - 1] = std::to_string(id - 5); }
    else w[cols - 1] = std::to_string(id);
    m.push_back(w);
  }
  return part(type, dims + 1, in, 0, par, m, prec).m.empty() ? Rel() : Rel{part(type, dims + 1, in, 0, par, m, prec)};
}
// statement from five independent dimensions
osl_statement_p stmt(Ctx& c, int par, int tag, int prec, bool rich) {
  osl_statement_p s = fresh<osl_statement_t>();
  int depth = c.choose(rich ? 3 : 2, "depth");
  int dom = c.choose(rich ? 4 : mc::q(2, 3), "domain: none, plain, union, local+empty");
  int sc = c.choose(rich ? mc::q(3, 4) : 2, "scattering: none, plain, union, local");
  int na = c.choose(rich ? 3 : mc::q(2, 3), "accesses");
  if (dom) s->domain = build(plain(OSL_TYPE_DOMAIN, depth, 0, dom == 3, par, dom == 3 ? 0 : depth + 1, tag, dom == 2 ? 2 : 1, prec));
  if (sc) s->scattering = build(plain(OSL_TYPE_SCATTERING, 2 * depth + 1, depth, sc == 3, par, 2 * depth + 1, tag + 1, sc == 2 ? 2 : 1, prec));
  static const int T[] = {OSL_TYPE_WRITE, OSL_TYPE_READ, OSL_TYPE_MAY_WRITE};
  vector<Rel> acc;
  for (int i = 0; i < na; i++) acc.push_back(access(T[(i + tag) % 3], (i + tag) % 3, depth, par, 1 + (tag + i) % 4, prec));
  s->access = rlist(acc);
  G g(c);
  auto& E = exts();
  auto& e = E[c.choose(rich ? mc::q(4, (int)E.size()) : 2, "extensions")];
  s->extension = generics(g, e, 0, prec);
  return s;
}
osl_scop_p one(Ctx& c, int tag, int prec, int maxst, bool rich) {
  osl_scop_p s = fresh<osl_scop_t>();
  s->version = 1;
  s->language = mc::lstrdup(tag % 2 ? "C" : "FORTRAN");
  int par = c.choose(rich ? mc::q(2, 3) : mc::q(2, 3), "parameters");
  int cr = c.choose(rich ? 3 : 2, "context rows");
  s->context = build(plain(OSL_TYPE_CONTEXT, 0, 0, cr == 2, par, cr, tag, cr == 2 ? 2 : 1, prec));
  if (par && c.flip("names")) s->parameters = generic(OSL_URI_STRINGS, build_strings(par == 1 ? vector<string>{"N"} : vector<string>{"N", "a_long_parameter_name"}));
  int n = c.choose(maxst + 1, "statements");
  osl_statement_p* t = &s->statement;
  for (int i = 0; i < n; i++) { *t = stmt(c, par, tag + 4 * i, prec, rich && n == 1); t = &(*t)->next; }
  static const vector<vector<string>> X = {{}, {OSL_URI_ARRAYS}, {OSL_URI_COORDINATES, OSL_URI_SCATNAMES, OSL_URI_ARRAYS}, {OSL_URI_DEPENDENCE, OSL_URI_SYMBOLS}, {OSL_URI_LOOP, OSL_URI_PLUTO_UNROLL, OSL_URI_REGION, OSL_URI_SCATINFOS, OSL_URI_CLAY}};
  G g(c);
  s->extension = generics(g, X[c.choose(rich ? mc::q(2, 5) : 2, "SCoP extensions")], 0, prec);
  s->registry = osl_interface_get_default_registry();
  return s;
}
void shapes(Ctx& c, int scops, int maxst, bool rich) {
  int prec = PRECS[rich && mc::thorough() ? c.choose(3, "precision") : 0];
  osl_scop_p h = nullptr, *t = &h;
  for (int i = 0; i < scops; i++) { *t = one(c, 1 + i, prec, maxst, rich); t = &(*t)->next; }
  round_trip(c, h, prec);
}
// small statements, long lists: nothing is merged or moved
void order(Ctx& c, int len) {
  static const vector<string> L = {"C", "c", "x"};
  osl_scop_p h = nullptr, *t = &h;
  int ns = 1 + c.choose(2, "SCoPs");
  for (int k = 0; k < ns; k++) {
    osl_scop_p s = fresh<osl_scop_t>();
    s->version = 1;
    s->language = mc::lstrdup(c.pick(L, "language").c_str());
    s->context = build(plain(OSL_TYPE_CONTEXT, 0, 0, 0, 0, 0, 0, 1, OSL_PRECISION_MP));
    s->registry = osl_interface_get_default_registry();
    int n = c.choose(len + 1, "statements");
    osl_statement_p* u = &s->statement;
    G g(c);
    for (int i = 0; i < n; i++) {
      *u = fresh<osl_statement_t>();
      int v = c.choose(5, "statement");
      if (v == 1) (*u)->domain = build(plain(OSL_TYPE_DOMAIN, 1, 0, 0, 0, 1, 1, 1, OSL_PRECISION_MP));
      if (v == 2) (*u)->scattering = build(plain(OSL_TYPE_SCATTERING, 1, 1, 0, 0, 1, 2, 1, OSL_PRECISION_MP));
      if (v == 3) (*u)->access = rlist(vector<Rel>{access(OSL_TYPE_READ, 0, 0, 0, 1, OSL_PRECISION_MP), access(OSL_TYPE_WRITE, 1, 0, 0, 2, OSL_PRECISION_MP)});
      if (v == 4) (*u)->extension = generics(g, {OSL_URI_COMMENT}, 0);
      u = &(*u)->next;
    }
    *t = s;
    t = &s->next;
  }
  round_trip(c, h, OSL_PRECISION_MP);
}
// every list of SCoPs in which each has or lacks each of its optional parts
void lists(Ctx& c, int most) {
  osl_scop_p h = nullptr, *t = &h;
  int ns = 1 + c.choose(most, "SCoPs");
  G g(c);
  for (int k = 0; k < ns; k++) {
    osl_scop_p s = *t = fresh<osl_scop_t>();
    t = &s->next;
    s->version = 1;
    s->language = mc::lstrdup(k % 2 ? "C" : "c");
    int names = c.choose(3, "parameters: not named, N, M"), ext = c.choose(3, "extensions: none, comment, annotation"), st = ns == most ? c.choose(2, "statements") : c.choose(3, "statements");
    s->context = build(plain(OSL_TYPE_CONTEXT, 0, 0, 0, 1, 0, 0, 1, OSL_PRECISION_MP));
    s->registry = osl_interface_get_default_registry();
    if (names) s->parameters = generic(OSL_URI_STRINGS, build_strings({names == 1 ? "N" : "M"}));
    if (ext) s->extension = generics(g, {ext == 1 ? OSL_URI_COMMENT : OSL_URI_ANNOTATION}, k % 2);
    osl_statement_p* u = &s->statement;
    for (int i = 0; i < st; i++) {
      *u = fresh<osl_statement_t>();
      if ((i + k) % 2 == 0) (*u)->domain = build(plain(OSL_TYPE_DOMAIN, 1, 0, 0, 1, 1, 1 + k, 1, OSL_PRECISION_MP));
      if (i || k == 1) (*u)->extension = generics(g, {OSL_URI_COMMENT}, 0);
      u = &(*u)->next;
    }
  }
  round_trip(c, h, OSL_PRECISION_MP);
}
// every list of accesses: types, numbers of indices, unions, in any order
void accesses(Ctx& c, int most) {
  int depth = c.choose(2, "depth"), par = c.choose(2, "parameters"), n = c.choose(most + 1, "accesses"), nst = 1 + c.choose(2, "statements");
  bool no_domain = c.flip("no domain");
  osl_scop_p s = fresh<osl_scop_t>();
  s->version = 1;
  s->language = mc::lstrdup("C");
  s->context = build(plain(OSL_TYPE_CONTEXT, 0, 0, 0, par, 0, 0, 1, OSL_PRECISION_MP));
  s->registry = osl_interface_get_default_registry();
  static const int T[] = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};
  osl_statement_p* t = &s->statement;
  for (int k = 0; k < nst; k++) {
    vector<Rel> acc;
    for (int i = 0; i < n; i++) {
      int type = T[k ? (i + n) % 3 : c.choose(3, "type")], dims = k ? i % 2 : c.choose(n < most ? 2 : 1, "dimensions");
      acc.push_back(access(type, dims, depth, par, 1 + i, OSL_PRECISION_MP));
      if (!k && i == 1) for (int m = c.choose(2, "union"); m--;) acc.back().push_back(access(type, dims, depth, par, 9, OSL_PRECISION_MP)[0]);
    }
    *t = fresh<osl_statement_t>();
    if (!no_domain) (*t)->domain = build(plain(OSL_TYPE_DOMAIN, depth, 0, 0, par, 1, k, 1, OSL_PRECISION_MP));
    (*t)->access = rlist(acc);
    t = &(*t)->next;
  }
  round_trip(c, s, OSL_PRECISION_MP);
}
// long lists of everything
void numbers(Ctx& c) {
  static const vector<int> N = {5, 9, 10, 11, 20, 99, 100, 101};
  int n = c.pick(N, "how many"), what = c.choose(7, "scops, statements, accesses, parts of the domain, of the scattering, of an access, of the context");
  int scops = what == 0 ? n : 1, nst = what == 1 ? n : 1;
  osl_scop_p h = nullptr, *t = &h;
  for (int k = 0; k < scops; k++) {
    osl_scop_p s = *t = fresh<osl_scop_t>();
    t = &s->next;
    s->version = 1;
    s->language = mc::lstrdup(k % 2 ? "C" : "FORTRAN");
    s->context = build(plain(OSL_TYPE_CONTEXT, 0, 0, 0, 1, 1, k, what == 6 ? n : 1, OSL_PRECISION_MP));
    s->registry = osl_interface_get_default_registry();
    osl_statement_p* u = &s->statement;
    for (int i = 0; i < nst; i++) {
      osl_statement_p z = *u = fresh<osl_statement_t>();
      u = &z->next;
      z->domain = build(plain(OSL_TYPE_DOMAIN, 1, 0, 0, 1, 1, i + k, what == 3 ? n : 1, OSL_PRECISION_MP));
      z->scattering = build(plain(OSL_TYPE_SCATTERING, 1, 1, 0, 1, 1, i, what == 4 ? n : 1, OSL_PRECISION_MP));
      vector<Rel> acc;
      for (int j = 0; j < (what == 2 ? n : 1); j++) {
        acc.push_back(access(j % 3 == 1 ? OSL_TYPE_READ : OSL_TYPE_WRITE, 1, 1, 1, 1 + j, OSL_PRECISION_MP));
        if (what == 5) for (int m = 1; m < n; m++) acc.back().push_back(access(OSL_TYPE_WRITE, 1, 1, 1, 1 + m, OSL_PRECISION_MP)[0]);
      }
      z->access = rlist(acc);
      if (what < 2 && i % 3 == 1) {
        auto q = fresh<osl_comment_t>();
        q->comment = mc::lstrdup(("number " + std::to_string(i)).c_str());
        z->extension = generic(OSL_URI_COMMENT, q);
      }
    }
  }
  round_trip(c, h, OSL_PRECISION_MP);
}
Muts wf(Slots& z) {
  Muts v;
  for (auto& m : z.v)
    if (m.wf && m.what.find(".URI") == string::npos && m.what.find("registry") == string::npos && m.what.find("version") == string::npos &&
        !(m.what.find("/id") != string::npos && m.what.find("=2147483647") != string::npos)) v.push_back(m);
  return v;
}
void varied(Ctx& c, int r, int n, bool deep) {
  int prec = n == 1 ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  setenv("OSL_PRECISION", penv(prec), 1);
  G g(c);
  osl_scop_p x = scop(g, prec, 1, r);
  int from = 0;
  for (int i = 0; i < n; i++) {
    Slots z(deep, prec);
    z.scop_(&x, c);
    Muts v = wf(z);
    if (from > (int)v.size()) from = 0;
    int m = c.choose((int)v.size() + 1, "variation");
    if (m) { c.note("  variation: %s", v[m - 1].what.c_str()); v[m - 1].f(); }
  }
  if (!x || !x->context || !x->language) { osl_scop_free(x); return; }
  for (osl_scop_p s = x; s; s = s->next)
    if (!s->context || !s->language || (s->parameters && (strcmp(s->parameters->interface->URI, OSL_URI_STRINGS) || s->parameters->next))) { osl_scop_free(x); return; }
  round_trip(c, x, prec);
}
// every registered payload, every variation of it, inside a statement and inside a SCoP
void inside(Ctx& c, const Subject& s, bool in_stmt) {
  int prec = PRECS[s.precisions ? c.choose(3, "precision") : 0];
  G g(c);
  osl_scop_p x = scop(g, prec, 1, 0);
  x->next = scop(g, prec, 2, 0);
  osl_generic_p* e = in_stmt ? &x->statement->extension : &x->extension;
  osl_generic_free(*e);
  *e = generics(g, {OSL_URI_CLAY}, 0, prec);
  string uri = s.uri == OSL_URI_CLAY ? OSL_URI_COMMENT : s.uri;
  void* d = payload(g, uri, mc::q(1, 2), prec);
  int before = c.flip("before the other");
  Slots z(mc::thorough(), prec);
  z.payload_(uri, &d, c);
  Muts v;
  for (auto& m : z.v) if (m.wf) v.push_back(m);
  int m = c.choose((int)v.size() + 1, "variation");
  if (m) { c.note("  variation: %s", v[m - 1].what.c_str()); v[m - 1].f(); }
  bool none = (uri == OSL_URI_STRINGS && see_strings((osl_strings_p)d).empty()) || (uri == OSL_URI_SCATNAMES && see_strings(((osl_scatnames_p)d)->names).empty());
  osl_generic_p n = generic(uri.c_str(), d);
  if (before) { n->next = *e; *e = n; } else (*e)->next = n;
  if (none) { osl_scop_free(x); return; }
  round_trip(c, x, prec);
}
}  // namespace

void setup() {
  static vector<Subject> S = subjects();
  mc::add("one SCoP, one rich statement", "parameters 0..2, context rows 0..2 and unions, names or not, at most one statement of depth 0..2 with every presence, union, local dimension and extension choice, five extension sets, three precisions", [](Ctx& c) { shapes(c, 1, 1, true); });
  mc::add("one SCoP, two statements", "every pair of statements of depth 0..1 out of all presences", [](Ctx& c) { shapes(c, 1, 2, false); });
  if (mc::thorough()) mc::add("two SCoPs, one statement each", "every pair of SCoPs with at most one statement of depth 0..1", [](Ctx& c) { shapes(c, 2, 1, false); });
  mc::add("order", "one or two SCoPs with up to " + std::to_string(mc::q(2, 3)) + " statements each, every sequence of five statement kinds", [](Ctx& c) { order(c, mc::q(2, 3)); });
  mc::add("lists", "up to " + std::to_string(mc::q(3, 4)) + " SCoPs, each with any choice of parameter names, extensions and number of statements", [](Ctx& c) { lists(c, mc::q(3, 4)); });
  mc::add("accesses", "every list of up to " + std::to_string(mc::q(3, 4)) + " accesses of any type, dimensions and unions, one or two statements", [](Ctx& c) { accesses(c, mc::q(3, 4)); });
  mc::add("numbers", "5..101 SCoPs, statements, accesses or union parts of each kind", numbers);
  mc::add("one variation", "a SCoP with every single well-formed variation, extreme values and lengths included, three precisions", [](Ctx& c) { varied(c, mc::q(0, 1), 1, true); });
  if (mc::thorough()) mc::add("two variations", "a SCoP with every pair of well-formed variations", [](Ctx& c) { varied(c, 0, 2, false); });
  for (auto& s : S) {
    if (s.uri.empty() || s.uri == OSL_URI_IRREGULAR || s.uri == OSL_URI_TEXTUAL || s.uri == OSL_URI_NULL) continue;
    mc::add("in a statement: " + s.name, "every variation of the payload before and after another extension", [&s](Ctx& c) { inside(c, s, true); });
    mc::add("in a SCoP: " + s.name, "every variation of the payload before and after another extension", [&s](Ctx& c) { inside(c, s, false); });
  }
}
