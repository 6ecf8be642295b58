// C15: attribute queries report the true extents.
#include "observers.hpp"
using namespace gn;

mc::Property property() {
  return {"C15",
          "counts and attribute queries give the maxima found by walking the structure's public fields, raise counters never further than those, and type and attribute setters reach every part and nothing else",
          {"iterators are a domain's output dimensions and any other relation's input dimensions; scattering dimensions are a scattering's (or untyped relation's) output dimensions",
           "accesses name one array"}};
}
namespace {
const int U = OSL_UNDEFINED;
bool is_acc(int t) { return t == OSL_TYPE_ACCESS || t == OSL_TYPE_READ || t == OSL_TYPE_WRITE || t == OSL_TYPE_MAY_WRITE; }
using Att = vector<int>;  // parameters iterators scattdims localdims array
void up(Att& a, const Att& b) { for (int i = 0; i < 5; i++) a[i] = std::max(a[i], b[i]); }
int ident(const Part& p) {
  for (auto& r : p.m) if (p.cols > 2 && r[1] != "0") return (int)(-atol(r[p.cols - 1].c_str()) / atol(r[1].c_str()));
  return U;
}
Att extents(const Rel& r) {
  Att a(5, U);
  for (auto& p : r) {
    Att b = {p.par, 0, 0, p.loc, 0};
    if (p.type == OSL_TYPE_CONTEXT) {}
    else if (p.type == OSL_TYPE_DOMAIN) b[1] = p.out;
    else if (is_acc(p.type)) { b[1] = p.in; b[4] = ident(p); }
    else { b[1] = p.in; b[2] = p.out; }
    up(a, b);
  }
  return a;
}
Att extents(const osl_relation_list_t* l) { Att a(5, U); for (; l; l = l->next) up(a, extents(see(l->elt))); return a; }
Att extents(const osl_statement_t* s) {
  Att a(5, U);
  for (; s; s = s->next) { up(a, extents(see(s->domain))); up(a, extents(see(s->scattering))); up(a, extents(s->access)); }
  return a;
}
Att extents(const osl_scop_t* s) { Att a(5, U); for (; s; s = s->next) { up(a, extents(see(s->context))); up(a, extents(s->statement)); } return a; }
string S(const Att& a) { string s; for (int x : a) s += std::to_string(x) + " "; return s; }

// counters already at some value are only ever raised
template <class F>
void ask(Ctx& c, const Att& ext, F f, const string& what) {
  vector<Att> starts = {Att(5, U), Att(5, 0), Att(5, 2), {9, U, 1, 0, 3}, {U, 9, U, 9, U}, {1, 0, 9, U, 9}};
  int k = 0;
  for (auto& st : starts) {
    Att want = st, got = st;
    up(want, ext);
    f(&got[0], &got[1], &got[2], &got[3], &got[4]);
    c.step();
    c.check(got == want, "starting from (%s) got (%s) instead of (%s) for %s", S(st).c_str(), S(got).c_str(), S(want).c_str(), cut(what, 900).c_str());
    ++k;
  }
}
// a relation with the given extents
Part rpart(int type, int it, int other, int loc, int par, int id, int prec) {
  int out = other, in = it;
  if (type == OSL_TYPE_DOMAIN) { out = it; in = 0; }
  if (type == OSL_TYPE_CONTEXT) out = in = 0;
  if (is_acc(type)) out = 1 + other;
  int cols = 2 + out + in + loc + par;
  Row w(cols, "0");
  if (is_acc(type)) { w[1] = id % 2 ? "-1" : "2"; w[cols - 1] = std::to_string(id % 2 ? id : -2 * id); }
  else for (int j = 1; j < cols; j++) w[j] = std::to_string(-5 * j);
  return part(type, out, in, loc, par, {w}, prec);
}
const vector<int> TYPES = {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_TYPE_ACCESS, OSL_TYPE_GENERIC, OSL_UNDEFINED};
int nb_components(const osl_relation_t* r) { int n = 0; for (; r; r = r->next) ++n; return n; }

void relations(Ctx& c, int n) {
  int type = c.pick(TYPES, "type"), pr = PRECS[c.choose(3, "precision")];
  Rel r;
  int mixed = n > 1 ? c.choose(3, "precision of the next part") : 0;
  for (int k = 0; k < n; k++) {
    int e = c.choose(32, "extents of a part"), at = 0;
    while (PRECS[at] != pr) ++at;
    r.push_back(rpart(type, (e & 1) * 3, (e >> 1 & 1) * 2, (e >> 2 & 1) * (k + 1), (e >> 3 & 1) * 4, 1 + (e >> 4 & 1), PRECS[(at + mixed * k) % 3]));
  }
  if (is_acc(type)) for (auto& p : r) if (ident(p) != ident(r[0])) return;  // one array per relation
  if (!c.state(str(r), 0)) return;
  osl_relation_p x = build(r);
  mc::Snap sn = mc::snapshot();
  ask(c, extents(r), [&](int* a, int* b, int* d, int* e, int* f) { osl_relation_get_attributes(x, a, b, d, e, f); }, str(r));
  c.check(osl_relation_nb_components(x) == n, "number of components of %s", str(r).c_str());
  if (is_acc(type)) c.check(osl_relation_get_array_id(x) == ident(r[0]), "array of %s", str(r).c_str());
  else c.check(osl_relation_get_array_id(x) == U, "array of something that is not an access");
  c.check(osl_relation_is_access(x) == (is_acc(type) ? 1 : 0), "is_access of type %d", type);
  c.check(mc::changed(sn).empty(), "a query changed something");
  osl_relation_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// long unions with parts of any number of constraints, none and no column included
void components(Ctx& c, int most) {
  int n = c.choose(most + 1, "parts");
  osl_relation_p h = nullptr, *t = &h;
  string what;
  int par = U, mx = U;
  for (int i = 0; i < n; i++) {
    int k = c.choose(4, "part: no column, no constraint, one constraint, fresh");
    *t = k == 3 ? fresh<osl_relation_t>() : build(part(OSL_TYPE_DOMAIN, k ? 1 : 0, 0, 0, k ? i : 0, k == 2 ? vector<Row>{Row(3 + i, "1")} : vector<Row>{}, OSL_PRECISION_DP));
    if (k == 3) { (*t)->type = OSL_TYPE_DOMAIN; (*t)->precision = OSL_PRECISION_DP; (*t)->nb_parameters = (*t)->nb_output_dims = 0; }
    par = std::max(par, k == 1 || k == 2 ? i : 0);
    mx = std::max(mx, k == 1 || k == 2 ? 1 : 0);
    what += "0-1f"[k];
    t = &(*t)->next;
  }
  c.state(what);
  c.step();
  c.check(osl_relation_nb_components(h) == n, "%d components in %s", osl_relation_nb_components(h), what.c_str());
  int a = U, b = U, d = U, e = U, f = U;
  if (h) {
    osl_relation_get_attributes(h, &a, &b, &d, &e, &f);
    c.check(a == par && b == mx, "attributes of %s: %d parameters, %d iterators instead of %d, %d", what.c_str(), a, b, par, mx);
  }
  osl_relation_free(h);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// where the maximum is inside lists, statements and scops
void places(Ctx& c) {
  int pr = OSL_PRECISION_MP;
  // a scop list with 2 scops, 2 statements, 2 accesses, unions of 2; each of the
  // five extents is largest in a place of its own
  vector<Part*> all;
  struct St { Rel dom, sca; vector<Rel> acc; };
  struct Sc { Rel ctx; vector<St> st; };
  vector<Sc> v(2);
  auto two = [&](int type) { Rel r; for (int k = 0; k < 2; k++) r.push_back(rpart(type, 1, 1, 0, 1, 1, pr)); return r; };
  for (auto& s : v) {
    s.ctx = two(OSL_TYPE_CONTEXT);
    s.st.resize(2);
    for (auto& t : s.st) { t.dom = two(OSL_TYPE_DOMAIN); t.sca = two(OSL_TYPE_SCATTERING); t.acc = {two(OSL_TYPE_READ), two(OSL_TYPE_WRITE)}; }
  }
  for (auto& s : v) {
    for (auto& p : s.ctx) all.push_back(&p);
    for (auto& t : s.st) {
      for (auto& p : t.dom) all.push_back(&p);
      for (auto& p : t.sca) all.push_back(&p);
      for (auto& a : t.acc) for (auto& p : a) all.push_back(&p);
    }
  }
  int ext = c.choose(5, "extent"), at = c.choose((int)all.size(), "place"), drop = c.choose(6, "absent");
  Part& p = *all[at];
  bool ctx = p.type == OSL_TYPE_CONTEXT, acc = is_acc(p.type), sca = p.type == OSL_TYPE_SCATTERING;
  switch (ext) {
    case 0: p = rpart(p.type, 1, 1, 0, 7, 1, pr); break;
    case 1: if (ctx) return; p = rpart(p.type, 7, 1, 0, 1, 1, pr); break;
    case 2: if (!sca) return; p = rpart(p.type, 1, 7, 0, 1, 1, pr); break;
    case 3: p = rpart(p.type, 1, 1, 7, 1, 1, pr); break;
    case 4: if (!acc) return;
      for (auto& s : v) for (auto& t : s.st) for (auto& a : t.acc) if (&p == &a[0] || &p == &a[1]) for (auto& q : a) q = rpart(p.type, 1, 1, 0, 1, 7, pr);
      break;
  }
  osl_scop_p h = nullptr, *t = &h;
  for (auto& s : v) {
    *t = fresh<osl_scop_t>();
    if (drop != 1) (*t)->context = build(s.ctx);
    osl_statement_p* st = &(*t)->statement;
    if (drop != 2)
      for (auto& x : s.st) {
        *st = fresh<osl_statement_t>();
        if (drop != 3) (*st)->domain = build(x.dom);
        if (drop != 4) (*st)->scattering = build(x.sca);
        if (drop != 5) (*st)->access = rlist(x.acc);
        st = &(*st)->next;
      }
    t = &(*t)->next;
  }
  if (!c.state(text(h), 0)) { osl_scop_free(h); return; }
  mc::Snap sn = mc::snapshot();
  ask(c, extents(h), [&](int* a, int* b, int* d, int* e, int* f) { osl_scop_get_attributes(h, a, b, d, e, f); }, text(h));
  ask(c, extents(h->next), [&](int* a, int* b, int* d, int* e, int* f) { osl_scop_get_attributes(h->next, a, b, d, e, f); }, text(h->next));
  ask(c, extents(h->statement), [&](int* a, int* b, int* d, int* e, int* f) { osl_statement_get_attributes(h->statement, a, b, d, e, f); }, text(h->statement));
  if (h->statement) ask(c, extents(h->statement->access), [&](int* a, int* b, int* d, int* e, int* f) { osl_relation_list_get_attributes(h->statement->access, a, b, d, e, f); }, text(h->statement->access));
  // the generated names are enough for everything
  Att e = extents(h);
  osl_names_p n = osl_scop_names(h);
  auto cnt = [](osl_strings_p s) { return (int)see_strings(s).size(); };
  c.check(cnt(n->parameters) == std::max(e[0], 0) && cnt(n->iterators) == std::max(e[1], 0) && cnt(n->scatt_dims) == std::max(e[2], 0) && cnt(n->local_dims) == std::max(e[3], 0) && cnt(n->arrays) == std::max(e[4], 0),
          "names for extents (%s): %s", S(e).c_str(), text(n).c_str());
  osl_names_free(n);
  // counts
  c.check(osl_scop_number(h) == 2 && osl_scop_number(h->next) == 1 && osl_scop_number(nullptr) == 0, "number of scops");
  c.check(osl_statement_number(h->statement) == (drop == 2 ? 0 : 2), "number of statements");
  c.check(osl_scop_get_nb_parameters(h) == (drop == 1 ? 0 : h->context->nb_parameters), "parameters of a scop");
  if (h->statement) {
    c.check(osl_statement_get_nb_iterators(h->statement) == (drop == 3 ? 0 : h->statement->domain->nb_output_dims), "iterators of a statement");
    c.check((int)osl_relation_list_count(h->statement->access) == (drop == 5 ? 0 : 2), "number of accesses");
  }
  c.check(mc::changed(sn).empty(), "a query changed something");
  osl_scop_free(h);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// lists of any length, including absent elements
void lists(Ctx& c, int maxn) {
  int n = c.choose(maxn + 1, "elements");
  osl_relation_list_p l = nullptr, *t = &l;
  vector<Rel> v;
  int count = 0;
  for (int i = 0; i < n; i++) {
    int k = c.choose(6, "element");  // absent or with one large extent
    Rel r;
    int type = i % 2 ? OSL_TYPE_WRITE : OSL_TYPE_READ;
    if (k) r.push_back(rpart(type, k == 1 ? 3 + i : 1, 1, k == 2 ? 3 + i : 0, k == 3 ? 3 + i : 1, k == 4 ? 3 + i : 1, OSL_PRECISION_MP));
    *t = fresh<osl_relation_list_t>();
    (*t)->elt = build(r);
    count += !r.empty();
    t = &(*t)->next;
    v.push_back(r);
  }
  if (!c.state(text(l), 0)) { osl_relation_list_free(l); return; }
  ask(c, extents(l), [&](int* a, int* b, int* d, int* e, int* f) { osl_relation_list_get_attributes(l, a, b, d, e, f); }, text(l));
  c.check((int)osl_relation_list_count(l) == count, "%d relations counted in %s", (int)osl_relation_list_count(l), text(l).c_str());
  // set_type reaches every part of every element
  osl_relation_list_set_type(l, OSL_TYPE_MAY_WRITE);
  osl_relation_list_p x = l;
  for (auto& r : v) {
    for (auto& p : r) p.type = OSL_TYPE_MAY_WRITE;
    c.check(see(x->elt) == r, "set_type of a list: %s instead of %s", text(x->elt).c_str(), str(r).c_str());
    x = x->next;
  }
  osl_relation_list_free(l);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void setters(Ctx& c) {
  int n = c.choose(4, "parts"), op = c.choose(3, "operation");
  int start = c.pick(TYPES, "type");
  Rel r;
  for (int k = 0; k < n; k++) r.push_back(rpart(start, 1, 1, k % 2, 1, 1, PRECS[c.choose(3, "precision")]));
  osl_relation_p x = build(r);
  int a[4] = {0, 0, 0, 0}, ty = 0;
  if (op == 0) {
    ty = c.pick(TYPES, "new type");
    osl_relation_set_type(x, ty);
    for (auto& p : r) p.type = ty;
  } else {
    for (int& v : a) v = c.choose(3, "attribute") - 1;
    if (op == 1) osl_relation_set_attributes(x, a[0], a[1], a[2], a[3]);
    else osl_relation_set_attributes_one(x, a[0], a[1], a[2], a[3]);
    for (size_t k = 0; k < r.size(); k++) if (op == 1 || k == 0) { r[k].out = a[0]; r[k].in = a[1]; r[k].loc = a[2]; r[k].par = a[3]; }
  }
  c.state(std::to_string(op) + str(r));
  c.step();
  c.check(see(x) == r, "setter %d: %s", op, differ(str(r), text(x)).c_str());
  osl_relation_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// the identifier of an access in any precision, anywhere among its rows
void identifiers(Ctx& c) {
  int pr = PRECS[c.choose(3, "precision")], type = c.pick(vector<int>{OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_TYPE_ACCESS}, "type");
  static const vector<long> ID = {1, 2, 7, 255, 256, 65536, 1000000, 2147483647, 715827882};
  static const vector<long> CO = {-1, 1, 2, -2, 3, -3};
  long id = c.pick(ID, "id"), co = c.pick(CO, "coefficient");
  if (id * co > INT_MAX || id * co < -INT_MAX) return;
  int rows = c.choose(3, "rows") + 1, at = c.choose(rows, "row");
  int n = c.choose(2, "parts") + 1;
  Rel r;
  for (int k = 0; k < n; k++) {
    Part p = part(type, 3, 1, 0, 1, {}, pr);
    for (int i = 0; i < rows; i++) {
      Row w(p.cols, "0");
      if (i == at) { w[1] = std::to_string(k ? -1 : co); w[p.cols - 1] = std::to_string(k ? id : -id * co); }
      else { w[2] = "-1"; w[4] = std::to_string(i + 4); w[p.cols - 1] = "99"; }
      p.m.push_back(w);
    }
    p.rows = rows;
    r.push_back(p);
  }
  c.state(str(r));
  c.step();
  osl_relation_p x = build(r);
  c.check(osl_relation_get_array_id(x) == id, "array %d instead of %ld for %s", osl_relation_get_array_id(x), id, str(r).c_str());
  osl_relation_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// every list, from the generators
void counts(Ctx& c) {
  G g(c);
  int k = c.choose(3, "kind");
  if (k == 0) {
    osl_statement_p s = nullptr, *t = &s;
    int n = c.choose(4, "statements");
    for (int i = 0; i < n; i++) { *t = statement(g, OSL_PRECISION_MP, i, i == 0 ? 1 : 0); t = &(*t)->next; }
    c.check(osl_statement_number(s) == n, "number of statements");
    ask(c, extents(s), [&](int* a, int* b, int* d, int* e, int* f) { osl_statement_get_attributes(s, a, b, d, e, f); }, text(s));
    c.state(text(s));
    osl_statement_free(s);
  } else if (k == 1) {
    osl_scop_p s = nullptr, *t = &s;
    int n = c.choose(3, "scops");
    for (int i = 0; i < n; i++) { *t = scop(g, OSL_PRECISION_MP, i, i == 0 ? 2 : 0); t = &(*t)->next; }
    c.check((int)osl_scop_number(s) == n, "number of scops");
    ask(c, extents(s), [&](int* a, int* b, int* d, int* e, int* f) { osl_scop_get_attributes(s, a, b, d, e, f); }, text(s));
    c.state(text(s));
    osl_scop_free(s);
  } else {
    // the body of a statement, in its plain or extended form
    osl_statement_p s = fresh<osl_statement_t>();
    int w = c.choose(5, "extensions");
    static const vector<vector<string>> X = {{}, {OSL_URI_BODY}, {OSL_URI_EXTBODY}, {OSL_URI_COMMENT, OSL_URI_BODY}, {OSL_URI_COMMENT}};
    s->extension = generics(g, X[w], 0);
    void* want = nullptr;
    for (auto e = s->extension; e; e = e->next) {
      if (!strcmp(e->interface->URI, OSL_URI_BODY)) want = e->data;
      if (!strcmp(e->interface->URI, OSL_URI_EXTBODY)) want = ((osl_extbody_t*)e->data)->body;
    }
    c.check((void*)osl_statement_get_body(s) == want, "the body of a statement with extensions %d", w);
    c.state(text(s));
    c.step();
    osl_statement_free(s);
  }
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  mc::add("relations", "unions of up to " + std::to_string(mc::q(2, 3)) + " parts, each extent small or large in each part, 9 types, 3 precisions", [](Ctx& c) { relations(c, c.choose(mc::q(2, 3), "parts") + 1); });
  mc::add("places", "each extent largest at each of the places of a list of 2 scops, components absent", places);
  mc::add("lists", "lists of up to " + std::to_string(mc::q(4, 6)) + " elements with one large extent each", [](Ctx& c) { lists(c, mc::q(4, 6)); });
  mc::add("setters", "unions of up to 3 parts, all types, all attribute values -1..1", setters);
  mc::add("identifiers", "9 identifiers, 6 coefficients, every row of up to 3, up to 2 parts", identifiers);
  mc::add("counts", "all generated statement and scop lists", counts);
  mc::add("components", "unions of up to " + std::to_string(mc::q(6, 8)) + " parts of four kinds", [](Ctx& c) { components(c, mc::q(6, 8)); });
}
