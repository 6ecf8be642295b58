// Generators of library structures (driven by recordable choices, so that two
// equal and fully separate copies can be built), single-difference mutators of
// built structures, and order-normalised content strings.
#pragma once
#include <algorithm>
#include <climits>

#include "io.hpp"

namespace gn {
using namespace md;
using mc::Ctx;

struct G {
  Ctx* c;
  vector<int> rec;
  size_t pos = 0;
  bool rp = false;
  explicit G(Ctx& x) : c(&x) {}
  int operator()(int n, const char* w = "") {
    if (rp) return rec.at(pos++);
    int v = c->choose(n, w);
    rec.push_back(v);
    return v;
  }
  template <class T>
  T pick(const vector<T>& v, const char* w = "") { return v[(*this)((int)v.size(), w)]; }
  void again() { rp = true; pos = 0; }
};

template <class T>
inline T* fresh() {
  T* p = (T*)mc::lalloc(sizeof(T));
  memset(p, 0, sizeof(T));
  return p;
}
inline int* ints_of(const vector<int>& v) {
  int* p = (int*)mc::lalloc(v.size() * sizeof(int));
  for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
  return p;
}

// ------------------------------------------------------------- generators
// r: richness. 0 = one fixed instance, 1 = a few, 2 = many.
inline Rel rel_model(G& g, int type, int prec, int tag, int r, int par = 1) {
  int shape = r == 0 ? 0 : g(r == 1 ? 3 : 6, "relation shape");
  int out = 2, in = 2;
  if (type == OSL_TYPE_CONTEXT) out = in = 0;
  if (type == OSL_TYPE_DOMAIN || type == OSL_UNDEFINED) in = 0;
  bool acc = type >= OSL_TYPE_ACCESS && type <= OSL_TYPE_MAY_WRITE;
  if (acc) out = 2;
  int np = (shape == 2 || shape >= 4) ? 2 : 1;
  Rel u;
  for (int k = 0; k < np; k++) {
    int loc = (shape == 3 || (shape == 4 && k == 1)) ? 1 : 0;
    int rows = shape == 1 ? (acc ? 1 : 0) : shape == 3 ? 2 : shape == 5 ? 1 + k : 1;
    int cols = 2 + out + in + loc + par;
    vector<Row> rr;
    for (int i = 0; i < rows; i++) {
      Row w;
      for (int j = 0; j < cols; j++) w.push_back(j == 0 ? std::to_string(i % 2) : std::to_string(((tag * 7 + k * 3 + i * 5 + j) % 19) - 6));
      if (acc) {
        w[0] = "0";
        w[1] = "0";  // only one row names the array
        if (i == 0) { w = Row(cols, "0"); w[1] = "-1"; w[cols - 1] = std::to_string(1 + tag % 3); }
        else w[2] = "-1";
      }
      rr.push_back(w);
    }
    u.push_back(part(type, out, in, loc, par, rr, prec));
  }
  return u;
}
inline osl_relation_p rel(G& g, int type, int prec, int tag, int r, int par = 1) { return build(rel_model(g, type, prec, tag, r, par)); }
inline vector<string> strings_model(G& g, int r) {
  static const vector<vector<string>> V = {{"a", "b2"}, {}, {"a"}, {"a", "a"}, {"x_y", "b", "c3"}, {"b2", "a"}};
  return r == 0 ? V[0] : V[g(r == 1 ? 3 : 6, "strings")];
}
inline osl_strings_p strings(G& g, int r) { return build_strings(strings_model(g, r)); }
inline osl_body_p body(G& g, int r, int niter = -1) {
  osl_body_p b = fresh<osl_body_t>();
  if (niter >= 0) {
    vector<string> it;
    for (int i = 0; i < niter; i++) it.push_back(string(1, 'i' + i));
    b->iterators = build_strings(it);
  } else b->iterators = build_strings(r == 0 ? vector<string>{"i", "j"} : g.pick(vector<vector<string>>{{"i", "j"}, {"i"}, {}}, "iterators"));
  b->expression = build_strings({r == 0 ? string("A[i][j] = B[i] + 1;") : g.pick(vector<string>{"A[i][j] = B[i] + 1;", "f(i);", "x = y + z"}, "expression")});
  return b;
}
template <class T>
inline void region_text(T* t, const vector<std::pair<int, string>>& v) {
  t->count = v.size();
  t->types = nullptr;
  t->lines = nullptr;
  if (v.empty()) return;
  t->types = (int*)mc::lalloc(v.size() * sizeof(int));
  t->lines = (char**)mc::lalloc(v.size() * sizeof(char*));
  for (size_t i = 0; i < v.size(); i++) { t->types[i] = v[i].first; t->lines[i] = mc::lstrdup(v[i].second.c_str()); }
}
using Lines = vector<std::pair<int, string>>;
inline Lines lines(G& g, int r, const string& base) {
  Lines all = {{1, base + " omp parallel"}, {2, base + "x"}};
  int n = r == 0 ? 1 : g(r == 1 ? 2 : 3, "lines");
  return Lines(all.begin(), all.begin() + n);
}
// the kinds of payloads and how to get their interface
struct Kind { const char* uri; osl_interface_p (*itf)(); bool registered; };
inline const vector<Kind>& kinds() {
  static const vector<Kind> k = {
      {OSL_URI_STRINGS, osl_strings_interface, true}, {OSL_URI_BODY, osl_body_interface, true},
      {OSL_URI_RELATION, osl_relation_interface, true}, {OSL_URI_COMMENT, osl_comment_interface, true},
      {OSL_URI_SCATINFOS, osl_scatinfos_interface, true}, {OSL_URI_SCATNAMES, osl_scatnames_interface, true},
      {OSL_URI_ARRAYS, osl_arrays_interface, true}, {OSL_URI_COORDINATES, osl_coordinates_interface, true},
      {OSL_URI_CLAY, osl_clay_interface, true}, {OSL_URI_DEPENDENCE, osl_dependence_interface, true},
      {OSL_URI_SYMBOLS, osl_symbols_interface, true}, {OSL_URI_EXTBODY, osl_extbody_interface, true},
      {OSL_URI_LOOP, osl_loop_interface, true}, {OSL_URI_PLUTO_UNROLL, osl_pluto_unroll_interface, true},
      {OSL_URI_REGION, osl_region_interface, true}, {OSL_URI_ANNOTATION, osl_annotation_interface, true},
      {OSL_URI_TEXTUAL, osl_textual_interface, true}, {OSL_URI_NULL, osl_null_interface, true},
      {OSL_URI_IRREGULAR, osl_irregular_interface, false}};
  return k;
}
inline const Kind& kind(const string& uri) {
  for (auto& k : kinds()) if (uri == k.uri) return k;
  fprintf(stderr, "harness: unknown uri %s\n", uri.c_str());
  abort();
}
void* payload(G& g, const string& u, int r, int prec = OSL_PRECISION_MP);
inline osl_generic_p generic(const char* uri, void* data) {
  osl_generic_p x = fresh<osl_generic_t>();
  x->data = data;
  x->interface = kind(uri).itf();
  return x;
}
inline void* payload(G& g, const string& u, int r, int prec) {
  auto N = [&](int small, int many) { return r == 0 ? 0 : g(r == 1 ? small : many, u.c_str()); };
  auto num = [&](int fixed) { return r < 2 ? fixed : g.pick(vector<int>{fixed, 0, -1, 12345}, "number"); };
  if (u == OSL_URI_STRINGS) return strings(g, r);
  if (u == OSL_URI_BODY) return body(g, r);
  if (u == OSL_URI_RELATION) return rel(g, OSL_TYPE_DOMAIN, prec, 3, r);
  if (u == OSL_URI_COMMENT) {
    auto p = fresh<osl_comment_t>();
    p->comment = mc::lstrdup(vector<const char*>{"some text\n", "x", "two lines\n# of text\n", "", "  lead\n\n trail  "}[N(3, 5)]);
    return p;
  }
  if (u == OSL_URI_TEXTUAL) {
    auto p = fresh<osl_textual_t>();
    p->textual = mc::lstrdup(vector<const char*>{"<strings>\na b\n</strings>\n", "", "words that make a text longer than forty characters in all\n"}[N(2, 3)]);
    return p;
  }
  if (u == OSL_URI_NULL) return fresh<osl_null_t>();
  if (u == OSL_URI_CLAY) {
    auto p = fresh<osl_clay_t>();
    p->script = mc::lstrdup(vector<const char*>{"fuse([0]);\nskew([0,1], 1, 2);\n", "x", "a\n\n# b", "", "f();"}[N(3, 5)]);
    return p;
  }
  if (u == OSL_URI_SCATNAMES) {
    auto p = fresh<osl_scatnames_t>();
    p->names = strings(g, r);
    return p;
  }
  if (u == OSL_URI_SCATINFOS) {
    auto p = fresh<osl_scatinfos_t>();
    int n = r == 0 ? 2 : g(r == 1 ? 3 : 4, "dims");
    vector<int> a, b, t;
    for (int i = 0; i < n; i++) { a.push_back(r == 2 && n < 3 ? g(2, "parallel") : i % 2); b.push_back(i + 3); t.push_back(1 - i % 2); }
    p->nb_scatdims = n;
    p->parallel = ints_of(a); p->permutable = ints_of(b); p->type = ints_of(t);
    return p;
  }
  if (u == OSL_URI_ARRAYS) {
    auto p = fresh<osl_arrays_t>();
    static const vector<vector<std::pair<int, string>>> V = {{{1, "A"}, {2, "Bq"}}, {}, {{3, "C"}}, {{2, "Bq"}, {1, "A"}}, {{1, "A"}, {1, "A"}}, {{5, "x"}, {2, "y"}, {9, "z"}}};
    auto& v = V[N(3, 6)];
    p->nb_names = (int)v.size();
    p->id = (int*)mc::lalloc(v.size() * sizeof(int));
    p->names = (char**)mc::lalloc(v.size() * sizeof(char*));
    for (size_t i = 0; i < v.size(); i++) { p->id[i] = v[i].first; p->names[i] = mc::lstrdup(v[i].second.c_str()); }
    return p;
  }
  if (u == OSL_URI_COORDINATES) {
    auto p = fresh<osl_coordinates_t>();
    p->name = mc::lstrdup(vector<const char*>{"./a file.c", "x"}[N(2, 2)]);
    p->line_start = num(3); p->line_end = num(70); p->column_start = 5; p->column_end = 11; p->indent = num(4);
    return p;
  }
  if (u == OSL_URI_EXTBODY) {
    auto p = fresh<osl_extbody_t>();
    int n = r == 0 ? 2 : g(r == 1 ? 3 : 4, "accesses");
    vector<int> a, b;
    for (int i = 0; i < n; i++) { a.push_back(i * 5); b.push_back(3 + i); }
    if (n == 3) { a[2] = a[0]; b[2] = b[0]; }
    p->nb_access = n; p->start = ints_of(a); p->length = ints_of(b);
    p->body = body(g, r == 2 ? 1 : 0);
    return p;
  }
  if (u == OSL_URI_DEPENDENCE) {
    int n = r == 0 ? 1 : g(3, "dependences");
    osl_dependence_p h = nullptr, *t = &h;
    for (int i = 0; i < n; i++) {
      osl_dependence_p d = fresh<osl_dependence_t>();
      d->label_source = i; d->label_target = i + 2; d->ref_source = 1; d->ref_target = -1; d->depth = num(2);
      static const vector<int> T = {OSL_DEPENDENCE_RAW, OSL_DEPENDENCE_WAR, OSL_DEPENDENCE_WAW, OSL_DEPENDENCE_RAR, OSL_DEPENDENCE_RAW_SCALPRIV, OSL_UNDEFINED};
      d->type = r == 2 && n == 1 ? g.pick(T, "type") : T[(i + 1) % 6];
      d->domain = rel(g, OSL_TYPE_DOMAIN, prec, i + 1, n == 1 ? r : r ? 1 : 0);
      int* f[8] = {&d->source_nb_output_dims_domain, &d->source_nb_output_dims_access, &d->target_nb_output_dims_domain, &d->target_nb_output_dims_access,
                   &d->source_nb_local_dims_domain, &d->source_nb_local_dims_access, &d->target_nb_local_dims_domain, &d->target_nb_local_dims_access};
      for (int k = 0; k < 8; k++) *f[k] = 10 * k + i;
      *t = d;
      t = &d->next;
    }
    return h;
  }
  if (u == OSL_URI_SYMBOLS) {
    int n = r == 0 ? 1 : g(3, "symbols");
    osl_symbols_p h = nullptr, *t = &h;
    for (int i = 0; i < n; i++) {
      osl_symbols_p s = fresh<osl_symbols_t>();
      static const vector<int> T = {OSL_SYMBOL_TYPE_ARRAY, OSL_SYMBOL_TYPE_ITERATOR, OSL_SYMBOL_TYPE_PARAMETER, OSL_SYMBOL_TYPE_FUNCTION, OSL_UNDEFINED};
      s->type = r == 2 && n == 1 ? g.pick(T, "type") : T[i];
      s->generated = num(i); s->nb_dims = 2;
      s->identifier = generic(OSL_URI_STRINGS, build_strings({"sym" + std::to_string(i)}));
      s->datatype = generic(OSL_URI_STRINGS, build_strings({"float", "int"}));
      s->scope = r == 0 || n == 2 ? generic(OSL_URI_STRINGS, build_strings({"sc"})) : generic(OSL_URI_RELATION, rel(g, OSL_TYPE_DOMAIN, prec, 2, 1));
      s->extent = generic(OSL_URI_BODY, body(g, 0));
      *t = s;
      t = &s->next;
    }
    return h;
  }
  if (u == OSL_URI_LOOP) {
    int n = r == 0 ? 1 : g(3, "loops");
    osl_loop_p h = nullptr, *t = &h;
    for (int i = 0; i < n; i++) {
      osl_loop_p l = fresh<osl_loop_t>();
      l->iter = mc::lstrdup(i ? "t2" : "i");
      int ns = r == 0 ? 2 : n == 1 ? g(r == 1 ? 3 : 4, "statements") : i + 1;
      vector<int> ids;
      for (int k = 0; k < ns; k++) ids.push_back(k == 2 ? 4 : 4 + k);
      l->nb_stmts = ns;
      l->stmt_ids = ids.empty() ? nullptr : ints_of(ids);
      int d = r == 0 ? 1 : n == 1 ? g(r == 1 ? 3 : 4, "directive") : i;
      l->directive = vector<int>{0, OSL_LOOP_DIRECTIVE_PARALLEL, OSL_LOOP_DIRECTIVE_USER | OSL_LOOP_DIRECTIVE_VECTOR, OSL_LOOP_DIRECTIVE_USER}[d];
      l->private_vars = d == 1 ? mc::lstrdup("lb, ub") : nullptr;
      l->user = d == 2 ? mc::lstrdup("my text") : nullptr;
      *t = l;
      t = &l->next;
    }
    return h;
  }
  if (u == OSL_URI_PLUTO_UNROLL) {
    int n = r == 0 ? 1 : g(3, "nodes");
    osl_pluto_unroll_p h = nullptr, *t = &h;
    for (int i = 0; i < n; i++) {
      osl_pluto_unroll_p l = fresh<osl_pluto_unroll_t>();
      l->iter = mc::lstrdup(i ? "kk" : "i");
      l->jam = r == 2 ? g(2, "jam") : i == 0;
      l->factor = 4 + i;
      *t = l;
      t = &l->next;
    }
    return h;
  }
  if (u == OSL_URI_REGION) {
    int n = r == 0 ? 1 : g(3, "regions");
    osl_region_t *h = nullptr, **t = &h;
    for (int i = 0; i < n; i++) {
      osl_region_t* l = fresh<osl_region_t>();
      l->location = 7 + i;
      int rr = n == 1 ? r : 0;
      region_text(&l->prefix, lines(g, rr, "pre"));
      region_text(&l->suffix, lines(g, rr, "suf"));
      region_text(&l->prelude, lines(g, rr > 1 ? 1 : rr, "prelude"));
      region_text(&l->postlude, lines(g, rr > 1 ? 1 : rr, "post"));
      *t = l;
      t = &l->next;
    }
    return h;
  }
  if (u == OSL_URI_ANNOTATION) {
    auto p = fresh<osl_annotation_t>();
    region_text(&p->prefix, lines(g, r, "pre"));
    region_text(&p->suffix, lines(g, r, "suf"));
    return p;
  }
  if (u == OSL_URI_IRREGULAR) {
    auto p = fresh<osl_irregular_t>();
    int ns = r == 0 ? 1 : g(3, "statements");
    p->nb_control = r == 0 ? 1 : g(2, "controls");
    p->nb_exit = r == 0 ? 1 : g(2, "exits");
    int np = p->nb_control + p->nb_exit;
    p->nb_iterators = (int*)mc::lalloc(np * sizeof(int));
    p->iterators = (char***)mc::lalloc(np * sizeof(char**));
    p->body = (char**)mc::lalloc(np * sizeof(char*));
    for (int i = 0; i < np; i++) {
      p->nb_iterators[i] = i + (r != 1);
      p->iterators[i] = (char**)mc::lalloc(p->nb_iterators[i] * sizeof(char*));
      for (int j = 0; j < p->nb_iterators[i]; j++) p->iterators[i][j] = mc::lstrdup(j ? "jt" : "it");
      p->body[i] = mc::lstrdup(i ? "i > 3" : "B[i] == 0");
    }
    p->nb_statements = ns;
    p->nb_predicates = (int*)mc::lalloc(ns * sizeof(int));
    p->predicates = (int**)mc::lalloc(ns * sizeof(int*));
    for (int i = 0; i < ns; i++) {
      p->nb_predicates[i] = 2 - i;
      p->predicates[i] = (int*)mc::lalloc(p->nb_predicates[i] * sizeof(int));
      for (int j = 0; j < p->nb_predicates[i]; j++) p->predicates[i][j] = 3 * i + j;
    }
    return p;
  }
  abort();
}
// extension list with the given URIs
inline osl_generic_p generics(G& g, const vector<string>& uris, int r, int prec = OSL_PRECISION_MP) {
  osl_generic_p h = nullptr, *t = &h;
  for (auto& u : uris) {
    *t = generic(u.c_str(), payload(g, u, r, prec));
    t = &(*t)->next;
  }
  return h;
}
inline osl_relation_list_p rlist(const vector<Rel>& v) {
  osl_relation_list_p h = nullptr, *t = &h;
  for (auto& m : v) {
    *t = fresh<osl_relation_list_t>();
    (*t)->elt = build(m);
    t = &(*t)->next;
  }
  return h;
}
inline osl_relation_list_p rlist(G& g, int prec, int tag, int r, int par = 1) {
  static const int T[] = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};
  int n = r == 0 ? 1 : g(3, "accesses");
  vector<Rel> v;
  for (int i = 0; i < n; i++) v.push_back(rel_model(g, T[(i + tag) % 3], prec, tag + i, r > 1 ? 1 : 0, par));
  return rlist(v);
}
inline osl_statement_p statement(G& g, int prec, int tag, int r, int par = 1) {
  osl_statement_p s = fresh<osl_statement_t>();
  int shape = r == 0 ? 0 : g(r == 1 ? 3 : 5, "statement shape");
  // 0 all, 1 no scattering, 2 no access, 3 nothing, 4 rich
  if (shape != 3) s->domain = rel(g, OSL_TYPE_DOMAIN, prec, tag, shape == 4 ? 1 : 0, par);
  if (shape != 1 && shape != 3) s->scattering = rel(g, OSL_TYPE_SCATTERING, prec, tag + 1, shape == 4 ? 1 : 0, par);
  if (shape != 2 && shape != 3) s->access = rlist(g, prec, tag + 2, shape == 4 ? 1 : 0, par);
  if (shape != 3) s->extension = generic(OSL_URI_BODY, body(g, 0, 2));
  if (shape == 4) s->extension->next = generic(OSL_URI_COMMENT, payload(g, OSL_URI_COMMENT, 0));
  return s;
}
inline osl_scop_p scop(G& g, int prec, int tag, int r) {
  osl_scop_p s = fresh<osl_scop_t>();
  s->version = 1;
  s->language = mc::lstrdup(tag % 2 ? "FORTRAN" : "C");
  int par = 1;
  s->context = rel(g, OSL_TYPE_CONTEXT, prec, tag, r > 1 ? 1 : 0, par);
  int pm = r == 0 ? 1 : g(2, "parameters");
  if (pm) s->parameters = generic(OSL_URI_STRINGS, build_strings({"N"}));
  int n = r == 0 ? 1 : g(3, "statements");
  osl_statement_p* t = &s->statement;
  for (int i = 0; i < n; i++) {
    *t = statement(g, prec, tag + 3 * i, n == 1 ? r : 0, par);
    t = &(*t)->next;
  }
  s->registry = osl_interface_get_default_registry();
  int x = r == 0 ? 1 : g(3, "extensions");
  static const vector<vector<string>> X = {{}, {OSL_URI_ARRAYS}, {OSL_URI_COORDINATES, OSL_URI_SCATNAMES}};
  s->extension = generics(g, X[x], 0, prec);
  return s;
}

// ---------------------------------------------------------- order-normal text
inline string sorted(vector<string> v) {
  std::sort(v.begin(), v.end());
  string s = "{";
  for (auto& x : v) s += x + ";";
  return s + "}";
}
string canon(const char* uri, const void* d);
inline string canon(const osl_interface_t* i) {
  vector<string> v;
  for (; i; i = i->next) {
    osl_interface_t one = *i;
    one.next = nullptr;
    v.push_back(text(&one));
  }
  return sorted(v);
}
inline string canon(const osl_generic_t* g) {
  vector<string> v;
  for (; g; g = g->next) v.push_back((g->interface ? text(g->interface) : string("noif")) + "=" + (g->interface ? canon(g->interface->URI, g->data) : string("?")));
  return sorted(v);
}
inline string canon(const char* uri, const void* d) {
  string u = uri ? uri : "";
  if (!d) return u == OSL_URI_TEXTUAL ? "textual" : "nodata";
  if (u == OSL_URI_COMMENT) return "comment";
  if (u == OSL_URI_TEXTUAL) return "textual";
  if (u == OSL_URI_ARRAYS) {
    auto a = (osl_arrays_t*)d;
    vector<string> v;
    for (int i = 0; i < a->nb_names; i++) v.push_back(std::to_string(a->id[i]) + quote(a->names[i]));
    return sorted(v);
  }
  if (u == OSL_URI_EXTBODY) {
    auto a = (osl_extbody_t*)d;
    vector<string> v;
    for (size_t i = 0; i < a->nb_access; i++) v.push_back(std::to_string(a->start[i]) + "+" + std::to_string(a->length[i]));
    return sorted(v) + text(a->body);
  }
  if (u == OSL_URI_LOOP) {
    vector<string> v;
    for (auto l = (osl_loop_t*)d; l; l = l->next) {
      vector<string> w;
      for (size_t i = 0; i < l->nb_stmts; i++) w.push_back(std::to_string(l->stmt_ids[i]));
      v.push_back(quote(l->iter) + sorted(w) + quote(l->private_vars) + std::to_string(l->directive) + quote(l->user));
    }
    return sorted(v);
  }
  if (u == OSL_URI_SYMBOLS) {
    string s;
    for (auto l = (osl_symbols_t*)d; l; l = l->next)
      s += std::to_string(l->type) + "," + std::to_string(l->generated) + "," + std::to_string(l->nb_dims) + canon(l->identifier) + canon(l->datatype) + canon(l->scope) + canon(l->extent) + ";";
    return s;
  }
  return md::payload(uri, d);
}
inline string canon(const osl_statement_t* s) {
  string r;
  for (; s; s = s->next) r += "D" + text(s->domain) + " S" + text(s->scattering) + " A" + text(s->access) + " E" + canon(s->extension) + "\n";
  return r;
}
inline string canon(const osl_scop_t* s) {
  string r;
  for (; s; s = s->next)
    r += std::to_string(s->version) + quote(s->language) + text(s->context) + canon(s->parameters) + canon(s->statement) + canon(s->registry) + canon(s->extension) + "\n";
  return r;
}

// ------------------------------------------------------------------ mutators
// One applicable single difference.  wf: the result is still a well-formed
// value that the textual format can hold.
struct Mut { string what; bool wf; std::function<void()> f; };
using Muts = vector<Mut>;
struct Slots {
  Muts v;
  int prec = OSL_PRECISION_MP;  // of added numbers
  bool deep;  // extreme values and lengths too
  static inline bool lean = false;  // fewer differences per field
  static inline int length = 0;     // only texts of this length
  struct Lean { Lean() { lean = !mc::thorough(); } ~Lean() { lean = false; } };
  explicit Slots(bool d = false, int p = OSL_PRECISION_MP) : prec(p), deep(d) {}
  void op(const string& w, bool wf, std::function<void()> f) { if (v.capacity() < 1024) v.reserve(1024); v.push_back(Mut{w, wf, std::move(f)}); }
  void num(const string& w, int* p, bool wf = true) {
    op(w + "+1", wf, [p] { ++*p; });
    if (*p && wf && !lean) op(w + " negated", true, [p] { *p = -*p; });
    if (deep) for (int x : {0, -1, INT_MAX, INT_MIN}) if (*p != x) op(w + "=" + std::to_string(x), wf, [p, x] { *p = x; });
  }
  void oneof(const string& w, int* p, const vector<int>& dom, bool wf = true) {
    for (int x : dom) if (*p != x) op(w + "=" + std::to_string(x), wf, [p, x] { *p = x; });
  }
  void str(const string& w, char** p, bool nullable = false, bool nullwf = false) {
    auto set = [p](const string& s) { mc::lfree(*p); *p = mc::lstrdup(s.c_str()); };
    if (int n = length) { op("length " + w, true, [=] { set(string(n, 'L')); }); return; }
    string old = *p ? *p : "";
    op(w + " prefixed", true, [=] { set("q" + old); });
    if (!old.empty()) op(w + " extended", true, [=] { set(old + "z"); });
    if (old.size() > 1) op(w + " shortened", true, [=] { set(old.substr(0, old.size() - 1)); });
    // differences a looser comparison (letter case, prefixes, lengths, checksums) would miss
    for (size_t i = 0; i < old.size() && !lean; i++)
      if (isalpha((unsigned char)old[i])) {
        string s = old;
        s[i] = char(s[i] ^ 0x20);
        op(w + " recased", true, [=] { set(s); });
        break;
      }
    if (old.size() > 1 && !lean) {
      auto other = [](string s, size_t i) { s[i] = s[i] == 'w' ? 'v' : 'w'; return s; };
      if (isalpha((unsigned char)old[0])) op(w + " first letter", true, [=] { set(other(old, 0)); });
      if (isalnum((unsigned char)old.back())) op(w + " last letter", true, [=] { set(other(old, old.size() - 1)); });
      if (isalpha((unsigned char)old[0]) && isalpha((unsigned char)old[1]) && old[0] != old[1]) op(w + " letters swapped", true, [=] { string s = old; std::swap(s[0], s[1]); set(s); });
    }
    if (deep) for (int n : {100, 2030, 2046, 2047, 2048, 2049, 4100, 9000}) op(w + " of length " + std::to_string(n), true, [=] { set(string(n, 'L')); });
    if (nullable && *p) op(w + " absent", nullwf, [p] { mc::lfree(*p); *p = nullptr; });
  }
  void list(const string& w, osl_strings_p* s, bool order = true) {
    (void)order;
    if (!*s) { op(w + " present", false, [s] { *s = build_strings({"new"}); }); return; }
    size_t n = see_strings(*s).size();
    for (size_t i = 0; i < n; i++) str(w + "[" + std::to_string(i) + "]", &(*s)->string[i]);
    op(w + " append", true, [s] { auto v = see_strings(*s); v.push_back("more"); re(s, v); });
    if (n) op(w + " drop last", n > 1, [s] { auto v = see_strings(*s); v.pop_back(); re(s, v); });
    if (n) op(w + " drop first", n > 1, [s] { auto v = see_strings(*s); v.erase(v.begin()); re(s, v); });
    if (n > 1) op(w + " swap", true, [s] { auto v = see_strings(*s); std::swap(v[0], v[1]); re(s, v); });
    op(w + " absent", false, [s] { osl_strings_p x = *s; *s = nullptr; kill(x); });
    if (deep) for (int k : {17, 300, 1500}) op(w + " of " + std::to_string(k) + " elements", true, [s, k] { re(s, seq("e", k)); });
  }
  static void kill(osl_strings_p x) {
    for (char** p = x->string; p && *p; ++p) mc::lfree(*p);
    mc::lfree(x->string);
    mc::lfree(x);
  }
  static void re(osl_strings_p* s, vector<string> v) { kill(*s); *s = build_strings(v); }

  void relation(const string& w, osl_relation_p* r, bool absent = true) {
    if (!*r) { int pr = prec; op(w + " present", false, [r, pr] { *r = build(part(OSL_TYPE_DOMAIN, 1, 0, 0, 1, {{"1", "2", "3", "4"}}, pr)); }); return; }
    auto redo = [](osl_relation_p* q, std::function<void(Rel&)> f) { Rel m = see(*q); osl_relation_free(*q); f(m); *q = build(m); };
    int k = 0;
    for (osl_relation_p q = *r; q; q = q->next, ++k) {
      string W = w + ".part" + std::to_string(k);
      for (int i = 0; i < q->nb_rows; i++)
        for (int j = 0; j < q->nb_columns; j++) {
          osl_int_t* x = &q->m[i][j];
          int prec = q->precision;
          string v = get(prec, *x);
          if (j && v != "0" && !lean) op(W + "[" + std::to_string(i) + "][" + std::to_string(j) + "] negated", true, [=] { put(prec, x, v[0] == '-' ? v.substr(1) : "-" + v); });
          if (j && i == 0 && !lean) op(W + "[" + std::to_string(i) + "][" + std::to_string(j) + "]+2^32", true, [=] { put(prec, x, std::to_string(atol(v.c_str()) + 4294967296L)); });
          op(W + "[" + std::to_string(i) + "][" + std::to_string(j) + "]", true, [=] { put(prec, x, j == 0 ? (get(prec, *x) == "0" ? "1" : "0") : std::to_string(atol(get(prec, *x).c_str()) + 1)); });
        }
      num(W + ".type", &q->type, false);
      num(W + ".out", &q->nb_output_dims, false);
      num(W + ".in", &q->nb_input_dims, false);
      num(W + ".loc", &q->nb_local_dims, false);
      num(W + ".par", &q->nb_parameters, false);
      if (q->nb_rows) op(W + " drop row", true, [=] { redo(r, [k](Rel& m) { m[k].m.pop_back(); m[k].rows--; }); });
      op(W + " add row", true, [=] { redo(r, [k](Rel& m) { m[k].m.push_back(Row(m[k].cols, "1")); m[k].rows++; }); });
      op(W + " add parameter", true, [=] { redo(r, [k](Rel& m) { for (auto& x : m[k].m) x.push_back("5"); m[k].cols++; m[k].par++; }); });
      if (q->nb_rows > 1) op(W + " swap rows", true, [=] { redo(r, [k](Rel& m) { std::swap(m[k].m[0], m[k].m[1]); }); });
    }
    op(w + " add part", true, [=] { redo(r, [](Rel& m) { m.push_back(m[0]); }); });
    if (k > 1) {
      op(w + " drop part", true, [=] { redo(r, [](Rel& m) { m.pop_back(); }); });
      op(w + " drop first part", true, [=] { redo(r, [](Rel& m) { m.erase(m.begin()); }); });
      op(w + " swap parts", true, [=] { redo(r, [](Rel& m) { std::swap(m[0], m[1]); }); });
    }
    if (absent) op(w + " absent", false, [r] { osl_relation_free(*r); *r = nullptr; });
  }
  void rlist_(const string& w, osl_relation_list_p* l) {
    int k = 0;
    for (osl_relation_list_p x = *l; x; x = x->next, ++k) relation(w + "[" + std::to_string(k) + "]", &x->elt);
    int pr = prec;
    op(w + " append", true, [l, pr] { osl_relation_list_p* t = l; while (*t) t = &(*t)->next; *t = rlist({{part(OSL_TYPE_READ, 1, 2, 0, 1, {{"0", "-1", "0", "0", "0", "1"}}, pr)}}); });
    if (*l) op(w + " drop first", true, [l] { osl_relation_list_p x = *l; *l = x->next; osl_relation_free(x->elt); mc::lfree(x); });
    if (*l) op(w + " drop last", true, [l] { osl_relation_list_p* t = l; while ((*t)->next) t = &(*t)->next; osl_relation_free((*t)->elt); mc::lfree(*t); *t = nullptr; });
    if (*l && (*l)->next) op(w + " swap", true, [l] { std::swap((*l)->elt, (*l)->next->elt); });
  }
  void body_(const string& w, osl_body_p* b) {
    if (!*b) return;
    list(w + ".iterators", &(*b)->iterators);
    osl_strings_p* e = &(*b)->expression;
    if (*e) for (size_t i = 0; i < see_strings(*e).size(); i++) str(w + ".expression" + std::to_string(i), &(*e)->string[i]);
    if (*e) op(w + ".expression more", false, [e] { auto v = see_strings(*e); v.push_back("extra"); re(e, v); });
    op(w + ".expression absent", false, [e] { osl_strings_p x = *e; *e = nullptr; if (x) kill(x); });
  }
  template <class T>
  void rtext(const string& w, T* t) {
    for (size_t i = 0; i < t->count; i++) {
      num(w + ".type" + std::to_string(i), &t->types[i]);
      str(w + ".line" + std::to_string(i), &t->lines[i]);
    }
    auto redo = [t](std::function<void(Lines&)> f) {
      Lines l;
      for (size_t i = 0; i < t->count; i++) { l.push_back({t->types[i], t->lines[i]}); mc::lfree(t->lines[i]); }
      mc::lfree(t->types);
      mc::lfree(t->lines);
      f(l);
      region_text(t, l);
    };
    op(w + " append", true, [=] { redo([](Lines& l) { l.push_back({1, "appended line"}); }); });
    if (t->count) op(w + " drop", true, [=] { redo([](Lines& l) { l.pop_back(); }); });
    if (t->count > 1) op(w + " swap", true, [=] { redo([](Lines& l) { std::swap(l[0], l[1]); }); });
    if (deep) op(w + " of 300 lines", true, [=] { redo([](Lines& l) { for (int i = 0; i < 300; i++) l.push_back({i, "ln" + std::to_string(i)}); }); });
  }
  template <class T>
  void nodes(const string& w, T** h, std::function<T*()> mk, std::function<void(T*)> del) {
    op(w + " append", true, [=] { T** t = h; while (*t) t = &(*t)->next; *t = mk(); });
    op(w + " prepend", true, [=] { T* n = mk(); n->next = *h; *h = n; });
    if (deep) op(w + " of 60 elements", true, [=] { for (int i = 0; i < 60; i++) { T* n = mk(); n->next = *h; *h = n; } });
    if (*h) op(w + " drop first", true, [=] { T* x = *h; *h = x->next; x->next = nullptr; del(x); });
    if (*h && (*h)->next) {
      op(w + " drop last", true, [=] { T** t = h; while ((*t)->next) t = &(*t)->next; del(*t); *t = nullptr; });
      op(w + " swap", true, [=] { T* a = *h; T* b = a->next; a->next = b->next; b->next = a; *h = b; });
    }
  }
  // an int array held in *p with its count
  void arr(const string& w, int* p, size_t n) { for (size_t i = 0; i < n; i++) num(w + "[" + std::to_string(i) + "]", &p[i]); }

  void payload_(const string& u, void** d, Ctx& c) {
    if (!*d && u != OSL_URI_LOOP && u != OSL_URI_PLUTO_UNROLL && u != OSL_URI_REGION && u != OSL_URI_DEPENDENCE && u != OSL_URI_SYMBOLS) return;
    int pr = prec;
    auto mk = [u, &c, pr] { G g(c); return gn::payload(g, u, 0, pr); };
    auto del = [u](void* x) { osl_interface_p i = kind(u).itf(); i->free(x); osl_interface_free(i); };
    if (u == OSL_URI_STRINGS) { list(u, (osl_strings_p*)d); return; }
    if (u == OSL_URI_BODY) { body_(u, (osl_body_p*)d); return; }
    if (u == OSL_URI_RELATION) { relation(u, (osl_relation_p*)d, false); return; }
    if (u == OSL_URI_COMMENT) { str(u, &((osl_comment_t*)*d)->comment, true); return; }
    if (u == OSL_URI_CLAY) { str(u, &((osl_clay_t*)*d)->script, true); return; }
    if (u == OSL_URI_TEXTUAL) { str(u, &((osl_textual_t*)*d)->textual, true); return; }
    if (u == OSL_URI_NULL) return;
    if (u == OSL_URI_SCATNAMES) { list(u, &((osl_scatnames_t*)*d)->names); return; }
    if (u == OSL_URI_SCATINFOS) {
      auto p = (osl_scatinfos_t*)*d;
      arr("parallel", p->parallel, p->nb_scatdims); arr("permutable", p->permutable, p->nb_scatdims); arr("type", p->type, p->nb_scatdims);
      auto resize = [p](int n) {
        for (int** a : {&p->parallel, &p->permutable, &p->type}) {
          vector<int> v(*a, *a + p->nb_scatdims);
          v.resize(n, 1);
          mc::lfree(*a);
          *a = ints_of(v);
        }
        p->nb_scatdims = n;
      };
      op("more dims", true, [=] { resize((int)p->nb_scatdims + 1); });
      if (p->nb_scatdims) op("fewer dims", true, [=] { resize((int)p->nb_scatdims - 1); });
      if (deep) op("1200 dims", true, [=] { resize(1200); });
      return;
    }
    if (u == OSL_URI_ARRAYS) {
      auto p = (osl_arrays_t*)*d;
      for (int i = 0; i < p->nb_names; i++) { num("id" + std::to_string(i), &p->id[i]); str("name" + std::to_string(i), &p->names[i]); }
      auto redo = [p](std::function<void(vector<std::pair<int, string>>&)> f) {
        vector<std::pair<int, string>> v;
        for (int i = 0; i < p->nb_names; i++) { v.push_back({p->id[i], p->names[i]}); mc::lfree(p->names[i]); }
        mc::lfree(p->id); mc::lfree(p->names);
        f(v);
        p->nb_names = (int)v.size();
        p->id = (int*)mc::lalloc(v.size() * sizeof(int));
        p->names = (char**)mc::lalloc(v.size() * sizeof(char*));
        for (size_t i = 0; i < v.size(); i++) { p->id[i] = v[i].first; p->names[i] = mc::lstrdup(v[i].second.c_str()); }
      };
      using V = vector<std::pair<int, string>>;
      op("add array", true, [=] { redo([](V& v) { v.push_back({7, "new"}); }); });
      if (p->nb_names) op("duplicate array", true, [=] { redo([](V& v) { v.push_back(v[0]); }); });
      if (p->nb_names) op("drop array", true, [=] { redo([](V& v) { v.erase(v.begin()); }); });
      if (p->nb_names > 1) op("swap arrays", true, [=] { redo([](V& v) { std::swap(v[0], v[1]); }); });
      if (p->nb_names > 1) op("swap names", true, [=] { redo([](V& v) { std::swap(v[0].second, v[1].second); }); });
      if (p->nb_names > 1) op("repeat first", true, [=] { redo([](V& v) { v[1] = v[0]; }); });
      if (deep) op("400 arrays", true, [=] { redo([](V& v) { for (int i = 0; i < 400; i++) v.push_back({i + 10, "arr" + std::to_string(i)}); }); });
      return;
    }
    if (u == OSL_URI_COORDINATES) {
      auto p = (osl_coordinates_t*)*d;
      str("file", &p->name, true);
      num("line_start", &p->line_start); num("line_end", &p->line_end); num("column_start", &p->column_start);
      num("column_end", &p->column_end); num("indent", &p->indent);
      return;
    }
    if (u == OSL_URI_EXTBODY) {
      auto p = (osl_extbody_t*)*d;
      arr("start", p->start, p->nb_access); arr("length", p->length, p->nb_access);
      body_("body", &p->body);
      auto redo = [p](std::function<void(vector<std::pair<int, int>>&)> f) {
        vector<std::pair<int, int>> v;
        for (size_t i = 0; i < p->nb_access; i++) v.push_back({p->start[i], p->length[i]});
        f(v);
        mc::lfree(p->start); mc::lfree(p->length);
        p->nb_access = v.size();
        p->start = (int*)mc::lalloc(v.size() * sizeof(int));
        p->length = (int*)mc::lalloc(v.size() * sizeof(int));
        for (size_t i = 0; i < v.size(); i++) { p->start[i] = v[i].first; p->length[i] = v[i].second; }
      };
      using V = vector<std::pair<int, int>>;
      op("add segment", true, [=] { redo([](V& v) { v.push_back({40, 2}); }); });
      if (p->nb_access) op("duplicate segment", true, [=] { redo([](V& v) { v.push_back(v[0]); }); });
      if (p->nb_access) op("drop segment", true, [=] { redo([](V& v) { v.pop_back(); }); });
      if (p->nb_access > 1) op("swap segments", true, [=] { redo([](V& v) { std::swap(v[0], v[1]); }); });
      if (p->nb_access > 1) op("swap starts", true, [=] { redo([](V& v) { std::swap(v[0].first, v[1].first); }); });
      if (p->nb_access > 1) op("repeat first", true, [=] { redo([](V& v) { v[1] = v[0]; }); });
      if (deep) op("700 segments", true, [=] { redo([](V& v) { for (int i = 0; i < 700; i++) v.push_back({i, i * 3}); }); });
      return;
    }
    if (u == OSL_URI_DEPENDENCE) {
      int k = 0;
      for (auto p = (osl_dependence_t*)*d; p; p = p->next, ++k) {
        string w = "dep" + std::to_string(k) + ".";
        num(w + "label_source", &p->label_source); num(w + "label_target", &p->label_target);
        num(w + "ref_source", &p->ref_source); num(w + "ref_target", &p->ref_target); num(w + "depth", &p->depth);
        oneof(w + "type", &p->type, {OSL_DEPENDENCE_RAW, OSL_DEPENDENCE_WAR, OSL_DEPENDENCE_WAW, OSL_DEPENDENCE_RAR, OSL_DEPENDENCE_RAW_SCALPRIV, OSL_UNDEFINED});
        relation(w + "domain", &p->domain);
        num(w + "so_d", &p->source_nb_output_dims_domain); num(w + "so_a", &p->source_nb_output_dims_access);
        num(w + "to_d", &p->target_nb_output_dims_domain); num(w + "to_a", &p->target_nb_output_dims_access);
        num(w + "sl_d", &p->source_nb_local_dims_domain); num(w + "sl_a", &p->source_nb_local_dims_access);
        num(w + "tl_d", &p->target_nb_local_dims_domain); num(w + "tl_a", &p->target_nb_local_dims_access);
      }
      nodes<osl_dependence_t>("deps", (osl_dependence_p*)d, [mk] { return (osl_dependence_t*)mk(); }, [del](osl_dependence_t* x) { del(x); });
      return;
    }
    if (u == OSL_URI_SYMBOLS) {
      int k = 0;
      for (auto p = (osl_symbols_t*)*d; p; p = p->next, ++k) {
        string w = "sym" + std::to_string(k) + ".";
        oneof(w + "type", &p->type, {OSL_SYMBOL_TYPE_ITERATOR, OSL_SYMBOL_TYPE_PARAMETER, OSL_SYMBOL_TYPE_ARRAY, OSL_SYMBOL_TYPE_FUNCTION, OSL_UNDEFINED});
        if (p->type != OSL_UNDEFINED) oneof(w + "type", &p->type, {77, -2}, false);
        num(w + "generated", &p->generated); num(w + "nb_dims", &p->nb_dims);
        generic_(w + "identifier", &p->identifier, c); generic_(w + "datatype", &p->datatype, c);
        generic_(w + "scope", &p->scope, c); generic_(w + "extent", &p->extent, c);
      }
      nodes<osl_symbols_t>("symbols", (osl_symbols_p*)d, [mk] { return (osl_symbols_t*)mk(); }, [del](osl_symbols_t* x) { del(x); });
      return;
    }
    if (u == OSL_URI_LOOP) {
      int k = 0;
      for (auto p = (osl_loop_t*)*d; p; p = p->next, ++k) {
        string w = "loop" + std::to_string(k) + ".";
        str(w + "iter", &p->iter);
        arr(w + "stmt", p->stmt_ids, p->nb_stmts);
        auto redo = [p](std::function<void(vector<int>&)> f) {
          vector<int> v(p->stmt_ids, p->stmt_ids + p->nb_stmts);
          f(v);
          mc::lfree(p->stmt_ids);
          p->stmt_ids = ints_of(v);
          p->nb_stmts = v.size();
        };
        op(w + "add stmt", true, [=] { redo([](vector<int>& v) { v.push_back(77); }); });
        if (p->nb_stmts) op(w + "drop stmt", true, [=] { redo([](vector<int>& v) { v.pop_back(); }); });
        if (p->nb_stmts > 1) op(w + "swap stmts", true, [=] { redo([](vector<int>& v) { std::swap(v[0], v[1]); }); });
        if (p->nb_stmts > 1) op(w + "repeat stmt", true, [=] { redo([](vector<int>& v) { v[1] = v[0]; }); });
        if (deep) op(w + "500 stmts", true, [=] { redo([](vector<int>& v) { for (int i = 0; i < 500; i++) v.push_back(i); }); });
        str(w + "private", &p->private_vars, true, true);
        bool usr = p->directive & OSL_LOOP_DIRECTIVE_USER;
        // the user string is part of the format only with the user directive
        size_t b = v.size();
        str(w + "user", &p->user, true, true);
        if (!usr) for (; b < v.size(); b++) v[b].wf = false;
        op(w + "directive^1", true, [p] { p->directive ^= 1; });
        op(w + "directive^vector", true, [p] { p->directive ^= OSL_LOOP_DIRECTIVE_VECTOR; });
      }
      nodes<osl_loop_t>("loops", (osl_loop_p*)d, [mk] { return (osl_loop_t*)mk(); }, [del](osl_loop_t* x) { del(x); });
      return;
    }
    if (u == OSL_URI_PLUTO_UNROLL) {
      int k = 0;
      for (auto p = (osl_pluto_unroll_t*)*d; p; p = p->next, ++k) {
        string w = "unroll" + std::to_string(k) + ".";
        str(w + "iter", &p->iter, true);
        op(w + "jam", true, [p] { p->jam = !p->jam; });
        op(w + "factor", true, [p] { p->factor++; });
        if (deep) op(w + "factor max", true, [p] { p->factor = INT_MAX; });
      }
      nodes<osl_pluto_unroll_t>("unrolls", (osl_pluto_unroll_p*)d, [mk] { return (osl_pluto_unroll_t*)mk(); }, [del](osl_pluto_unroll_t* x) { del(x); });
      return;
    }
    if (u == OSL_URI_REGION) {
      int k = 0;
      for (auto p = (osl_region_t*)*d; p; p = p->next, ++k) {
        string w = "region" + std::to_string(k) + ".";
        num(w + "location", &p->location);
        rtext(w + "prefix", &p->prefix); rtext(w + "suffix", &p->suffix); rtext(w + "prelude", &p->prelude); rtext(w + "postlude", &p->postlude);
      }
      nodes<osl_region_t>("regions", (osl_region_t**)d, [mk] { return (osl_region_t*)mk(); }, [del](osl_region_t* x) { del(x); });
      return;
    }
    if (u == OSL_URI_ANNOTATION) {
      auto p = (osl_annotation_t*)*d;
      rtext("prefix", &p->prefix); rtext("suffix", &p->suffix);
      return;
    }
    if (u == OSL_URI_IRREGULAR) {
      auto p = (osl_irregular_t*)*d;
      for (int i = 0; i < p->nb_statements; i++) arr("predicates" + std::to_string(i), p->predicates[i], p->nb_predicates[i]);
      for (int i = 0; i < p->nb_control + p->nb_exit; i++) {
        str("body" + std::to_string(i), &p->body[i]);
        for (int j = 0; j < p->nb_iterators[i]; j++) str("iter" + std::to_string(i) + "," + std::to_string(j), &p->iterators[i][j]);
      }
      if (p->nb_control && p->nb_exit) { op("control/exit", true, [p] { p->nb_control++; p->nb_exit--; }); }
      if (p->nb_statements > 0) op("drop statement", true, [p] { mc::lfree(p->predicates[--p->nb_statements]); });
      for (int i = 0; i < p->nb_statements; i++) if (p->nb_predicates[i]) op("drop predicate" + std::to_string(i), true, [p, i] { p->nb_predicates[i]--; });
      for (int i = 0; i < p->nb_control + p->nb_exit; i++) if (p->nb_iterators[i]) op("drop iterator" + std::to_string(i), true, [p, i] { mc::lfree(p->iterators[i][--p->nb_iterators[i]]); });
      return;
    }
  }
  void generic_(const string& w, osl_generic_p* g, Ctx& c) {
    for (osl_generic_p x = *g; x; x = x->next) if (x->interface) {
      size_t b = v.size();
      payload_(x->interface->URI, &x->data, c);
      for (; b < v.size(); b++) v[b].what = w + "/" + v[b].what;
    }
    bool has = false;
    for (osl_generic_p x = *g; x; x = x->next) has |= x->interface && !strcmp(x->interface->URI, OSL_URI_CLAY);
    Ctx* pc = &c;
    if (!has) {
      op(w + " append", false, [g, pc] { G k(*pc); osl_generic_p* t = g; while (*t) t = &(*t)->next; *t = generic(OSL_URI_CLAY, gn::payload(k, OSL_URI_CLAY, 0)); });
    }
    if (*g) op(w + " drop first", false, [g] { osl_generic_p x = *g; *g = x->next; x->next = nullptr; osl_generic_free(x); });
    if (*g && (*g)->next) op(w + " swap", true, [g] { osl_generic_p a = *g, b = a->next; a->next = b->next; b->next = a; *g = b; });
    if (*g && (*g)->next) op(w + " drop last", false, [g] { osl_generic_p* t = g; while ((*t)->next) t = &(*t)->next; osl_generic_free(*t); *t = nullptr; });
    if (*g) op(w + " other URI", false, [g] { mc::lfree((*g)->interface->URI); (*g)->interface->URI = mc::lstrdup("other"); });
  }
  void interface_(const string& w, osl_interface_p* i) {
    int k = 0;
    for (osl_interface_p x = *i; x; x = x->next, ++k) {
      string W = w + std::to_string(k);
      str(W + ".URI", &x->URI, true);
      op(W + ".idump", false, [x] { x->idump = x->idump ? nullptr : (osl_idump_f)osl_clay_idump; });
      op(W + ".sprint", false, [x] { x->sprint = nullptr; });
      op(W + ".sread", false, [x] { x->sread = nullptr; });
      op(W + ".malloc", false, [x] { x->malloc = nullptr; });
      op(W + ".free", false, [x] { x->free = nullptr; });
      op(W + ".clone", false, [x] { x->clone = nullptr; });
      op(W + ".equal", false, [x] { x->equal = nullptr; });
    }
    op(w + " append", true, [i] { osl_interface_p* t = i; while (*t) t = &(*t)->next; *t = osl_irregular_interface(); });
    if (*i) op(w + " drop first", true, [i] { osl_interface_p x = *i; *i = x->next; x->next = nullptr; osl_interface_free(x); });
    if (*i && (*i)->next) op(w + " swap", true, [i] { osl_interface_p a = *i, b = a->next; a->next = b->next; b->next = a; *i = b; });
  }
  void statement_(const string& w, osl_statement_p* s, Ctx& c) {
    int k = 0;
    for (osl_statement_p x = *s; x; x = x->next, ++k) {
      string W = w + std::to_string(k) + ".";
      relation(W + "domain", &x->domain);
      relation(W + "scattering", &x->scattering);
      rlist_(W + "access", &x->access);
      generic_(W + "extension", &x->extension, c);
    }
    Ctx* pc = &c;
    int pr = prec;
    nodes<osl_statement_t>(w, s, [pc, pr] { G g(*pc); return statement(g, pr, 5, 0); }, [](osl_statement_t* x) { osl_statement_free(x); });
  }
  void scop_(osl_scop_p* s, Ctx& c) {
    int k = 0;
    for (osl_scop_p x = *s; x; x = x->next, ++k) {
      string W = "scop" + std::to_string(k) + ".";
      num(W + "version", &x->version, false);
      str(W + "language", &x->language, true);
      relation(W + "context", &x->context);
      generic_(W + "parameters", &x->parameters, c);
      statement_(W + "statement", &x->statement, c);
      interface_(W + "registry", &x->registry);
      generic_(W + "extension", &x->extension, c);
    }
    Ctx* pc = &c;
    int pr = prec;
    nodes<osl_scop_t>("scops", s, [pc, pr] { G g(*pc); return scop(g, pr, 2, 0); }, [](osl_scop_t* x) { osl_scop_free(x); });
  }
};
}  // namespace gn
