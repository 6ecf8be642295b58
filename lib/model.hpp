// Plain reference representation of the library's structures and the bridge
// between it and the real ones.  The bridge reads and writes the public struct
// fields directly (never through the operations under test, except the
// allocators that hand out ready-to-use storage).
#pragma once
#include <gmp.h>
#include <osl/osl.h>
#include <osl/extensions/annotation.h>
#include <osl/extensions/region.h>

#include <string>
#include <vector>

#include "mc.hpp"

namespace md {
using std::string;
using std::vector;

static const int PRECS[3] = {OSL_PRECISION_MP, OSL_PRECISION_SP, OSL_PRECISION_DP};
inline const char* pname(int p) { return p == OSL_PRECISION_SP ? "SP" : p == OSL_PRECISION_DP ? "DP" : "MP"; }
inline const char* penv(int p) { return p == OSL_PRECISION_SP ? "32" : p == OSL_PRECISION_DP ? "64" : "0"; }

inline string get(int prec, const osl_int_t& v) {
  if (prec == OSL_PRECISION_SP) return std::to_string(v.sp);
  if (prec == OSL_PRECISION_DP) return std::to_string(v.dp);
  mpz_t& z = *(mpz_t*)v.mp;
  if (mpz_fits_slong_p(z)) return std::to_string(mpz_get_si(z));
  string s(mpz_sizeinbase(z, 10) + 3, 0);
  mpz_get_str(&s[0], 10, z);
  s.resize(strlen(s.c_str()));
  return s;
}
inline void put(int prec, osl_int_t* v, const string& s) {
  if (prec == OSL_PRECISION_SP) v->sp = strtol(s.c_str(), nullptr, 10);
  else if (prec == OSL_PRECISION_DP) v->dp = strtoll(s.c_str(), nullptr, 10);
  else mpz_set_str(*(mpz_t*)v->mp, s.c_str(), 10);
}

using Row = vector<string>;
struct Part {
  int type = OSL_TYPE_DOMAIN, prec = OSL_PRECISION_MP;
  int rows = 0, cols = 0;
  int out = 0, in = 0, loc = 0, par = 0;
  vector<Row> m;
  bool operator==(const Part& o) const {
    return type == o.type && prec == o.prec && rows == o.rows && cols == o.cols && out == o.out && in == o.in &&
           loc == o.loc && par == o.par && m == o.m;
  }
  bool operator!=(const Part& o) const { return !(*this == o); }
};
using Rel = vector<Part>;  // a union

inline Part part(int type, int out, int in, int loc, int par, vector<Row> m, int prec = OSL_PRECISION_MP) {
  Part p;
  p.type = type; p.out = out; p.in = in; p.loc = loc; p.par = par; p.prec = prec;
  p.cols = 2 + out + in + loc + par;
  p.rows = (int)m.size();
  p.m = std::move(m);
  return p;
}
// fills the matrix with values distinct per cell (first column 0/1)
inline Part labelled(int prec, int rows, int cols, int base, bool marker = true) {
  Part p;
  p.prec = prec; p.rows = rows; p.cols = cols;
  p.type = OSL_TYPE_GENERIC;
  p.out = 11; p.in = 12; p.loc = 13; p.par = 14;
  for (int i = 0; i < rows; i++) {
    Row r;
    for (int j = 0; j < cols; j++) r.push_back(std::to_string(j == 0 && marker ? (i + base) % 2 : base + 100 * i + j));
    p.m.push_back(r);
  }
  return p;
}
inline osl_relation_p build(const Part& p) {
  osl_relation_p r = osl_relation_pmalloc(p.prec, p.rows, p.cols);
  r->type = p.type;
  r->nb_output_dims = p.out; r->nb_input_dims = p.in; r->nb_local_dims = p.loc; r->nb_parameters = p.par;
  r->usr = nullptr;
  for (int i = 0; i < p.rows; i++)
    for (int j = 0; j < p.cols; j++) put(p.prec, &r->m[i][j], p.m[i][j]);
  return r;
}
inline osl_relation_p build(const Rel& u) {
  osl_relation_p h = nullptr, *t = &h;
  for (auto& p : u) { *t = build(p); t = &(*t)->next; }
  return h;
}
inline Part see_part(const osl_relation_t* r) {
  Part p;
  p.type = r->type; p.prec = r->precision; p.rows = r->nb_rows; p.cols = r->nb_columns;
  p.out = r->nb_output_dims; p.in = r->nb_input_dims; p.loc = r->nb_local_dims; p.par = r->nb_parameters;
  p.m.resize(p.rows);
  for (int i = 0; i < p.rows; i++)
    for (int j = 0; j < p.cols; j++) p.m[i].push_back(get(p.prec, r->m[i][j]));
  return p;
}
inline Rel see(const osl_relation_t* r) {
  Rel u;
  for (; r; r = r->next) u.push_back(see_part(r));
  return u;
}
inline string str(const Part& p) {
  string s = "{t" + std::to_string(p.type) + " " + pname(p.prec) + " " + std::to_string(p.rows) + "x" +
             std::to_string(p.cols) + " " + std::to_string(p.out) + "," + std::to_string(p.in) + "," +
             std::to_string(p.loc) + "," + std::to_string(p.par);
  for (auto& r : p.m) {
    s += " [";
    for (auto& v : r) s += v + " ";
    s += "]";
  }
  return s + "}";
}
inline string str(const Rel& u) {
  string s = "(";
  for (auto& p : u) s += str(p);
  return s + ")";
}
inline string text(const osl_relation_t* r) { return r ? str(see(r)) : "NULL"; }
// content only: precision excluded
inline string text_np(const osl_relation_t* r) {
  if (!r) return "NULL";
  Rel u = see(r);
  for (auto& p : u) p.prec = OSL_PRECISION_MP;
  return str(u);
}

// ---------------------------------------------------------------- vectors
inline osl_vector_p build_vec(int prec, const Row& v) {
  osl_vector_p x = osl_vector_pmalloc(prec, (int)v.size());
  for (size_t i = 0; i < v.size(); i++) put(prec, &x->v[i], v[i]);
  return x;
}
inline Row see_vec(const osl_vector_t* v) {
  Row r;
  for (int i = 0; i < v->size; i++) r.push_back(get(v->precision, v->v[i]));
  return r;
}
inline string str(const Row& r) {
  string s = "[";
  for (auto& v : r) s += v + " ";
  return s + "]";
}

// ---------------------------------------------------------------- strings
inline string quote(const char* s) { return s ? "'" + string(s) + "'" : string("NULL"); }
inline osl_strings_p build_strings(const vector<string>& v) {
  osl_strings_p s = (osl_strings_p)mc::lalloc(sizeof(osl_strings_t));
  s->string = (char**)mc::lalloc((v.size() + 1) * sizeof(char*));
  for (size_t i = 0; i < v.size(); i++) s->string[i] = mc::lstrdup(v[i].c_str());
  s->string[v.size()] = nullptr;
  return s;
}
inline vector<string> see_strings(const osl_strings_t* s) {
  vector<string> r;
  if (s && s->string)
    for (char** p = s->string; *p; ++p) r.push_back(*p);
  return r;
}
inline string text(const osl_strings_t* s) {
  if (!s) return "NULL";
  if (!s->string) return "(nostrings)";
  string r = "<";
  for (char** p = s->string; *p; ++p) r += quote(*p) + " ";
  return r + ">";
}
inline string text(const osl_names_t* n) {
  if (!n) return "NULL";
  return "names(" + text(n->parameters) + text(n->iterators) + text(n->scatt_dims) + text(n->local_dims) +
         text(n->arrays) + ")";
}
inline string text(const osl_relation_list_t* l) {
  string s = "[";
  for (; l; l = l->next) s += text(l->elt) + ";";
  return s + "]";
}

// ---------------------------------------------------------------- payloads
string payload(const char* uri, const void* data);
inline string text(const osl_interface_t* i) {
  string s = "if{";
  for (; i; i = i->next) {
    char b[256];
    snprintf(b, sizeof b, "%s:%p:%p:%p:%p:%p:%p:%p;", i->URI ? i->URI : "NULL", (void*)i->idump, (void*)i->sprint,
             (void*)i->sread, (void*)i->malloc, (void*)i->free, (void*)i->clone, (void*)i->equal);
    s += b;
  }
  return s + "}";
}
inline string uris(const osl_interface_t* i) {
  string s = "if{";
  for (; i; i = i->next) s += quote(i->URI) + ";";
  return s + "}";
}
inline string text(const osl_generic_t* g) {
  string s = "gen{";
  for (; g; g = g->next) {
    s += (g->interface ? string(g->interface->URI ? g->interface->URI : "NULL") : string("noif")) + "=";
    s += g->interface ? payload(g->interface->URI, g->data) : string(g->data ? "data" : "nodata");
    s += ";";
  }
  return s + "}";
}
inline string text(const osl_body_t* b) {
  return b ? "body(" + text(b->iterators) + text(b->expression) + ")" : "NULL";
}
inline string ints(const int* p, size_t n) {
  string s = "{";
  if (!p && n) return "{NULLARR}";
  for (size_t i = 0; i < n; i++) s += std::to_string(p[i]) + " ";
  return s + "}";
}
template <class T>
inline string region_text(const T& t) {
  string s = "(" + std::to_string(t.count);
  for (size_t i = 0; i < t.count; i++) s += " " + std::to_string(t.types[i]) + quote(t.lines[i]);
  return s + ")";
}
inline string payload(const char* uri, const void* d) {
  string u = uri ? uri : "";
  if (!d) return "nodata";
  if (u == OSL_URI_STRINGS) return text((const osl_strings_t*)d);
  if (u == OSL_URI_BODY) return text((const osl_body_t*)d);
  if (u == OSL_URI_RELATION) return text((const osl_relation_t*)d);
  if (u == OSL_URI_COMMENT) return "comment(" + quote(((osl_comment_t*)d)->comment) + ")";
  if (u == OSL_URI_CLAY) return "clay(" + quote(((osl_clay_t*)d)->script) + ")";
  if (u == OSL_URI_TEXTUAL) return "textual(" + quote(((osl_textual_t*)d)->textual) + ")";
  if (u == OSL_URI_SCATNAMES) return "scatnames(" + text(((osl_scatnames_t*)d)->names) + ")";
  if (u == OSL_URI_ARRAYS) {
    osl_arrays_t* a = (osl_arrays_t*)d;
    string s = "arrays(" + std::to_string(a->nb_names);
    for (int i = 0; i < a->nb_names; i++) s += " " + std::to_string(a->id[i]) + quote(a->names[i]);
    return s + ")";
  }
  if (u == OSL_URI_COORDINATES) {
    osl_coordinates_t* c = (osl_coordinates_t*)d;
    int v[5] = {c->line_start, c->line_end, c->column_start, c->column_end, c->indent};
    return "coord(" + quote(c->name) + ints(v, 5) + ")";
  }
  if (u == OSL_URI_EXTBODY) {
    osl_extbody_t* e = (osl_extbody_t*)d;
    return "extbody(" + text(e->body) + std::to_string(e->nb_access) + ints(e->start, e->nb_access) +
           ints(e->length, e->nb_access) + ")";
  }
  if (u == OSL_URI_SCATINFOS) {
    osl_scatinfos_t* e = (osl_scatinfos_t*)d;
    size_t n = e->nb_scatdims;
    return "scatinfos(" + std::to_string(n) + ints(e->parallel, n) + ints(e->permutable, n) + ints(e->type, n) + ")";
  }
  if (u == OSL_URI_LOOP) {
    string s = "loops(";
    for (osl_loop_t* l = (osl_loop_t*)d; l; l = l->next)
      s += quote(l->iter) + ints(l->stmt_ids, l->nb_stmts) + quote(l->private_vars) + std::to_string(l->directive) +
           quote(l->user) + ";";
    return s + ")";
  }
  if (u == OSL_URI_PLUTO_UNROLL) {
    string s = "unroll(";
    for (osl_pluto_unroll_t* l = (osl_pluto_unroll_t*)d; l; l = l->next)
      s += quote(l->iter) + (l->jam ? "jam" : "nojam") + std::to_string(l->factor) + ";";
    return s + ")";
  }
  if (u == OSL_URI_SYMBOLS) {
    string s = "symbols(";
    for (osl_symbols_t* l = (osl_symbols_t*)d; l; l = l->next) {
      s += std::to_string(l->type) + "," + std::to_string(l->generated) + "," + std::to_string(l->nb_dims) +
           text(l->identifier) + text(l->datatype) + text(l->scope) + text(l->extent) + ";";
    }
    return s + ")";
  }
  if (u == OSL_URI_DEPENDENCE) {
    string s = "deps(";
    for (osl_dependence_t* l = (osl_dependence_t*)d; l; l = l->next) {
      int v[14] = {l->label_source, l->label_target, l->ref_source, l->ref_target, l->depth, l->type,
                   l->source_nb_output_dims_domain, l->source_nb_output_dims_access, l->target_nb_output_dims_domain,
                   l->target_nb_output_dims_access, l->source_nb_local_dims_domain, l->source_nb_local_dims_access,
                   l->target_nb_local_dims_domain, l->target_nb_local_dims_access};
      s += ints(v, 14) + text(l->domain) + ";";
    }
    return s + ")";
  }
  if (u == OSL_URI_ANNOTATION) {
    osl_annotation_t* a = (osl_annotation_t*)d;
    return "annotation(" + region_text(a->prefix) + region_text(a->suffix) + ")";
  }
  if (u == OSL_URI_REGION) {
    string s = "regions(";
    for (osl_region_t* l = (osl_region_t*)d; l; l = l->next)
      s += std::to_string(l->location) + region_text(l->prefix) + region_text(l->suffix) + region_text(l->prelude) +
           region_text(l->postlude) + ";";
    return s + ")";
  }
  if (u == OSL_URI_IRREGULAR) {
    osl_irregular_t* r = (osl_irregular_t*)d;
    string s = "irregular(" + std::to_string(r->nb_control) + "," + std::to_string(r->nb_exit) + "," +
               std::to_string(r->nb_statements);
    for (int i = 0; i < r->nb_control + r->nb_exit; i++) {
      s += " p(";
      for (int j = 0; j < r->nb_iterators[i]; j++) s += quote(r->iterators[i][j]);
      s += quote(r->body[i]) + ")";
    }
    for (int i = 0; i < r->nb_statements; i++) s += " s" + ints(r->predicates[i], r->nb_predicates[i]);
    return s + ")";
  }
  if (u == OSL_URI_NULL) return "null";
  return "unknown-uri";
}
inline string text1(const osl_statement_t* s) {
  return "stmt(D" + text(s->domain) + " S" + text(s->scattering) + " A" + text(s->access) + " E" + text(s->extension) + ")";
}
inline string text(const osl_statement_t* s) {
  string r = "stmts{";
  for (; s; s = s->next) r += text1(s) + "\n";
  return r + "}";
}
inline string text1(const osl_scop_t* s) {
  return "scop(v" + std::to_string(s->version) + " " + quote(s->language) + " C" + text(s->context) + " P" +
         text(s->parameters) + " " + text(s->statement) + " R" + uris(s->registry) + " X" + text(s->extension) + ")";
}
inline string text(const osl_scop_t* s) {
  string r = "scops{";
  for (; s; s = s->next) r += text1(s) + "\n";
  return r + "}";
}
// Every pointer reachable through a relation/statement/... is identified by
// address too, so that "nothing moved" can be asserted by observers.
inline string addr(const void* p) {
  char b[32];
  snprintf(b, sizeof b, "%p", p);
  return b;
}
inline string deep(const osl_relation_t* r) {
  string s;
  for (; r; r = r->next) s += addr(r) + addr(r->m) + addr(r->usr) + str(see_part(r));
  return s;
}
}  // namespace md
