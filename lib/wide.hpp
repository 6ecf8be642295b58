// Structures larger than those of gen.hpp: long lists, unions of parts of different
// kinds and precisions, statements with many extensions, long texts.  Each is a
// fixed function of (kind, precision, variant), so equal separate copies can be built.
#pragma once
#include "subject.hpp"

namespace gn {
struct Wide {
  int prec, v;
  G g;
  int n = 0;
  Wide(Ctx& c, int prec, int v) : prec(prec), v(v), g(c) {}
  int val() { n++; return (n * 37 + v * 11) % 41 - 15; }
  string word(int len = 0) { n++; string s = "w" + std::to_string(n); while ((int)s.size() < len) s += char('a' + (n + s.size()) % 26); return s; }
  vector<string> words(int k, int len = 0) { vector<string> r; while (k--) r.push_back(word(len)); return r; }
  string prose(int lines_, int len) { string s; for (int i = 0; i < lines_; i++) s += word(len) + " " + word() + "\n"; return s; }
  int precision(int k) {  // the precision of part k
    if (v == 0) return prec;
    int i = prec == OSL_PRECISION_MP ? 0 : prec == OSL_PRECISION_DP ? 1 : 2;
    return PRECS[(i + k) % 3];
  }
  Part one(int type, int out, int in, int loc, int par, int rows, int pr) {
    bool acc = type >= OSL_TYPE_ACCESS && type <= OSL_TYPE_MAY_WRITE;
    vector<Row> m;
    for (int i = 0; i < rows; i++) {
      Row w;
      int cols = 2 + out + in + loc + par;
      for (int j = 0; j < cols; j++) w.push_back(j ? std::to_string(val()) : std::to_string(i % 2));
      if (acc) {
        w[0] = "0";
        w[1] = "0";
        if (i == 0) { w = Row(cols, "0"); w[1] = "-1"; w[cols - 1] = std::to_string(2 + v); }
      }
      m.push_back(w);
    }
    return part(type, out, in, loc, par, m, pr);
  }
  Rel relation_(int type, int parts, int rows, int par = 2) {
    Rel r;
    bool ctx = type == OSL_TYPE_CONTEXT, set = ctx || type == OSL_TYPE_DOMAIN;
    for (int k = 0; k < parts; k++) r.push_back(one(type, ctx ? 0 : 3, set ? 0 : 2, (k + v) % 3, par, 1 + (rows + k) % (rows + 1), precision(k)));
    return r;
  }
  osl_relation_p rel_(int type, int parts, int rows, int par = 2) { return build(relation_(type, parts, rows, par)); }
  osl_relation_list_p list_(int k, int par = 2) {
    static const int T[] = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_TYPE_READ};
    vector<Rel> r;
    for (int i = 0; i < k; i++) r.push_back(relation_(T[(i + v) % 4], 1 + i % 3, 3, par));
    return rlist(r);
  }
  osl_body_p body_() {
    osl_body_p b = fresh<osl_body_t>();
    b->iterators = build_strings(words(7));
    vector<string> e = {"A[" + word() + "] = " + word(300) + ";"};
    if (v) e.push_back(word() + "++;");
    b->expression = build_strings(e);
    return b;
  }
  template <class T>
  void text_(T* t, int k) {
    Lines l;
    for (int i = 0; i < k; i++) l.push_back({1 + i % 2, word(20) + " " + word(40 * i)});
    region_text(t, l);
  }
  template <class T, class F>
  T* chain(int k, F f) {
    T *h = nullptr, **t = &h;
    for (int i = 0; i < k; i++) { *t = fresh<T>(); f(*t, i); t = &(*t)->next; }
    return h;
  }
  void* make(const string& u) {
    if (u == OSL_URI_STRINGS) return build_strings(words(40, v ? 60 : 0));
    if (u == OSL_URI_BODY) return body_();
    if (u == OSL_URI_RELATION) return rel_(v == 2 ? OSL_TYPE_READ : OSL_TYPE_DOMAIN, 4, 5, 3);
    if (u == OSL_URI_COMMENT) { auto p = fresh<osl_comment_t>(); p->comment = mc::lstrdup(prose(40, 100).c_str()); return p; }
    if (u == OSL_URI_TEXTUAL) { auto p = fresh<osl_textual_t>(); p->textual = mc::lstrdup(prose(40, 100).c_str()); return p; }
    if (u == OSL_URI_CLAY) { auto p = fresh<osl_clay_t>(); p->script = mc::lstrdup(prose(40, 100).c_str()); return p; }
    if (u == OSL_URI_NULL) return fresh<osl_null_t>();
    if (u == OSL_URI_SCATNAMES) { auto p = fresh<osl_scatnames_t>(); p->names = build_strings(words(14, 9)); return p; }
    if (u == OSL_URI_SCATINFOS) {
      auto p = fresh<osl_scatinfos_t>();
      vector<int> a[3];
      for (int k = 0; k < 3; k++) for (int i = 0; i < 12; i++) a[k].push_back(v ? val() : (i + k) % 2);
      p->nb_scatdims = 12;
      p->parallel = ints_of(a[0]); p->permutable = ints_of(a[1]); p->type = ints_of(a[2]);
      return p;
    }
    if (u == OSL_URI_ARRAYS) {
      auto p = fresh<osl_arrays_t>();
      int k = 12;
      p->nb_names = k;
      p->id = (int*)mc::lalloc(k * sizeof(int));
      p->names = (char**)mc::lalloc(k * sizeof(char*));
      for (int i = 0; i < k; i++) { p->id[i] = v ? (i * 5) % 12 + 1 : i + 1; p->names[i] = mc::lstrdup(word(v == 2 ? 50 : 0).c_str()); }
      return p;
    }
    if (u == OSL_URI_COORDINATES) {
      auto p = fresh<osl_coordinates_t>();
      p->name = mc::lstrdup(word(v ? 900 : 200).c_str());
      p->line_start = 123456; p->line_end = 2000000000; p->column_start = 1; p->column_end = 80; p->indent = 12;
      return p;
    }
    if (u == OSL_URI_EXTBODY) {
      auto p = fresh<osl_extbody_t>();
      vector<int> a, b;
      for (int i = 0; i < 11; i++) { a.push_back(i * 9 % 11); b.push_back(3 + i * v); }
      p->nb_access = 11; p->start = ints_of(a); p->length = ints_of(b);
      p->body = body_();
      return p;
    }
    if (u == OSL_URI_DEPENDENCE) return chain<osl_dependence_t>(4, [&](osl_dependence_t* d, int i) {
      static const vector<int> T = {OSL_DEPENDENCE_RAW, OSL_DEPENDENCE_WAR, OSL_DEPENDENCE_WAW, OSL_DEPENDENCE_RAR, OSL_DEPENDENCE_RAW_SCALPRIV};
      int* f[12] = {&d->source_nb_output_dims_domain, &d->source_nb_output_dims_access, &d->target_nb_output_dims_domain, &d->target_nb_output_dims_access,
                    &d->source_nb_local_dims_domain, &d->source_nb_local_dims_access, &d->target_nb_local_dims_domain, &d->target_nb_local_dims_access,
                    &d->label_source, &d->label_target, &d->ref_source, &d->ref_target};
      for (auto p : f) *p = val() + 16;
      d->depth = i;
      d->type = T[(i + v) % 5];
      d->domain = rel_(OSL_TYPE_DOMAIN, 1 + i % 3, 4);
    });
    if (u == OSL_URI_SYMBOLS) return chain<osl_symbols_t>(4, [&](osl_symbols_t* s, int i) {
      static const int T[] = {OSL_SYMBOL_TYPE_ARRAY, OSL_SYMBOL_TYPE_ITERATOR, OSL_SYMBOL_TYPE_PARAMETER, OSL_SYMBOL_TYPE_FUNCTION};
      s->type = T[(i + v) % 4]; s->generated = i % 2; s->nb_dims = i;
      s->identifier = generic(OSL_URI_STRINGS, build_strings({word(12)}));
      s->datatype = generic(OSL_URI_STRINGS, build_strings(words(3)));
      s->scope = i % 2 ? generic(OSL_URI_STRINGS, build_strings(words(5))) : generic(OSL_URI_RELATION, rel_(OSL_TYPE_DOMAIN, 2, 3));
      s->extent = i % 2 ? generic(OSL_URI_RELATION, rel_(OSL_TYPE_DOMAIN, 1, 4)) : generic(OSL_URI_BODY, body_());
    });
    if (u == OSL_URI_LOOP) return chain<osl_loop_t>(4, [&](osl_loop_t* l, int i) {
      l->iter = mc::lstrdup(word(i * 10).c_str());
      vector<int> ids;
      for (int k = 0; k < 9; k++) ids.push_back(v ? (k * 4 + i) % 9 : k + i);
      l->nb_stmts = 9;
      l->stmt_ids = ints_of(ids);
      l->directive = vector<int>{OSL_LOOP_DIRECTIVE_PARALLEL, OSL_LOOP_DIRECTIVE_USER | OSL_LOOP_DIRECTIVE_VECTOR, 0, OSL_LOOP_DIRECTIVE_USER | OSL_LOOP_DIRECTIVE_PARALLEL}[(i + v) % 4];
      l->private_vars = i % 2 ? mc::lstrdup((word(30) + ", " + word()).c_str()) : nullptr;
      l->user = l->directive & OSL_LOOP_DIRECTIVE_USER ? mc::lstrdup((word(200) + " x").c_str()) : nullptr;
    });
    if (u == OSL_URI_PLUTO_UNROLL) return chain<osl_pluto_unroll_t>(5, [&](osl_pluto_unroll_t* l, int i) {
      l->iter = mc::lstrdup(word(i * 9).c_str()); l->jam = (i + v) % 2; l->factor = 2 + i;
    });
    if (u == OSL_URI_REGION) return chain<osl_region_t>(4, [&](osl_region_t* l, int i) {
      l->location = 3 + 2 * i;
      text_(&l->prefix, (i + v) % 5); text_(&l->suffix, 4 - i); text_(&l->prelude, 3); text_(&l->postlude, 1 + i);
    });
    if (u == OSL_URI_ANNOTATION) { auto p = fresh<osl_annotation_t>(); text_(&p->prefix, 6 - v); text_(&p->suffix, 4 + v); return p; }
    if (u == OSL_URI_IRREGULAR) {
      auto p = fresh<osl_irregular_t>();
      p->nb_control = 3 + v; p->nb_exit = 4 - v; p->nb_statements = 5;
      int np = p->nb_control + p->nb_exit;
      p->nb_iterators = (int*)mc::lalloc(np * sizeof(int));
      p->iterators = (char***)mc::lalloc(np * sizeof(char**));
      p->body = (char**)mc::lalloc(np * sizeof(char*));
      for (int i = 0; i < np; i++) {
        p->nb_iterators[i] = 1 + i % 4;
        p->iterators[i] = (char**)mc::lalloc(p->nb_iterators[i] * sizeof(char*));
        for (int j = 0; j < p->nb_iterators[i]; j++) p->iterators[i][j] = mc::lstrdup(word().c_str());
        p->body[i] = mc::lstrdup((word(30) + " > 0").c_str());
      }
      p->nb_predicates = (int*)mc::lalloc(5 * sizeof(int));
      p->predicates = (int**)mc::lalloc(5 * sizeof(int*));
      for (int i = 0; i < 5; i++) {
        p->nb_predicates[i] = (i + v) % 5;
        p->predicates[i] = (int*)mc::lalloc(std::max(p->nb_predicates[i], 1) * sizeof(int));
        for (int j = 0; j < p->nb_predicates[i]; j++) p->predicates[i][j] = val();
      }
      return p;
    }
    if (u == "relation_list") return list_(6);
    if (u == "generic") return extensions(v == 0 ? 18 : v == 1 ? 9 : 5, v * 3);
    if (u == "interface") {
      osl_interface_p i = osl_interface_get_default_registry();
      for (int k = 0; k < v * 4; k++) {  // in another order
        osl_interface_p a = i, *t = &i;
        i = a->next;
        a->next = nullptr;
        while (*t) t = &(*t)->next;
        *t = a;
      }
      return i;
    }
    if (u == "names") {
      auto p = fresh<osl_names_t>();
      p->parameters = build_strings(words(9)); p->iterators = build_strings(words(8)); p->scatt_dims = build_strings(words(12));
      p->local_dims = build_strings(words(7)); p->arrays = build_strings(words(11));
      return p;
    }
    if (u == "statement") return statements(4);
    if (u == "scop") return chain<osl_scop_t>(3, [&](osl_scop_t* s, int i) {
      s->version = i; s->language = mc::lstrdup(word(i * 40).c_str());
      s->context = rel_(OSL_TYPE_CONTEXT, 1 + i % 2, 3);
      s->parameters = generic(OSL_URI_STRINGS, build_strings(words(2)));
      s->statement = statements(i == 1 ? 3 : 1);
      s->registry = (osl_interface_p)make("interface");
      s->extension = extensions(3 + i, i * 5 + v);
    });
    fprintf(stderr, "harness: no wide %s\n", u.c_str());
    abort();
  }
  // k extensions of distinct kinds, from the first-th on
  osl_generic_p extensions(int k, int first, bool body = true) {
    osl_generic_p h = nullptr, *t = &h;
    vector<Kind> K;
    for (auto& x : kinds()) if (x.registered && (body || string(x.uri) != OSL_URI_BODY)) K.push_back(x);
    for (int i = 0; i < k; i++) {
      const Kind& x = K[(first + i) % K.size()];
      *t = generic(x.uri, gn::payload(g, x.uri, 0, prec));
      t = &(*t)->next;
    }
    return h;
  }
  osl_statement_p statements(int k) {
    return chain<osl_statement_t>(k, [&](osl_statement_t* s, int i) {
      s->domain = rel_(OSL_TYPE_DOMAIN, 1 + i % 3, 4);
      s->scattering = rel_(OSL_TYPE_SCATTERING, 1 + (i + v) % 3, 3);
      s->access = list_(i == 3 ? 4 : 1);
      s->extension = generic(OSL_URI_BODY, body_());
      s->extension->next = extensions(2 + i, 2 + 4 * i + v, false);
      if (v == 2) { osl_generic_p b = s->extension, *t = &s->extension; *t = b->next; b->next = nullptr; while (*t) t = &(*t)->next; *t = b; }
    });
  }
};
constexpr int WIDE = 3;
// the same handles, making a wide value of one of the variants
inline vector<Subject> wides() {
  vector<Subject> v = subjects();
  for (auto& s : v) {
    string n = s.name;
    if (!mc::thorough() && (n == "scop" || n == "statement" || n == "dependence" || n == "symbols" || n == "relation_list")) s.precisions = false;  // the variants mix them
    bool two = !mc::thorough() && (n == "scop" || n == "statement");
    s.make = [n, two](G& g, int prec, int) { Wide w(*g.c, prec, two ? 2 * g(2, "variant") : g(WIDE, "variant")); return w.make(n); };
  }
  return v;
}
}  // namespace gn
