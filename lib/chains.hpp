// Lists of small elements in which every field of every element is chosen on its own: what one element
// holds must not depend on the one before or behind it.
#pragma once
#include "subject.hpp"

namespace gn {
struct Chain { string uri; int bits; };  // the payload, and how many yes/no fields an element has
inline const vector<Chain>& chains() {
  static const vector<Chain> V = {{OSL_URI_DEPENDENCE, 7}, {OSL_URI_LOOP, 5}, {OSL_URI_SYMBOLS, 6}, {OSL_URI_PLUTO_UNROLL, 3}, {OSL_URI_REGION, 5}, {OSL_URI_EXTBODY, 2}, {OSL_URI_ARRAYS, 2}};
  return V;
}
inline void* chain(const string& u, int prec, const vector<int>& el) {
  auto bit = [](int e, int k) { return e >> k & 1; };
  if (u == OSL_URI_DEPENDENCE) {
    osl_dependence_p h = nullptr, *t = &h;
    for (int e : el) {
      osl_dependence_p d = fresh<osl_dependence_t>();
      d->type = bit(e, 0) ? OSL_DEPENDENCE_WAW : OSL_DEPENDENCE_RAW;
      d->label_source = 1 + bit(e, 1); d->label_target = 1 + bit(e, 2);
      d->ref_source = bit(e, 3) ? -1 : 1;
      d->depth = 1 + bit(e, 4);
      d->ref_target = bit(e, 6) ? 0 : 1;
      int* f[8] = {&d->source_nb_output_dims_domain, &d->source_nb_output_dims_access, &d->target_nb_output_dims_domain, &d->target_nb_output_dims_access,
                   &d->source_nb_local_dims_domain, &d->source_nb_local_dims_access, &d->target_nb_local_dims_domain, &d->target_nb_local_dims_access};
      for (int k = 0; k < 8; k++) *f[k] = bit(e, k % 3);
      d->domain = build(part(OSL_TYPE_DOMAIN, 1, 0, 0, 0, {{"1", "1", bit(e, 5) ? "-7" : "0"}}, prec));
      *t = d;
      t = &d->next;
    }
    return h;
  }
  if (u == OSL_URI_LOOP) {
    osl_loop_p h = nullptr, *t = &h;
    for (int e : el) {
      osl_loop_p l = fresh<osl_loop_t>();
      l->iter = mc::lstrdup(bit(e, 0) ? "j" : "i");
      vector<int> ids;
      for (int k = 0; k < 1 + bit(e, 1); k++) ids.push_back(3 - k);
      l->nb_stmts = ids.size();
      l->stmt_ids = ints_of(ids);
      l->directive = (bit(e, 2) ? OSL_LOOP_DIRECTIVE_PARALLEL : 0) | (bit(e, 4) ? OSL_LOOP_DIRECTIVE_USER : 0);
      l->private_vars = bit(e, 3) ? mc::lstrdup("lb") : nullptr;
      l->user = bit(e, 4) ? mc::lstrdup("my text") : nullptr;
      *t = l;
      t = &l->next;
    }
    return h;
  }
  if (u == OSL_URI_SYMBOLS) {
    osl_symbols_p h = nullptr, *t = &h;
    for (int e : el) {
      osl_symbols_p s = fresh<osl_symbols_t>();
      s->type = bit(e, 0) ? OSL_SYMBOL_TYPE_ARRAY : OSL_SYMBOL_TYPE_FUNCTION;
      s->generated = bit(e, 1);
      s->nb_dims = 1 + bit(e, 2);
      s->identifier = generic(OSL_URI_STRINGS, build_strings({bit(e, 3) ? "a" : "b"}));
      s->datatype = generic(OSL_URI_STRINGS, build_strings({bit(e, 4) ? "float" : "int"}));
      s->scope = generic(OSL_URI_STRINGS, build_strings({"sc"}));
      s->extent = bit(e, 5) ? generic(OSL_URI_STRINGS, build_strings({"n"})) : generic(OSL_URI_STRINGS, build_strings({"n", "m"}));
      *t = s;
      t = &s->next;
    }
    return h;
  }
  if (u == OSL_URI_PLUTO_UNROLL) {
    osl_pluto_unroll_p h = nullptr, *t = &h;
    for (int e : el) {
      osl_pluto_unroll_p l = fresh<osl_pluto_unroll_t>();
      l->iter = mc::lstrdup(bit(e, 0) ? "kk" : "i");
      l->jam = bit(e, 1);
      l->factor = 2 + 2 * bit(e, 2);
      *t = l;
      t = &l->next;
    }
    return h;
  }
  if (u == OSL_URI_REGION) {
    osl_region_t *h = nullptr, **t = &h;
    for (int e : el) {
      osl_region_t* l = fresh<osl_region_t>();
      l->location = 1 + bit(e, 0);
      if (bit(e, 1)) region_text(&l->prefix, {{1, "pre"}});
      if (bit(e, 2)) region_text(&l->suffix, {{2, "suf"}});
      if (bit(e, 3)) region_text(&l->prelude, {{1, "prelude"}});
      if (bit(e, 4)) region_text(&l->postlude, {{3, "post"}});
      *t = l;
      t = &l->next;
    }
    return h;
  }
  if (u == OSL_URI_EXTBODY) {
    auto p = fresh<osl_extbody_t>();
    vector<int> a, b;
    for (int e : el) { a.push_back(5 * bit(e, 0)); b.push_back(1 + bit(e, 1)); }
    p->nb_access = el.size(); p->start = ints_of(a); p->length = ints_of(b);
    auto y = fresh<osl_body_t>();
    y->iterators = build_strings({"i"});
    y->expression = build_strings({"f(i);"});
    p->body = y;
    return p;
  }
  if (u == OSL_URI_ARRAYS) {
    auto p = fresh<osl_arrays_t>();
    p->nb_names = (int)el.size();
    p->id = (int*)mc::lalloc(el.size() * sizeof(int));
    p->names = (char**)mc::lalloc(el.size() * sizeof(char*));
    for (size_t i = 0; i < el.size(); i++) { p->id[i] = 1 + bit(el[i], 0); p->names[i] = mc::lstrdup(bit(el[i], 1) ? "A" : "Bq"); }
    return p;
  }
  return nullptr;
}
// any elements: as many fields in play as keep the whole below 2^most values
inline vector<int> elements(Ctx& c, const Chain& k, int n, int most) {
  int bits = std::max(1, std::min(k.bits, n ? most / n : 1));
  vector<int> v;
  for (int i = 0; i < n; i++) v.push_back(c.choose(1 << bits, "element"));
  return v;
}
}  // namespace gn
