// Everything that is supposed to look at a structure without touching it.
#pragma once
#include "subject.hpp"

namespace gn {
struct Env {
  osl_names_p names = nullptr;
  void* copy = nullptr;  // an equal, separate value
  osl_interface_p reg = nullptr;
};
struct Obs {
  string name;
  std::function<string(const void*, Env&)> f;
};
inline string S(long v) { return std::to_string(v); }
// dumps print addresses of functions
inline string noaddr(const string& s) {
  string r;
  for (size_t i = 0; i < s.size();) {
    if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') {
      i += 2;
      while (i < s.size() && isxdigit((unsigned char)s[i])) ++i;
      r += "@";
    } else r += s[i++];
  }
  return r;
}
inline vector<Obs> observers(const Subject& s) {
  vector<Obs> v;
  const Subject* sp = &s;
  auto ob = [&](const string& n, std::function<string(const void*, Env&)> f) { v.push_back({n, f}); };
  if (s.idump) {
    ob("idump 0", [sp](const void* x, Env&) { return printed([&](FILE* o) { sp->idump(o, x, 0); }); });
    ob("idump 2", [sp](const void* x, Env&) { return printed([&](FILE* o) { sp->idump(o, x, 2); }); });
  }
  if (s.print) ob("print", [sp](const void* x, Env&) { return sp->print(x); });
  if (s.equal) ob("equal", [sp](const void* x, Env& e) { return S(sp->equal(x, e.copy)) + S(sp->equal(e.copy, x)) + S(sp->equal(x, x)); });
  if (s.clone) ob("clone", [sp](const void* x, Env&) { void* y = sp->clone(x); string t = sp->text(y); if (y) sp->free(y); return t; });
  if (s.nclone) ob("nclone", [sp](const void* x, Env&) { if (!x) return string(); void* y = sp->nclone(x, 1); string t = sp->text(y); sp->free(y); return t; });
  auto att = [](std::function<void(int*, int*, int*, int*, int*)> f) {
    int a = OSL_UNDEFINED, b = OSL_UNDEFINED, c = OSL_UNDEFINED, d = OSL_UNDEFINED, e = OSL_UNDEFINED;
    f(&a, &b, &c, &d, &e);
    return S(a) + "," + S(b) + "," + S(c) + "," + S(d) + "," + S(e);
  };
  if (s.uri == OSL_URI_RELATION) {
    using R = const osl_relation_t*;
    ob("dump", [](const void* x, Env&) { return printed([&](FILE* o) { osl_relation_dump(o, (R)x); }); });
    ob("print file", [](const void* x, Env&) { return printed([&](FILE* o) { osl_relation_print(o, (R)x); }); });
    ob("pprint", [](const void* x, Env& e) { return printed([&](FILE* o) { osl_relation_pprint(o, (R)x, e.names); }); });
    ob("spprint", [](const void* x, Env& e) { return take(osl_relation_spprint((R)x, e.names)); });
    ob("spprint_polylib", [](const void* x, Env& e) { return take(osl_relation_spprint_polylib((R)x, e.names)); });
    ob("nb_components", [](const void* x, Env&) { return S(osl_relation_nb_components((R)x)); });
    ob("is_access", [](const void* x, Env&) { return S(osl_relation_is_access((R)x)); });
    ob("part_equal", [](const void* x, Env& e) { return S(osl_relation_part_equal((R)x, (R)e.copy)); });
    ob("get_array_id", [](const void* x, Env&) { return S(osl_relation_get_array_id((R)x)); });
    ob("get_attributes", [att](const void* x, Env&) { return att([&](int* a, int* b, int* c, int* d, int* e) { osl_relation_get_attributes((R)x, a, b, c, d, e); }); });
    ob("integrity_check", [](const void* x, Env&) { return S(osl_relation_integrity_check((R)x, OSL_TYPE_DOMAIN, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED)) + S(osl_relation_integrity_check((R)x, OSL_TYPE_ACCESS, 2, 2, 1)) + S(x ? osl_relation_integrity_check((R)x, ((R)x)->type, 2, 0, 1) : 0); });
    ob("extend_output", [](const void* x, Env&) { if (!x) return string(); int m = 0; for (R r = (R)x; r; r = r->next) m = std::max(m, r->nb_output_dims); auto y = osl_relation_extend_output((R)x, m + 1); string t = text(y); osl_relation_free(y); return t; });
    ob("clone_nconstraints", [](const void* x, Env&) { if (!x) return string(); auto y = osl_relation_clone_nconstraints((R)x, std::min(((R)x)->nb_rows, 1)); string t = text(y); osl_relation_free(y); return t; });
    ob("concat_constraints", [](const void* x, Env& e) { auto y = osl_relation_concat_constraints((R)x, (R)x); string t = y ? str(see(y)[0].m.empty() ? Row() : see(y)[0].m[0]) : ""; osl_relation_free(y); return t; });
    ob("list node", [](const void* x, Env&) { auto y = osl_relation_list_node((R)x); string t = text(y); osl_relation_list_free(y); return t; });
  }
  if (s.name == "relation_list") {
    using R = const osl_relation_list_t*;
    ob("dump", [](const void* x, Env&) { return printed([&](FILE* o) { osl_relation_list_dump(o, (R)x); }); });
    ob("pprint", [](const void* x, Env& e) { return printed([&](FILE* o) { osl_relation_list_pprint(o, (R)x, e.names); }); });
    ob("pprint_elts", [](const void* x, Env& e) { return printed([&](FILE* o) { osl_relation_list_pprint_elts(o, (R)x, e.names); }); });
    ob("count", [](const void* x, Env&) { return S((long)osl_relation_list_count((R)x)); });
    ob("concat", [](const void* x, Env& e) { auto y = osl_relation_list_concat((R)x, (R)e.copy); string t = text(y); osl_relation_list_free(y); return t; });
    ob("filter", [](const void* x, Env&) { string t; for (int k : {OSL_TYPE_ACCESS, OSL_TYPE_READ, OSL_TYPE_DOMAIN}) { auto y = osl_relation_list_filter((R)x, k); t += text(y); osl_relation_list_free(y); } return t; });
    ob("get_attributes", [att](const void* x, Env&) { return att([&](int* a, int* b, int* c, int* d, int* e) { osl_relation_list_get_attributes((R)x, a, b, c, d, e); }); });
    ob("integrity_check", [](const void* x, Env&) { return S(osl_relation_list_integrity_check((R)x, OSL_TYPE_ACCESS, 2, 2, 1)) + S(osl_relation_list_integrity_check((R)x, OSL_TYPE_READ, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED)); });
  }
  if (s.name == "generic") {
    using R = const osl_generic_t*;
    ob("sprint", [](const void* x, Env&) { return take(osl_generic_sprint((R)x)); });
    ob("count", [](const void* x, Env&) { return S(osl_generic_count((R)x)) + S(osl_generic_number((R)x)); });
    ob("lookup", [](const void* x, Env&) { return addr(osl_generic_lookup((R)x, OSL_URI_BODY)) + addr(osl_generic_lookup((R)x, "none")); });
    ob("has_URI", [](const void* x, Env&) { return x ? S(osl_generic_has_URI((R)x, OSL_URI_BODY)) : ""; });
  }
  if (s.name == "interface") {
    using R = const osl_interface_t*;
    ob("number", [](const void* x, Env&) { return S(osl_interface_number((R)x)); });
    ob("lookup", [](const void* x, Env&) { return addr(osl_interface_lookup((osl_interface_t*)x, OSL_URI_BODY)) + addr(osl_interface_lookup((osl_interface_t*)x, "none")); });
  }
  if (s.name == "statement") {
    using R = const osl_statement_t*;
    ob("dump", [](const void* x, Env&) { return printed([&](FILE* o) { osl_statement_dump(o, (R)x); }); });
    ob("pprint", [](const void* x, Env& e) { return printed([&](FILE* o) { osl_statement_pprint(o, (R)x, e.names); }); });
    ob("number", [](const void* x, Env&) { return S(osl_statement_number((R)x)); });
    ob("remove_unions", [](const void* x, Env&) { auto y = osl_statement_remove_unions((R)x); string t = text(y); osl_statement_free(y); return t; });
    ob("integrity_check", [](const void* x, Env&) { return S(osl_statement_integrity_check((R)x, 1)) + S(osl_statement_integrity_check((R)x, OSL_UNDEFINED)); });
    ob("get_nb_iterators", [](const void* x, Env&) { return x && ((R)x)->domain ? S(osl_statement_get_nb_iterators((R)x)) : ""; });
    ob("get_attributes", [att](const void* x, Env&) { return att([&](int* a, int* b, int* c, int* d, int* e) { osl_statement_get_attributes((R)x, a, b, c, d, e); }); });
    ob("get_body", [](const void* x, Env&) { return x ? addr(osl_statement_get_body((R)x)) : ""; });
  }
  if (s.name == "scop") {
    using R = const osl_scop_t*;
    ob("dump", [](const void* x, Env&) { return printed([&](FILE* o) { osl_scop_dump(o, (R)x); }); });
    ob("number", [](const void* x, Env&) { return S((long)osl_scop_number((R)x)); });
    ob("remove_unions", [](const void* x, Env&) { auto y = osl_scop_remove_unions((R)x); string t = text(y); osl_scop_free(y); return t; });
    ob("integrity_check", [](const void* x, Env&) { return S(osl_scop_integrity_check((R)x)); });
    ob("get_nb_parameters", [](const void* x, Env&) { return x && ((R)x)->context ? S(osl_scop_get_nb_parameters((R)x)) : ""; });
    ob("get_attributes", [att](const void* x, Env&) { return att([&](int* a, int* b, int* c, int* d, int* e) { osl_scop_get_attributes((R)x, a, b, c, d, e); }); });
    ob("names", [](const void* x, Env&) { auto y = osl_scop_names((R)x); string t = text(y); osl_names_free(y); return t; });
    ob("scoplib", [](const void* x, Env&) { if (!osl_scop_check_compatible_scoplib((R)x)) return string("incompatible"); return printed([&](FILE* o) { osl_scop_print_scoplib(o, (R)x); }); });
  }
  if (s.name == "names") ob("dump", [](const void* x, Env&) { return printed([&](FILE* o) { osl_names_dump(o, (const osl_names_t*)x); }); });
  if (s.uri == OSL_URI_STRINGS) {
    using R = const osl_strings_t*;
    ob("dump", [](const void* x, Env&) { return printed([&](FILE* o) { osl_strings_dump(o, (R)x); }); });
    ob("print file", [](const void* x, Env&) { return printed([&](FILE* o) { osl_strings_print(o, (R)x); }); });
    ob("size", [](const void* x, Env&) { return S((long)osl_strings_size((R)x)); });
    ob("find", [](const void* x, Env&) { return S((long)osl_strings_find((R)x, "a")) + S((long)osl_strings_find((R)x, "none")); });
  }
  if (s.uri == OSL_URI_BODY) {
    using R = const osl_body_t*;
    ob("dump", [](const void* x, Env&) { return printed([&](FILE* o) { osl_body_dump(o, (R)x); }); });
    ob("print file", [](const void* x, Env&) { return printed([&](FILE* o) { osl_body_print(o, (R)x); }); });
    ob("print_scoplib", [](const void* x, Env&) { return printed([&](FILE* o) { osl_body_print_scoplib(o, (R)x); }); });
  }
  if (s.uri == OSL_URI_ARRAYS) {
    using R = const osl_arrays_t*;
    ob("to_strings", [](const void* x, Env&) { auto y = osl_arrays_to_strings((R)x); string t = text(y); osl_strings_free(y); return t; });
    ob("index", [](const void* x, Env&) { return S((long)osl_arrays_get_index_from_id((R)x, 2)) + S((long)osl_arrays_get_index_from_name((R)x, "Bq")); });
  }
  if (s.uri == OSL_URI_DEPENDENCE) {
    ob("count", [](const void* x, Env&) { return S(osl_nb_dependences((const osl_dependence_t*)x)); });
    ob("print file", [](const void* x, Env&) { return printed([&](FILE* o) { osl_dependence_print(o, (const osl_dependence_t*)x); }); });
  }
  if (s.uri == OSL_URI_LOOP) ob("count", [](const void* x, Env&) { return S(osl_loop_count((const osl_loop_t*)x)); });
  if (s.uri == OSL_URI_REGION) ob("count", [](const void* x, Env&) { return S((long)osl_region_count((const osl_region_t*)x)); });
  if (s.uri == OSL_URI_SYMBOLS) ob("count", [](const void* x, Env&) { return S(osl_symbols_get_nb_symbols((const osl_symbols_t*)x)); });
  if (s.uri == OSL_URI_IRREGULAR) {
    using R = const osl_irregular_t*;
    ob("add_control", [](const void* x, Env&) { char a[] = "it"; char* it[] = {a}; auto y = osl_irregular_add_control((R)x, it, 1, "c > 0"); string t = md::payload(OSL_URI_IRREGULAR, y); osl_irregular_free(y); return t; });
    ob("add_exit", [](const void* x, Env&) { char a[] = "it"; char* it[] = {a}; auto y = osl_irregular_add_exit((R)x, it, 1, "c > 0"); string t = md::payload(OSL_URI_IRREGULAR, y); osl_irregular_free(y); return t; });
    ob("add_predicates", [](const void* x, Env&) { int p[] = {4, 5}; auto y = osl_irregular_add_predicates((R)x, p, 2); string t = md::payload(OSL_URI_IRREGULAR, y); osl_irregular_free(y); return t; });
  }
  return v;
}
}  // namespace gn
