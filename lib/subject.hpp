// Every kind of library structure behind one uniform handle.
#pragma once
#include "gen.hpp"

namespace gn {
struct Subject {
  string name;
  std::function<void*(G&, int prec, int r)> make;
  std::function<void(void*)> free;
  std::function<bool(const void*, const void*)> equal;    // may be empty
  std::function<void*(const void*)> clone;                // may be empty
  std::function<void*(const void*, int)> nclone;          // may be empty
  std::function<string(const void*)> text;                // full content, ordered
  std::function<string(const void*)> canon;               // content up to documented order freedom
  std::function<void(Slots&, void**, Ctx&)> slots;
  std::function<void(FILE*, const void*, int)> idump;     // may be empty
  std::function<string(const void*)> print;               // may be empty
  bool precisions = false;                                // holds numbers of a chosen precision
  std::function<void**(void*)> next;                      // linked kinds
  string uri;                                             // payload kinds
  int maxr = 2;
};
#define GN_FREE(f, T) [](void* p) { f((T*)p); }
#define GN_EQ(f, T) [](const void* a, const void* b) { return (bool)f((const T*)a, (const T*)b); }
#define GN_CLONE(f, T) [](const void* a) { return (void*)f((const T*)a); }
#define GN_NCLONE(f, T) [](const void* a, int n) { return (void*)f((const T*)a, n); }
#define GN_TEXT(T) [](const void* a) { return text((const T*)a); }
#define GN_CANON(T) [](const void* a) { return canon((const T*)a); }
#define GN_DUMP(f, T) [](FILE* o, const void* a, int l) { f(o, (const T*)a, l); }
#define GN_PRINT(f, T) [](const void* a) { return printed([&](FILE* o) { f(o, (const T*)a); }); }

// representation of a list that does not depend on element counts == 0 vs NULL
inline osl_interface_p interfaces(G& g, int r) {
  int n = r == 0 ? 2 : g(4, "interfaces");
  osl_interface_p h = nullptr, *t = &h;
  static osl_interface_p (*const F[])() = {osl_strings_interface, osl_comment_interface, osl_body_interface};
  int s = r == 0 ? 0 : g(2, "first");
  for (int i = 0; i < n; i++) { *t = F[(i + s) % 3](); t = &(*t)->next; }
  return h;
}
inline osl_names_p names(G& g, int r) {
  osl_names_p n = fresh<osl_names_t>();
  osl_strings_p* f[] = {&n->parameters, &n->iterators, &n->scatt_dims, &n->local_dims, &n->arrays};
  int k = 0;
  for (auto p : f) *p = r == 2 && !g(2, "list present") ? nullptr : r == 1 && p == f[0] ? strings(g, 1) : build_strings({"v" + std::to_string(k++), "w"});
  return n;
}
inline vector<string> uris_for(G& g, int r) {
  static const vector<vector<string>> V = {{OSL_URI_CLAY, OSL_URI_BODY}, {}, {OSL_URI_SCATNAMES}, {OSL_URI_BODY, OSL_URI_CLAY}, {OSL_URI_ARRAYS, OSL_URI_LOOP, OSL_URI_COMMENT}};
  return r == 0 ? V[0] : V[g(5, "URIs")];
}
inline vector<Subject> subjects() {
  vector<Subject> v;
  for (auto& k : kinds()) {
    Subject s;
    string u = k.uri;
    s.name = s.uri = u;
    auto itf = k.itf;
    auto I = [itf] { static std::map<void*, osl_interface_t> cache;  // copied function pointers
                     auto it = cache.find((void*)itf);
                     if (it == cache.end()) { osl_interface_p p = itf(); osl_interface_t c = *p; osl_interface_free(p); it = cache.emplace((void*)itf, c).first; }
                     return it->second; };
    s.make = [u](G& g, int prec, int r) { return payload(g, u, r, prec); };
    s.free = [I](void* p) { I().free(p); };
    s.equal = [I](const void* a, const void* b) { return (bool)I().equal((void*)a, (void*)b); };
    s.clone = [I](const void* a) { return (void*)I().clone((void*)a); };
    s.text = [u](const void* a) { return md::payload(u.c_str(), a); };
    s.canon = [u](const void* a) { return canon(u.c_str(), a); };
    s.slots = [u](Slots& z, void** d, Ctx& c) { z.payload_(u, d, c); };
    s.idump = [I](FILE* o, const void* a, int l) { I().idump(o, (void*)a, l); };
    s.print = [I](const void* a) { return take(I().sprint((void*)a)); };
    s.precisions = u == OSL_URI_RELATION || u == OSL_URI_DEPENDENCE;
    if (u == OSL_URI_SYMBOLS) s.nclone = GN_NCLONE(osl_symbols_nclone, osl_symbols_t);
    if (u == OSL_URI_RELATION) s.slots = [](Slots& z, void** d, Ctx&) { z.relation("relation", (osl_relation_p*)d); };
#define GN_NEXT(T) [](void* p) { return (void**)&((T*)p)->next; }
    if (u == OSL_URI_SYMBOLS) s.next = GN_NEXT(osl_symbols_t);
    if (u == OSL_URI_RELATION) s.next = GN_NEXT(osl_relation_t);
    if (u == OSL_URI_RELATION) s.nclone = GN_NCLONE(osl_relation_nclone, osl_relation_t);
    if (u == OSL_URI_LOOP) s.next = GN_NEXT(osl_loop_t);
    if (u == OSL_URI_REGION) s.next = GN_NEXT(osl_region_t);
    if (u == OSL_URI_DEPENDENCE) s.next = GN_NEXT(osl_dependence_t);
    if (u == OSL_URI_PLUTO_UNROLL) s.next = GN_NEXT(osl_pluto_unroll_t);
    v.push_back(s);
  }
  {
    Subject s;
    s.name = "relation_list";
    s.next = GN_NEXT(osl_relation_list_t);
    s.make = [](G& g, int prec, int r) { return (void*)rlist(g, prec, 1, r); };
    s.free = GN_FREE(osl_relation_list_free, osl_relation_list_t);
    s.equal = GN_EQ(osl_relation_list_equal, osl_relation_list_t);
    s.clone = GN_CLONE(osl_relation_list_clone, osl_relation_list_t);
    s.text = s.canon = GN_TEXT(osl_relation_list_t);
    s.slots = [](Slots& z, void** d, Ctx&) { z.rlist_("list", (osl_relation_list_p*)d); };
    s.idump = GN_DUMP(osl_relation_list_idump, osl_relation_list_t);
    s.print = GN_PRINT(osl_relation_list_print, osl_relation_list_t);
    s.precisions = true;
    v.push_back(s);
  }
  {
    Subject s;
    s.name = "generic";
    s.next = GN_NEXT(osl_generic_t);
    s.make = [](G& g, int prec, int r) { return (void*)generics(g, uris_for(g, r), r > 1 ? 1 : 0, prec); };
    s.free = GN_FREE(osl_generic_free, osl_generic_t);
    s.equal = GN_EQ(osl_generic_equal, osl_generic_t);
    s.clone = GN_CLONE(osl_generic_clone, osl_generic_t);
    s.nclone = GN_NCLONE(osl_generic_nclone, osl_generic_t);
    s.text = GN_TEXT(osl_generic_t);
    s.canon = GN_CANON(osl_generic_t);
    s.slots = [](Slots& z, void** d, Ctx& c) { z.generic_("generic", (osl_generic_p*)d, c); };
    s.idump = GN_DUMP(osl_generic_idump, osl_generic_t);
    s.print = GN_PRINT(osl_generic_print, osl_generic_t);
    v.push_back(s);
  }
  {
    Subject s;
    s.name = "interface";
    s.next = GN_NEXT(osl_interface_t);
    s.make = [](G& g, int, int r) { return (void*)interfaces(g, r); };
    s.free = GN_FREE(osl_interface_free, osl_interface_t);
    s.equal = GN_EQ(osl_interface_equal, osl_interface_t);
    s.clone = GN_CLONE(osl_interface_clone, osl_interface_t);
    s.nclone = GN_NCLONE(osl_interface_nclone, osl_interface_t);
    s.text = GN_TEXT(osl_interface_t);
    s.canon = GN_CANON(osl_interface_t);
    s.slots = [](Slots& z, void** d, Ctx&) { z.interface_("interface", (osl_interface_p*)d); };
    s.idump = GN_DUMP(osl_interface_idump, osl_interface_t);
    v.push_back(s);
  }
  {
    Subject s;
    s.name = "names";
    s.make = [](G& g, int, int r) { return (void*)names(g, r); };
    s.free = GN_FREE(osl_names_free, osl_names_t);
    s.clone = GN_CLONE(osl_names_clone, osl_names_t);
    s.text = s.canon = GN_TEXT(osl_names_t);
    s.slots = [](Slots& z, void** d, Ctx&) {
      osl_names_p n = *(osl_names_p*)d;
      z.list("par", &n->parameters); z.list("iter", &n->iterators); z.list("scatt", &n->scatt_dims); z.list("local", &n->local_dims); z.list("arrays", &n->arrays);
    };
    s.idump = GN_DUMP(osl_names_idump, osl_names_t);
    v.push_back(s);
  }
  {
    Subject s;
    s.name = "statement";
    s.next = GN_NEXT(osl_statement_t);
    s.make = [](G& g, int prec, int r) {
      osl_statement_p h = nullptr, *t = &h;
      int n = r == 0 ? 1 : g(3, "statements");
      for (int i = 0; i < n; i++) { *t = statement(g, prec, 3 * i, n == 1 ? r : 0); t = &(*t)->next; }
      return (void*)h;
    };
    s.free = GN_FREE(osl_statement_free, osl_statement_t);
    s.equal = GN_EQ(osl_statement_equal, osl_statement_t);
    s.clone = GN_CLONE(osl_statement_clone, osl_statement_t);
    s.nclone = GN_NCLONE(osl_statement_nclone, osl_statement_t);
    s.text = GN_TEXT(osl_statement_t);
    s.canon = GN_CANON(osl_statement_t);
    s.slots = [](Slots& z, void** d, Ctx& c) { z.statement_("statement", (osl_statement_p*)d, c); };
    s.idump = GN_DUMP(osl_statement_idump, osl_statement_t);
    s.print = GN_PRINT(osl_statement_print, osl_statement_t);
    s.precisions = true;
    v.push_back(s);
  }
  {
    Subject s;
    s.name = "scop";
    s.next = GN_NEXT(osl_scop_t);
    s.make = [](G& g, int prec, int r) {
      osl_scop_p h = nullptr, *t = &h;
      int n = r == 0 ? 1 : g(3, "scops");
      for (int i = 0; i < n; i++) { *t = scop(g, prec, 1 + i, n == 1 ? r : 0); t = &(*t)->next; }
      return (void*)h;
    };
    s.free = GN_FREE(osl_scop_free, osl_scop_t);
    s.equal = GN_EQ(osl_scop_equal, osl_scop_t);
    s.clone = GN_CLONE(osl_scop_clone, osl_scop_t);
    s.text = [](const void* a) { return text((const osl_scop_t*)a) + (a ? text(((const osl_scop_t*)a)->registry) : ""); };
    s.canon = GN_CANON(osl_scop_t);
    s.slots = [](Slots& z, void** d, Ctx& c) { z.scop_((osl_scop_p*)d, c); };
    s.idump = GN_DUMP(osl_scop_idump, osl_scop_t);
    s.print = GN_PRINT(osl_scop_print, osl_scop_t);
    s.precisions = true;
    v.push_back(s);
  }
  return v;
}
}  // namespace gn
