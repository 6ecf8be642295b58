// C28: an absent structure is tolerated or refused, never followed.
#include "observers.hpp"
#include "intops.hpp"
using namespace gn;

mc::Property property() {
  return {"C28",
          "every public function is called with every subset of its optional arguments absent (those the headers do not declare non-null), "
          "next to every kind of present value: copies of nothing are nothing, nothing equals only nothing, counts are 0, queries answer "
          "undefined, printers print nothing but a comment, missing names are generated, edits leave everything else as it was or are "
          "reported as an error.  Unknown precisions, unknown kinds and extensions without interface end in an error or the documented answer",
          {"the address of a list head given to a function that extends the list is present", "comments and textual data are equal whatever they hold (documented)"}};
}
namespace {
struct A {
  Ctx& c;
  const char* fn;
  bool may_die = false, edits = false, died = false;
  int none = 0, args = 0;
  vector<std::pair<string, std::function<string()>>> seen;
  vector<std::function<void()>> done;
  G g;
  A(Ctx& c_, const char* f) : c(c_), fn(f), g(c_) {}
  template <class T, class Make, class Free>
  T* arg(const char* w, Make mk, Free fr) {
    ++args;
    if (c.flip(w)) { ++none; return nullptr; }
    T* x = mk();
    string s = text(x);
    seen.push_back({s, [x] { return text(x); }});
    done.push_back([x, fr] { fr(x); });
    return x;
  }
  osl_relation_p rel(int type = OSL_TYPE_READ) {
    return arg<osl_relation_t>("no relation", [&] { return build(type == OSL_TYPE_READ ? part(type, 2, 2, 0, 1, {{"0", "-1", "0", "0", "0", "0", "2"}, {"0", "0", "-1", "1", "0", "0", "3"}}) : part(type, 2, 0, 0, 1, {{"1", "1", "0", "-1", "4"}, {"0", "1", "1", "0", "0"}})); }, osl_relation_free);
  }
  osl_vector_p vec(int n = 7) {
    ++args;
    if (c.flip("no vector")) { ++none; return nullptr; }
    Row r{"1"};
    for (int i = 1; i < n; i++) r.push_back(std::to_string(i));
    osl_vector_p v = build_vec(OSL_PRECISION_MP, r);
    auto s = [v] { return str(see_vec(v)); };
    seen.push_back({s(), s});
    done.push_back([v] { osl_vector_free(v); });
    return v;
  }
  osl_names_p names() { return arg<osl_names_t>("no names", [] { return build_names({"N"}, {"i", "j"}, {"t1", "t2", "t3"}, {"l1"}, {"A", "B", "C"}); }, osl_names_free); }
  osl_relation_list_p rlist_() { return arg<osl_relation_list_t>("no list", [&] { return rlist(g, OSL_PRECISION_MP, 1, 0); }, osl_relation_list_free); }
  osl_statement_p stmt() { return arg<osl_statement_t>("no statement", [&] { return statement(g, OSL_PRECISION_MP, 1, 0); }, osl_statement_free); }
  osl_scop_p scop_() { return arg<osl_scop_t>("no scop", [&] { return scop(g, OSL_PRECISION_MP, 1, 0); }, osl_scop_free); }
  osl_strings_p strs() { return arg<osl_strings_t>("no strings", [] { return build_strings({"a", "b"}); }, osl_strings_free); }
  osl_body_p body_() { return arg<osl_body_t>("no body", [&] { return (osl_body_p)payload(g, OSL_URI_BODY, 0); }, osl_body_free); }
  osl_generic_p gens() { return arg<osl_generic_t>("no extensions", [&] { return generics(g, {OSL_URI_CLAY, OSL_URI_BODY}, 0, OSL_PRECISION_MP); }, osl_generic_free); }
  osl_interface_p itfs() { return arg<osl_interface_t>("no interfaces", [&] { return interfaces(g, 0); }, osl_interface_free); }
  template <class T>
  T* load(const char* uri) {
    ++args;
    if (c.flip("no payload")) { ++none; return nullptr; }
    void* x = payload(g, uri, 0);
    string u = uri;
    auto s = [u, x] { return md::payload(u.c_str(), x); };
    seen.push_back({s(), s});
    for (auto& k : kinds()) if (u == k.uri) { auto itf = k.itf; done.push_back([itf, x] { osl_interface_p i = itf(); i->free(x); osl_interface_free(i); }); }
    return (T*)x;
  }
  bool run(const std::function<void()>& f) {
    c.step();
    died = mc::dies(f);
    return !died;
  }
  void ok(bool b, const char* what) { c.check(b, "%s: %s", fn, what); }
  void is(const string& got, const string& want) { c.check(got == want, "%s gives %s instead of %s", fn, cut(got).c_str(), cut(want).c_str()); }
  void end() {
    c.outcome(string(fn) + std::to_string(none) + (died ? " error" : " returns"));
    if (died) {
      c.check(may_die && none, "%s ended with an error", fn);
      mc::forget();
      return;
    }
    if (!edits || none) for (auto& s : seen) { string now = s.second(); c.check(now == s.first, "%s changed an argument: %s", fn, differ(s.first, now).c_str()); }
    for (auto& d : done) d();
    c.check(mc::live() == 0, "%s: leak: %s", fn, mc::live_desc().c_str());
  }
};
struct Fn { const char* name; std::function<void(A&)> f; int flags; };
enum { PURE = 0, EDIT = 1, DIE = 2 };
// text without comments and blanks: what a reader would see
string bare_text(const string& s) {
  string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '#') { while (i < s.size() && s[i] != '\n') ++i; continue; }
    if (!isspace((unsigned char)s[i])) r += s[i];
  }
  return r;
}
string out(A& a, const std::function<void(FILE*)>& f) {
  string s;
  a.run([&] { s = printed(f); });
  return s;
}
string str_of(char* s) { return s ? take(s) : string(); }
using Att = void (*)(const void*, int*, int*, int*, int*, int*);
void attributes(A& a, const void* x, std::function<void(int*, int*, int*, int*, int*)> f) {
  int v[5] = {-7, -7, -7, -7, -7};
  a.run([&] { f(v, v + 1, v + 2, v + 3, v + 4); });
  if (!x) for (int k : v) a.ok(k == -7 || k == OSL_UNDEFINED, "an attribute of nothing");
}
vector<Fn> functions() {
  vector<Fn> F;
#define FN(n, flags, ...) F.push_back({n, [](A& a) { __VA_ARGS__ }, flags})
  // ---- relations
  FN("osl_relation_pprint", PURE, auto r = a.rel(); auto n = a.names(); string s = out(a, [&](FILE* f) { osl_relation_pprint(f, r, n); }); a.is(bare_text(s), r ? bare_text(take(osl_relation_sprint(r))) : ""););
  FN("osl_relation_spprint", PURE, auto r = a.rel(); auto n = a.names(); char* p = nullptr; a.run([&] { p = osl_relation_spprint(r, n); }); a.is(bare_text(str_of(p)), r ? bare_text(take(osl_relation_sprint(r))) : ""););
  FN("osl_relation_spprint_polylib", PURE, auto r = a.rel(); auto n = a.names(); char* p = nullptr; a.run([&] { p = osl_relation_spprint_polylib(r, n); }); a.is(bare_text(str_of(p)), r ? bare_text(take(osl_relation_spprint_polylib(r, nullptr))) : ""); a.ok(r || p, "no text at all"););
  FN("osl_relation_sprint", PURE, auto r = a.rel(); char* p = nullptr; a.run([&] { p = osl_relation_sprint(r); }); if (!r) a.is(bare_text(str_of(p)), ""); else free(nullptr), mc::lfree(p););
  FN("osl_relation_print", PURE, auto r = a.rel(); string s = out(a, [&](FILE* f) { osl_relation_print(f, r); }); a.is(bare_text(s), r ? bare_text(take(osl_relation_sprint(r))) : ""););
  FN("osl_relation_spprint_polylib_scoplib", PURE, auto r = a.rel(); auto n = a.names(); int acc = r ? a.c.choose(2, "access") : 0; char *p = nullptr; char* q = nullptr; a.run([&] { p = osl_relation_spprint_polylib_scoplib(r, n, acc, 0); }); string s = str_of(p); if (r) { auto full = build_names({"N"}, {"i", "j"}, {"t1", "t2", "t3"}, {"l1"}, {"A", "B", "C"}); q = osl_relation_spprint_polylib_scoplib(r, full, acc, 0); a.is(bare_text(s), bare_text(take(q))); osl_names_free(full); } else a.is(bare_text(s), ""););
  FN("osl_relation_spprint_scoplib", PURE, auto r = a.rel(OSL_TYPE_DOMAIN); auto n = a.names(); char *p = nullptr; a.run([&] { p = osl_relation_spprint_scoplib(r, n, 0, 0); }); string s = str_of(p); if (r) { auto full = build_names({"N"}, {"i", "j"}, {"t1", "t2", "t3"}, {"l1"}, {"A", "B", "C"}); a.is(bare_text(s), bare_text(take(osl_relation_spprint_scoplib(r, full, 0, 0)))); osl_names_free(full); } else a.is(bare_text(s), ""););
  FN("osl_relation_pprint_scoplib", PURE, auto r = a.rel(OSL_TYPE_DOMAIN); auto n = a.names(); string s = out(a, [&](FILE* f) { osl_relation_pprint_scoplib(f, r, n, 0, 0); }); if (r) { auto full = build_names({"N"}, {"i", "j"}, {"t1", "t2", "t3"}, {"l1"}, {"A", "B", "C"}); a.is(bare_text(s), bare_text(take(osl_relation_spprint_scoplib(r, full, 0, 0)))); osl_names_free(full); } else a.is(bare_text(s), ""););
  FN("osl_relation_free_inside", PURE, a.run([&] { osl_relation_free_inside(nullptr); }););
  FN("osl_relation_nb_components", PURE, auto r = a.rel(); int k = -1; a.run([&] { k = osl_relation_nb_components(r); }); a.ok(k == (r ? 1 : 0), "number of components"););
  FN("osl_relation_nclone", DIE, auto r = a.rel(); int n = a.c.choose(3, "n") - 1; osl_relation_p k = nullptr; a.run([&] { k = osl_relation_nclone(r, n); }); if (!a.died) { a.is(text(k), r && n ? text(r) : "NULL"); osl_relation_free(k); });
  FN("osl_relation_clone_nconstraints", PURE, auto r = a.rel(); int n = a.c.choose(3, "n"); osl_relation_p k = nullptr; a.run([&] { k = osl_relation_clone_nconstraints(r, n); }); a.ok(r ? k && k->nb_rows == n : !k, "copy of some constraints"); osl_relation_free(k););
  FN("osl_relation_add", EDIT, auto x = a.rel(); if (x) { x = osl_relation_clone(x); } auto y = a.rel(OSL_TYPE_DOMAIN); string t = y ? text(y) : x ? text(x) : "NULL"; if (y) y = osl_relation_clone(y); a.run([&] { osl_relation_add(&x, y); }); if (a.none) a.is(text(x), t); osl_relation_free(x););
  FN("osl_relation_remove_part", EDIT, auto x = a.rel(); if (x) x = osl_relation_clone(x); string t = text(x); a.run([&] { osl_relation_remove_part(&x, nullptr); }); a.is(text(x), t); osl_relation_free(x););
  FN("osl_relation_union", PURE, auto x = a.rel(); auto y = a.rel(OSL_TYPE_DOMAIN); osl_relation_p k = nullptr; a.run([&] { k = osl_relation_union(x, y); }); if (a.none) a.is(text(k), x ? text(x) : text(y)); osl_relation_free(k););
  // rows and columns: an absent operand changes nothing or is an error
#define ROWS(f, ...) FN(#f, EDIT | DIE, auto x = a.rel(); auto v = a.vec(); a.run([&] { f(x, v, ##__VA_ARGS__); }); (void)v;)
  ROWS(osl_relation_replace_vector, 0);
  ROWS(osl_relation_insert_vector, 0);
  ROWS(osl_relation_add_vector, 0);
  ROWS(osl_relation_sub_vector, 0);
  FN("osl_relation_concat_vector", DIE, auto x = a.rel(); auto v = a.vec(); osl_relation_p k = nullptr; a.run([&] { k = osl_relation_concat_vector(x, v); }); if (x && !v && !a.died) a.ok(k && k->nb_rows == 2, "rows of a relation and no vector"); if (!a.died) osl_relation_free(k););
  FN("osl_relation_insert_blank_row", EDIT | DIE, auto x = a.rel(); a.run([&] { osl_relation_insert_blank_row(x, 0); }););
  FN("osl_relation_insert_blank_column", EDIT | DIE, auto x = a.rel(); a.run([&] { osl_relation_insert_blank_column(x, 1); }););
  FN("osl_relation_from_vector", PURE, auto v = a.vec(); osl_relation_p k = nullptr; a.run([&] { k = osl_relation_from_vector(v); }); a.ok(!v == !k, "relation from a vector"); osl_relation_free(k););
#define RR(f) FN(#f, EDIT | DIE, auto x = a.rel(); auto y = a.rel(); a.run([&] { f(x, y, 0); });)
  RR(osl_relation_replace_constraints);
  RR(osl_relation_insert_constraints);
  RR(osl_relation_insert_columns);
  FN("osl_relation_swap_constraints", EDIT | DIE, auto x = a.rel(); a.run([&] { osl_relation_swap_constraints(x, 0, 1); }););
  FN("osl_relation_remove_row", EDIT | DIE, auto x = a.rel(); a.run([&] { osl_relation_remove_row(x, 0); }););
  FN("osl_relation_remove_column", EDIT | DIE, auto x = a.rel(); a.run([&] { osl_relation_remove_column(x, 1); }););
  FN("osl_relation_concat_constraints", PURE, auto x = a.rel(); auto y = a.rel(); osl_relation_p k = nullptr; a.run([&] { k = osl_relation_concat_constraints(x, y); }); if (a.none) a.is(k ? str(see(k)[0].m.empty() ? Row() : see(k)[0].m[0]) + std::to_string(k->nb_rows) : "NULL", x ? str(see(x)[0].m[0]) + "2" : y ? str(see(y)[0].m[0]) + "2" : "NULL"); osl_relation_free(k););
  FN("osl_relation_part_equal", PURE, auto x = a.rel(); auto y = a.rel(); int k = -1; a.run([&] { k = osl_relation_part_equal(x, y); }); a.ok(k == (!x == !y), "equality of parts"););
  FN("osl_relation_equal", PURE, auto x = a.rel(); auto y = a.rel(); int k = -1; a.run([&] { k = osl_relation_equal(x, y); }); a.ok(k == (!x == !y), "equality"););
  FN("osl_relation_integrity_check", PURE, auto x = a.rel(); int t = a.c.pick(vector<int>{OSL_TYPE_READ, OSL_TYPE_ACCESS}, "type"); int k = -1; a.run([&] { k = osl_relation_integrity_check(x, t, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED); }); a.ok(k == 1, "integrity"););
  FN("osl_relation_set_attributes_one", EDIT, auto x = a.rel(); a.run([&] { osl_relation_set_attributes_one(x, 2, 2, 0, 1); }););
  FN("osl_relation_set_attributes", EDIT, auto x = a.rel(); a.run([&] { osl_relation_set_attributes(x, 2, 2, 0, 1); }););
  FN("osl_relation_set_type", EDIT, auto x = a.rel(); a.run([&] { osl_relation_set_type(x, OSL_TYPE_WRITE); }););
  FN("osl_relation_get_array_id", PURE, auto x = a.rel(); int k = -7; a.run([&] { k = osl_relation_get_array_id(x); }); a.ok(k == (x ? 2 : OSL_UNDEFINED), "array of a relation"););
  FN("osl_relation_is_access", PURE, auto x = a.rel(); int k = -7; a.run([&] { k = osl_relation_is_access(x); }); a.ok(k == (x ? 1 : 0), "access"););
  FN("osl_relation_get_attributes", PURE, auto x = a.rel(); attributes(a, x, [&](int* p, int* q, int* r, int* s, int* t) { osl_relation_get_attributes(x, p, q, r, s, t); }););
  FN("osl_relation_extend_output", PURE, auto x = a.rel(OSL_TYPE_DOMAIN); osl_relation_p k = nullptr; a.run([&] { k = osl_relation_extend_output(x, 3); }); a.ok(!x == !k, "extension of the outputs"); osl_relation_free(k););
  FN("osl_relation_set_precision", EDIT, auto x = a.rel(); int p = PRECS[a.c.choose(3, "precision")]; a.run([&] { osl_relation_set_precision(p, x); }););
  FN("osl_relation_set_same_precision", EDIT, auto x = a.rel(); auto y = a.rel(); a.run([&] { osl_relation_set_same_precision(x, y); }););
  // ---- relation lists
  FN("osl_relation_list_pprint", PURE, auto x = a.rlist_(); auto n = a.names(); string s = out(a, [&](FILE* f) { osl_relation_list_pprint(f, x, n); }); a.is(bare_text(s), x ? bare_text(printed([&](FILE* f) { osl_relation_list_print(f, x); })) : bare_text(printed([&](FILE* f) { osl_relation_list_print(f, nullptr); }))););
  FN("osl_relation_list_pprint_elts", PURE, auto x = a.rlist_(); auto n = a.names(); string s = out(a, [&](FILE* f) { osl_relation_list_pprint_elts(f, x, n); }); if (!x) a.is(bare_text(s), ""););
  FN("osl_relation_list_node", PURE, auto x = a.rel(); osl_relation_list_p k = nullptr; a.run([&] { k = osl_relation_list_node(x); }); a.ok(!x == !k, "list of one relation"); osl_relation_list_free(k););
  FN("osl_relation_list_concat", PURE, auto x = a.rlist_(); auto y = a.rlist_(); osl_relation_list_p k = nullptr; a.run([&] { k = osl_relation_list_concat(x, y); }); if (a.none) a.is(text(k), x ? text(x) : text(y)); osl_relation_list_free(k););
  FN("osl_relation_list_add", EDIT, auto x = a.rlist_(); if (x) x = osl_relation_list_clone(x); auto y = a.rlist_(); string t = x ? text(x) : text(y); if (y) y = osl_relation_list_clone(y); a.run([&] { osl_relation_list_add(&x, y); }); if (a.none) a.is(text(x), t); osl_relation_list_free(x););
  FN("osl_relation_list_push", EDIT, auto x = a.rlist_(); if (x) x = osl_relation_list_clone(x); string t = text(x); a.run([&] { osl_relation_list_push(&x, nullptr); }); a.is(text(x), t); osl_relation_list_free(x););
  FN("osl_relation_list_pop", PURE, osl_relation_list_p x = nullptr; osl_relation_list_p k = nullptr; a.run([&] { k = osl_relation_list_pop(&x); }); a.ok(!k && !x, "top of nothing"););
  FN("osl_relation_list_dup", PURE, osl_relation_list_p x = nullptr; a.run([&] { osl_relation_list_dup(&x); }); a.ok(!x, "copied top of nothing"););
  FN("osl_relation_list_drop", PURE, osl_relation_list_p x = nullptr; a.run([&] { osl_relation_list_drop(&x); }); a.ok(!x, "nothing without its top"););
  FN("osl_relation_list_destroy", PURE, osl_relation_list_p x = nullptr; a.run([&] { osl_relation_list_destroy(&x); }); a.ok(!x, "nothing destroyed"););
  FN("osl_relation_list_integrity_check", PURE, auto x = a.rlist_(); int k = -1; a.run([&] { k = osl_relation_list_integrity_check(x, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED); }); a.ok(x || k == 1, "integrity"););
  FN("osl_relation_list_set_type", EDIT, auto x = a.rlist_(); a.run([&] { osl_relation_list_set_type(x, OSL_TYPE_WRITE); }););
  FN("osl_relation_list_filter", PURE, auto x = a.rlist_(); osl_relation_list_p k = nullptr; a.run([&] { k = osl_relation_list_filter(x, OSL_TYPE_ACCESS); }); a.ok(x || !k, "filtered nothing"); osl_relation_list_free(k););
  FN("osl_relation_list_count", PURE, auto x = a.rlist_(); long k = -1; a.run([&] { k = (long)osl_relation_list_count(x); }); a.ok(x ? k > 0 : k == 0, "count"););
  FN("osl_relation_list_get_attributes", PURE, auto x = a.rlist_(); attributes(a, x, [&](int* p, int* q, int* r, int* s, int* t) { osl_relation_list_get_attributes(x, p, q, r, s, t); }););
  // ---- statements
  FN("osl_statement_pprint", PURE, auto x = a.stmt(); auto n = a.names(); string s = out(a, [&](FILE* f) { osl_statement_pprint(f, x, n); }); if (x) a.is(bare_text(s), bare_text(printed([&](FILE* f) { osl_statement_print(f, x); }))); else a.ok(bare_text(s).find_first_not_of("0123456789") == string::npos, "data of no statement"););
  FN("osl_statement_pprint_scoplib", PURE, auto x = a.stmt(); auto n = a.names(); string s = out(a, [&](FILE* f) { osl_statement_pprint_scoplib(f, x, n); }); if (x) { auto full = build_names({"N"}, {"i", "j"}, {"t1", "t2", "t3"}, {"l1"}, {"A", "B", "C"}); a.is(bare_text(s), bare_text(printed([&](FILE* f) { osl_statement_pprint_scoplib(f, x, full); }))); osl_names_free(full); } else a.ok(bare_text(s).find_first_not_of("0123456789") == string::npos, "data of no statement"););
  FN("osl_statement_add", EDIT, auto x = a.stmt(); if (x) x = osl_statement_clone(x); auto y = a.stmt(); string t = x ? text(x) : text(y); if (y) y = osl_statement_clone(y); a.run([&] { osl_statement_add(&x, y); }); if (a.none) a.is(text(x), t); osl_statement_free(x););
  FN("osl_statement_number", PURE, auto x = a.stmt(); int k = -1; a.run([&] { k = osl_statement_number(x); }); a.ok(k == (x ? 1 : 0), "count"););
  FN("osl_statement_remove_unions", PURE, auto x = a.stmt(); osl_statement_p k = nullptr; a.run([&] { k = osl_statement_remove_unions(x); }); a.ok(!x == !k, "unions"); osl_statement_free(k););
  FN("osl_statement_integrity_check", PURE, auto x = a.stmt(); int k = -1; a.run([&] { k = osl_statement_integrity_check(x, OSL_UNDEFINED); }); a.ok(k == 1, "integrity"););
  FN("osl_statement_get_attributes", PURE, auto x = a.stmt(); attributes(a, x, [&](int* p, int* q, int* r, int* s, int* t) { osl_statement_get_attributes(x, p, q, r, s, t); }););
  FN("osl_statement_get_nb_iterators", PURE, auto x = osl_statement_malloc(); x->domain = a.rel(OSL_TYPE_DOMAIN); int k = -1; a.run([&] { k = osl_statement_get_nb_iterators(x); }); a.ok(k == (x->domain ? 2 : 0), "iterators"); x->domain = nullptr; osl_statement_free(x););
  FN("osl_statement_get_body", PURE, auto x = a.stmt(); osl_body_p k = nullptr; a.run([&] { k = osl_statement_get_body(x); }); a.ok(x || !k, "body of nothing"););
  // ---- scops
  FN("osl_scop_print", PURE, auto x = a.scop_(); string s = out(a, [&](FILE* f) { osl_scop_print(f, x); }); if (!x) a.is(bare_text(s), ""););
  FN("osl_scop_print_scoplib", PURE, osl_scop_p x = nullptr; string s = out(a, [&](FILE* f) { osl_scop_print_scoplib(f, x); }); a.is(bare_text(s), ""););
  FN("osl_scop_read", PURE, osl_scop_p k = nullptr; a.run([&] { k = osl_scop_read(nullptr); }); a.ok(!k, "a scop from no file"););
  FN("osl_scop_add", EDIT, auto x = a.scop_(); if (x) x = osl_scop_clone(x); auto y = a.scop_(); string t = x ? text(x) : text(y); if (y) y = osl_scop_clone(y); a.run([&] { osl_scop_add(&x, y); }); if (a.none) a.is(text(x), t); osl_scop_free(x););
  FN("osl_scop_number", PURE, auto x = a.scop_(); long k = -1; a.run([&] { k = (long)osl_scop_number(x); }); a.ok(k == (x ? 1 : 0), "count"););
  FN("osl_scop_remove_unions", PURE, auto x = a.scop_(); osl_scop_p k = nullptr; a.run([&] { k = osl_scop_remove_unions(x); }); a.ok(!x == !k, "unions"); osl_scop_free(k););
  FN("osl_scop_integrity_check", PURE, auto x = a.scop_(); int k = -1; a.run([&] { k = osl_scop_integrity_check(x); }); a.ok(k == 1, "integrity"););
  FN("osl_scop_check_compatible_scoplib", PURE, auto x = a.scop_(); a.run([&] { osl_scop_check_compatible_scoplib(x); }););
  FN("osl_scop_get_nb_parameters", PURE, auto x = osl_scop_malloc(); x->context = a.rel(OSL_TYPE_DOMAIN); int k = -1; a.run([&] { k = osl_scop_get_nb_parameters(x); }); a.ok(k == (x->context ? 1 : 0), "parameters"); x->context = nullptr; osl_scop_free(x););
  FN("osl_scop_register_extension", EDIT, auto x = a.scop_(); ++a.args; bool no = a.c.flip("no interface"); if (no) ++a.none; osl_interface_p j = no ? nullptr : osl_irregular_interface(); a.run([&] { osl_scop_register_extension(x, j); }); if (!x) osl_interface_free(j););
  FN("osl_scop_get_attributes", PURE, auto x = a.scop_(); attributes(a, x, [&](int* p, int* q, int* r, int* s, int* t) { osl_scop_get_attributes(x, p, q, r, s, t); }););
  FN("osl_scop_normalize_scattering", EDIT, auto x = a.scop_(); a.run([&] { osl_scop_normalize_scattering(x); }););
  FN("osl_scop_names", PURE, auto x = a.scop_(); osl_names_p k = nullptr; a.run([&] { k = osl_scop_names(x); }); a.ok(x == nullptr || k, "names"); osl_names_free(k););
  // ---- extensions
  FN("osl_generic_print", PURE, auto x = a.gens(); string s = out(a, [&](FILE* f) { osl_generic_print(f, x); }); if (!x) a.is(bare_text(s), ""););
  FN("osl_generic_sprint", PURE, auto x = a.gens(); char* k = nullptr; a.run([&] { k = osl_generic_sprint(x); }); string s = str_of(k); if (!x) a.is(bare_text(s), ""););
  FN("osl_generic_print_options_scoplib", PURE, auto x = a.gens(); string s = out(a, [&](FILE* f) { osl_generic_print_options_scoplib(f, x); }); a.is(bare_text(s), ""););
  FN("osl_generic_sread", PURE, auto i = a.itfs(); ++a.args; string t = "<clay>\nx\n</clay>\n"; Text in(t); char* p = in.pos; osl_generic_p k = nullptr; a.run([&] { k = osl_generic_sread(&p, i); }); a.ok(!k, "extensions of no registered kind"); osl_generic_free(k););
  FN("osl_generic_add", EDIT, auto x = a.gens(); if (x) x = osl_generic_clone(x); string t = text(x); a.run([&] { osl_generic_add(&x, nullptr); }); a.is(text(x), t); osl_generic_free(x););
  FN("osl_generic_remove_node", EDIT, auto x = a.gens(); if (x) x = osl_generic_clone(x); string t = text(x); a.run([&] { osl_generic_remove_node(&x, nullptr); }); a.is(text(x), t); osl_generic_free(x););
  FN("osl_generic_remove", EDIT, auto x = a.gens(); if (x) x = osl_generic_clone(x); string t = text(x); a.run([&] { osl_generic_remove(&x, OSL_URI_ARRAYS); }); a.is(text(x), t); osl_generic_free(x););
  FN("osl_generic_number", PURE, auto x = a.gens(); int k = -1; a.run([&] { k = osl_generic_number(x) * 10 + osl_generic_count(x); }); a.ok(k == (x ? 22 : 0), "count"););
  FN("osl_generic_has_URI", PURE, auto x = a.gens(); int k = -1; a.run([&] { k = osl_generic_has_URI(x, OSL_URI_CLAY); }); a.ok(k == !!x, "URI"););
  FN("osl_generic_lookup", PURE, auto x = a.gens(); void* k = nullptr; a.run([&] { k = osl_generic_lookup(x, OSL_URI_CLAY); }); a.ok(!k == !x, "lookup"););
  // ---- interfaces
  FN("osl_interface_add", EDIT, auto x = a.itfs(); if (x) x = osl_interface_clone(x); string t = text(x); a.run([&] { osl_interface_add(&x, nullptr); }); a.is(text(x), t); osl_interface_free(x););
  FN("osl_interface_number", PURE, auto x = a.itfs(); int k = -1; a.run([&] { k = osl_interface_number(x); }); a.ok(k == (x ? 2 : 0), "count"););
  FN("osl_interface_lookup", PURE, auto x = a.itfs(); bool no = a.c.flip("no URI"); if (no) ++a.none; osl_interface_p k = nullptr; a.run([&] { k = osl_interface_lookup(x, no ? nullptr : OSL_URI_STRINGS); }); a.ok(!k == (!x || no), "lookup"););
  // ---- strings, bodies
  FN("osl_strings_sprint", PURE, auto x = a.strs(); char* k = nullptr; a.run([&] { k = osl_strings_sprint(x); }); string s = str_of(k); a.is(bare_text(s), x ? "ab" : ""););
  FN("osl_strings_print", PURE, auto x = a.strs(); string s = out(a, [&](FILE* f) { osl_strings_print(f, x); }); a.is(bare_text(s), x ? "ab" : ""););
  FN("osl_strings_size", PURE, auto x = a.strs(); long k = -1; a.run([&] { k = (long)osl_strings_size(x); }); a.ok(k == (x ? 2 : 0), "size"););
  FN("osl_strings_encapsulate", DIE, osl_strings_p k = nullptr; ++a.none; a.run([&] { k = osl_strings_encapsulate(nullptr); }); if (!a.died) osl_strings_free(k););
  FN("osl_strings_add_strings", EDIT, auto x = a.strs(); auto y = a.strs(); osl_strings_p k = nullptr; a.run([&] { osl_strings_add_strings(&k, x, y); }); vector<string> w; if (x) w = {"a", "b"}; if (y) { w.push_back("a"); w.push_back("b"); } if (a.none == 2) a.ok(!k || osl_strings_size(k) == 0, "sum of nothing"); else a.is(md::str(see_strings(k)), md::str(w)); osl_strings_free(k););
  FN("osl_body_sprint", PURE, auto x = a.body_(); char* k = nullptr; a.run([&] { k = osl_body_sprint(x); }); string s = str_of(k); if (!x) a.is(bare_text(s), ""););
  FN("osl_body_print", PURE, auto x = a.body_(); string s = out(a, [&](FILE* f) { osl_body_print(f, x); }); if (!x) a.is(bare_text(s), ""););
  FN("osl_body_print_scoplib", PURE, auto x = a.body_(); string s = out(a, [&](FILE* f) { osl_body_print_scoplib(f, x); }); if (!x) a.is(bare_text(s), ""););
  // ---- vectors
  FN("osl_vector_add_scalar", DIE, auto v = a.vec(); osl_vector_p k = nullptr; a.run([&] { k = osl_vector_add_scalar(v, 1); }); if (!a.died) { a.ok(!v == !k, "sum"); osl_vector_free(k); });
  FN("osl_vector_add", DIE, auto v = a.vec(); auto w = a.vec(); osl_vector_p k = nullptr; a.run([&] { k = osl_vector_add(v, w); }); if (!a.died) { if (a.none == 2) a.ok(!k, "sum of nothing"); osl_vector_free(k); });
  FN("osl_vector_sub", DIE, auto v = a.vec(); auto w = a.vec(); osl_vector_p k = nullptr; a.run([&] { k = osl_vector_sub(v, w); }); if (!a.died) { if (a.none == 2) a.ok(!k, "difference of nothing"); osl_vector_free(k); });
  FN("osl_vector_tag", EDIT | DIE, auto v = a.vec(); bool e = a.c.flip("equality"); a.run([&] { e ? osl_vector_tag_equality(v) : osl_vector_tag_inequality(v); }););
  FN("osl_vector_equal", PURE, auto v = a.vec(); auto w = a.vec(); int k = -1; a.run([&] { k = osl_vector_equal(v, w); }); a.ok(k == (!v == !w), "equality"););
  FN("osl_vector_is_scalar", PURE, auto v = a.vec(); int k = -1; a.run([&] { k = osl_vector_is_scalar(v); }); a.ok(k == 0, "scalar"););
  FN("osl_vector_free", PURE, a.run([&] { osl_vector_free(nullptr); }););
  // ---- helpers of extensions
  FN("osl_arrays", PURE, auto x = a.load<osl_arrays_t>(OSL_URI_ARRAYS); osl_strings_p k = nullptr; a.run([&] { k = osl_arrays_to_strings(x); }); a.ok(!x == !k, "names"); osl_strings_free(k););
  FN("osl_dependence_print", PURE, auto x = a.load<osl_dependence_t>(OSL_URI_DEPENDENCE); string s = out(a, [&](FILE* f) { osl_dependence_print(f, x); }); if (!x) a.ok(bare_text(s) == "" || bare_text(s) == "0", "data of no dependence"););
  FN("osl_nb_dependences", PURE, auto x = a.load<osl_dependence_t>(OSL_URI_DEPENDENCE); int k = -1; a.run([&] { k = osl_nb_dependences(x); }); a.ok(x ? k > 0 : k == 0, "count"););
  FN("osl_loop_clone_one", PURE, auto x = a.load<osl_loop_t>(OSL_URI_LOOP); osl_loop_p k = nullptr; a.run([&] { k = osl_loop_clone_one(x); }); a.ok(!x == !k, "copy"); osl_loop_free(k););
  FN("osl_loop_equal_one", PURE, auto x = a.load<osl_loop_t>(OSL_URI_LOOP); auto y = a.load<osl_loop_t>(OSL_URI_LOOP); int k = -1; a.run([&] { k = osl_loop_equal_one(x, y); }); a.ok(k == (!x == !y), "equality"););
  FN("osl_loop_count", PURE, auto x = a.load<osl_loop_t>(OSL_URI_LOOP); int k = -1; a.run([&] { k = osl_loop_count(x); }); a.ok(x ? k > 0 : k == 0, "count"););
  FN("osl_pluto_unroll_fill", PURE, ++a.none; a.run([&] { osl_pluto_unroll_fill(nullptr, "i", true, 3); }););
  FN("osl_region_equal_one", PURE, auto x = a.load<osl_region_t>(OSL_URI_REGION); auto y = a.load<osl_region_t>(OSL_URI_REGION); int k = -1; a.run([&] { k = osl_region_equal_one(x, y); }); a.ok(k == (!x == !y), "equality"););
  FN("osl_region_count", PURE, auto x = a.load<osl_region_t>(OSL_URI_REGION); long k = -1; a.run([&] { k = (long)osl_region_count(x); }); a.ok(x ? k > 0 : k == 0, "count"););
  FN("osl_symbols_add", EDIT, auto x = a.load<osl_symbols_t>(OSL_URI_SYMBOLS); if (x) x = osl_symbols_clone(x); string t = md::payload(OSL_URI_SYMBOLS, x); a.run([&] { osl_symbols_add(&x, nullptr); }); a.is(md::payload(OSL_URI_SYMBOLS, x), t); osl_symbols_free(x););
  FN("osl_symbols_nclone", PURE, auto x = a.load<osl_symbols_t>(OSL_URI_SYMBOLS); int n = a.c.choose(3, "n") - 1; osl_symbols_p k = nullptr; a.run([&] { k = osl_symbols_nclone(x, n); }); a.ok((k != nullptr) == (x && n), "copies"); osl_symbols_free(k););
  FN("osl_symbols_get_nb_symbols", PURE, auto x = a.load<osl_symbols_t>(OSL_URI_SYMBOLS); int k = -1; a.run([&] { k = osl_symbols_get_nb_symbols(x); }); a.ok(x ? k > 0 : k == 0, "count"););
  return F;
}
void function(Ctx& c, const vector<Fn>& F) {
  const Fn& f = F[c.choose((int)F.size(), "function")];
  c.note("  %s", f.name);
  A a(c, f.name);
  a.edits = f.flags & EDIT;
  a.may_die = f.flags & DIE;
  f.f(a);
  string st = f.name;
  for (int x : c.choices) st += "," + std::to_string(x);
  c.state(st);
  a.end();
}
// what every structure offers
void structure(Ctx& c, const vector<Subject>& S) {
  const Subject& s = S[c.choose((int)S.size(), "structure")];
  c.note("  %s", s.name.c_str());
  int what = c.choose(8, "operation");
  G g(c);
  void* x = s.make(g, OSL_PRECISION_MP, 0);
  string t = s.text(x);
  bool always = s.uri == OSL_URI_COMMENT || s.uri == OSL_URI_TEXTUAL;
  c.state(s.name + std::to_string(what));
  c.step();
  if (what == 0) s.free(nullptr);
  if (what == 1 && s.clone) { void* y = s.clone(nullptr); c.check(!y, "copying no %s gives something", s.name.c_str()); }
  if (what == 2 && s.nclone) for (int n = -1; n < 1; n++) { void* y = s.nclone(nullptr, n); c.check(!y, "copying %d elements of no %s gives something", n, s.name.c_str()); }
  if (what == 3 && s.equal) {
    c.check(s.equal(nullptr, nullptr), "no %s differs from itself", s.name.c_str());
    if (!always) c.check(!s.equal(x, nullptr) && !s.equal(nullptr, x), "a %s equals none", s.name.c_str());
    else s.equal(x, nullptr), s.equal(nullptr, x);
  }
  if (what == 4 && s.print) { string p = s.print(nullptr); c.check(bare_text(p).find_first_not_of("0123456789") == string::npos, "no %s is printed as data: %s", s.name.c_str(), cut(p).c_str()); }
  if (what == 5 && s.idump) for (int l = 0; l < 4; l++) {
    string p = printed([&](FILE* f) { s.idump(f, nullptr, l); }), q = printed([&](FILE* f) { s.idump(f, x, l); });
    c.check(noaddr(p) != noaddr(q), "the dump of no %s is that of one", s.name.c_str());
    c.check(p.find("NULL") != string::npos, "the dump does not tell there is no %s: %s", s.name.c_str(), cut(p).c_str());
    c.check(p.compare(0, 2 * l + 3, [&] { string w; for (int i = 0; i < l; i++) w += "|\t"; return w + "+--"; }()) == 0, "the dump of no %s at level %d is %s", s.name.c_str(), l, cut(p).c_str());
  }
  if (what == 6) {  // some readers take no text at all, others no place to read from
    static const vector<string> TEXT = {OSL_URI_CLAY, OSL_URI_COMMENT, OSL_URI_COORDINATES, OSL_URI_DEPENDENCE, OSL_URI_IRREGULAR, OSL_URI_NULL, OSL_URI_SCATINFOS, OSL_URI_SCATNAMES, OSL_URI_SYMBOLS};
    static const vector<string> PLACE = {OSL_URI_ARRAYS, OSL_URI_EXTBODY, OSL_URI_LOOP};
    bool t0 = std::count(TEXT.begin(), TEXT.end(), s.uri), p0 = std::count(PLACE.begin(), PLACE.end(), s.uri);
    for (auto& k : kinds()) if (s.uri == k.uri && (t0 || p0)) {
      osl_interface_p i = k.itf();
      char* p = nullptr;
      void* y = i->sread(t0 ? &p : nullptr);
      c.check(!y && !p, "a %s is read from no text", s.name.c_str());
      osl_interface_free(i);
    }
  }
  if (what == 7 && !s.uri.empty()) {  // an element that is there without its data
    osl_generic_p e = generic(s.uri.c_str(), nullptr);
    osl_generic_p y = osl_generic_clone(e);
    c.check(osl_generic_equal(e, y), "an extension without data differs from its copy");
    c.check(!y->data || s.uri == OSL_URI_NULL, "the copy of an extension without data has some");
    string p = printed([&](FILE* f) { osl_generic_idump(f, e, 1); });
    c.check(!p.empty(), "dump of an extension without data");
    osl_generic_print(stderr, nullptr);
    osl_generic_free(y);
    osl_generic_free(e);
  }
  c.check(s.text(x) == t, "%s changed: %s", s.name.c_str(), differ(t, s.text(x)).c_str());
  if (x) s.free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// extensions whose kind is not known
void unknown(Ctx& c) {
  int where = c.choose(3, "position"), what = c.choose(7, "operation");
  G g(c);
  osl_generic_p list = generics(g, {OSL_URI_CLAY, OSL_URI_BODY}, 0, OSL_PRECISION_MP);
  auto stranger = [] { osl_generic_p e = osl_generic_malloc(); char* p = (char*)mc::lalloc(4); memcpy(p, "abc", 4); e->data = p; return e; };
  osl_generic_p* t = &list;
  for (int i = 0; i < where; i++) t = &(*t)->next;
  osl_generic_p e = stranger();
  e->next = *t;
  *t = e;
  c.state(std::to_string(where) + "," + std::to_string(what));
  c.step();
  string others;
  for (auto x = list; x; x = x->next) if (x->interface) others += md::payload(x->interface->URI, x->data);
  if (what == 0) {
    osl_generic_p y = osl_generic_clone(list);
    string got;
    for (auto x = y; x; x = x->next) if (x->interface) got += md::payload(x->interface->URI, x->data);
    c.check(got == others, "copying next to an extension of no kind: %s", differ(others, got).c_str());
    osl_generic_free(y);
  } else if (what == 1) {
    c.check(osl_generic_count(list) == 3, "%d extensions", osl_generic_count(list));
  } else if (what == 2) {
    c.check(osl_generic_lookup(list, OSL_URI_CLAY) && osl_generic_lookup(list, OSL_URI_BODY) && !osl_generic_lookup(list, "none"), "lookup next to an extension of no kind");
  } else if (what == 3) {
    string p = printed([&](FILE* f) { osl_generic_print(f, list); });
    osl_generic_p only = generics(g, {OSL_URI_CLAY, OSL_URI_BODY}, 0, OSL_PRECISION_MP);
    string q = printed([&](FILE* f) { osl_generic_print(f, only); });
    c.check(bare_text(p) == bare_text(q), "printing next to an extension of no kind: %s", differ(q, p).c_str());
    osl_generic_free(only);
  } else if (what == 4) {
    string p = printed([&](FILE* f) { osl_generic_idump(f, list, 1); });
    c.check(p.find("clay") != string::npos, "dump");
  } else if (what == 5) {
    osl_generic_p k = generic(OSL_URI_ARRAYS, payload(g, OSL_URI_ARRAYS, 0)), s = stranger();
    // added: a list with something of no kind is refused
    osl_generic_p dst = k;
    bool died = mc::dies([&] { osl_generic_add(&dst, s); });
    c.outcome(died ? "refused" : "added");
    c.check(died, "an extension of no kind was added");
    mc::forget();
    return;
  } else {
    osl_generic_remove(&list, OSL_URI_CLAY);
    c.check(!osl_generic_lookup(list, OSL_URI_CLAY) && osl_generic_count(list) == 2, "removal next to an extension of no kind");
  }
  osl_generic_free(list);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// operations on numbers of a precision that does not exist, relations and dependences of a kind that does not
void strange(Ctx& c) {
  static const vector<int> P = {-1, 1, 31, 33, 63, 65, 96, 128, 1000000};
  int p = c.pick(P, "precision");
  osl_int_t a, b, d, e, *f = &a, *h = &b;
  a.dp = 3; b.dp = 4; d.dp = 1; e.dp = 2;
  char buf[100] = "7", *pos = buf;
  osl_relation_p r = nullptr;
  const vector<std::pair<const char*, std::function<void()>>> F = {
      {"init", [&] { osl_int_init(p, &d); }}, {"malloc", [&] { osl_int_t* x = osl_int_malloc(p); (void)x; }}, {"assign", [&] { osl_int_assign(p, &d, a); }}, {"set_si", [&] { osl_int_set_si(p, &d, 5); }},
      {"get_si", [&] { osl_int_get_si(p, a); }}, {"get_d", [&] { osl_int_get_d(p, a); }}, {"init_set", [&] { osl_int_init_set(p, &d, a); }}, {"init_set_si", [&] { osl_int_init_set_si(p, &d, 5); }},
      {"swap", [&] { osl_int_swap(p, f, h); }}, {"clear", [&] { osl_int_clear(p, &d); }}, {"print", [&] { printed([&](FILE* o) { osl_int_print(o, p, a); }); }}, {"sprint", [&] { osl_int_sprint(buf, p, a); }},
      {"sprint_txt", [&] { osl_int_sprint_txt(buf, p, a); }}, {"sscanf", [&] { osl_int_sscanf("7", p, &d); }}, {"sread", [&] { osl_int_sread(&pos, p, &d); }}, {"increment", [&] { osl_int_increment(p, &d, a); }},
      {"decrement", [&] { osl_int_decrement(p, &d, a); }}, {"add", [&] { osl_int_add(p, &d, a, b); }}, {"add_si", [&] { osl_int_add_si(p, &d, a, 4); }}, {"sub", [&] { osl_int_sub(p, &d, a, b); }},
      {"mul", [&] { osl_int_mul(p, &d, a, b); }}, {"mul_si", [&] { osl_int_mul_si(p, &d, a, 4); }}, {"div_exact", [&] { osl_int_div_exact(p, &d, a, b); }}, {"floor_div_q", [&] { osl_int_floor_div_q(p, &d, a, b); }},
      {"floor_div_r", [&] { osl_int_floor_div_r(p, &d, a, b); }}, {"floor_div_q_r", [&] { osl_int_floor_div_q_r(p, &d, &e, a, b); }}, {"mod", [&] { osl_int_mod(p, &d, a, b); }}, {"gcd", [&] { osl_int_gcd(p, &d, a, b); }},
      {"lcm", [&] { osl_int_lcm(p, &d, a, b); }}, {"oppose", [&] { osl_int_oppose(p, &d, a); }}, {"abs", [&] { osl_int_abs(p, &d, a); }}, {"size_in_base_2", [&] { (void)osl_int_size_in_base_2(p, a); }},
      {"size_in_base_10", [&] { (void)osl_int_size_in_base_10(p, a); }}, {"eq", [&] { (void)osl_int_eq(p, a, b); }}, {"ne", [&] { (void)osl_int_ne(p, a, b); }}, {"lt", [&] { (void)osl_int_lt(p, a, b); }},
      {"le", [&] { (void)osl_int_le(p, a, b); }}, {"gt", [&] { (void)osl_int_gt(p, a, b); }}, {"ge", [&] { (void)osl_int_ge(p, a, b); }}, {"pos", [&] { (void)osl_int_pos(p, a); }}, {"neg", [&] { (void)osl_int_neg(p, a); }},
      {"zero", [&] { (void)osl_int_zero(p, a); }}, {"one", [&] { (void)osl_int_one(p, a); }}, {"mone", [&] { (void)osl_int_mone(p, a); }}, {"divisible", [&] { (void)osl_int_divisible(p, a, b); }},
      {"relation_pmalloc", [&] { r = osl_relation_pmalloc(p, 1, 3); }}, {"vector_pmalloc", [&] { osl_vector_p v = osl_vector_pmalloc(p, 3); (void)v; }}};
  int k = c.choose((int)F.size() + 1, "operation");
  c.state(std::to_string(p) + "," + std::to_string(k));
  c.step();
  if (k == (int)F.size()) {
    c.check(!osl_int_is_precision_supported(p), "precision %d is supported", p);
    c.check(printed([&](FILE* o) { osl_int_dump_precision(o, p); }).find(std::to_string(p)) != string::npos, "the dump of precision %d", p);
    return;
  }
  c.outcome(F[k].first);
  c.check(mc::dies(F[k].second), "%s of numbers of precision %d gives a value", F[k].first, p);
  mc::forget();
}
void strange_kind(Ctx& c) {
  static const vector<int> T = {-2, 6, 77, 99, 2147483647};
  int what = c.choose(2, "structure"), t = c.pick(T, "kind");
  G g(c);
  c.state(std::to_string(what) + std::to_string(t));
  c.step();
  if (what == 0) {
    osl_dependence_p d = (osl_dependence_p)payload(g, OSL_URI_DEPENDENCE, 0);
    d->type = t;
    string p = printed([&](FILE* f) { osl_dependence_idump(f, d, 1); });
    c.check(p.find("unknown") != string::npos, "the dump shows a dependence of kind %d as %s", t, cut(p).c_str());
    char* s = nullptr;
    bool died = mc::dies([&] { s = osl_dependence_sprint(d); });
    c.check(died, "a dependence of kind %d was printed: %s", t, s ? cut(s).c_str() : "");
    mc::forget();
  } else {
    osl_symbols_p y = (osl_symbols_p)payload(g, OSL_URI_SYMBOLS, 0);
    for (auto x = y; x; x = x->next) x->type = t;
    string p = take(osl_symbols_sprint(y));
    for (auto w : {"Iterator", "Parameter", "Array", "Function"}) c.check(p.find(w) == string::npos, "a symbol of kind %d is printed as %s", t, w);
    osl_symbols_free(y);
    c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
  }
}
void shells(Ctx& c) {
  bool nd = c.flip("no data"), ni = c.flip("no interface");
  G g(c);
  void* d = nd ? nullptr : payload(g, OSL_URI_CLAY, 0);
  osl_interface_p i = ni ? nullptr : osl_clay_interface();
  c.state(std::to_string(nd) + std::to_string(ni));
  c.step();
  osl_generic_p e = osl_generic_shell(d, i);
  c.check(e && e->data == d && e->interface == i && !e->next, "the shell holds something else");
  if (ni && d) { osl_clay_free((osl_clay_p)d); e->data = nullptr; }
  osl_generic_free(e);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// relation lists some nodes of which hold no relation
void holes(Ctx& c) {
  static const vector<Rel> E = {Rel{}, {part(OSL_TYPE_DOMAIN, 2, 0, 0, 1, {{"1", "1", "0", "-1", "4"}})}, {part(OSL_TYPE_READ, 1, 2, 0, 1, {{"0", "-1", "0", "0", "0", "2"}})}, {part(OSL_TYPE_WRITE, 2, 2, 1, 1, {{"0", "-1", "0", "0", "0", "0", "0", "3"}, {"0", "0", "-1", "1", "0", "0", "0", "0"}})}};
  auto make = [&](const char* w, int max) {
    vector<Rel> v;
    for (int n = c.choose(max + 1, w); n--;) v.push_back(c.pick(E, "node"));
    return v;
  };
  vector<Rel> v = make("nodes", mc::q(3, 4)), full;
  for (auto& m : v) if (!m.empty()) full.push_back(m);
  int what = c.choose(12, "operation");
  vector<Rel> w;
  if (what == 5 || what == 6 || what == 7) w = make("nodes of the other", mc::q(2, 3));
  auto show = [](osl_relation_list_p l) { vector<Rel> r; for (; l; l = l->next) r.push_back(l->elt ? see(l->elt) : Rel{}); return r; };
  auto all = [](const vector<Rel>& l) { string s; for (auto& m : l) s += str(m) + ";"; return s; };
  osl_relation_list_p x = rlist(v), y = rlist(w), f = rlist(full);
  string was = all(v) + all(w);
  if (!c.state(std::to_string(what) + all(v) + "/" + all(w), 0)) { osl_relation_list_free(x); osl_relation_list_free(y); osl_relation_list_free(f); return; }
  c.step();
  auto is = [&](const char* n, const string& got, const string& want) { c.check(got == want, "%s of %s gives %s instead of %s", n, was.c_str(), got.c_str(), want.c_str()); };
  if (what == 0) is("count", std::to_string(osl_relation_list_count(x)), std::to_string(full.size()));
  else if (what == 1) { osl_relation_list_p k = osl_relation_list_clone(x); is("clone", all(show(k)), all(v)); osl_relation_list_free(k); }
  else if (what == 2) {
    auto att = [](osl_relation_list_p l) { int a[5] = {-1, -1, -1, -1, -1}; osl_relation_list_get_attributes(l, a, a + 1, a + 2, a + 3, a + 4); string s; for (int i : a) s += std::to_string(i) + " "; return s; };
    is("get_attributes", att(x), att(f));
  } else if (what == 3) {
    int t = c.pick(vector<int>{OSL_TYPE_DOMAIN, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_ACCESS, OSL_TYPE_CONTEXT, OSL_UNDEFINED}, "type");
    vector<Rel> want;
    for (auto& m : full) if (m[0].type == t || (t == OSL_TYPE_ACCESS && m[0].type != OSL_TYPE_DOMAIN)) want.push_back(m);
    osl_relation_list_p k = osl_relation_list_filter(x, t);
    is("filter", all(show(k)), all(want));
    osl_relation_list_free(k);
  } else if (what == 4) {
    vector<Rel> want = v;
    for (auto& m : want) for (auto& q : m) q.type = OSL_TYPE_MAY_WRITE;
    osl_relation_list_set_type(x, OSL_TYPE_MAY_WRITE);
    is("set_type", all(show(x)), all(want));
    v = want;
  } else if (what == 5) {
    osl_relation_list_p k = osl_relation_list_concat(x, y);
    is("concat", all(show(k)), all(v) + all(w));
    osl_relation_list_free(k);
  } else if (what == 6) is("equal", std::to_string(osl_relation_list_equal(x, y)), std::to_string(v == w));
  else if (what == 7) {
    osl_relation_list_add(&x, y);
    y = nullptr;
    v.insert(v.end(), w.begin(), w.end());
    w.clear();
    is("add", all(show(x)), all(v));
  } else if (what == 8) {
    is("printing", bare_text(printed([&](FILE* o) { osl_relation_list_print(o, x); })), bare_text(printed([&](FILE* o) { osl_relation_list_print(o, f); })));
    is("printing the elements", bare_text(printed([&](FILE* o) { osl_relation_list_pprint_elts(o, x, nullptr); })), bare_text(printed([&](FILE* o) { osl_relation_list_pprint_elts(o, f, nullptr); })));
    is("printing for SCoPLib", bare_text(printed([&](FILE* o) { osl_relation_list_pprint_access_array_scoplib(o, x, nullptr, 0); })), bare_text(printed([&](FILE* o) { osl_relation_list_pprint_access_array_scoplib(o, f, nullptr, 0); })));
  } else if (what == 9) {
    osl_relation_list_dup(&x);
    if (!v.empty()) v.insert(v.begin(), v[0]);
    is("dup", all(show(x)), all(v));
    osl_relation_list_drop(&x);
    if (!v.empty()) v.erase(v.begin());
    is("drop", all(show(x)), all(v));
    osl_relation_list_p t = osl_relation_list_pop(&x);
    c.check(!t == v.empty(), "pop");
    if (t) is("pop", all(show(t)) + all(show(x)), all(v));
    osl_relation_list_push(&x, t);
  } else if (what == 10) {
    int t = c.pick(vector<int>{OSL_TYPE_DOMAIN, OSL_TYPE_READ, OSL_TYPE_ACCESS}, "type");
    is("integrity", std::to_string(osl_relation_list_integrity_check(x, t, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED)), std::to_string(osl_relation_list_integrity_check(f, t, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED)));
  } else {
    string d = printed([&](FILE* o) { osl_relation_list_dump(o, x); });
    size_t none = 0, some = 0;
    for (size_t p = 0; (p = d.find("NULL relation", p)) != string::npos; p++) ++none;
    for (size_t p = 0; (p = d.find("osl_relation_t", p)) != string::npos; p++) ++some;
    c.check(v.empty() || (none == v.size() - full.size() && some == full.size()), "the dump of %s shows %zu relations and %zu absent ones", was.c_str(), some, none);
  }
  string now = all(show(x)) + all(show(y));
  c.check(now == all(v) + all(w), "operation %d leaves %s", what, now.c_str());
  osl_relation_list_free(x);
  osl_relation_list_free(y);
  osl_relation_list_free(f);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// interfaces without a name
struct Face { const char* uri; osl_interface_p (*itf)(); };
const vector<Face> FACES = {{nullptr, osl_clay_interface}, {OSL_URI_CLAY, osl_clay_interface}, {OSL_URI_STRINGS, osl_strings_interface}, {OSL_URI_COMMENT, osl_comment_interface}, {nullptr, osl_comment_interface}};
osl_interface_p face(int k) {
  osl_interface_p i = FACES[k].itf();
  if (!FACES[k].uri) { mc::lfree(i->URI); i->URI = nullptr; }
  return i;
}
void nameless(Ctx& c) {
  auto make = [&](const char* w, int max, vector<int>& v) {
    osl_interface_p h = nullptr, *t = &h;
    for (int n = c.choose(max + 1, w); n--;) { v.push_back(c.choose((int)FACES.size(), "interface")); *t = face(v.back()); t = &(*t)->next; }
    return h;
  };
  vector<int> v, w;
  osl_interface_p x = make("interfaces", 4, v);
  int what = c.choose(4, "operation");
  osl_interface_p y = what == 1 ? make("interfaces of the other", 2, w) : nullptr;
  string key = std::to_string(what);
  for (int i : v) key += std::to_string(i);
  key += "/";
  for (int i : w) key += std::to_string(i);
  c.state(key);
  c.step();
  if (what == 0) {
    c.check(osl_interface_number(x) == (int)v.size(), "number of %s", key.c_str());
    for (auto u : {OSL_URI_CLAY, OSL_URI_STRINGS, OSL_URI_COMMENT, "none", ""}) {
      osl_interface_p want = x;
      while (want && !(want->URI && !strcmp(want->URI, u))) want = want->next;
      c.check(osl_interface_lookup(x, u) == want, "lookup of '%s' in %s", u, key.c_str());
    }
  } else if (what == 1) {
    bool want = v.size() == w.size(), rep = false;
    for (size_t i = 0; i < v.size() && want; i++) want = std::find(w.begin(), w.end(), v[i]) != w.end();
    for (auto& l : {v, w}) for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < i; j++) rep = rep || l[i] == l[j];
    if (!rep) c.check(osl_interface_equal(x, y) == want, "equality of %s", key.c_str());
    if (!rep) c.check(osl_interface_equal(y, x) == want, "equality of %s, exchanged", key.c_str());
  } else if (what == 2) {
    string d = printed([&](FILE* o) { osl_interface_dump(o, x); });
    size_t n = 0;
    for (size_t p = 0; (p = d.find("URI = ", p)) != string::npos; p++) ++n;
    c.check(n == v.size(), "the dump shows %zu of %zu interfaces", n, v.size());
    c.check(d.find("(null)") == string::npos, "the dump prints a null string");
  } else {
    // adding one without name is refused, whatever stands there
    if (!y) y = face(0);
    osl_interface_p h = nullptr;
    c.check(mc::dies([&] { osl_interface_add(&h, y); }), "an interface without a name was added");
    mc::forget();
    return;
  }
  osl_interface_free(x);
  osl_interface_free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// extensions without data, without interface, with an interface without name
void bare_extensions(Ctx& c) {
  struct X { int face; int data; };
  G g(c);
  auto make = [&](const char* w, int max, vector<X>& v) {
    osl_generic_p h = nullptr, *t = &h;
    for (int n = c.choose(max + 1, w); n--;) {
      X e{c.choose(4, "interface") - 1, 0};
      for (auto& o : v) if (o.face == e.face && e.face >= 0) return h;  // once each
      e.data = c.choose(3, "data");
      v.push_back(e);
      *t = osl_generic_malloc();
      (*t)->interface = e.face < 0 ? nullptr : face(e.face);
      if (e.data) {
        if (e.face < 0) { char* p = (char*)mc::lalloc(4); memcpy(p, e.data == 1 ? "abc" : "abd", 4); (*t)->data = p; }
        else if (e.face < 2) { auto p = osl_clay_malloc(); p->script = mc::lstrdup(e.data == 1 ? "fuse();" : "split();"); (*t)->data = p; }
        else (*t)->data = build_strings({e.data == 1 ? "a" : "b"});
      }
      t = &(*t)->next;
    }
    return h;
  };
  vector<X> v, w;
  osl_generic_p x = make("extensions", 3, v);
  int what = c.choose(4, "operation");
  osl_generic_p y = what == 1 ? make("extensions of the other", mc::q(2, 3), w) : nullptr;
  string key = std::to_string(what);
  for (auto& i : v) key += " " + std::to_string(i.face) + ":" + std::to_string(i.data);
  key += "/";
  for (auto& i : w) key += " " + std::to_string(i.face) + ":" + std::to_string(i.data);
  c.state(key);
  c.step();
  if (what == 0) {
    c.check(osl_generic_number(x) == (int)v.size() && osl_generic_count(x) == (int)v.size(), "number of %s", key.c_str());
    for (auto u : {OSL_URI_CLAY, OSL_URI_STRINGS, OSL_URI_COMMENT, ""}) {
      void* want = nullptr;
      int i = 0;
      bool got = false;
      for (auto e = x; e; e = e->next, i++) {
        bool has = v[i].face >= 0 && FACES[v[i].face].uri && !strcmp(FACES[v[i].face].uri, u);
        c.check(!osl_generic_has_URI(e, u) == !has, "extension %d of %s and the name '%s'", i, key.c_str(), u);
        if (has && !got) { want = e->data; got = true; }
      }
      c.check(osl_generic_lookup(x, u) == want, "lookup of '%s' in %s", u, key.c_str());
    }
  } else if (what == 1) {
    bool want = v.size() == w.size();
    for (auto& a : v) {
      bool found = false;
      for (auto& b : w) found = found || (a.face >= 0 && a.face == b.face && a.data == b.data);
      want = want && found;
    }
    c.check(osl_generic_equal(x, y) == want, "equality of %s", key.c_str());
    c.check(osl_generic_equal(x, x), "%s differs from itself", key.c_str());
  } else if (what == 2) {
    auto u = c.pick(vector<const char*>{OSL_URI_CLAY, OSL_URI_STRINGS, OSL_URI_COMMENT}, "removed");
    size_t i = 0;
    while (i < v.size() && !(v[i].face >= 0 && FACES[v[i].face].uri && !strcmp(FACES[v[i].face].uri, u))) ++i;
    osl_generic_remove(&x, u);
    if (i < v.size()) v.erase(v.begin() + i);
    i = 0;
    for (auto e = x; e; e = e->next, i++) c.check(i < v.size() && !e->interface == (v[i].face < 0) && !e->data == !v[i].data, "removal of '%s' from %s", u, key.c_str());
    c.check(i == v.size(), "removal of '%s' from %s", u, key.c_str());
  } else {
    string d = printed([&](FILE* o) { osl_generic_dump(o, x); });
    size_t n = 0;
    for (size_t p = 0; (p = d.find("osl_generic_t", p)) != string::npos; p++) ++n;
    c.check(v.empty() || n == v.size(), "the dump shows %zu of %zu extensions", n, v.size());
    c.check(d.find("(null)") == string::npos, "the dump of %s prints a null string", key.c_str());
  }
  osl_generic_free(x);
  osl_generic_free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  static vector<Subject> S = subjects();
  static vector<Fn> F = functions();
  mc::add("functions", std::to_string(F.size()) + " functions, every subset of their optional arguments absent", [](Ctx& c) { function(c, F); });
  mc::add("structures", std::to_string(S.size()) + " structures: release, copy, partial copy, comparison, text, dump at 4 levels, reading, as data of an extension", [](Ctx& c) { structure(c, S); });
  mc::add("extensions of no kind", "at every position of a list of extensions: 7 operations", unknown);
  mc::add("precisions", "9 precisions that do not exist, 48 operations", strange);
  mc::add("kinds", "dependences and symbols of 5 unknown kinds", strange_kind);
  mc::add("shells", "data and interface present or not", shells);
  mc::add("nodes without relation", "lists of 0..3 nodes (thorough: 4), each one of 3 relations or none: 12 operations, as without those nodes or keeping them", holes);
  mc::add("interfaces without name", "lists of 0..4 interfaces of 5, two without a name: lookup, number, equality, dump, addition", nameless);
  mc::add("bare extensions", "lists of 0..3 extensions with or without interface, name, data: queries, equality, removal, dump", bare_extensions);
}
