// C25: extension helpers keep their lists consistent.
#include "observers.hpp"
using namespace gn;

mc::Property property() {
  return {"C25",
          "after every step of every history of helper calls the extension holds exactly the elements added, in order, and every lookup and count agrees with a plain list",
          {"looking up an absent array gives the number of arrays (the position after the last one)",
           "converting arrays to names: the name of array k is at position k, the last one added when an identifier repeats; positions of absent identifiers hold some name"}};
}
namespace {
void arrays(Ctx& c, int depth) {
  static const vector<int> ID = {1, 2, 4, 0, -3};
  static const vector<string> NM = {"A", "Bq", "AB"};
  osl_arrays_p a = osl_arrays_malloc();
  vector<std::pair<int, string>> m;
  // an earlier content
  if (c.flip("read first")) {
    string t = "2\n# id name\n3 A\n1 Bq\n";
    Text in(t);
    osl_arrays_free(a);
    a = osl_arrays_sread(&in.pos);
    m = {{3, "A"}, {1, "Bq"}};
  }
  bool copied = false;
  for (int d = 0; d <= depth; d++) {
    string st = copied ? "copy:" : "";
    for (auto& x : m) st += std::to_string(x.first) + x.second + ";";
    if (!c.state(st, depth - d)) break;
    c.check(a->nb_names == (int)m.size(), "%d arrays instead of %zu", a->nb_names, m.size());
    for (size_t i = 0; i < m.size(); i++) c.check(a->id[i] == m[i].first && m[i].second == a->names[i], "array %zu is %d %s instead of %d %s", i, a->id[i], a->names[i], m[i].first, m[i].second.c_str());
    for (int id = -4; id <= 5; id++) {
      size_t w = 0;
      while (w < m.size() && m[w].first != id) ++w;
      c.check(osl_arrays_get_index_from_id(a, id) == w, "index of identifier %d in %s", id, st.c_str());
    }
    for (auto& n : {string("A"), string("Bq"), string("AB"), string("B"), string("")}) {
      size_t w = 0;
      while (w < m.size() && m[w].second != n) ++w;
      c.check(osl_arrays_get_index_from_name(a, n.c_str()) == w, "index of name %s in %s", n.c_str(), st.c_str());
    }
    osl_strings_p s = osl_arrays_to_strings(a);
    int mx = 0;
    for (auto& x : m) mx = std::max(mx, x.first);
    vector<string> v = see_strings(s);
    c.check((int)v.size() == mx, "%zu names for largest identifier %d", v.size(), mx);
    for (int id = 1; id <= mx; id++) {
      const string* want = nullptr;
      for (auto& x : m) if (x.first == id) want = &x.second;
      if (want) c.check(v[id - 1] == *want, "name %d is %s instead of %s in %s", id, v[id - 1].c_str(), want->c_str(), st.c_str());
      else for (auto& x : m) c.check(v[id - 1] != x.second, "position %d of %s has the name of another array", id, st.c_str());
    }
    osl_strings_free(s);
    if (d == depth) break;
    int op = c.choose((int)(ID.size() * NM.size()) + 2, "add");
    c.step();
    if (op == (int)(ID.size() * NM.size())) c.check(osl_arrays_add(a, 7, nullptr) < 0, "adding without a name");
    else if (op > (int)(ID.size() * NM.size())) { osl_arrays_p b = osl_arrays_clone(a); osl_arrays_free(a); a = b; copied = true; }
    else {
      int id = ID[op % ID.size()];
      const string& n = NM[op / ID.size()];
      m.push_back({id, n});
      int r = osl_arrays_add(a, id, n.c_str());
      c.check(r == (int)m.size(), "adding returned %d, with %zu arrays", r, m.size());
    }
  }
  c.check(osl_arrays_add(nullptr, 1, "x") < 0, "adding to nothing");
  c.check(!osl_arrays_to_strings(nullptr), "strings of nothing");
  c.check(osl_arrays_get_index_from_id(nullptr, 1) == 0 && osl_arrays_get_index_from_name(nullptr, "A") == 0 && osl_arrays_get_index_from_name(a, nullptr) == 0, "lookups in nothing");
  osl_arrays_free(a);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void many_arrays(Ctx& c) {
  int n = c.pick(vector<int>{10, 127, 128, 129, 1000}, "arrays");
  c.state(std::to_string(n));
  osl_arrays_p a = osl_arrays_malloc();
  for (int i = 0; i < n; i++) {
    c.step();
    c.check(osl_arrays_add(a, n - i, ("name" + std::to_string(i)).c_str()) == i + 1, "number of arrays");
  }
  for (int i = 0; i < n; i++) c.check(osl_arrays_get_index_from_id(a, n - i) == (size_t)i && osl_arrays_get_index_from_name(a, ("name" + std::to_string(i)).c_str()) == (size_t)i, "index %d", i);
  osl_strings_p s = osl_arrays_to_strings(a);
  for (int i = 0; i < n; i++) c.check(s->string[n - i - 1] == "name" + std::to_string(i), "name %d", i);
  osl_strings_free(s);
  osl_arrays_free(a);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void extbody(Ctx& c, int depth) {
  osl_extbody_p e = osl_extbody_malloc();
  vector<std::pair<int, int>> m;
  bool copied = false;
  for (int d = 0; d <= depth; d++) {
    string st = copied ? "copy:" : "";
    for (auto& x : m) st += std::to_string(x.first) + "+" + std::to_string(x.second) + ";";
    if (!c.state(st, depth - d)) break;
    c.check(e->nb_access == m.size(), "%zu accesses instead of %zu", e->nb_access, m.size());
    for (size_t i = 0; i < m.size(); i++) c.check(e->start[i] == m[i].first && e->length[i] == m[i].second, "segment %zu is %d,%d instead of %d,%d", i, e->start[i], e->length[i], m[i].first, m[i].second);
    if (d == depth) break;
    int op = c.choose(11, "add");
    c.step();
    if (op == 9) { for (int i = 0; i < 40; i++) { m.push_back({i, 7 * i}); osl_extbody_add(e, i, 7 * i); } }
    else if (op == 10) { osl_extbody_p f = osl_extbody_clone(e); osl_extbody_free(e); e = f; copied = true; }
    else {
      static const vector<int> V = {0, 5, -1};
      m.push_back({V[op % 3], V[op / 3]});
      osl_extbody_add(e, V[op % 3], V[op / 3]);
    }
  }
  osl_extbody_free(e);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// lists of nodes: what is added is a list of up to three nodes
template <class T, class New, class Add, class Count, class Free, class Val>
void nodes(Ctx& c, int depth, New mk, Add add, Count count, Free fr, Val val, const std::function<T*(const T*)>& clone) {
  T *list = nullptr, *now = nullptr;
  vector<string> m;
  int serial = 0;
  bool copied = false;
  for (int d = 0; d <= depth; d++) {
    string st = copied ? "copy:" : "";
    for (auto& x : m) st += x + ";";
    if (!c.state(st, depth - d)) break;
    vector<string> got;
    for (T* x = list; x; x = x->next) got.push_back(val(x));
    c.check(got == m, "the list is %s instead of %s", md::str(got).c_str(), md::str(m).c_str());
    c.check((long)count(list) == (long)m.size(), "%ld counted instead of %zu", (long)count(list), m.size());
    if (d == depth) break;
    int op = c.choose(5, "add nothing, one, two, three; copy");
    c.step();
    if (op == 4) {
      T* k = clone(list);
      fr(list);
      list = k;
      copied = true;
      for (now = list; now && now->next;) now = now->next;
      continue;
    }
    T *h = nullptr, **t = &h;
    for (int i = 0; i < op; i++) { *t = mk(serial++); m.push_back(val(*t)); t = &(*t)->next; }
    add(&list, &now, h);
  }
  fr(list);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void loops(Ctx& c, int depth) {
  nodes<osl_loop_t>(
      c, depth, [](int k) { auto l = osl_loop_malloc(); l->iter = mc::lstrdup(("i" + std::to_string(k)).c_str()); l->nb_stmts = k % 2; l->stmt_ids = k % 2 ? ints_of({k}) : nullptr; l->directive = k; if (k % 2) l->private_vars = mc::lstrdup("v"); return l; },
      [](osl_loop_t** l, osl_loop_t**, osl_loop_t* x) { osl_loop_add(x, l); }, [](osl_loop_t* l) { return osl_loop_count(l); }, [](osl_loop_t* l) { osl_loop_free(l); },
      [](osl_loop_t* x) { osl_loop_t one = *x; one.next = nullptr; return md::payload(OSL_URI_LOOP, &one); }, [](const osl_loop_t* l) { return osl_loop_clone(l); });
}
void deps(Ctx& c, int depth) {
  nodes<osl_dependence_t>(
      c, depth, [](int k) { auto l = osl_dependence_malloc(); l->label_source = k; l->label_target = 2 * k; l->domain = build(part(OSL_TYPE_DOMAIN, 1, 0, 0, 0, {{"1", "1", std::to_string(k)}})); return l; },
      [](osl_dependence_t** l, osl_dependence_t** now, osl_dependence_t* x) { osl_dependence_add(l, now, x); }, [](osl_dependence_t* l) { return osl_nb_dependences(l); }, [](osl_dependence_t* l) { osl_dependence_free(l); },
      [](osl_dependence_t* x) { osl_dependence_t one = *x; one.next = nullptr; return md::payload(OSL_URI_DEPENDENCE, &one); }, [](const osl_dependence_t* l) { return osl_dependence_clone((osl_dependence_t*)l); });
}
void symbols(Ctx& c, int depth) {
  nodes<osl_symbols_t>(
      c, depth, [](int k) { auto l = osl_symbols_malloc(); l->type = 1 + k % 4; l->nb_dims = k; l->identifier = generic(OSL_URI_STRINGS, build_strings({"s" + std::to_string(k)})); return l; },
      [](osl_symbols_t** l, osl_symbols_t**, osl_symbols_t* x) { osl_symbols_add(l, x); }, [](osl_symbols_t* l) { return osl_symbols_get_nb_symbols(l); }, [](osl_symbols_t* l) { osl_symbols_free(l); },
      [](osl_symbols_t* x) { osl_symbols_t one = *x; one.next = nullptr; return md::payload(OSL_URI_SYMBOLS, &one); }, [](const osl_symbols_t* l) { return osl_symbols_clone((osl_symbols_t*)l); });
}
// lists of statements and of scops
void statements(Ctx& c, int depth) {
  nodes<osl_statement_t>(
      c, depth, [&c](int k) { G g(c); return statement(g, PRECS[k % 3], k, 0); },
      [](osl_statement_t** l, osl_statement_t**, osl_statement_t* x) { osl_statement_add(l, x); }, [](osl_statement_t* l) { return osl_statement_number(l); }, [](osl_statement_t* l) { osl_statement_free(l); },
      [](osl_statement_t* x) { osl_statement_t one = *x; one.next = nullptr; return text(&one); }, [](const osl_statement_t* l) { return osl_statement_clone(l); });
}
void scops(Ctx& c, int depth) {
  nodes<osl_scop_t>(
      c, depth, [&c](int k) { G g(c); return scop(g, PRECS[k % 3], 1 + k % 3, 0); },
      [](osl_scop_t** l, osl_scop_t**, osl_scop_t* x) { osl_scop_add(l, x); }, [](osl_scop_t* l) { return osl_scop_number(l); }, [](osl_scop_t* l) { osl_scop_free(l); },
      [](osl_scop_t* x) { osl_scop_t one = *x; one.next = nullptr; return text(&one); }, [](const osl_scop_t* l) { return osl_scop_clone(l); });
}
// single node copies
void clone_one(Ctx& c) {
  int n = c.choose(3, "nodes") + 1, w = c.choose(2, "kind");
  G g(c);
  if (w == 0) {
    osl_loop_t* l = (osl_loop_t*)payload(g, OSL_URI_LOOP, 2);
    for (int i = 1; i < n; i++) { G z(c); osl_loop_add((osl_loop_t*)payload(z, OSL_URI_LOOP, 0), &l); }
    osl_loop_t* k = osl_loop_clone_one(l);
    c.state(md::payload(OSL_URI_LOOP, l));
    c.step();
    if (!l) c.check(!k, "copy of nothing");
    else {
      osl_loop_t one = *l;
      one.next = nullptr;
      c.check(md::payload(OSL_URI_LOOP, k) == md::payload(OSL_URI_LOOP, &one), "%s", differ(md::payload(OSL_URI_LOOP, &one), md::payload(OSL_URI_LOOP, k)).c_str());
    }
    osl_loop_free(k);
    osl_loop_free(l);
  } else {
    osl_region_t* l = (osl_region_t*)payload(g, OSL_URI_REGION, 1);
    if (!l) return;
    c.state(md::payload(OSL_URI_REGION, l));
    c.step();
    osl_region_t* k = osl_region_clone_one(l);
    osl_region_t one = *l;
    one.next = nullptr;
    c.check(md::payload(OSL_URI_REGION, k) == md::payload(OSL_URI_REGION, &one), "%s", differ(md::payload(OSL_URI_REGION, &one), md::payload(OSL_URI_REGION, k)).c_str());
    osl_region_free(k);
    osl_region_free(l);
  }
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
template <class T>
void same_lines(Ctx& c, const T& t, const vector<std::pair<int, string>>& m, const char* what) {
  c.check(t.count == m.size(), "%zu lines of %s instead of %zu", t.count, what, m.size());
  for (size_t i = 0; i < m.size(); i++) c.check(t.types[i] == m[i].first && m[i].second == t.lines[i], "line %zu of %s", i, what);
}
void regions(Ctx& c, int depth) {
  bool ann = c.flip("annotation");
  osl_region_t* r = ann ? nullptr : osl_region_malloc();
  osl_annotation_t* a = ann ? osl_annotation_malloc() : nullptr;
  vector<std::pair<int, string>> m[4];
  static const char* N[] = {"prefix", "suffix", "prelude", "postlude"};
  for (int d = 0; d <= depth; d++) {
    string st;
    for (auto& v : m) { for (auto& x : v) st += std::to_string(x.first) + x.second + ";"; st += "|"; }
    if (!c.state(st, depth - d)) break;
    if (ann) { same_lines(c, a->prefix, m[0], N[0]); same_lines(c, a->suffix, m[1], N[1]); }
    else { same_lines(c, r->prefix, m[0], N[0]); same_lines(c, r->suffix, m[1], N[1]); same_lines(c, r->prelude, m[2], N[2]); same_lines(c, r->postlude, m[3], N[3]); }
    if (d == depth) break;
    int w = c.choose(ann ? 2 : 4, "where"), k = c.choose(2, "line");
    string s = k ? "" : "text " + std::to_string(d);
    char* l = mc::lstrdup(s.c_str());
    int ty = k ? -1 : d + 1;
    m[w].push_back({ty, s});
    c.step();
    if (ann) (w ? osl_annotation_append_suffix : osl_annotation_append_prefix)(a, ty, l);
    else (w == 0 ? osl_region_append_prefix : w == 1 ? osl_region_append_suffix : w == 2 ? osl_region_append_prelude : osl_region_append_postlude)(r, ty, l);
  }
  if (ann) osl_annotation_free(a); else osl_region_free(r);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void region_counts(Ctx& c) {
  int n = c.choose(5, "regions");
  osl_region_t *h = nullptr, **t = &h;
  for (int i = 0; i < n; i++) { *t = osl_region_malloc(); t = &(*t)->next; }
  c.state(std::to_string(n));
  c.step();
  c.check((int)osl_region_count(h) == n, "%d regions counted", (int)osl_region_count(h));
  osl_region_free(h);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void unroll(Ctx& c, int depth) {
  osl_pluto_unroll_p p = osl_pluto_unroll_malloc();
  string name;
  bool named = false, jam = false;
  unsigned factor = 0;
  for (int d = 0; d < depth; d++) {
    static const vector<string> N = {"i", "kk_long_name", ""};
    int k = c.choose(4, "name");
    jam = c.flip("jam");
    factor = c.pick(vector<unsigned>{0u, 4u, 4294967295u}, "factor");
    c.step();
    osl_pluto_unroll_fill(p, k == 3 ? nullptr : N[k].c_str(), jam, factor);
    if (k < 3) { named = true; name = N[k]; }
    if (!c.state(name + std::to_string(jam) + std::to_string(factor) + (named ? "n" : ""), depth - d)) break;
    c.check((p->iter != nullptr) == named && (!named || name == p->iter) && p->jam == jam && p->factor == factor, "filled with %s, %d, %u", quote(p->iter).c_str(), p->jam, p->factor);
    c.check(!p->next, "a second element");
  }
  osl_pluto_unroll_free(p);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// irregular: every helper returns an extended copy
void irregular(Ctx& c, int depth) {
  struct P { vector<string> it; string body; };
  vector<P> ctl, ext;
  vector<vector<int>> prd;
  G g(c);
  osl_irregular_p x = osl_irregular_malloc();
  auto all = [&] {
    string s = "ctl";
    for (auto& p : ctl) s += md::str(p.it) + p.body + ";";
    s += " exit";
    for (auto& p : ext) s += md::str(p.it) + p.body + ";";
    s += " prd";
    for (auto& v : prd) { s += "["; for (int y : v) s += std::to_string(y) + " "; s += "]"; }
    return s;
  };
  auto seen = [&](osl_irregular_p y) {
    string s = "ctl";
    for (int i = 0; i < y->nb_control + y->nb_exit; i++) {
      if (i == y->nb_control) s += " exit";
      Row it;
      for (int j = 0; j < y->nb_iterators[i]; j++) it.push_back(y->iterators[i][j]);
      s += md::str(it) + y->body[i] + ";";
    }
    if (y->nb_exit == 0) s += " exit";
    s += " prd";
    for (int i = 0; i < y->nb_statements; i++) { s += "["; for (int j = 0; j < y->nb_predicates[i]; j++) s += std::to_string(y->predicates[i][j]) + " "; s += "]"; }
    return s;
  };
  for (int d = 0; d <= depth; d++) {
    if (!c.state(all(), depth - d)) break;
    c.check(seen(x) == all(), "%s", differ(all(), seen(x)).c_str());
    if (d == depth) break;
    int op = c.choose(4, "operation"), n = op == 3 ? 0 : c.choose(3, "size");
    string id = std::to_string(d);
    osl_irregular_p y = nullptr;
    mc::Snap sn = mc::snapshot();
    c.step();
    if (op < 2) {
      P p;
      for (int i = 0; i < n; i++) p.it.push_back("it" + id + std::to_string(i));
      p.body = "c" + id + " > 0";
      vector<char*> v;
      for (auto& s : p.it) v.push_back((char*)s.c_str());
      Blk<char*> b(v);
      Text e(p.body);
      y = op ? osl_irregular_add_exit(x, b.p, n, e.base) : osl_irregular_add_control(x, b.p, n, e.base);
      (op ? ext : ctl).push_back(p);
    } else if (op == 2) {
      vector<int> v;
      for (int i = 0; i < n; i++) v.push_back(d * 10 + i);
      Blk<int> b(v);
      y = osl_irregular_add_predicates(x, b.p, n);
      prd.push_back(v);
    } else y = osl_irregular_clone(x);
    c.check(y != x, "the same structure came back");
    osl_irregular_free(x);
    x = y;
  }
  osl_irregular_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  string d = std::to_string(mc::q(4, 5));
  mc::add("arrays", "all histories of length " + d + " over 17 operations, from an empty and a read extension", [](Ctx& c) { arrays(c, mc::q(4, 5)); });
  mc::add("many arrays", "5 sizes", many_arrays);
  mc::add("extbody", "all histories of length " + std::to_string(mc::q(5, 6)) + " over 11 operations", [](Ctx& c) { extbody(c, mc::q(5, 6)); });
  mc::add("loops", "all histories of length " + std::to_string(mc::q(7, 9)), [](Ctx& c) { loops(c, mc::q(7, 9)); });
  mc::add("dependences", "all histories of length " + std::to_string(mc::q(7, 9)), [](Ctx& c) { deps(c, mc::q(7, 9)); });
  mc::add("symbols", "all histories of length " + std::to_string(mc::q(7, 9)), [](Ctx& c) { symbols(c, mc::q(7, 9)); });
  mc::add("statements", "all histories of length " + std::to_string(mc::q(5, 7)), [](Ctx& c) { statements(c, mc::q(5, 7)); });
  mc::add("scops", "all histories of length " + std::to_string(mc::q(5, 6)), [](Ctx& c) { scops(c, mc::q(5, 6)); });
  mc::add("one node", "all loops and regions", clone_one);
  mc::add("regions", "all histories of appended lines of length " + std::to_string(mc::q(5, 6)), [](Ctx& c) { regions(c, mc::q(5, 6)); });
  mc::add("region counts", "up to 4", region_counts);
  mc::add("unroll", "all histories of length " + std::to_string(mc::q(3, 4)), [](Ctx& c) { unroll(c, mc::q(3, 4)); });
  mc::add("irregular", "all histories of length " + std::to_string(mc::q(5, 6)) + " over 10 operations", [](Ctx& c) { irregular(c, mc::q(5, 6)); });
}
