// C11: extension containers hold one payload per URI.
#include "subject.hpp"
using namespace gn;

mc::Property property() {
  return {"C11",
          "every history of operations on two extension lists (and on two interface registries) up to the stated length "
          "against plain sequences of (URI, payload) pairs: contents, order, counts, lookup by pointer identity, comparison "
          "without regard to order, and an error report exactly when an addition would make two entries with one URI; every "
          "registration of an interface with a SCoP holding any text of extensions",
          {"entries have an interface with a URI", "an added list is not part of another one"}};
}
namespace {
struct E { string uri; int v; bool operator==(const E& o) const { return uri == o.uri && v == o.v; } };
using L = vector<E>;
const vector<const char*> U = {OSL_URI_STRINGS, OSL_URI_CLAY, OSL_URI_BODY, OSL_URI_SCATNAMES};
void* data(const string& u, int v) {
  string w = "v" + std::to_string(v);
  if (u == OSL_URI_STRINGS) return build_strings({w, "x"});
  if (u == OSL_URI_CLAY) { auto p = fresh<osl_clay_t>(); p->script = mc::lstrdup(w.c_str()); return p; }
  if (u == OSL_URI_SCATNAMES) { auto p = fresh<osl_scatnames_t>(); p->names = build_strings({w}); return p; }
  auto b = fresh<osl_body_t>();
  b->iterators = build_strings({"i"});
  b->expression = build_strings({w});
  return b;
}
string show(const L& l) {
  string s = "gen{";
  for (auto& e : l) {
    string w = "'v" + std::to_string(e.v) + "'";
    s += e.uri + "=";
    if (e.uri == OSL_URI_STRINGS) s += "<" + w + " 'x' >";
    else if (e.uri == OSL_URI_CLAY) s += "clay(" + w + ")";
    else if (e.uri == OSL_URI_SCATNAMES) s += "scatnames(<" + w + " >)";
    else s += "body(<'i' ><" + w + " >)";
    s += ";";
  }
  return s + "}";
}
bool has(const L& l, const string& u) { for (auto& e : l) if (e.uri == u) return true; return false; }
bool same(const L& a, const L& b) {
  if (a.size() != b.size()) return false;
  for (auto& e : a) { bool f = false; for (auto& o : b) f |= o == e; if (!f) return false; }
  return true;
}
void compare(Ctx& c, const char* op, osl_generic_p g, const L& l) {
  c.check(text(g) == show(l), "%s: %s", op, differ(show(l), text(g)).c_str());
  c.check(osl_generic_count(g) == (int)l.size() && osl_generic_number(g) == (int)l.size(), "%s: count", op);
  for (auto u : U) {
    void* want = nullptr;
    for (auto x = g; x; x = x->next) if (!strcmp(x->interface->URI, u)) want = x->data;
    void* got = osl_generic_lookup(g, u);
    c.check(got == want && (want != nullptr) == has(l, u), "%s: lookup of %s", op, u);
  }
  c.check(!osl_generic_lookup(g, "none") && !osl_generic_lookup(g, "") && !osl_generic_lookup(g, "stringss") && !osl_generic_lookup(g, "string"), "%s: lookup of an absent URI", op);
  if (g) for (auto u : U) c.check((osl_generic_has_URI(g, u) != 0) == (l[0].uri == u), "%s: has_URI %s", op, u);
}
void history(Ctx& c, int depth, int uris) {
  osl_generic_p l[2] = {nullptr, nullptr};
  L m[2];
  bool dead = false;
  for (int i = 0; i < depth && !dead; i++) {
    if (!c.state(show(m[0]) + "|" + show(m[1]), depth - i)) break;
    int k = c.choose(2, "list"), o = 1 - k;
    osl_generic_p &a = l[k], &b = l[o];
    L &A = m[k], &B = m[o];
    c.step();
    int op = c.choose(8, "operation");
    const char* name = "";
    bool skip = false;
    switch (op) {
      case 0: {
        name = "add";
        string u = U[c.choose(uris, "URI")];
        int v = c.choose(2, "payload");
        osl_generic_p g = generic(u.c_str(), data(u, v));
        bool ok = !has(A, u);
        bool died = mc::dies([&] { osl_generic_add(&a, g); });
        c.check(died == !ok, "adding %s to %s: %s", u.c_str(), show(A).c_str(), died ? "error" : "no error");
        if (died) { compare(c, "refused add", a, A); osl_generic_free(g); dead = true; } else A.push_back({u, v});
        break;
      }
      case 1: {
        name = "add several";
        L add = {{U[c.choose(uris, "first URI")], 0}, {U[c.choose(uris, "second URI")], 1}};
        osl_generic_p g = generic(add[0].uri.c_str(), data(add[0].uri, 0));
        g->next = generic(add[1].uri.c_str(), data(add[1].uri, 1));
        bool ok = add[0].uri != add[1].uri && !has(A, add[0].uri) && !has(A, add[1].uri);
        bool died = mc::dies([&] { osl_generic_add(&a, g); });
        c.check(died == !ok, "adding %s to %s: %s", show(add).c_str(), show(A).c_str(), died ? "error" : "no error");
        if (died) { compare(c, "refused add", a, A); osl_generic_free(g); dead = true; } else A.insert(A.end(), add.begin(), add.end());
        break;
      }
      case 2: {
        name = "remove";
        static const vector<const char*> V = {OSL_URI_STRINGS, OSL_URI_CLAY, OSL_URI_BODY, "none"};
        string u = c.pick(V, "URI");
        osl_generic_remove(&a, u.c_str());
        for (size_t j = 0; j < A.size(); j++) if (A[j].uri == u) { A.erase(A.begin() + j); break; }
        break;
      }
      case 3: {
        name = "remove node";
        int n = c.choose((int)A.size() + 2, "node");
        osl_generic_p x = a;
        if (n < (int)A.size()) {
          for (int j = 0; j < n; j++) x = x->next;
          A.erase(A.begin() + n);
          osl_generic_remove_node(&a, x);
        } else if (n == (int)A.size()) osl_generic_remove_node(&a, nullptr);
        else osl_generic_remove_node(&a, b);  // not in this list
        break;
      }
      case 4: name = "clone"; { osl_generic_p y = osl_generic_clone(a); osl_generic_free(b); b = y; B = A; } break;
      case 5: {
        name = "nclone";
        int n = c.choose(4, "n") - 1;
        osl_generic_p y = osl_generic_nclone(a, n);
        L w = A;
        if (n >= 0 && n < (int)w.size()) w.resize(n);
        osl_generic_free(b);
        b = y; B = w;
        break;
      }
      case 6: {
        name = "add the other list";
        bool ok = true;
        for (auto& e : B) ok &= !has(A, e.uri);
        bool died = mc::dies([&] { osl_generic_add(&a, b); });
        c.check(died == !ok, "adding %s to %s: %s", show(B).c_str(), show(A).c_str(), died ? "error" : "no error");
        if (died) dead = true;
        else { A.insert(A.end(), B.begin(), B.end()); B.clear(); b = nullptr; }
        break;
      }
      case 7: {
        name = "shell";
        if (a) { skip = true; break; }
        osl_strings_p s = build_strings({"v1", "x"});
        osl_interface_p itf = osl_strings_interface();
        a = osl_generic_shell(s, itf);
        c.check(a->data == s && a->interface == itf && !a->next, "shell does not hold what it is given");
        A = {{OSL_URI_STRINGS, 1}};
        break;
      }
    }
    if (skip) break;
    c.note("  %s -> %s | %s", name, show(m[0]).c_str(), show(m[1]).c_str());
    compare(c, name, l[0], m[0]);
    compare(c, name, l[1], m[1]);
    bool eq = same(m[0], m[1]);
    c.check(osl_generic_equal(l[0], l[1]) == eq && osl_generic_equal(l[1], l[0]) == eq, "%s: comparison should give %d for %s %s", name, eq, show(m[0]).c_str(), show(m[1]).c_str());
  }
  osl_generic_free(l[0]);
  osl_generic_free(l[1]);
  if (!dead) c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// nodes are removed by identity, whatever they hold: also nodes alike and nodes without interface or data
void nodes(Ctx& c, int most) {
  int n = c.choose(most + 1, "nodes");
  osl_generic_p h = nullptr, *t = &h;
  vector<osl_generic_p> v;
  for (int i = 0; i < n; i++) {
    int k = c.choose(5, "node: bare, clay, clay without a payload, body, another clay");
    osl_generic_p x = k == 0 ? fresh<osl_generic_t>() : k == 2 ? fresh<osl_generic_t>() : generic(k == 3 ? OSL_URI_BODY : OSL_URI_CLAY, data(k == 3 ? OSL_URI_BODY : OSL_URI_CLAY, k == 4));
    if (k == 2) x->interface = osl_clay_interface();
    *t = x;
    t = &x->next;
    v.push_back(x);
  }
  vector<osl_generic_p> order = v;
  while (true) {
    c.step();
    c.check(osl_generic_count(h) == (int)order.size(), "%d nodes counted, there are %zu", osl_generic_count(h), order.size());
    size_t i = 0;
    for (osl_generic_p x = h; x; x = x->next, i++) c.check(i < order.size() && x == order[i], "another node at position %zu of the list", i);
    c.check(i == order.size(), "%zu nodes instead of %zu", i, order.size());
    if (order.empty()) break;
    int k = c.choose((int)order.size() + 1, "node to remove, or stop");
    if (k == (int)order.size()) break;
    osl_generic_remove_node(&h, order[k]);
    order.erase(order.begin() + k);
  }
  osl_generic_free(h);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// ------------------------------------------------------------- registries
void registries(Ctx& c, int depth) {
  static osl_interface_p (*const F[])() = {osl_strings_interface, osl_comment_interface, osl_body_interface};
  static const char* N[] = {OSL_URI_STRINGS, OSL_URI_COMMENT, OSL_URI_BODY};
  osl_interface_p l[2] = {nullptr, nullptr};
  vector<int> m[2];
  auto str_ = [](const vector<int>& v) { string s = "if{"; for (int x : v) s += quote(N[x]) + ";"; return s + "}"; };
  bool dead = false;
  for (int i = 0; i < depth && !dead; i++) {
    if (!c.state(str_(m[0]) + str_(m[1]), depth - i)) break;
    int k = c.choose(2, "registry"), o = 1 - k;
    auto &a = l[k], &b = l[o];
    auto &A = m[k], &B = m[o];
    c.step();
    int op = c.choose(5, "operation");
    auto in = [](const vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); };
    switch (op) {
      case 0: {
        int f = c.choose(3, "interface");
        auto x = F[f]();
        bool died = mc::dies([&] { osl_interface_add(&a, x); });
        c.check(died == in(A, f), "adding %s to %s: %s", N[f], str_(A).c_str(), died ? "error" : "no error");
        if (died) { dead = true; osl_interface_free(x); } else A.push_back(f);
        break;
      }
      case 1: { auto y = osl_interface_clone(a); osl_interface_free(b); b = y; B = A; break; }
      case 2: { int n = c.choose(4, "n") - 1; auto y = osl_interface_nclone(a, n); vector<int> w = A; if (n >= 0 && n < (int)w.size()) w.resize(n); osl_interface_free(b); b = y; B = w; break; }
      case 3: {
        bool ok = true;
        for (int x : B) ok &= !in(A, x);
        bool died = mc::dies([&] { osl_interface_add(&a, b); });
        c.check(died == !ok, "adding %s to %s: %s", str_(B).c_str(), str_(A).c_str(), died ? "error" : "no error");
        if (died) dead = true; else { A.insert(A.end(), B.begin(), B.end()); B.clear(); b = nullptr; }
        break;
      }
      case 4: osl_interface_free(a); a = nullptr; A.clear(); break;
    }
    for (int q = 0; q < 2; q++) {
      c.check(uris(l[q]) == str_(m[q]), "registry: %s", differ(str_(m[q]), uris(l[q])).c_str());
      c.check(osl_interface_number(l[q]) == (int)m[q].size(), "number of interfaces");
      for (int f = 0; f < 3; f++) {
        osl_interface_p r = osl_interface_lookup(l[q], N[f]);
        c.check((r != nullptr) == in(m[q], f) && (!r || !strcmp(r->URI, N[f])), "lookup of %s in %s", N[f], str_(m[q]).c_str());
        if (r) { auto x = F[f](); c.check(r->sread == x->sread && r->sprint == x->sprint && r->clone == x->clone && r->free == x->free && r->equal == x->equal && r->idump == x->idump && r->malloc == x->malloc, "wrong functions for %s", N[f]); osl_interface_free(x); }
      }
      c.check(!osl_interface_lookup(l[q], "none"), "lookup of an unknown URI");
    }
    vector<int> x = A, y = B;
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    c.check(osl_interface_equal(a, b) == (x == y) && osl_interface_equal(b, a) == (x == y), "comparison of %s and %s", str_(A).c_str(), str_(B).c_str());
  }
  osl_interface_free(l[0]);
  osl_interface_free(l[1]);
  if (!dead) c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// every interface of the default registry works on its own kind of payload
void defaults(Ctx& c) {
  osl_interface_p r = osl_interface_get_default_registry();
  vector<Kind> want;
  for (auto& k : kinds()) if (k.registered) want.push_back(k);
  c.check(osl_interface_number(r) == (int)want.size(), "%d interfaces in the default registry", osl_interface_number(r));
  int i = c.choose((int)want.size(), "kind");
  c.state(want[i].uri);
  c.step();
  osl_interface_p f = osl_interface_lookup(r, want[i].uri), own = want[i].itf();
  c.check(f != nullptr, "%s is not in the default registry", want[i].uri);
  c.check(f && !strcmp(f->URI, own->URI) && f->idump == own->idump && f->sprint == own->sprint && f->sread == own->sread && f->malloc == own->malloc && f->free == own->free && f->clone == own->clone && f->equal == own->equal,
          "the default registry has other functions for %s", want[i].uri);
  G g(c);
  void* x = payload(g, want[i].uri, 0);
  void* y = f->clone(x);
  c.check(payload(want[i].uri, x) == payload(want[i].uri, y), "the clone function of %s does not clone that kind", want[i].uri);
  c.check(f->equal(x, y), "the equal function of %s", want[i].uri);
  char* t = f->sprint(x);
  mc::lfree(t);
  f->free(x);
  f->free(y);
  void* e = f->malloc();
  f->free(e);
  osl_interface_free(own);
  osl_interface_free(r);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// ------------------------------------------------- registration with a SCoP
void reg(Ctx& c, int maxn) {
  // the text of the SCoP's extensions, some of them not known yet
  static const vector<string> TAGS = {OSL_URI_CLAY, OSL_URI_SCATNAMES, "unknown", "clay_more", OSL_URI_STRINGS};
  static const vector<string> BODY = {"f(x);\n", "b0 i", "# nothing\n<x> y </x>\n", "zz\n", "a bb"};
  int n = c.choose(maxn + 1, "extensions in the text");
  vector<int> tx;
  string t = c.flip("leading comment") ? "# c\n\n" : "";
  for (int i = 0; i < n; i++) {
    int k = c.choose(5, "extension");
    for (int x : tx) if (x == k) return;
    tx.push_back(k);
    t += "<" + TAGS[k] + ">\n" + BODY[k] + "\n</" + TAGS[k] + ">\n";
  }
  int has_text = c.choose(3, "textual payload: none, empty, text");
  bool others = c.flip("another structured extension");
  osl_scop_p s = fresh<osl_scop_t>();
  s->version = 1;
  s->language = mc::lstrdup("C");
  if (others) s->extension = generic(OSL_URI_BODY, data(OSL_URI_BODY, 0));
  if (has_text) {
    auto p = fresh<osl_textual_t>();
    p->textual = has_text == 1 ? nullptr : mc::lstrdup(t.c_str());
    osl_generic_p g = generic(OSL_URI_TEXTUAL, p);
    if (c.flip("text first")) { g->next = s->extension; s->extension = g; }
    else { osl_generic_p* e = &s->extension; while (*e) e = &(*e)->next; *e = g; }
  }
  s->registry = osl_body_interface();
  string before = text(s->extension);
  string want = before.substr(0, before.size() - 1);
  auto found = [&](int k) { return has_text == 2 && std::find(tx.begin(), tx.end(), k) != tx.end(); };
  // registrations in every order
  int order = c.choose(6, "registrations");
  static const vector<vector<int>> O = {{}, {0}, {1}, {0, 1}, {1, 0}, {4, 0}};
  string regs = "if{'body';";
  c.state(t + std::to_string(has_text) + std::to_string(others) + std::to_string(order));
  for (int k : O[order]) {
    osl_interface_p f = k == 0 ? osl_clay_interface() : k == 1 ? osl_scatnames_interface() : osl_strings_interface();
    osl_scop_register_extension(s, f);
    c.step();
    regs += quote(f->URI) + ";";
    if (found(k)) {
      want += TAGS[k] + "=";
      want += k == 0 ? "clay('f(x);\n\n')" : k == 1 ? "scatnames(<'b0' 'i' >)" : "<'a' 'bb' >";
      want += ";";
    }
    c.check(text(s->extension) == want + "}", "after registering %s: %s", f->URI, differ(want + "}", text(s->extension)).c_str());
    c.check(uris(s->registry) == regs + "}", "registry: %s", differ(regs + "}", uris(s->registry)).c_str());
  }
  osl_scop_register_extension(s, nullptr);
  c.check(text(s->extension) == want + "}", "registering nothing changed the extensions");
  osl_interface_p x = osl_arrays_interface();
  osl_scop_register_extension(nullptr, x);
  osl_interface_free(x);
  osl_scop_free(s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  mc::add("extension lists", "all histories of length " + std::to_string(mc::q(4, 5)) + " over 8 operations, two lists, " + std::to_string(mc::q(3, 3)) + " URIs, 2 payloads", [](Ctx& c) { history(c, mc::q(4, 5), 3); });
  mc::add("registries", "all histories of length " + std::to_string(mc::q(5, 7)) + " over 5 operations, two registries, 3 URIs", [](Ctx& c) { registries(c, mc::q(5, 7)); });
  mc::add("default registry", "every kind", defaults);
  mc::add("registration", "all texts of up to " + std::to_string(mc::q(3, 4)) + " different extensions, every registration order of two interfaces", [](Ctx& c) { reg(c, mc::q(3, 4)); });
  mc::add("nodes", "lists of up to " + std::to_string(mc::q(4, 5)) + " nodes of 5 kinds, bare and alike ones included, every order of removals", [](Ctx& c) { nodes(c, mc::q(4, 5)); });
}
