// C27: the variants of one operation agree.
#include "readers.hpp"
#include "wide.hpp"
using namespace gn;

mc::Property property() {
  return {"C27",
          "for every structure, every small value and every single variation of it, each convenience entry point is run beside the general operation with the default "
          "argument: file and string printers, dumps at level 0, functions called directly and through the interface found in the default registry, copies of everything; for every "
          "text and setting of OSL_PRECISION, the readers and allocators that take no precision or registry are run beside those that do.  Results, positions left in "
          "the text and ends must be the same; new values must be the documented empty ones",
          {"addresses printed by a dump are not compared"}};
}
namespace {
void leak(Ctx& c) { c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str()); }

// the functions of a payload called directly
struct Direct {
  const char* uri;
  std::function<void(FILE*, const void*, int)> idump;
  std::function<void(FILE*, const void*)> dump;
  std::function<char*(const void*)> sprint;
  std::function<void*(char**)> sread;
  std::function<void*()> make;
  std::function<void(void*)> free;
  std::function<void*(const void*)> clone;
  std::function<bool(const void*, const void*)> equal;
};
#define DIRECT(U, x) {U, [](FILE* f, const void* d, int l) { osl_##x##_idump(f, (const osl_##x##_t*)d, l); }, [](FILE* f, const void* d) { osl_##x##_dump(f, (const osl_##x##_t*)d); }, \
  [](const void* d) { return osl_##x##_sprint((const osl_##x##_t*)d); }, [](char** s) { return (void*)osl_##x##_sread(s); }, [] { return (void*)osl_##x##_malloc(); }, \
  [](void* d) { osl_##x##_free((osl_##x##_t*)d); }, [](const void* d) { return (void*)osl_##x##_clone((osl_##x##_t*)d); }, [](const void* a, const void* b) { return (bool)osl_##x##_equal((osl_##x##_t*)a, (osl_##x##_t*)b); }}
const vector<Direct>& directs() {
  static const vector<Direct> v = {
      DIRECT(OSL_URI_STRINGS, strings), DIRECT(OSL_URI_BODY, body), DIRECT(OSL_URI_COMMENT, comment), DIRECT(OSL_URI_SCATINFOS, scatinfos), DIRECT(OSL_URI_SCATNAMES, scatnames),
      DIRECT(OSL_URI_ARRAYS, arrays), DIRECT(OSL_URI_COORDINATES, coordinates), DIRECT(OSL_URI_CLAY, clay), DIRECT(OSL_URI_DEPENDENCE, dependence), DIRECT(OSL_URI_SYMBOLS, symbols),
      DIRECT(OSL_URI_EXTBODY, extbody), DIRECT(OSL_URI_LOOP, loop), DIRECT(OSL_URI_PLUTO_UNROLL, pluto_unroll), DIRECT(OSL_URI_REGION, region), DIRECT(OSL_URI_ANNOTATION, annotation),
      DIRECT(OSL_URI_TEXTUAL, textual), DIRECT(OSL_URI_IRREGULAR, irregular),
      {OSL_URI_RELATION, [](FILE* f, const void* d, int l) { osl_relation_idump(f, (const osl_relation_t*)d, l); }, [](FILE* f, const void* d) { osl_relation_dump(f, (const osl_relation_t*)d); },
       [](const void* d) { return osl_relation_sprint((const osl_relation_t*)d); }, [](char** s) { return (void*)osl_relation_sread(s); }, [] { return (void*)osl_relation_interface_malloc(); },
       [](void* d) { osl_relation_free((osl_relation_t*)d); }, [](const void* d) { return (void*)osl_relation_clone((osl_relation_t*)d); }, [](const void* a, const void* b) { return osl_relation_equal((osl_relation_t*)a, (osl_relation_t*)b); }}};
  return v;
}
const Direct* direct(const string& uri) {
  for (auto& d : directs()) if (uri == d.uri) return &d;
  return nullptr;
}
string dumped(std::function<void(FILE*)> f) { return noaddr(printed(f)); }
string str_of(char* s) { return s ? take(s) : string("(nothing)"); }

// every way of printing, copying and comparing one value
void same(Ctx& c, const char* what, const string& a, const string& b) { c.step(); c.check(a == b, "%s: %s", what, differ(a, b).c_str()); }
void value(Ctx& c, const Subject& s, int r) {
  int prec = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  setenv("OSL_PRECISION", penv(prec), 1);
  G g(c);
  void* x = s.make(g, prec, r);
  if (!x && !s.next && !s.uri.empty()) return;
  g.again();
  void* plain = s.make(g, prec, r);  // the value without the variation
  auto drop = [&] { if (plain) s.free(plain); };
  {
    Slots z(false, prec);
    Slots::Lean lean;
    s.slots(z, &x, c);
    Muts v;
    for (auto& m : z.v) if (m.wf) v.push_back(m);
    int m = c.choose((int)v.size() + 1, "variation");
    if (m) { c.note("  variation: %s", v[m - 1].what.c_str()); v[m - 1].f(); }
  }
  string t = s.text(x);
  if (!c.state(s.name + t, 0)) { if (x) s.free(x); drop(); return; }
  if (s.name == OSL_URI_RELATION) {
    auto y = (osl_relation_t*)x;
    osl_names_p nm = build_names({"N"}, {"i", "j"}, {"t1", "t2", "t3"}, {"l1"}, {"A", "B", "C"});
    string p = take(osl_relation_sprint(y));
    same(c, "print", p, printed([&](FILE* f) { osl_relation_print(f, y); }));
    same(c, "pprint without names", p, printed([&](FILE* f) { osl_relation_pprint(f, y, nullptr); }));
    same(c, "spprint without names", p, take(osl_relation_spprint(y, nullptr)));
    same(c, "pprint", take(osl_relation_spprint(y, nm)), printed([&](FILE* f) { osl_relation_pprint(f, y, nm); }));
    if (y) {
      string whole = take(osl_relation_spprint(y, nm));
      same(c, "spprint_polylib", whole.substr(whole.find('\n') + 1), take(osl_relation_spprint_polylib(y, nm)));
      bool sco = y->nb_local_dims == 0 && y->nb_rows > 0;
      for (int nth : {1, 0}) for (int fake : {0, 1}) if (sco) {
        string w = take(osl_relation_spprint_scoplib(y, nm, nth, fake));
        same(c, "pprint_scoplib", w, printed([&](FILE* f) { osl_relation_pprint_scoplib(f, y, nm, nth, fake); }));
        same(c, "spprint_polylib_scoplib", w, take(osl_relation_spprint_polylib_scoplib(y, nm, nth, fake)));
      }
    }
    osl_names_free(nm);
    osl_relation_p q = osl_relation_nclone(y, osl_relation_nb_components(y));
    same(c, "nclone of all parts", t, s.text(q));
    osl_relation_free(q);
    if (y && !y->next) {
      q = osl_relation_clone_nconstraints(y, y->nb_rows);
      same(c, "clone of all constraints", t, s.text(q));
      osl_relation_free(q);
    }
  } else if (s.name == "relation_list") {
    auto y = (osl_relation_list_t*)x;
    string p = printed([&](FILE* f) { osl_relation_list_print(f, y); });
    same(c, "pprint without names", p, printed([&](FILE* f) { osl_relation_list_pprint(f, y, nullptr); }));
    int n = 0;
    string e;
    for (auto l = y; l; l = l->next) n += l->elt != nullptr;
    string u = printed([&](FILE* f) { osl_relation_list_pprint_elts(f, y, nullptr); });
    c.check(p.size() >= u.size() && p.compare(p.size() - u.size(), u.size(), u) == 0, "the list ends otherwise than its elements: %s", cut(p).c_str());
    c.check(p.substr(0, p.size() - u.size()).find(std::to_string(n) + "\n") != string::npos, "the list is announced by %s", cut(p.substr(0, p.size() - u.size())).c_str());
    string all;
    for (auto l = y; l; l = l->next) if (l->elt) all += rd::bare(printed([&](FILE* f) { osl_relation_pprint(f, l->elt, nullptr); }));
    same(c, "elements", all, rd::bare(u));
    same(c, "dump", dumped([&](FILE* f) { osl_relation_list_idump(f, y, 0); }), dumped([&](FILE* f) { osl_relation_list_dump(f, y); }));
  } else if (s.name == "generic") {
    auto y = (osl_generic_t*)x;
    same(c, "print", take(osl_generic_sprint(y)), printed([&](FILE* f) { osl_generic_print(f, y); }));
    same(c, "dump", dumped([&](FILE* f) { osl_generic_idump(f, y, 0); }), dumped([&](FILE* f) { osl_generic_dump(f, y); }));
    c.check(osl_generic_number(y) == osl_generic_count(y), "number is %d, count is %d", osl_generic_number(y), osl_generic_count(y));
    auto q = osl_generic_nclone(y, osl_generic_number(y));
    same(c, "nclone of all", t, s.text(q));
    osl_generic_free(q);
    for (auto l = y; l; l = l->next) if (l->interface) c.check(osl_generic_has_URI(l, l->interface->URI), "does not have its URI");
    for (auto& k : kinds()) {
      void* d = nullptr;
      for (auto l = y; l && !d; l = l->next) if (l->interface && osl_generic_has_URI(l, k.uri)) d = l->data;
      c.check(osl_generic_lookup(y, k.uri) == d, "lookup of %s", k.uri);
    }
  } else if (s.name == "interface") {
    auto y = (osl_interface_t*)x;
    same(c, "dump", dumped([&](FILE* f) { osl_interface_idump(f, y, 0); }), dumped([&](FILE* f) { osl_interface_dump(f, y); }));
    auto q = osl_interface_nclone(y, osl_interface_number(y));
    same(c, "nclone of all", t, s.text(q));
    osl_interface_free(q);
  } else if (s.name == "names") {
    auto y = (osl_names_t*)x;
    same(c, "dump", dumped([&](FILE* f) { osl_names_idump(f, y, 0); }), dumped([&](FILE* f) { osl_names_dump(f, y); }));
  } else if (s.name == "statement") {
    auto y = (osl_statement_t*)x;
    same(c, "pprint without names", printed([&](FILE* f) { osl_statement_print(f, y); }), printed([&](FILE* f) { osl_statement_pprint(f, y, nullptr); }));
    same(c, "dump", dumped([&](FILE* f) { osl_statement_idump(f, y, 0); }), dumped([&](FILE* f) { osl_statement_dump(f, y); }));
    auto q = osl_statement_nclone(y, osl_statement_number(y));
    same(c, "nclone of all", t, s.text(q));
    osl_statement_free(q);
    for (auto l = y; l; l = l->next) {
      auto b = (osl_body_t*)osl_generic_lookup(l->extension, OSL_URI_BODY);
      auto eb = (osl_extbody_t*)osl_generic_lookup(l->extension, OSL_URI_EXTBODY);
      c.check(osl_statement_get_body(l) == (b ? b : eb ? eb->body : nullptr), "get_body is not the body of the extension");
    }
  } else if (s.name == "scop") {
    auto y = (osl_scop_t*)x;
    same(c, "dump", dumped([&](FILE* f) { osl_scop_idump(f, y, 0); }), dumped([&](FILE* f) { osl_scop_dump(f, y); }));
    if (y && y->context) c.check(osl_scop_get_nb_parameters(y) == y->context->nb_parameters, "number of parameters");
  }
  if (s.uri == OSL_URI_STRINGS) same(c, "print", str_of(osl_strings_sprint((osl_strings_t*)x)), printed([&](FILE* f) { osl_strings_print(f, (osl_strings_t*)x); }));
  if (s.uri == OSL_URI_BODY) same(c, "print", rd::bare(str_of(osl_body_sprint((osl_body_t*)x))), rd::bare(printed([&](FILE* f) { osl_body_print(f, (osl_body_t*)x); })));
  if (s.uri == OSL_URI_DEPENDENCE) same(c, "print", rd::bare(str_of(osl_dependence_sprint((osl_dependence_t*)x))), rd::bare(printed([&](FILE* f) { osl_dependence_print(f, (osl_dependence_t*)x); })));
  if (const Direct* d = s.uri.empty() ? nullptr : direct(s.uri)) {
    // through the registry
    osl_interface_p reg = osl_interface_get_default_registry();
    osl_interface_p i = osl_interface_lookup(reg, s.uri.c_str());
    c.check((i != nullptr) == kind(s.uri).registered, "%s in the default registry", s.uri.c_str());
    osl_interface_p own = kind(s.uri).itf();
    if (!i) i = own;
    same(c, "idump through the interface", dumped([&](FILE* f) { d->idump(f, x, 1); }), dumped([&](FILE* f) { i->idump(f, x, 1); }));
    same(c, "dump", dumped([&](FILE* f) { d->idump(f, x, 0); }), dumped([&](FILE* f) { d->dump(f, x); }));
    string p = str_of(d->sprint(x));
    same(c, "sprint through the interface", p, str_of(i->sprint(x)));
    void *a = d->clone(x), *b = i->clone(x);
    same(c, "clone", t, s.text(a));
    same(c, "clone through the interface", t, s.text(b));
    for (void* q : {a, b, x}) for (void* w : {a, b, x}) {
      bool e = d->equal(q, w), f = (bool)i->equal(q, w);
      c.step();
      c.check(e && f, "copies are not equal: %d directly, %d through the interface", e, f);
    }
    void *n = d->make(), *m = i->malloc();
    same(c, "malloc through the interface", s.text(n), s.text(m));
    if (s.uri != OSL_URI_COMMENT && s.uri != OSL_URI_TEXTUAL) for (void* q : {n, plain}) for (void* w : {x, m, plain}) {
      bool e = d->equal(q, w), f = (bool)i->equal(q, w), h = (bool)i->equal(w, q);
      c.step();
      c.check(e == f && e == h, "equality is %d directly and %d through the interface", e, f);
    }
    d->free(n);
    i->free(m);
    if (a) i->free(a);
    if (b) d->free(b);
    if (p != "(nothing)") {
      Text u(p), w(p);
      void *e = nullptr, *f = nullptr;
      bool de = mc::dies([&] { e = d->sread(&u.pos); }), df = mc::dies([&] { f = i->sread(&w.pos); });
      c.check(de == df, "reading dies %s", de ? "directly only" : "through the interface only");
      if (de || df) { mc::forget(); unsetenv("OSL_PRECISION"); return; }
      same(c, "sread through the interface", s.text(e), s.text(f));
      c.check(u.at() == w.at(), "sread leaves %ld directly and %ld through the interface", u.at(), w.at());
      if (e) d->free(e);
      if (f) i->free(f);
    }
    osl_interface_free(own);
    osl_interface_free(reg);
  }
  c.check(s.text(x) == t, "the value changed");
  c.outcome(cut(t, 30));
  if (x) s.free(x);
  drop();
  unsetenv("OSL_PRECISION");
  leak(c);
}
// readers that take a precision or a registry beside those that do not
struct Pair {
  string name, text;
  std::function<string(FILE*, char**, int)> plain, full;  // the content of what was read
};
template <class T, class F>
string content(T* x, F f) { string t = text(x); f(x); return t; }
template <class F>
string seen(osl_relation_t* x, F f) { string t = text(x); f(x); return t; }
vector<Pair> pairs_() {
  using namespace rd;
  vector<Pair> v;
  auto rel = [](osl_relation_p r) { string t = text(r) + str(see(r)); for (auto p = r; p; p = p->next) t += std::to_string(p->precision) + ";"; osl_relation_free(r); return t; };
  for (auto& t : {MATRIX, ACCESS, UNION, rd::WIDE, SCATT, string("READ\n0 3 0 0 0 1\n"), string("CONTEXT\n1 3 0 0 0 1\n1 3000000000 -2\n"), string("DOMAIN\n1 3 1 0 0 0\n1 9223372036854775807 -9223372036854775808\n"),
                  string("DOMAIN\n1 3 1 0 0 0\n1 9223372036854775808 1\n"), string("DOMAIN\n1 3 1 0 0 0\n1 1 -100000000000000000000000\n"), string("DOMAIN\n1 3 1 0 0 0\n1 x 1\n"), string("DOMAIN\n1 3 1 0 0\n"), string("DOMAIN\n")}) {
    v.push_back({"osl_relation_read", t, [rel](FILE* f, char**, int) { return rel(osl_relation_read(f)); }, [rel](FILE* f, char**, int p) { return rel(osl_relation_pread(f, p)); }});
    v.push_back({"osl_relation_sread", t, [rel](FILE*, char** s, int) { return rel(osl_relation_sread(s)); }, [rel](FILE*, char** s, int p) { return rel(osl_relation_psread(s, p)); }});
    string u = t.substr(t.find('\n') + 1);
    v.push_back({"osl_relation_sread_polylib", u, [rel](FILE*, char** s, int) { return rel(osl_relation_sread_polylib(s)); }, [rel](FILE*, char** s, int p) { return rel(osl_relation_psread_polylib(s, p)); }});
    // from a file and from memory
    v.push_back({"osl_relation_pread", t, [rel](FILE* f, char**, int p) { return rel(osl_relation_pread(f, p)); }, [rel](FILE*, char** s, int p) { return rel(osl_relation_psread(s, p)); }});
    for (auto n : {"1\n", "2\n", "0\n"}) {
      string l = n + t + (n[0] == '2' ? t : "");
      auto lst = [](osl_relation_list_p r) { string t = text(r); for (auto p = r; p; p = p->next) t += p->elt ? std::to_string(p->elt->precision) + ";" : "-;"; osl_relation_list_free(r); return t; };
      v.push_back({"osl_relation_list_read", l, [lst](FILE* f, char**, int) { return lst(osl_relation_list_read(f)); }, [lst](FILE* f, char**, int p) { return lst(osl_relation_list_pread(f, p)); }});
      auto st = [](osl_statement_p r) { string t = text(r); if (r && r->domain) t += std::to_string(r->domain->precision); osl_statement_free(r); return t; };
      for (auto e : {"0\n", "1\n<body>\n1\nwordi\nwordx;\n</body>\n", "2\n<unknown>\n7\n</unknown>\n<comment>\nrem\n</comment>\n", "1\n<dependence>\n# number\n1\n1 2 3 4 5 1\n0 0 0 0 0 0 0 0\n1 3 1 0 0 0\n1 3000000000 1\n</dependence>\n", "1\n<irregular>\n1\n</irregular>\n", ""})
        v.push_back({"osl_statement_read", l + e, [st](FILE* f, char**, int) { return st(osl_statement_read(f)); },
                     [st](FILE* f, char**, int p) { osl_interface_p g = osl_interface_get_default_registry(); auto r = osl_statement_pread(f, g, p); osl_interface_free(g); return st(r); }});
      auto sc = [](osl_scop_p r) { string t = text(r); if (r && r->context) t += std::to_string(r->context->precision); osl_scop_free(r); return t; };
      string head = "<OpenScop>\nC\nCONTEXT\n1 3 0 0 0 1\n1 1 -2\n1\n<strings>\nwordN\n</strings>\n1\n";
      for (auto e : {"1\n<body>\n1\nwordi\nwordx;\n</body>\n</OpenScop>\n", "0\n<scatnames>\nworda\n</scatnames>\n<irregular>\n1\n</irregular>\n</OpenScop>\n"})
        v.push_back({"osl_scop_read", head + l + e, [sc](FILE* f, char**, int) { return sc(osl_scop_read(f)); },
                     [sc](FILE* f, char**, int p) { osl_interface_p g = osl_interface_get_default_registry(); auto r = osl_scop_pread(f, g, p); osl_interface_free(g); return sc(r); }});
    }
  }
  auto dep = [](osl_dependence_p r) {
    string t = md::payload(OSL_URI_DEPENDENCE, r);
    for (auto p = r; p; p = p->next) t += p->domain ? std::to_string(p->domain->precision) + ";" : "-;";
    osl_dependence_free(r);
    return t;
  };
  for (auto k : {"1", "3000000000", "9223372036854775807", "9223372036854775808", "x"})
    for (int n : {1, 2}) {
      osl_dependence_p d = nullptr;
      for (int q = 0; q < n; q++) {
        osl_dependence_p e = fresh<osl_dependence_t>();
        e->type = OSL_DEPENDENCE_RAW;
        e->domain = build(Rel{part(OSL_UNDEFINED, 1, 0, 0, 1, {{"1", "7777", "0", "-2"}}, OSL_PRECISION_MP)});
        e->next = d;
        d = e;
      }
      string t = take(osl_dependence_sprint(d));
      osl_dependence_free(d);
      t = rd::bare(t);
      size_t at = t.rfind("7777");
      if (at == string::npos) { fprintf(stderr, "harness: dependence text\n"); abort(); }
      t.replace(at, 4, k);
      v.push_back({"osl_dependence_sread", t, [dep](FILE*, char** s, int) { return dep(osl_dependence_sread(s)); }, [dep](FILE*, char** s, int p) { return dep(osl_dependence_psread(s, p)); }});
    }
  auto gen = [](osl_generic_p x) { string t = text(x); osl_generic_free(x); return t; };
  struct R { osl_interface_p g = osl_interface_get_default_registry(); ~R() { osl_interface_free(g); } };
  for (auto t : {"", "<comment>\nrem\n</comment>\n", "<strings>\nworda wordb\n</strings>\n<comment>\nrem\n</comment>\n", "<unknown>\n3\n</unknown>\n<clay>\nx;\n</clay>\n", "<comment>\nrem\n"})
    v.push_back({"osl_generic_read", string(t) + "</OpenScop>\n", [gen](FILE* f, char**, int) { R r; return gen(osl_generic_read(f, r.g)); },
                 [gen, t](FILE* f, char**, int) { R r; Text u(t); while (fgetc(f) != EOF); return gen(osl_generic_sread(&u.pos, r.g)); }});
  auto str_ = [](osl_strings_p x) { string t = text(x); osl_strings_free(x); return t; };
  for (auto t : {"worda\n", "worda wordb  wordc\n", "a # x\n", "# x\na b\n", "\n\n a\tb\n"})
    v.push_back({"osl_strings_read", t, [str_](FILE* f, char**, int) { return str_(osl_strings_read(f)); }, [str_](FILE*, char** s, int) { return str_(osl_strings_sread(s)); }});
  return v;
}
void reading(Ctx& c, const vector<Pair>& v) {
  const Pair& p = v[c.choose((int)v.size(), "text")];
  int prec = PRECS[c.choose(3, "precision")];
  bool more = c.flip("more text");
  if (more && p.name == "osl_generic_read") return;
  c.state(p.name + p.text + std::to_string(prec) + (more ? "+" : ""));
  c.note("  %s of %s", p.name.c_str(), cut(p.text).c_str());
  setenv("OSL_PRECISION", penv(prec), 1);
  string r[2], rest[2];
  bool d[2];
  string tail = more ? "5 6\nREAD\n" : "";
  for (int k = 0; k < 2; k++) {
    In in(p.text + tail);
    Text u(p.text + tail);
    char** s = &u.pos;
    // the general operation takes its precision from the argument only
    if (k && p.text.find('<') == string::npos) setenv("OSL_PRECISION", penv(prec == PRECS[0] ? PRECS[1] : PRECS[0]), 1);
    d[k] = mc::dies([&] { r[k] = (k ? p.full : p.plain)(in.f, s, prec); });
    if (d[k]) mc::forget();
    rest[k] = s == &u.pos && u.at() ? u.rest() : in.rest();
    c.step();
  }
  unsetenv("OSL_PRECISION");
  c.check(d[0] == d[1], "%s with $OSL_PRECISION=%s: %s, the general reader: %s", p.name.c_str(), penv(prec), d[0] ? "an error" : "a value", d[1] ? "an error" : "a value");
  c.check(r[0] == r[1], "%s with $OSL_PRECISION=%s: %s", p.name.c_str(), penv(prec), differ(r[1], r[0]).c_str());
  auto trim = [](string s) { s = rd::bare(s); size_t b = s.find_first_not_of(" \n"); return b == string::npos ? string() : s.substr(b); };
  if (!d[0]) c.check(trim(rest[0]) == trim(rest[1]), "%s leaves '%s', the general reader '%s'", p.name.c_str(), cut(rest[0]).c_str(), cut(rest[1]).c_str());
  c.outcome(d[0] ? "error" : cut(r[0], 40));
  leak(c);
}
// allocators
void allocating(Ctx& c) {
  int prec = PRECS[c.choose(3, "precision")], rows = c.choose(4, "rows"), cols = c.choose(5, "columns");
  setenv("OSL_PRECISION", penv(prec), 1);
  c.state(std::to_string(prec) + "," + std::to_string(rows) + "," + std::to_string(cols));
  auto head = [](osl_relation_p r) { return text(r) + std::to_string(r->precision) + "," + std::to_string(r->nb_rows) + "," + std::to_string(r->nb_columns); };
  osl_relation_p a = osl_relation_malloc(rows, cols);
  string ta = head(a);
  osl_relation_free(a);
  unsetenv("OSL_PRECISION");
  osl_relation_p b = osl_relation_pmalloc(prec, rows, cols);
  string tb = head(b);
  same(c, "relation_malloc", tb, ta);
  c.check(b->precision == prec && b->nb_rows == rows && b->nb_columns == cols && b->type == OSL_UNDEFINED && b->nb_output_dims == OSL_UNDEFINED && b->nb_input_dims == OSL_UNDEFINED &&
              b->nb_local_dims == OSL_UNDEFINED && b->nb_parameters == OSL_UNDEFINED && !b->next && !b->usr, "a new relation: %s", tb.c_str());
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) c.check(osl_int_zero(prec, b->m[i][j]), "a new relation holds a number");
  // what is inside, without the node
  osl_relation_free_inside(b);
  c.check(mc::live() == 1, "free_inside leaves %d blocks", (int)mc::live());
  mc::lfree(b);
  setenv("OSL_PRECISION", penv(prec), 1);
  osl_vector_p v = osl_vector_malloc(cols);
  unsetenv("OSL_PRECISION");
  osl_vector_p w = osl_vector_pmalloc(prec, cols);
  c.check(v->precision == prec && w->precision == prec && v->size == cols && w->size == cols, "a new vector");
  for (int j = 0; j < cols; j++) c.check(osl_int_zero(prec, v->v[j]) && osl_int_zero(prec, w->v[j]), "a new vector holds a number");
  c.step();
  osl_vector_free(v);
  osl_vector_free(w);
  osl_relation_p n = osl_relation_interface_malloc();
  c.check(n->nb_rows == 0 && n->nb_columns == 0 && !n->next, "a relation made by the interface");
  osl_relation_free(n);
  leak(c);
}
// the empty values
void defaults(Ctx& c) {
  const int U = OSL_UNDEFINED;
  auto& v = directs();
  int k = c.choose((int)v.size() + 6, "kind");
  setenv("OSL_PRECISION", "0", 1);
  if (k < (int)v.size()) {
    string u = v[k].uri;
    c.state(u);
    void* x = v[k].make();
    void* w = nullptr;
    if (u == OSL_URI_STRINGS) { auto z = (osl_strings_t*)x; c.check(z->string && !z->string[0], "new strings"); }
    else if (u == OSL_URI_COORDINATES) { auto z = fresh<osl_coordinates_t>(); z->line_start = z->column_start = z->line_end = z->column_end = z->indent = U; w = z; }
    else if (u == OSL_URI_DEPENDENCE) {
      auto z = fresh<osl_dependence_t>();
      z->depth = z->type = z->label_source = z->label_target = z->ref_source = z->ref_target = U;
      z->source_nb_output_dims_domain = z->source_nb_output_dims_access = z->target_nb_output_dims_domain = z->target_nb_output_dims_access = U;
      z->source_nb_local_dims_domain = z->source_nb_local_dims_access = z->target_nb_local_dims_domain = z->target_nb_local_dims_access = U;
      w = z;
    } else if (u == OSL_URI_SYMBOLS) { auto z = fresh<osl_symbols_t>(); z->type = z->generated = z->nb_dims = U; w = z; }
    else if (u == OSL_URI_RELATION) { auto z = (osl_relation_t*)x; c.check(z->nb_rows == 0 && z->nb_columns == 0 && z->type == U, "new relation"); }
    else if (u == OSL_URI_BODY) w = fresh<osl_body_t>();
    else if (u == OSL_URI_COMMENT) w = fresh<osl_comment_t>();
    else if (u == OSL_URI_SCATINFOS) w = fresh<osl_scatinfos_t>();
    else if (u == OSL_URI_SCATNAMES) w = fresh<osl_scatnames_t>();
    else if (u == OSL_URI_ARRAYS) w = fresh<osl_arrays_t>();
    else if (u == OSL_URI_CLAY) w = fresh<osl_clay_t>();
    else if (u == OSL_URI_EXTBODY) w = fresh<osl_extbody_t>();
    else if (u == OSL_URI_LOOP) w = fresh<osl_loop_t>();
    else if (u == OSL_URI_PLUTO_UNROLL) w = fresh<osl_pluto_unroll_t>();
    else if (u == OSL_URI_TEXTUAL) w = fresh<osl_textual_t>();
    else if (u == OSL_URI_IRREGULAR) w = fresh<osl_irregular_t>();
    c.step();
    if (w) same(c, u.c_str(), md::payload(u.c_str(), w), md::payload(u.c_str(), x));
    v[k].free(x);
    if (w) v[k].free(w);
  } else {
    k -= (int)v.size();
    c.state(std::to_string(k));
    c.step();
    if (k == 0) { auto z = osl_statement_malloc(); c.check(!z->domain && !z->scattering && !z->access && !z->extension && !z->usr && !z->next, "new statement"); osl_statement_free(z); }
    if (k == 1) {
      auto z = osl_scop_malloc();
      c.check(z->version == 1 && !z->language && !z->context && !z->parameters && !z->statement && !z->registry && !z->extension && !z->usr && !z->next, "new scop");
      osl_scop_free(z);
    }
    if (k == 2) { auto z = osl_generic_malloc(); c.check(!z->interface && !z->data && !z->next, "new generic"); osl_generic_free(z); }
    if (k == 3) { auto z = osl_relation_list_malloc(); c.check(!z->elt && !z->next, "new relation list"); osl_relation_list_free(z); }
    if (k == 4) { auto z = osl_names_malloc(); c.check(!z->parameters && !z->iterators && !z->scatt_dims && !z->local_dims && !z->arrays, "new names"); osl_names_free(z); }
    if (k == 5) { auto z = osl_interface_malloc(); c.check(!z->URI && !z->idump && !z->sprint && !z->sread && !z->malloc && !z->free && !z->clone && !z->equal && !z->next, "new interface"); osl_interface_free(z); }
  }
  unsetenv("OSL_PRECISION");
  leak(c);
}
// the default registry
void registry(Ctx& c) {
  auto& K = kinds();
  int k = c.choose((int)K.size(), "kind");
  c.state(K[k].uri);
  osl_interface_p g = osl_interface_get_default_registry(), own = K[k].itf();
  c.check(!own->next && !strcmp(own->URI, K[k].uri), "interface of %s", K[k].uri);
  osl_interface_p i = osl_interface_lookup(g, K[k].uri);
  c.check((i != nullptr) == K[k].registered, "%s in the default registry", K[k].uri);
  int n = 0, reg = 0;
  for (auto& q : K) reg += q.registered;
  for (auto l = g; l; l = l->next) n += !strcmp(l->URI, K[k].uri);
  c.check(n == (int)K[k].registered, "%s is %d times in the default registry", K[k].uri, n);
  c.check(osl_interface_number(g) == reg, "%d interfaces in the default registry", osl_interface_number(g));
  for (auto f : {(void*)own->idump, (void*)own->sprint, (void*)own->sread, (void*)own->malloc, (void*)own->free, (void*)own->clone, (void*)own->equal}) c.check(f != nullptr, "a function of %s is missing", K[k].uri);
  osl_interface_free(own);
  osl_interface_free(g);
  c.step();
  leak(c);
}
}  // namespace

void setup() {
  static const vector<Subject> S = subjects(), W = wides();
  static const vector<Pair> P = pairs_();
  mc::add("readers", std::to_string(P.size()) + " texts of 11 readers under 3 precision settings, with and without following text", [](Ctx& c) { reading(c, P); });
  mc::add("allocators", "up to 3 rows, 4 columns, 3 precision settings", allocating);
  mc::add("new values", "every structure", defaults);
  mc::add("registry", "every interface", registry);
  for (auto& s : S) {
    int m = mc::q(s.name == "scop" ? 0 : 1, s.maxr);
    mc::add("value: " + s.name, "richness up to " + std::to_string(m) + ", every single well-formed variation", [&s, m](Ctx& c) { value(c, s, c.choose(m + 1, "richness")); });
  }
  for (auto& s : W) if (mc::thorough() || (s.name != "scop" && s.name != "statement")) mc::add("wide value: " + s.name, "wide values, every single well-formed variation", [&s](Ctx& c) { value(c, s, 0); });
}
