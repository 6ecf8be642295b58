// C19: no leak, no invalid access, single ownership.
// modules: C01 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22 C24 C25 C26 C27 C28
#include "modules.hpp"
#include "observers.hpp"
using namespace gn;

mc::Property property() {
  return {"C19",
          "every history of lifecycle operations on up to two live structures of every kind runs under the address and undefined "
          "behaviour checkers with an exact ledger of the library's allocations (GMP's included); at the end everything is freed "
          "through the public functions and the ledger must be empty.  The scenarios of the other checks run under the same "
          "judgement: their answers do not count, only memory errors and leaks do",
          {"a process the library terminates on purpose may leave memory behind"},
          mc::Mode::memory};
}
namespace {
void leak(Ctx& c, const char* what) { c.check(mc::live() == 0, "leak after %s: %s", what, mc::live_desc().c_str()); }
// absent and fresh structures
struct Fresh { const char* name; std::function<void*()> make; std::function<void(void*)> free; };
vector<Fresh> fresh_() {
  vector<Fresh> v;
#define F(T, mk) v.push_back({#T, [] { return (void*)mk; }, [](void* p) { osl_##T##_free((osl_##T##_t*)p); }});
#define M(T) F(T, osl_##T##_malloc())
  M(coordinates) M(dependence) M(arrays) M(scatinfos) M(extbody) M(null) M(pluto_unroll) M(irregular) M(scatnames) M(loop) M(symbols) M(textual)
  M(clay) M(region) M(comment) M(annotation) M(statement) M(strings) M(interface) M(generic) M(relation_list) M(names) M(scop) M(body)
  F(relation, osl_relation_malloc(0, 0)) F(relation, osl_relation_malloc(3, 4)) F(relation, osl_relation_pmalloc(OSL_PRECISION_MP, 2, 0))
  F(relation, osl_relation_pmalloc(OSL_PRECISION_SP, 0, 5)) F(relation, osl_relation_pmalloc(OSL_PRECISION_DP, 1, 1)) F(relation, osl_relation_interface_malloc())
  F(vector, osl_vector_malloc(0)) F(vector, osl_vector_malloc(3)) F(vector, osl_vector_pmalloc(OSL_PRECISION_DP, 2)) F(strings, osl_strings_encapsulate(mc::lstrdup("x")))
  F(names, osl_names_generate("P", 2, "i", 1, "c", 0, "l", 0, "A", 3)) F(interface, osl_interface_get_default_registry())
#undef M
#undef F
  return v;
}
void fresh_one(Ctx& c) {
  static const vector<Fresh> V = fresh_();
  const Fresh& f = V[c.choose((int)V.size(), "structure")];
  int n = c.choose(4, "how many");  // none: free what is absent
  c.state(string(f.name) + std::to_string(n));
  c.step();
  if (n == 0) f.free(nullptr);
  vector<void*> p;
  for (int i = 0; i < n; i++) p.push_back(f.make());
  if (n > 1 && c.flip("other order")) std::swap(p[0], p[n - 1]);
  for (void* x : p) f.free(x);
  leak(c, f.name);
}
// histories over two slots
void history(Ctx& c, const Subject& s, int depth, int r) {
  int prec = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  void* x[2] = {nullptr, nullptr};
  osl_interface_p reg = osl_interface_get_default_registry();
  osl_names_p nm = build_names(seq("P", 3), seq("i", 9), seq("c", 9), seq("l", 9), seq("A", 30));
  vector<Obs> obs = observers(s);
  bool readable = !s.uri.empty();
  for (int k = 0; k < depth; k++) {
    if (!c.state(s.name + s.text(x[0]) + "/" + s.text(x[1]) + (x[0] ? "1" : "0") + (x[1] ? "1" : "0") + std::to_string(prec), depth - k)) break;
    int i = c.choose(2, "slot"), o = 1 - i;
    vector<int> ops;
    if (!x[i]) ops.push_back(0);
    else { ops.push_back(1); ops.push_back(4); }
    if (!x[i] && x[o]) { if (s.clone) ops.push_back(2); if (s.nclone) ops.push_back(3); if (readable || s.name == "scop" || s.name == "relation_list") ops.push_back(5); }
    if (x[i]) ops.push_back(6);
    if (x[0] && x[1] && s.equal && i == 0) ops.push_back(7);
    int op = ops[c.choose((int)ops.size(), "operation")];
    c.step();
    switch (op) {
      case 0: { G g(c); x[i] = s.make(g, prec, r); break; }
      case 1: s.free(x[i]); x[i] = nullptr; break;
      case 2: x[i] = s.clone(x[o]); break;
      case 3: x[i] = s.nclone(x[o], c.choose(2, "n")); break;
      case 4: {
        Env e;
        e.names = nm; e.copy = x[o] ? x[o] : x[i]; e.reg = reg;
        int w = c.choose((int)obs.size() + 1, "observer");
        if (w) obs[w - 1].f(x[i], e);
        break;
      }
      case 5: {  // print and read
        setenv("OSL_PRECISION", penv(prec), 1);
        string t = s.print(x[o]);
        if (s.name == "scop") {
          In in(t);
          x[i] = c.flip("registry of its own") ? osl_scop_pread(in.f, reg, prec) : osl_scop_read(in.f);
        } else if (s.name == "relation_list") {
          In in(t);
          x[i] = osl_relation_list_pread(in.f, prec);
        } else if (t.size() || s.uri != OSL_URI_TEXTUAL) {
          if ((s.uri == OSL_URI_STRINGS || s.uri == OSL_URI_SCATNAMES) && blank(t)) break;
          Text in(t);
          osl_interface_p f = kind(s.uri).itf();
          x[i] = f->sread(&in.pos);
          osl_interface_free(f);
        }
        unsetenv("OSL_PRECISION");
        break;
      }
      case 6: {  // one single edit; only the first few
        Slots z(false, prec);
        s.slots(z, &x[i], c);
        int m = c.choose(std::min((int)z.v.size(), 5) + 1, "edit");
        if (m) z.v[(m - 1) * z.v.size() / std::min((int)z.v.size(), 5)].f();
        break;
      }
      case 7: s.equal(x[0], x[1]); s.equal(x[1], x[0]); break;
    }
  }
  int first = c.choose(2, "freed first");
  if (x[first]) s.free(x[first]);
  if (x[1 - first]) s.free(x[1 - first]);
  osl_names_free(nm);
  osl_interface_free(reg);
  leak(c, "a history");
}
// the library's functions that transform a whole scop
void scops(Ctx& c, int depth, int r) {
  int prec = PRECS[c.choose(3, "precision")];
  G g(c);
  osl_scop_p s = scop(g, prec, 1 + c.choose(2, "tag"), r);
  if (c.flip("two")) { G h(c); s->next = scop(h, prec, 2, 0); }
  for (int k = 0; k < depth; k++) {
    if (!c.state(text(s), depth - k)) break;
    c.step();
    switch (c.choose(11, "operation")) {
      case 0: osl_scop_normalize_scattering(s); break;
      case 1: { osl_scop_p n = osl_scop_remove_unions(s); osl_scop_free(s); s = n; break; }
      case 2: { osl_scop_p n = osl_scop_clone(s); if (c.flip("keep the clone")) std::swap(n, s); osl_scop_free(n); break; }
      case 3: { string t = printed([&](FILE* f) { osl_scop_print(f, s); }); In in(t); osl_scop_p n = osl_scop_pread(in.f, s->registry, prec); osl_scop_free(s); s = n; break; }
      case 4: osl_names_free(osl_scop_names(s)); break;
      case 5: { osl_interface_free(s->registry); s->registry = osl_interface_clone(nullptr); osl_scop_register_extension(s, osl_arrays_interface()); osl_scop_register_extension(s, osl_comment_interface()); break; }
      case 6: osl_generic_remove(&s->extension, c.pick(vector<string>{OSL_URI_ARRAYS, OSL_URI_COORDINATES}, "URI").c_str()); break;
      case 7: { printed([&](FILE* f) { osl_scop_dump(f, s); }); osl_scop_integrity_check(s); osl_scop_print(stderr, s); break; }
      case 8: if (osl_scop_check_compatible_scoplib(s)) printed([&](FILE* f) { osl_scop_print_scoplib(f, s); }); break;
      case 9: { osl_statement_p st = osl_statement_clone(s->statement), e = osl_statement_nclone(s->statement, 1); osl_statement_add(&st, e); osl_statement_free(s->statement); s->statement = st; break; }
      case 10: { osl_scop_p n = osl_scop_clone(s); osl_scop_add(&s, n); if (osl_scop_number(s) > 3) { osl_scop_p t = s->next; s->next = nullptr; osl_scop_free(s); s = t; } break; }
    }
  }
  osl_scop_free(s);
  leak(c, "a scop history");
}
}  // namespace

void setup() {
  static vector<Subject> S = subjects();
  mc::add("fresh", "every structure, none or up to 3 fresh ones, freed in both orders", fresh_one);
  for (auto& s : S) {
    bool big = s.name == "scop" || s.name == "statement" || s.name == "dependence" || s.name == "symbols";
    int d = mc::q(3, 4), r = mc::q(big ? 0 : 1, 1);
    mc::add("history: " + s.name, "all histories of " + std::to_string(d) + " operations on two values of richness " + std::to_string(r), [&s, d, r](Ctx& c) { history(c, s, d, r); });
  }
  int d = mc::q(2, 4), r = mc::q(1, 1);
  mc::add("scop transformations", "all histories of " + std::to_string(d) + " operations on a list of one or two scops", [d, r](Ctx& c) { scops(c, d, r); });
  mc::add_modules([](const string& m, const string& s) { return mc::thorough() || !mc::heavy(m, s); });
}
