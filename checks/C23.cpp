// C23: allocation failure ends in a reported error.
// modules: C01 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22 C24 C25 C26 C27 C28
#include "modules.hpp"
#include "observers.hpp"
using namespace gn;

mc::Property property() {
  return {"C23",
          "every execution is run once to number the memory requests the library makes and then again with one request refused: "
          "all of them, one at a time, in this check's own scenarios, and in the scenarios of the other checks every request whose "
          "call stack (16 frames) was not refused before in the scenario.  A refused request must lead to a message on the error "
          "stream and exit with a failure status; finishing, crashing or a wrong answer is a violation",
          {"one request fails per execution", "GMP's own requests do not fail (GMP aborts by itself)", "requests of the C library (streams) do not fail"},
          mc::Mode::faults};
}
namespace {
osl_names_p some_names() { return build_names(seq("P", 3), seq("i", 9), seq("c", 9), seq("l", 9), seq("A", 30)); }
void observe(Ctx& c, const Subject& s, int r) {
  int prec = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  static vector<vector<Obs>> all;
  vector<Obs> obs = observers(s);
  int w = c.choose((int)obs.size(), "operation");
  G g(c);
  void* x = s.make(g, prec, r);
  g.again();
  Env e;
  e.names = some_names();
  e.copy = s.make(g, prec, r);
  e.reg = osl_interface_get_default_registry();
  c.state(s.name + s.text(x) + obs[w].name);
  c.step();
  if (x || s.uri.empty() || s.next) obs[w].f(x, e);
  if (x) s.free(x);
  if (e.copy) s.free(e.copy);
  osl_names_free(e.names);
  osl_interface_free(e.reg);
}
void reading(Ctx& c, const Subject& s, int r) {
  int prec = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  G g(c);
  void* x = s.make(g, prec, r);
  if (((s.uri == OSL_URI_STRINGS) && see_strings((osl_strings_p)x).empty()) || (s.uri == OSL_URI_SCATNAMES && see_strings(((osl_scatnames_p)x)->names).empty())) { s.free(x); return; }
  string t = s.print(x), want = s.text(x);
  s.free(x);
  setenv("OSL_PRECISION", penv(prec), 1);
  c.state(t + penv(prec));
  c.step();
  if (s.name == "scop" || s.name == "relation_list") {
    In in(t);
    x = s.name == "scop" ? (void*)osl_scop_read(in.f) : (void*)osl_relation_list_pread(in.f, prec);
  } else {
    bool tags = c.flip("between its tags");
    if (tags) {
      Text in("<" + s.uri + ">\n" + t + "</" + s.uri + ">\n");
      osl_interface_p reg = osl_interface_get_default_registry();
      osl_generic_p l = osl_generic_sread(&in.pos, reg);
      osl_generic_free(l);
      osl_interface_free(reg);
      x = nullptr;
    } else {
      Text in(t);
      osl_interface_p f = kind(s.uri).itf();
      x = f->sread(&in.pos);
      osl_interface_free(f);
    }
  }
  unsetenv("OSL_PRECISION");
  if (x) s.free(x);
}
void creation(Ctx& c) {
  using P = std::pair<const char*, std::function<void()>>;
  static const vector<P> V = {
#define M(T) {#T, [] { osl_##T##_free(osl_##T##_malloc()); }},
      M(coordinates) M(dependence) M(arrays) M(scatinfos) M(extbody) M(null) M(pluto_unroll) M(irregular) M(scatnames) M(loop) M(symbols) M(textual)
      M(clay) M(region) M(comment) M(annotation) M(statement) M(strings) M(interface) M(generic) M(relation_list) M(names) M(scop) M(body)
#undef M
      {"relation", [] { osl_relation_free(osl_relation_pmalloc(OSL_PRECISION_MP, 3, 4)); }},
      {"vector", [] { osl_vector_free(osl_vector_pmalloc(OSL_PRECISION_MP, 3)); }},
      {"registry", [] { osl_interface_free(osl_interface_get_default_registry()); }},
      {"names", [] { osl_names_free(osl_names_generate("P", 2, "i", 1, "c", 1, "l", 2, "A", 3)); }},
      {"strings", [] { osl_strings_p s = osl_strings_malloc(); osl_strings_add(s, "x"); osl_strings_add(s, "y"); osl_strings_free(s); }},
  };
  int k = c.choose((int)V.size(), "structure");
  c.state(V[k].first);
  c.step();
  V[k].second();
}
}  // namespace

void setup() {
  static vector<Subject> S = subjects();
  mc::occurrences = 1 << 30;
  mc::add("creation", "all requests of the creation of every structure", creation);
  for (auto& s : S) {
    int r = mc::q(s.name == "scop" || s.name == "dependence" || s.name == "statement" || s.name == "symbols" ? 0 : 1, s.name == "scop" || s.name == "dependence" ? 1 : 2);
    mc::add("operations: " + s.name, "all requests of building, every query, copy, print and conversion, and freeing; values of richness " + std::to_string(r), [&s, r](Ctx& c) { observe(c, s, r); });
    if ((!s.uri.empty() && s.uri != OSL_URI_TEXTUAL) || s.name == "scop" || s.name == "relation_list")
      mc::add("reading: " + s.name, "all requests of printing and reading, values of richness " + std::to_string(r), [&s, r](Ctx& c) { reading(c, s, r); });
  }
  mc::occurrences = mc::q(1, 4);
  mc::add_modules([](const string& m, const string& s) { return mc::thorough() || !(mc::heavy(m, s) || mc::redundant(m, s)); });
}
