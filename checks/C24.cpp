// C24: queries and printers do not modify their input.
#include "observers.hpp"
#include "wide.hpp"
using namespace gn;

mc::Property property() {
  return {"C24",
          "every byte of every memory block reachable by the library is recorded, then every query, printer, comparison, "
          "check and converter (and every ordered pair of them) is run on every generated value, plain and with every single "
          "variation; afterwards the memory must be byte for byte the same with no block added or released, and the answer "
          "of the first one must be unchanged when asked again.  For the dumps: any single difference between two values "
          "must be visible in their dumps, equal values must have equal dumps",
          {"addresses printed by a dump are not part of its answer"}};
}
namespace {
bool nullable(const Subject& s) { return s.uri.empty() || s.next; }
void set_usr(const Subject& s, void* x) {  // user pointers must survive too
  void* U = (void*)0x1234;
  if (s.name == "relation") for (auto r = (osl_relation_p)x; r; r = r->next) r->usr = U;
  if (s.name == "statement") for (auto r = (osl_statement_p)x; r; r = r->next) { r->usr = U; if (r->domain) r->domain->usr = U; }
  if (s.name == "scop") for (auto r = (osl_scop_p)x; r; r = r->next) r->usr = U;
}
void observe(Ctx& c, const Subject& s, int r, bool vary, bool pairs) {
  int prec = s.precisions ? PRECS[c.choose(pairs ? 1 : 3, "precision")] : OSL_PRECISION_MP;
  setenv("OSL_PRECISION", penv(prec), 1);
  G g(c);
  void* x = s.make(g, prec, r);
  if (vary && (x || nullable(s))) {
    Slots z(false, prec);
    s.slots(z, &x, c);
    Muts v;
    for (auto& m : z.v) if (m.wf) v.push_back(m);
    int m = c.choose((int)v.size() + 1, "variation");
    if (m) { c.note("  variation: %s", v[m - 1].what.c_str()); v[m - 1].f(); }
  }
  set_usr(s, x);
  Env e;
  e.names = build_names({"N"}, {"i", "j"}, {"t1", "t2", "t3"}, {"l1"}, {"A", "B", "C"});
  g.again();
  e.copy = s.make(g, prec, r);
  vector<Obs> obs = observers(s);
  string t = s.text(x);
  if (!pairs) {
    for (auto& o : obs) {
      mc::Snap before = mc::snapshot();
      c.state(o.name + t);
      c.step();
      string a = o.f(x, e);
      string d = mc::changed(before);
      c.check(d.empty(), "%s: %s", o.name.c_str(), d.c_str());
      string b = o.f(x, e);
      c.check(a == b, "%s gives another answer when repeated: %s", o.name.c_str(), differ(a, b).c_str());
      c.outcome(o.name + cut(a, 40));
    }
  } else {
    int i = c.choose((int)obs.size(), "first"), j = c.choose((int)obs.size(), "second");
    c.state(obs[i].name + obs[j].name + t);
    c.step();
    mc::Snap before = mc::snapshot();
    string a = obs[i].f(x, e);
    obs[j].f(x, e);
    string b = obs[i].f(x, e);
    c.check(a == b, "%s gives another answer after %s: %s", obs[i].name.c_str(), obs[j].name.c_str(), differ(a, b).c_str());
    string d = mc::changed(before);
    c.check(d.empty(), "%s, %s, %s: %s", obs[i].name.c_str(), obs[j].name.c_str(), obs[i].name.c_str(), d.c_str());
  }
  unsetenv("OSL_PRECISION");
  osl_names_free(e.names);
  if (e.copy) s.free(e.copy);
  if (x) s.free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void dumps(Ctx& c, const Subject& s, int r) {
  int prec = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  G g(c);
  void* x = s.make(g, prec, r);
  g.again();
  void* y = s.make(g, prec, r);
  if (x || nullable(s)) {
    Slots z(false, prec);
    s.slots(z, &y, c);
    int m = c.choose((int)z.v.size() + 1, "difference");
    if (m) { c.note("  difference: %s", z.v[m - 1].what.c_str()); z.v[m - 1].f(); }
  }
  // the functions of an interface are not elements, and a payload without text has none
  auto seen = [&](const void* p) { return s.name == "interface" ? uris((const osl_interface_t*)p) : s.name == "scop" ? text((const osl_scop_t*)p) : s.text(p); };
  string tx = seen(x), ty = seen(y);
  c.state("dump" + tx + "|" + ty);
  c.step();
  string dx = printed([&](FILE* o) { s.idump(o, x, 1); }), dy = printed([&](FILE* o) { s.idump(o, y, 1); });
  dx = noaddr(dx); dy = noaddr(dy);
  c.check(dy.find("(null)") == string::npos, "an absent text is printed: %s", cut(dy).c_str());
  if (tx == ty) c.check(dx == dy, "equal values are dumped differently: %s", differ(dx, dy).c_str());
  else c.check(dx != dy, "a difference is not visible in the dump: %s", differ(tx, ty).c_str());
  if (x) s.free(x);
  if (y) s.free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// dependences that know their statements and accesses, as a dependence analysis leaves them
void linked(Ctx& c) {
  static vector<Subject> S = subjects();
  int n = c.choose(3, "statements") + 1, nd = 1 + c.choose(2, "dependences");
  G g(c);
  osl_scop_p s = scop(g, OSL_PRECISION_MP, 1, 0);
  osl_statement_p* t = &s->statement->next;
  for (int i = 1; i < n; i++) { *t = statement(g, OSL_PRECISION_MP, 3 * i, 0); t = &(*t)->next; }
  auto stmt = [&](int k) { osl_statement_p q = s->statement; while (k--) q = q->next; return q; };
  osl_dependence_p d = (osl_dependence_p)payload(g, OSL_URI_DEPENDENCE, 0);
  if (nd == 2) d->next = (osl_dependence_p)payload(g, OSL_URI_DEPENDENCE, 0);
  for (osl_dependence_p x = d; x; x = x->next) {
    int a = c.choose(n + 1, "source"), b = c.choose(n + 1, "target"), acc = x == d ? c.choose(2, "accesses") : 0;
    if (a) x->stmt_source_ptr = stmt(a - 1);
    if (b) x->stmt_target_ptr = stmt(b - 1);
    if (acc && a) x->ref_source_access_ptr = stmt(a - 1)->access->elt;
    if (acc && b) x->ref_target_access_ptr = stmt(b - 1)->access->elt;
  }
  osl_generic_p e = generic(OSL_URI_DEPENDENCE, d);
  e->next = s->extension;
  s->extension = e;
  Env env;
  env.names = build_names({"N"}, {"i", "j"}, {"t1", "t2", "t3"}, {"l1"}, {"A", "B", "C"});
  string pic = text(s);
  for (osl_dependence_p x = d; x; x = x->next) for (int k = 0; k < 2; k++) {
    osl_statement_p w = k ? x->stmt_target_ptr : x->stmt_source_ptr, q = s->statement;
    int i = 0;
    for (; q != w && q; q = q->next) ++i;
    pic += " " + std::to_string(q ? i : -1);
  }
  if (!c.state(pic, 0)) { osl_names_free(env.names); osl_scop_free(s); return; }
  for (auto& u : S) {
    void* x = u.uri == OSL_URI_DEPENDENCE ? (void*)d : u.name == "generic" ? (void*)s->extension : u.name == "scop" ? (void*)s : nullptr;
    if (!x) continue;
    env.copy = u.clone(x);
    if (u.uri == OSL_URI_DEPENDENCE) {
      osl_dependence_p y = (osl_dependence_p)env.copy;
      for (osl_dependence_p z = d; z; z = z->next, y = y->next)
        c.check(y->stmt_source_ptr == z->stmt_source_ptr && y->stmt_target_ptr == z->stmt_target_ptr && y->ref_source_access_ptr == z->ref_source_access_ptr && y->ref_target_access_ptr == z->ref_target_access_ptr,
                "the copy of a dependence refers to other statements or accesses");
    }
    for (auto& o : observers(u)) {
      mc::Snap before = mc::snapshot();
      c.step();
      string a = o.f(x, env), w = mc::changed(before);
      c.check(w.empty(), "%s: %s", o.name.c_str(), w.c_str());
      string b = o.f(x, env);
      c.check(a == b, "%s gives another answer when repeated: %s", o.name.c_str(), differ(a, b).c_str());
    }
    u.free(env.copy);
  }
  osl_names_free(env.names);
  osl_scop_free(s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// vectors: every entry, the size and the precision are visible
void vectors(Ctx& c) {
  static const vector<string> V = {"0", "1", "-1", "10", "-123456789012345678"};
  int prec = PRECS[c.choose(3, "precision")], n = c.pick(vector<int>{0, 1, 2, 3, 10, 63, 64, 100, 255, 256, 257, 300, 511, 1000}, "size"), level = c.choose(3, "level");
  auto values = [&](int p) { vector<string> v = V; if (p == OSL_PRECISION_MP) v.push_back("123456789012345678901234567890"); return v; };
  Row x;
  for (int i = 0; i < n && n < 4; i++) x.push_back(c.pick(values(prec), "entry"));
  for (int i = 0; i < n && n >= 4; i++) x.push_back(std::to_string(i * 7 - 1000));
  osl_vector_p v = build_vec(prec, x);
  string t = pname(prec) + str(x);
  c.state(t + std::to_string(level));
  c.step();
  mc::Snap before = mc::snapshot();
  auto dump = [&](osl_vector_p y) { return printed([&](FILE* f) { osl_vector_idump(f, y, level); }); };
  string d = dump(v);
  c.check(mc::changed(before).empty(), "dumping a vector changed it: %s", mc::changed(before).c_str());
  c.check(d == dump(v), "the dump differs when repeated");
  c.check(printed([&](FILE* f) { osl_vector_dump(f, v); }) == printed([&](FILE* f) { osl_vector_idump(f, v, 0); }), "the dump is not the one at level 0");
  // its numbers, in order, are the size and the entries
  vector<string> num;
  size_t p = d.find('\n');
  for (string w, rest = p == string::npos ? "" : d.substr(p); !rest.empty() || !w.empty();) {
    char ch = rest.empty() ? ' ' : rest[0];
    if (!rest.empty()) rest.erase(0, 1);
    if (isdigit((unsigned char)ch) || ch == '-') w += ch;
    else if (!w.empty()) { num.push_back(w); w.clear(); }
  }
  Row want = x;
  want.insert(want.begin(), std::to_string(n));
  c.check(num == want, "the dump of %s shows %s", str(want).c_str(), str(num).c_str());
  string lead;
  for (int i = 0; i < level; i++) lead += "|\t";
  for (size_t b = 0; b < d.size();) {
    size_t e = d.find('\n', b);
    if (e == string::npos) e = d.size();
    c.check(d.compare(b, lead.size(), lead) == 0, "a line of the dump at level %d does not start there: %s", level, cut(d).c_str());
    b = e + 1;
  }
  for (int q : PRECS) {
    if (q == prec) continue;
    bool fits = true;
    for (auto& e : x) fits = fits && e.size() < 20;
    if (!fits) continue;
    osl_vector_p w = build_vec(q, x);
    c.check(dump(w) != d, "the precision of a vector is not visible");
    osl_vector_free(w);
  }
  c.check(dump(nullptr) != d, "no vector is dumped like a vector");
  osl_vector_free(v);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  mc::add("vectors", "every vector of up to 3 of 6 entries, of 10 larger sizes up to 1000, in every precision, 3 levels", vectors);
  mc::add("linked", "scops of 1..3 statements with one or two dependences between any two of them (or none), pointing to the statements and accesses or not: every observer", linked);
  static vector<Subject> S = subjects();
  for (auto& s : S) {
    bool big = s.name == "scop" || s.name == "statement" || s.name == "dependence" || s.name == "symbols";
    int r = mc::q(1, s.name == "scop" || s.name == "dependence" ? 1 : 2);
    mc::add("observe: " + s.name, "every observer on all values of richness " + std::to_string(r), [&s, r](Ctx& c) { observe(c, s, r, false, false); });
    mc::add("observe varied: " + s.name, "every observer on a fixed value with every single variation", [&s, big](Ctx& c) { observe(c, s, mc::q(0, big ? 0 : 1), true, false); });
    mc::add("pairs: " + s.name, "every ordered pair of observers", [&s, big](Ctx& c) { observe(c, s, mc::q(big ? 0 : 1, 1), false, true); });
    mc::add("dumps: " + s.name, "every single difference against the dump", [&s, big](Ctx& c) { dumps(c, s, mc::q(big ? 0 : 1, big ? 0 : 2)); });
  }
  static vector<Subject> W = wides();
  for (auto& s : W) {
    mc::add("wide: " + s.name, "every observer on 3 long values (lists of 3 to 40 elements, unions of 4 parts of mixed precisions)", [&s](Ctx& c) { observe(c, s, 0, false, false); });
    mc::add("wide dumps: " + s.name, "every single difference against the dump", [&s](Ctx& c) { Slots::Lean l; dumps(c, s, 0); });
  }
}
