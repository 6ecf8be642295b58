// C13: union removal enumerates every component exactly once.
#include "observers.hpp"
using namespace gn;

mc::Property property() {
  return {"C13",
          "removing unions turns every statement into one statement per (domain component, scattering component) pair, in order, and keeps everything else; the input is untouched and the result shares nothing with it",
          {"a statement without domain (or scattering) contributes one statement per component of the other relation"}};
}
namespace {
struct Stm { Rel dom, sca; vector<Rel> acc; int ext; };

Part piece(int type, int tag, int shape, int prec, int par) {
  int out = 1, in = type == OSL_TYPE_SCATTERING ? 1 : 0, loc = shape == 1 ? 1 : 0;
  if (type == OSL_TYPE_SCATTERING && shape == 3) out = 2;
  int rows = shape == 2 ? 0 : shape == 1 ? 2 : 1, cols = 2 + out + in + loc + par;
  vector<Row> m;
  for (int i = 0; i < rows; i++) {
    Row r;
    for (int j = 0; j < cols; j++) r.push_back(std::to_string(j == 0 ? (tag + i) % 2 : tag * 100 + i * 10 + j));
    m.push_back(r);
  }
  return part(type, out, in, loc, par, m, prec);
}
Rel uni(int type, int n, int tag, int s, int prec, int par) {
  Rel u;
  for (int i = 0; i < n; i++) u.push_back(piece(type, tag + i, (s + i) % 4, prec, par));
  return u;
}
Part accpart(int id, int tag, int prec, int par) {
  int cols = 2 + 2 + 1 + par;
  Row a(cols, "0"), b(cols, "0");
  a[1] = "-1"; a[cols - 1] = std::to_string(id);
  b[2] = "-1"; b[3] = std::to_string(tag);
  return part(tag % 2 ? OSL_TYPE_READ : OSL_TYPE_WRITE, 2, 1, 0, par, {a, b}, prec);
}
osl_generic_p ext(Ctx& c, int e) {
  G g(c);
  static const vector<vector<string>> X = {{}, {OSL_URI_BODY}, {OSL_URI_COMMENT, OSL_URI_BODY}, {OSL_URI_RELATION}, {OSL_URI_SCATNAMES, OSL_URI_BODY, OSL_URI_ARRAYS, OSL_URI_COMMENT}};
  return generics(g, X[e], 0);
}
osl_statement_p stm(Ctx& c, const Stm& m) {
  osl_statement_p s = fresh<osl_statement_t>();
  s->domain = build(m.dom);
  s->scattering = build(m.sca);
  s->access = rlist(m.acc);
  s->extension = ext(c, m.ext);
  return s;
}
vector<Stm> split(const vector<Stm>& v) {
  vector<Stm> r;
  for (auto& s : v)
    for (size_t d = 0; d < std::max<size_t>(1, s.dom.size()); d++)
      for (size_t k = 0; k < std::max<size_t>(1, s.sca.size()); k++) {
        Stm x = s;
        x.dom = s.dom.empty() ? Rel() : Rel{s.dom[d]};
        x.sca = s.sca.empty() ? Rel() : Rel{s.sca[k]};
        r.push_back(x);
      }
  return r;
}
Stm choose_stm(Ctx& c, int tag, int prec, int par, int maxu, bool rich) {
  Stm s;
  s.dom = uni(OSL_TYPE_DOMAIN, c.choose(maxu + 1, "domain components"), 10 * tag + 1, rich ? c.choose(4, "domain shapes") : tag % 4, prec, par);
  s.sca = uni(OSL_TYPE_SCATTERING, c.choose(maxu + 1, "scattering components"), 10 * tag + 5, rich ? c.choose(4, "scattering shapes") : 0, prec, par);
  int k = rich ? c.choose(5, "accesses") : tag % 3;
  for (int i = 0; i < (k == 4 ? 4 : k > 2 ? 1 : k); i++) s.acc.push_back({accpart(1 + i, tag + i, prec, par)});
  if (k == 3) s.acc[0].push_back(accpart(1, tag, prec, par));  // unions of accesses stay
  s.ext = rich ? c.choose(5, "extension") : tag % 5;
  return s;
}
string show(Ctx& c, const vector<Stm>& v) {
  osl_statement_p h = nullptr, *e = &h;
  for (auto& m : v) { *e = stm(c, m); e = &(*e)->next; }
  string t = text(h);
  osl_statement_free(h);
  return t;
}
// a single statement, everything about it varying
void one(Ctx& c, int maxu) {
  int prec = c.pick(vector<int>{OSL_PRECISION_MP, OSL_PRECISION_SP, OSL_PRECISION_DP}, "precision");
  Stm m = choose_stm(c, 1, prec, 1, maxu, true);
  osl_statement_p s = stm(c, m);
  // the rest of the list is not the business of the statement version
  bool more = c.flip("another statement behind");
  if (more) { Stm z; z.ext = 1; s->next = stm(c, z); }
  mc::Snap snap = mc::snapshot();
  osl_statement_p r = osl_statement_remove_unions(s);
  c.step();
  string want = show(c, split({m})), got = text(r);
  c.state(want);
  c.outcome(std::to_string(m.dom.size()) + "x" + std::to_string(m.sca.size()));
  c.check(got == want, "%s", differ(want, got).c_str());
  osl_statement_free(r);
  c.check(mc::changed(snap).empty(), "the input changed or memory leaked: %s", mc::changed(snap).c_str());
  osl_statement_free(s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void scops(Ctx& c, int maxs, int maxu, int maxscops) {
  int prec = OSL_PRECISION_MP;
  int ns = c.choose(maxscops + 1, "scops");
  osl_scop_p h = nullptr, *t = &h, wh = nullptr, *wt = &wh;
  for (int k = 0; k < ns; k++) {
    int n = c.choose(maxs + 1, "statements");
    vector<Stm> v;
    for (int i = 0; i < n; i++) v.push_back(choose_stm(c, 1 + i + k, prec, 1, maxu, false));
    int about = k == 0 ? c.choose(4, "components of the scop") : 0;  // all, none, context a union, no text
    for (int w = 0; w < 2; w++) {
      osl_scop_p s = fresh<osl_scop_t>();
      s->version = about == 1 ? 7 : 1;
      if (about != 1) {
        G g(c);
        s->language = mc::lstrdup(k ? "FORTRAN" : "C");
        Rel ctx = {part(OSL_TYPE_CONTEXT, 0, 0, 0, 1, {{"1", "2", "3"}}, prec)};
        if (about == 2) ctx.push_back(part(OSL_TYPE_CONTEXT, 0, 0, 1, 1, {{"0", "4", "5", "6"}}, prec));
        s->context = build(ctx);
        s->parameters = generic(OSL_URI_STRINGS, build_strings({"N"}));
        if (about != 3) s->extension = generics(g, {OSL_URI_ARRAYS, OSL_URI_SCATNAMES, OSL_URI_COMMENT, OSL_URI_CLAY}, 0);
        s->registry = osl_body_interface();
        s->registry->next = osl_arrays_interface();
      }
      osl_statement_p* st = &s->statement;
      for (auto& m : w ? split(v) : v) { *st = stm(c, m); st = &(*st)->next; }
      if (w) { *wt = s; wt = &s->next; } else { *t = s; t = &s->next; }
    }
  }
  auto all = [](const osl_scop_t* s) { string r = text(s); for (; s; s = s->next) r += text(s->registry); return r; };
  mc::Snap snap = mc::snapshot();
  osl_scop_p r = osl_scop_remove_unions(h);
  c.step();
  string want = all(wh), got = all(r);
  c.state(want);
  c.check(got == want, "%s", differ(want, got).c_str());
  // a second removal changes nothing
  osl_scop_p rr = osl_scop_remove_unions(r);
  c.check(all(rr) == got, "removing unions twice: %s", differ(got, all(rr)).c_str());
  osl_scop_free(rr);
  osl_scop_free(r);
  c.check(mc::changed(snap).empty(), "the input changed or memory leaked: %s", mc::changed(snap).c_str());
  osl_scop_free(h);
  osl_scop_free(wh);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// every SCoP of a list keeps what it has, and gets nothing it has not
void kept(Ctx& c, int n, bool all_of_it) {
  osl_scop_p h = nullptr, *t = &h;
  for (int k = 0; k < n; k++) {
    osl_scop_p s = *t = fresh<osl_scop_t>();
    t = &s->next;
    s->version = c.flip("version") ? 7 + k : 1;
    if (!all_of_it || c.flip("language")) s->language = mc::lstrdup(k ? "FORTRAN" : "C");
    if (c.flip("context")) s->context = build(Rel{part(OSL_TYPE_CONTEXT, 0, 0, 0, 1, {{"1", std::to_string(k), "3"}}, OSL_PRECISION_SP), part(OSL_TYPE_CONTEXT, 0, 0, 0, 1, {}, OSL_PRECISION_SP)});
    if (c.flip("parameters")) s->parameters = generic(OSL_URI_STRINGS, build_strings({k ? "M" : "N"}));
    if (c.flip("extension")) { G g(c); s->extension = generics(g, {OSL_URI_COMMENT, OSL_URI_SCATNAMES}, 0); }
    if (all_of_it && c.flip("registry")) s->registry = osl_body_interface();
    if (c.flip("statement")) {
      s->statement = fresh<osl_statement_t>();
      s->statement->domain = build(uni(OSL_TYPE_DOMAIN, 1 + k % 2, k, 0, OSL_PRECISION_SP, 1));
    }
    if (k < n - 1 && !c.flip("one more")) break;
  }
  auto seen = [](const osl_scop_t* s) {
    string r;
    for (; s; s = s->next) {
      r += std::to_string(s->version) + quote(s->language) + text(s->context) + text(s->parameters) + text(s->extension) + text(s->registry);
      for (auto x = s->statement; x; x = x->next)
        for (auto& p : see(x->domain)) r += " {" + str(Rel{p}) + "}";
      r += ";";
    }
    return r;
  };
  c.state(seen(h));
  mc::Snap snap = mc::snapshot();
  osl_scop_p r = osl_scop_remove_unions(h);
  c.step();
  c.check(seen(r) == seen(h), "%s", differ(seen(h), seen(r)).c_str());
  osl_scop_free(r);
  c.check(mc::changed(snap).empty(), "the input changed or memory leaked: %s", mc::changed(snap).c_str());
  osl_scop_free(h);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// through the text: a file whose unions are removed, printed and read again
void printed_form(Ctx& c, int maxu) {
  vector<Stm> v;
  int n = c.choose(2, "statements") + 1;
  for (int i = 0; i < n; i++) { Stm m = choose_stm(c, 1 + i, OSL_PRECISION_MP, 1, maxu, false); m.ext = 0; v.push_back(m); }
  osl_scop_p s = fresh<osl_scop_t>();
  s->version = 1;
  s->language = mc::lstrdup("C");
  s->context = build(Rel{part(OSL_TYPE_CONTEXT, 0, 0, 0, 1, {})});
  osl_statement_p* st = &s->statement;
  for (auto& m : v) { *st = stm(c, m); st = &(*st)->next; }
  osl_scop_p r = osl_scop_remove_unions(s);
  string t = printed([&](FILE* o) { osl_scop_print(o, r); });
  c.state(t);
  c.step();
  In in(t);
  osl_scop_p b = osl_scop_read(in.f);
  c.check(text(b->statement) == text(r->statement), "printed and read: %s", differ(text(r->statement), text(b->statement)).c_str());
  c.check(osl_statement_number(b->statement) == (int)split(v).size(), "%d statements instead of %zu", osl_statement_number(b->statement), split(v).size());
  osl_scop_free(b);
  osl_scop_free(r);
  osl_scop_free(s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  mc::add("no statement", "NULL", [](Ctx& c) { c.state("null"); c.step(); c.check(!osl_statement_remove_unions(nullptr) && !osl_scop_remove_unions(nullptr), "something from nothing"); });
  mc::add("one statement", "unions of up to " + std::to_string(mc::q(3, 4)) + " domain and scattering components of 4 shapes, 4 access lists, 4 extension lists, 3 precisions", [](Ctx& c) { one(c, mc::q(3, 4)); });
  mc::add("scop", "up to " + std::to_string(mc::q(3, 4)) + " statements with unions of up to 2", [](Ctx& c) { scops(c, mc::q(3, 4), 2, 1); });
  mc::add("scop lists", "up to " + std::to_string(mc::q(2, 3)) + " scops of up to " + std::to_string(mc::q(2, 2)) + " statements with unions of up to " + std::to_string(mc::q(1, 2)), [](Ctx& c) { scops(c, mc::q(1, 2), mc::q(3, 2), mc::q(2, 2)); });
  mc::add("components", "lists of up to 2 scops with or without each of 7 components, up to 3 with or without 5", [](Ctx& c) { if (c.flip("all of it")) kept(c, 2, true); else kept(c, 3, false); });
  mc::add("printed", "up to 2 statements, unions of up to " + std::to_string(mc::q(2, 3)), [](Ctx& c) { printed_form(c, mc::q(2, 3)); });
}
