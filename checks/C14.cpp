// C14: the integrity check accepts exactly well-formed data.
#include "observers.hpp"
using namespace gn;

mc::Property property() {
  return {"C14",
          "the integrity check of a relation, relation list, statement or SCoP answers 1 exactly when the documented rules hold, and never changes or crashes on what it checks",
          {"the number of parameters is compared with the context's and the number of iterators with the domain's when those are present",
           "all parts of a union have the type of its head; local dimensions are undefined only in the head"}};
}
namespace {
const int U = OSL_UNDEFINED;
bool is_acc(int t) { return t == OSL_TYPE_ACCESS || t == OSL_TYPE_READ || t == OSL_TYPE_WRITE || t == OSL_TYPE_MAY_WRITE; }
// ------------------------------------------------------------- the rules
// identifier named by one access part, or UNDEFINED
int named(const Part& p) {
  if (p.rows < 1 || p.cols < 3) return U;
  int row = -1;
  for (int i = 0; i < p.rows; i++)
    if (p.m[i][1] != "0") { if (row >= 0) return U; row = i; }
  if (row < 0) return U;
  for (int j = 0; j < p.cols - 1; j++)
    if (j != 1 && p.m[row][j] != "0") return U;
  __int128 k = strtoll(p.m[row][p.cols - 1].c_str(), nullptr, 10), d = strtoll(p.m[row][1].c_str(), nullptr, 10);
  if (p.cols - 1 == 1) return U;
  if (k % d != 0) return U;
  __int128 id = -k / d;
  if (id <= 0 || id > INT_MAX) return U;  // an identifier is an int
  return (int)id;
}
int named(const Rel& r) {
  int id = U;
  for (auto& p : r) {
    int x = named(p);
    if (x == U || (id != U && x != id)) return U;
    id = x;
  }
  return id;
}
bool good(const Rel& r, int type, int out, int in, int par, string* why = nullptr) {
  auto no = [&](const char* w) { if (why) *why = w; return false; };
  if (r.empty()) return true;
  if (type == OSL_TYPE_ACCESS ? !is_acc(r[0].type) : r[0].type != type) return no("type");
  for (auto& p : r) {
    if (p.out == U || p.in == U || p.loc == U || p.par == U) return no("undefined dimension");
    if (p.out != r[0].out || p.in != r[0].in || p.par != r[0].par) return no("parts with different dimensions");
    if (p.cols != 2 + p.out + p.in + p.loc + p.par) return no("columns");
    for (auto& row : p.m)
      if (p.cols > 0 && row[0] != "0" && row[0] != "1") return no("marker");
  }
  if (r[0].type == OSL_TYPE_CONTEXT && (r[0].out != 0 || r[0].in != 0)) return no("context with dimensions");
  if (r[0].type == OSL_TYPE_DOMAIN && r[0].in != 0) return no("domain with input dimensions");
  if ((out != U && out != r[0].out) || (in != U && in != r[0].in) || (par != U && par != r[0].par)) return no("expected dimensions");
  if (is_acc(r[0].type) && named(r) == U) return no("array identifier");
  return true;
}
bool good(const osl_relation_list_t* l, int type, int out, int in, int par, string* why = nullptr) {
  for (; l; l = l->next) if (!good(see(l->elt), type, out, in, par, why)) return false;
  return true;
}
bool good(const osl_statement_t* s, int par, string* why = nullptr) {
  for (; s; s = s->next) {
    Rel d = see(s->domain);
    if (!good(d, OSL_TYPE_DOMAIN, U, 0, par, why)) return false;
    int it = d.empty() ? U : d[0].out;
    if (!good(see(s->scattering), OSL_TYPE_SCATTERING, U, it, par, why)) return false;
    if (!good(s->access, OSL_TYPE_ACCESS, U, it, par, why)) return false;
    for (auto g = s->extension; g; g = g->next)
      if (g->interface && g->interface->URI && !strcmp(g->interface->URI, OSL_URI_BODY) && g->data) {
        auto b = (osl_body_t*)g->data;
        if (it != U && b->iterators && (int)see_strings(b->iterators).size() != it) { if (why) *why = "body iterators"; return false; }
        break;
      }
  }
  return true;
}
bool good(const osl_scop_t* s, string* why = nullptr) {
  for (; s; s = s->next) {
    Rel c = see(s->context);
    if (!good(c, OSL_TYPE_CONTEXT, U, U, U, why)) return false;
    if (!good(s->statement, c.empty() ? U : c[0].par, why)) return false;
  }
  return true;
}
void verdict(Ctx& c, int got, bool want, const string& why, const string& what, const mc::Snap& snap) {
  c.step();
  c.outcome(want ? "well-formed" : why);
  c.check(got == (want ? 1 : 0), "answered %d for %s data (%s): %s", got, want ? "well-formed" : "ill-formed", why.c_str(), cut(what, 600).c_str());
  string ch = mc::changed(snap);
  c.check(ch.empty(), "the check changed something: %s", ch.c_str());
}
const vector<int> TYPES = {OSL_TYPE_GENERIC, OSL_TYPE_STRING, OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_ACCESS, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_UNDEFINED};

// a part of the given dimensions that breaks no rule of its own
Part fine(int type, int out, int in, int loc, int par, int rows, int prec, int id = 1) {
  int o = std::max(out, 0), i = std::max(in, 0), l = std::max(loc, 0), p = std::max(par, 0);
  int cols = 2 + o + i + l + p;
  vector<Row> m;
  for (int r = 0; r < rows; r++) {
    Row w(cols, "0");
    for (int j = 0; j < cols; j++) w[j] = j == 0 ? std::to_string(r % 2) : std::to_string(7 * r + j);
    if (is_acc(type)) {
      if (r == 0) { w = Row(cols, "0"); w[1] = "-1"; w[cols - 1] = std::to_string(cols > 2 ? id : -1); }
      else w[1] = "0";
    }
    m.push_back(w);
  }
  Part q = part(type, o, i, l, p, m, prec);
  q.out = out; q.in = in; q.loc = loc; q.par = par;
  return q;
}
void resize(Part& p, int d) {  // wrong number of columns
  p.cols += d;
  for (auto& r : p.m) r.resize(p.cols, "0");
}
int prec(Ctx& c) { return PRECS[c.choose(3, "precision")]; }

void one(Ctx& c) {
  int type = c.pick(TYPES, "type");
  static const vector<int> D = {0, 1, 2, U};
  int out = c.pick(D, "out"), in = c.pick(mc::thorough() ? D : vector<int>{0, 1, U}, "in"), loc = c.pick(vector<int>{U, 0, 1, 3}, "loc"), par = c.choose(3, "par") - 1;
  int rows = c.choose(mc::q(2, 3), "rows");
  Part p = fine(type, out, in, loc, par, rows, OSL_PRECISION_MP);
  int d = c.choose(3, "columns") - 1;
  if (p.cols + d < 2) return;
  if (is_acc(type) && d) { if (p.cols + d < 3) return; resize(p, d); } else resize(p, d);
  int et = c.pick(vector<int>{type, OSL_TYPE_ACCESS, OSL_TYPE_DOMAIN}, "expected type");
  int eo = c.pick(vector<int>{U, 1}, "expected out"), ei = c.pick(vector<int>{U, 0, 1}, "expected in"), ep = c.pick(vector<int>{U, 1}, "expected par");
  if (et == U) et = OSL_TYPE_DOMAIN;
  Rel r = {p};
  if (!c.state(str(r) + std::to_string(et) + "," + std::to_string(eo) + std::to_string(ei) + std::to_string(ep), 0)) return;
  osl_relation_p x = build(r);
  mc::Snap s = mc::snapshot();
  string why;
  bool want = good(r, et, eo, ei, ep, &why);
  verdict(c, osl_relation_integrity_check(x, et, eo, ei, ep), want, why, str(r), s);
  osl_relation_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// equality markers of every row and part
void markers(Ctx& c) {
  int type = c.pick(vector<int>{OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ}, "type"), pr = prec(c);
  static const vector<string> V = {"0", "1", "2", "-1", "256", "4294967296", "4294967297"};
  Rel r;
  int n = c.choose(2, "parts") + 1;
  for (int k = 0; k < n; k++) {
    Part p = fine(type, type == OSL_TYPE_CONTEXT ? 0 : 1, type >= OSL_TYPE_SCATTERING ? 1 : 0, 0, 1, 2, pr);
    for (int i = 0; i < 2; i++) p.m[i][0] = c.pick(V, "marker");
    r.push_back(p);
  }
  if (!c.state(str(r), 0)) return;
  osl_relation_p x = build(r);
  mc::Snap s = mc::snapshot();
  string why;
  int et = is_acc(type) ? OSL_TYPE_ACCESS : type;
  bool want = good(r, et, U, U, U, &why);
  verdict(c, osl_relation_integrity_check(x, et, U, U, U), want, why, str(r), s);
  osl_relation_free(x);
}
// the array identifier rules
void access(Ctx& c, int rows, int maxv) {
  static const vector<string> V = {"0", "-1", "1", "3", "-2", "2"}, K = {"0", "1", "-1", "3", "-6", "7"};
  int pr = prec(c);
  Part p = fine(OSL_TYPE_READ, 2, 1, 0, 0, rows, pr);
  for (int i = 0; i < rows; i++) {
    p.m[i][1] = V[c.choose(maxv, "array column")];
    p.m[i][2] = V[c.choose(2, "output")];
    p.m[i][3] = V[c.choose(2, "input")];
    p.m[i][4] = K[c.choose(maxv, "constant")];
    p.m[i][0] = c.flip("marker") ? "1" : "0";
  }
  Rel r = {p};
  if (!c.state(str(r), 0)) return;
  osl_relation_p x = build(r);
  mc::Snap s = mc::snapshot();
  string why;
  bool want = good(r, OSL_TYPE_ACCESS, U, U, U, &why);
  verdict(c, osl_relation_integrity_check(x, OSL_TYPE_ACCESS, U, U, U), want, why, str(r), s);
  c.check(osl_relation_get_array_id(x) == named(r), "array identifier of %s", str(r).c_str());
  osl_relation_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// unions: everything fine but at most two deviations, in every part
void unions(Ctx& c, int maxparts) {
  int type = c.pick(vector<int>{OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_MAY_WRITE, OSL_TYPE_WRITE}, "type"), pr = prec(c);
  int n = c.choose(maxparts, "parts") + 1;
  int o = type == OSL_TYPE_CONTEXT ? 0 : 2, in = type >= OSL_TYPE_SCATTERING ? 1 : 0;
  Rel r;
  for (int k = 0; k < n; k++) r.push_back(fine(type, o, in, k % 2, 1, type == OSL_TYPE_DOMAIN && k == 2 ? 0 : 1 + k % 2, pr, 2));
  for (int e = 0; e < 2; e++) {
    int dev = c.choose(9, "deviation");
    if (!dev) { if (e == 0) continue; break; }
    int k = c.choose(n, "part");
    Part& p = r[k];
    int id = is_acc(type) ? 2 : 1;
    switch (dev) {
      case 1: p = fine(type, o + 1, in, p.loc, p.par, std::max(p.rows, 1), pr, id); break;
      case 2: p = fine(type, o, in + 1, p.loc, p.par, std::max(p.rows, 1), pr, id); break;
      case 3: p = fine(type, o, in, p.loc + 1, p.par, std::max(p.rows, 1), pr, id); break;
      case 4: p = fine(type, o, in, p.loc, p.par + 1, std::max(p.rows, 1), pr, id); break;
      case 5: resize(p, 1); break;
      case 6: if (p.rows) p.m[p.rows - 1][0] = "5"; break;
      case 7: p = fine(type, o, in, p.loc, p.par, std::max(p.rows, 1), pr, 3); break;
      case 8: p.par++; p.in--; break;  // the same number of columns
    }
    if (p.in < 0) return;
  }
  int eo = c.pick(vector<int>{U, o}, "expected out"), ep = c.pick(vector<int>{U, 1, 0}, "expected par");
  int et = is_acc(type) ? OSL_TYPE_ACCESS : type;
  if (!c.state(str(r) + std::to_string(eo) + "," + std::to_string(ep), 0)) return;
  osl_relation_p x = build(r);
  string why;
  bool want = good(r, et, eo, U, ep, &why);
  {
    mc::Snap s = mc::snapshot();
    verdict(c, osl_relation_integrity_check(x, et, eo, U, ep), want, why, str(r), s);
  }
  // the same relation in a list, at any place among good ones
  Part g = fine(type, o, in, 1, 1, 1, pr, 9);
  int at = c.choose(3, "place in a list");
  osl_relation_list_p l = nullptr, *t = &l;
  for (int i = 0; i < 3; i++) {
    *t = fresh<osl_relation_list_t>();
    (*t)->elt = i == at ? x : i == 0 ? nullptr : build(Rel{g});
    t = &(*t)->next;
  }
  string why2;
  bool wl = good(l, et, eo, U, ep, &why2);
  mc::Snap s = mc::snapshot();
  verdict(c, osl_relation_list_integrity_check(l, et, eo, U, ep), wl, why2, text(l), s);
  osl_relation_list_free(l);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// statements and scops, each with every single field changed
void mutated(Ctx& c, bool scops, int r, int muts) {
  G g(c);
  int pr = c.flip("precision") ? OSL_PRECISION_DP : OSL_PRECISION_MP;
  void* d;
  if (scops) {
    osl_scop_p s = scop(g, pr, 1, r);
    if (c.flip("no registry")) { osl_interface_free(s->registry); s->registry = nullptr; }
    if (c.flip("a second scop")) { G z(c); s->next = scop(z, pr, 4, 0); }
    d = s;
  } else {
    osl_statement_p s = statement(g, pr, 2, r);
    if (c.flip("a second statement")) { G z(c); s->next = statement(z, pr, 4, 0); }
    d = s;
  }
  string done;
  for (int k = 0; k < muts; k++) {
    Slots z(false, pr);
    if (scops) z.scop_((osl_scop_p*)&d, c);
    else z.statement_("statement", (osl_statement_p*)&d, c);
    int n = c.choose((int)z.v.size() + 1, "difference");
    if (n == 0) break;
    if (z.v[n - 1].what.find(".loc") != string::npos && z.v[n - 1].what.find("part0") == string::npos) continue;
    if (z.v[n - 1].what.find(".type") != string::npos && z.v[n - 1].what.find("part0") == string::npos) continue;
    z.v[n - 1].f();
    done += z.v[n - 1].what + ";";
  }
  string why;
  int par = 0;
  bool want;
  if (scops) {
    want = good((osl_scop_t*)d, &why);
    if (!c.state(text((osl_scop_t*)d), 0)) { osl_scop_free((osl_scop_p)d); return; }
  } else {
    par = c.choose(3, "expected parameters") - 1;
    want = good((osl_statement_t*)d, par, &why);
    if (!c.state(std::to_string(par) + text((osl_statement_t*)d), 0)) { osl_statement_free((osl_statement_p)d); return; }
  }
  mc::Snap s = mc::snapshot();
  int got = scops ? osl_scop_integrity_check((osl_scop_t*)d) : osl_statement_integrity_check((osl_statement_t*)d, par);
  verdict(c, got, want, why, done + " " + (scops ? text((osl_scop_t*)d) : text((osl_statement_t*)d)), s);
  if (scops) osl_scop_free((osl_scop_p)d); else osl_statement_free((osl_statement_p)d);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// dimension agreement inside a statement and a scop
void agree(Ctx& c) {
  int pr = OSL_PRECISION_MP;
  int cp = c.choose(4, "context parameters") - 1, dp = c.choose(3, "domain parameters"), di = c.choose(4, "domain iterators") - 1;
  int si = c.choose(4, "scattering iterators") - 1, sp = c.choose(2, "scattering parameters") + 1;
  int ai = c.choose(4, "access iterators") - 1, ap = c.choose(2, "access parameters") + 1, second = c.flip("another access");
  int bi = c.choose(4, "body") - 1;
  osl_scop_p s = fresh<osl_scop_t>();
  s->version = 1;
  if (cp >= 0) s->context = build(Rel{fine(OSL_TYPE_CONTEXT, 0, 0, 0, cp, 1, pr)});
  osl_statement_p st = s->statement = fresh<osl_statement_t>();
  if (di >= 0) st->domain = build(Rel{fine(OSL_TYPE_DOMAIN, di, 0, 1, dp, 1, pr)});
  if (si >= 0) st->scattering = build(Rel{fine(OSL_TYPE_SCATTERING, 3, si, 0, sp, 1, pr)});
  vector<Rel> acc;
  if (ai >= 0) {
    acc.push_back({fine(OSL_TYPE_READ, 1, 2, 0, 1, 1, pr)});
    acc.push_back({fine(OSL_TYPE_WRITE, 2, ai, 0, ap, 2, pr)});
    if (!second) acc.erase(acc.begin());
  }
  st->access = rlist(acc);
  if (bi >= 0) {
    osl_body_p b = fresh<osl_body_t>();
    b->iterators = bi == 2 ? nullptr : build_strings(seq("i", bi + 1));
    b->expression = build_strings({"x"});
    st->extension = generic(OSL_URI_BODY, b);
  }
  if (!c.state(text(s), 0)) { osl_scop_free(s); return; }
  string why;
  bool want = good(s, &why);
  mc::Snap sn = mc::snapshot();
  verdict(c, osl_scop_integrity_check(s), want, why, text(s), sn);
  osl_scop_free(s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// every SCoP of a list is judged by its own context
void several(Ctx& c, int n) {
  osl_scop_p h = nullptr, *t = &h;
  for (int k = 0; k < n; k++) {
    int cp = c.choose(3, "context parameters") - 1, a = c.choose(4, "domain parameters") - 1, b = c.choose(3, "scattering parameters") - 1, f = c.choose(3, "domain of another statement") - 1;
    osl_scop_p s = *t = fresh<osl_scop_t>();
    t = &s->next;
    s->version = 1;
    if (cp >= 0) s->context = build(Rel{fine(OSL_TYPE_CONTEXT, 0, 0, 0, cp, 1, OSL_PRECISION_DP)});
    osl_statement_p st = s->statement = fresh<osl_statement_t>();
    if (a >= 0) st->domain = build(Rel{fine(OSL_TYPE_DOMAIN, 1, 0, 0, a, 1, OSL_PRECISION_DP)});
    if (b >= 0) st->scattering = build(Rel{fine(OSL_TYPE_SCATTERING, 1, 1, 0, b, 1, OSL_PRECISION_DP)});
    if (f >= 0) {
      st = st->next = fresh<osl_statement_t>();
      st->domain = build(Rel{fine(OSL_TYPE_DOMAIN, 2, 0, 0, f, 1, OSL_PRECISION_DP)});
    }
    if (k < n - 1 && !c.flip("one more")) break;
  }
  if (!c.state(text(h), 0)) { osl_scop_free(h); return; }
  string why;
  bool want = good(h, &why);
  mc::Snap s = mc::snapshot();
  verdict(c, osl_scop_integrity_check(h), want, why, text(h), s);
  osl_scop_free(h);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// every statement of a list is judged by its own domain, body included, and by
// the context only
void row_of_statements(Ctx& c, int n, bool bodies) {
  osl_statement_p h = nullptr, *t = &h;
  int par = c.choose(3, "expected parameters") - 1;
  for (int k = 0; k < n; k++) {
    osl_statement_p st = *t = fresh<osl_statement_t>();
    t = &st->next;
    int d = c.choose(3, "domain"), s = c.choose(3, "scattering"), a = c.choose(3, "access"), b = bodies ? c.choose(3, "body") : 0;
    if (d) st->domain = build(Rel{fine(OSL_TYPE_DOMAIN, d, 0, 0, 1, 1, OSL_PRECISION_DP)});
    if (s) st->scattering = build(Rel{fine(OSL_TYPE_SCATTERING, 1, s, 0, 1, 1, OSL_PRECISION_DP)});
    if (a) st->access = rlist({{fine(OSL_TYPE_READ, 1, a, 0, 1, 1, OSL_PRECISION_DP)}});
    if (b) {
      osl_body_p y = fresh<osl_body_t>();
      y->iterators = build_strings(seq("i", b));
      y->expression = build_strings({"x"});
      st->extension = generic(OSL_URI_BODY, y);
    }
    if (k < n - 1 && !c.flip("one more")) break;
  }
  if (!c.state(std::to_string(par) + text(h), 0)) { osl_statement_free(h); return; }
  string why;
  bool want = good(h, par, &why);
  mc::Snap s = mc::snapshot();
  verdict(c, osl_statement_integrity_check(h, par), want, why, text(h), s);
  osl_statement_free(h);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// every statement agrees with the context about the parameters, wherever it stands
void parameters(Ctx& c, int n) {
  osl_scop_p x = fresh<osl_scop_t>();
  x->version = 1;
  int cp = c.choose(4, "context parameters") - 1;
  if (cp >= 0) x->context = build(Rel{fine(OSL_TYPE_CONTEXT, 0, 0, 0, cp, 1, OSL_PRECISION_SP)});
  osl_statement_p* t = &x->statement;
  for (int k = 0; k < n; k++) {
    osl_statement_p st = *t = fresh<osl_statement_t>();
    t = &st->next;
    int where = c.choose(3, "where"), p = c.choose(3, "parameters");
    if (where == 0) st->domain = build(Rel{fine(OSL_TYPE_DOMAIN, 1, 0, 0, p, 1, OSL_PRECISION_SP)});
    else if (where == 1) st->scattering = build(Rel{fine(OSL_TYPE_SCATTERING, 1, 1, 0, p, 1, OSL_PRECISION_SP)});
    else st->access = rlist({{fine(OSL_TYPE_WRITE, 1, 1, 0, p, 1, OSL_PRECISION_SP)}});
    if (k < n - 1 && !c.flip("one more")) break;
  }
  if (!c.state(text(x), 0)) { osl_scop_free(x); return; }
  string why;
  bool want = good(x, &why);
  mc::Snap s = mc::snapshot();
  verdict(c, osl_scop_integrity_check(x), want, why, text(x), s);
  osl_scop_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// lists of relations, each of them absent, a union of up to 3 parts, or wrong in one part
void lists(Ctx& c, int n) {
  osl_relation_list_p h = nullptr, *t = &h;
  for (int k = 0; k < n; k++) {
    int parts = c.choose(4, "parts"), wrong = parts ? c.choose(parts + 1, "wrong part") : 0;
    Rel r;
    for (int i = 0; i < parts; i++) {
      r.push_back(fine(OSL_TYPE_READ, 1, 1, 0, 1, 1, OSL_PRECISION_DP));
      if (wrong == i + 1) r[i].m[0][0] = "7";
    }
    *t = fresh<osl_relation_list_t>();
    if (parts) (*t)->elt = build(r);
    t = &(*t)->next;
    if (k < n - 1 && !c.flip("one more")) break;
  }
  if (!c.state(text(h), 0)) { osl_relation_list_free(h); return; }
  string why;
  bool want = good(h, OSL_TYPE_ACCESS, U, 1, 1, &why);
  mc::Snap s = mc::snapshot();
  verdict(c, osl_relation_list_integrity_check(h, OSL_TYPE_ACCESS, U, 1, 1), want, why, text(h), s);
  osl_relation_list_free(h);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  mc::add("nothing", "NULL", [](Ctx& c) {
    c.state("null");
    c.step();
    c.check(osl_relation_integrity_check(nullptr, OSL_TYPE_DOMAIN, U, U, U) == 1 && osl_relation_integrity_check(nullptr, OSL_TYPE_ACCESS, 2, 1, 1) == 1 && osl_relation_list_integrity_check(nullptr, OSL_TYPE_ACCESS, U, U, U) == 1 &&
                osl_statement_integrity_check(nullptr, 3) == 1 && osl_scop_integrity_check(nullptr) == 1, "absent data");
  });
  mc::add("relation", "all types, dimensions undefined or up to 2, 3 column counts, up to " + std::to_string(mc::q(1, 2)) + " rows, against every expectation", one);
  mc::add("markers", "all combinations of 7 marker values over up to 2 parts of 2 rows, 4 types, 3 precisions", markers);
  mc::add("array identifier", "all accesses of 1 row over 6-value and of 2 rows over " + std::to_string(mc::q(3, 6)) + "-value alphabets, 3 precisions", [](Ctx& c) { if (c.flip("rows")) access(c, 2, mc::q(3, 6)); else access(c, 1, 6); });
  mc::add("unions", "unions of up to 3 parts with all pairs of 8 deviations in all parts, alone and at each place of a list", [](Ctx& c) { unions(c, mc::q(2, 3)); });
  mc::add("agreement", "all combinations of iterator and parameter counts of context, domain, scattering, accesses and body", agree);
  mc::add("several", "lists of up to " + std::to_string(mc::q(2, 3)) + " scops of up to 2 statements, every parameter count of context, domains and scattering", [](Ctx& c) { several(c, mc::q(2, 3)); });
  mc::add("statement lists", "lists of up to 3 statements, of each its domain, scattering and access present or not and of 1 or 2 iterators, and the bodies too in lists of up to 2", [](Ctx& c) { if (c.flip("bodies")) row_of_statements(c, mc::q(2, 3), true); else row_of_statements(c, 3, false); });
  mc::add("parameters", "scops of up to " + std::to_string(mc::q(4, 5)) + " statements, the parameters of each and of the context varied", [](Ctx& c) { parameters(c, mc::q(4, 5)); });
  mc::add("relation lists", "lists of up to " + std::to_string(mc::q(4, 5)) + " relations, each absent or a union of up to 3 parts, one of them ill-formed", [](Ctx& c) { lists(c, mc::q(4, 5)); });
  mc::add("statements", "all small statements with every single field changed", [](Ctx& c) { mutated(c, false, mc::q(1, 2), 1); });
  mc::add("scops", "all small scops with every single field changed", [](Ctx& c) { mutated(c, true, mc::q(0, 2), 1); });
  mc::add("scop pairs", "a scop with every pair of fields changed", [](Ctx& c) { if (mc::thorough()) mutated(c, true, 0, 2); else { c.state("-"); c.step(); } });
}
