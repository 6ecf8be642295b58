// C16: scattering normalization keeps the schedule.
#include "observers.hpp"
using namespace gn;

mc::Property property() {
  return {"C16",
          "after normalization every scattering part has the maximum number of output dimensions; a point satisfies the new constraints exactly when its original coordinates satisfy the old ones and the appended dimensions are zero (all points of a box); everything else is untouched; a second normalization changes nothing",
          {"normalization concerns the given SCoP, not the SCoPs chained behind it"}};
}
namespace {
// all constraints of a part on the point, whose columns 1.. are given
bool holds(const Part& p, const vector<long>& pt) {
  for (auto& r : p.m) {
    __int128 v = 0;
    for (int j = 1; j < p.cols; j++) v += (__int128)strtol(r[j].c_str(), nullptr, 10) * (j == p.cols - 1 ? 1 : pt[j - 1]);
    if (r[0] == "0" ? v != 0 : v < 0) return false;
  }
  return true;
}
// does `n` say what `o` says, with output dimensions appended and equal to zero?
bool same_schedule(Ctx& c, const Part& o, const Part& n, string& why) {
  int add = n.out - o.out, dims = n.out + n.in + n.loc + n.par;
  if (n.type != o.type || n.prec != o.prec || n.in != o.in || n.loc != o.loc || n.par != o.par || add < 0) { why = "dimensions"; return false; }
  if (n.cols != dims + 2 || n.rows != (int)n.m.size()) { why = "columns"; return false; }
  // every coordinate in {-1,0,2} (pairs of extremes for the larger ones)
  static const long V[] = {0, -1, 2};
  long total = 1;
  for (int i = 0; i < dims; i++) total *= 3;
  for (long k = 0; k < total; k++) {
    vector<long> pt, old;
    long x = k;
    bool zero = true;
    for (int i = 0; i < dims; i++, x /= 3) {
      long v = V[x % 3];
      pt.push_back(v);
      if (i >= o.out && i < n.out) zero &= v == 0;
      else old.push_back(v);
    }
    c.step();
    bool want = zero && holds(o, old);
    if (holds(n, pt) != want) {
      why = want ? "excludes" : "includes";
      why += " the point";
      for (long v : pt) why += " " + std::to_string(v);
      return false;
    }
  }
  // and no constraint of the original was lost or altered
  for (auto& r : o.m) {
    Row w(r.begin(), r.begin() + 1 + o.out);
    w.insert(w.end(), add, "0");
    w.insert(w.end(), r.begin() + 1 + o.out, r.end());
    if (std::find(n.m.begin(), n.m.end(), w) == n.m.end()) { why = "lost the constraint " + str(r); return false; }
  }
  return true;
}
Part scat(Ctx& c, int out, int in, int loc, int par, int kind, int prec) {
  int cols = 2 + out + in + loc + par;
  vector<Row> m;
  for (int i = 0; i < out; i++) {
    Row r(cols, "0");
    r[0] = kind == 2 && i == 0 ? "1" : "0";
    r[1 + i] = kind == 3 ? "2" : "-1";
    if (i % 2 == 0 && in) r[1 + out + (i / 2) % in] = kind == 1 ? "-1" : "1";
    if (par && kind == 1) r[cols - 2] = "1";
    r[cols - 1] = std::to_string(kind == 3 ? 0 : i);
    m.push_back(r);
  }
  if (kind == 2) {  // a constraint without output dimensions, and a local one
    Row r(cols, "0");
    r[0] = "1";
    if (in) r[1 + out] = "1";
    if (loc) r[1 + out + in] = "-2";
    r[cols - 1] = "1";
    m.push_back(r);
  }
  if (kind == 4) m.clear();
  (void)c;
  return part(OSL_TYPE_SCATTERING, out, in, loc, par, m, prec);
}
void normal(Ctx& c, int maxs, int maxout, int maxu, bool rich, int prec) {
  osl_scop_p s = fresh<osl_scop_t>();
  s->version = 1;
  s->language = mc::lstrdup("C");
  s->context = build(Rel{part(OSL_TYPE_CONTEXT, 0, 0, 0, 1, {{"1", "1", "-1"}}, prec)});
  s->parameters = generic(OSL_URI_STRINGS, build_strings({"N"}));
  G g(c);
  s->extension = generics(g, {OSL_URI_SCATNAMES, OSL_URI_ARRAYS}, 0, prec);
  int n = c.choose(maxs + 1, "statements");
  bool bare = c.flip("statements of a scattering only");
  vector<Rel> before;
  int mx = 0;
  osl_statement_p* t = &s->statement;
  for (int i = 0; i < n; i++) {
    osl_statement_p st = fresh<osl_statement_t>();
    if (!bare) st->domain = build(Rel{part(OSL_TYPE_DOMAIN, 1, 0, 0, 1, {{"1", "1", "0", "0"}}, prec), part(OSL_TYPE_DOMAIN, 1, 0, 0, 1, {{"1", "-1", "1", "0"}}, prec)});
    if (!bare) st->access = rlist({{part(OSL_TYPE_READ, 1, 1, 0, 1, {{"0", "-1", "0", "0", "1"}}, prec)}});
    G b(c);
    if (!bare) st->extension = generic(OSL_URI_BODY, body(b, 0, 1));
    Rel r;
    int u = c.choose(maxu + 1, "scattering parts");
    for (int k = 0; k < u; k++) {
      int out = c.choose(maxout + 1, "output dimensions");
      int kind = rich ? c.choose(5, "kind of schedule") : (i + k) % 5;
      int loc = rich ? c.choose(2, "local dimensions") : k % 2;
      r.push_back(scat(c, out, 1, loc, 1, kind, prec));
      mx = std::max(mx, out);
    }
    st->scattering = build(r);
    before.push_back(r);
    *t = st;
    t = &st->next;
  }
  bool more = c.flip("a second scop");
  if (more) { G z(c); s->next = scop(z, prec, 1, 0); }
  auto others = [](const osl_scop_t* x) {
    string r = text(x->context) + text(x->parameters) + text(x->extension) + quote(x->language) + text(x->registry) + text(x->next);
    for (auto y = x->statement; y; y = y->next) r += text(y->domain) + text(y->access) + text(y->extension);
    return r;
  };
  string rest = others(s);
  if (!c.state(text(s), 0)) { osl_scop_free(s); return; }
  osl_scop_normalize_scattering(s);
  c.step();
  c.check(others(s) == rest, "something else changed: %s", differ(rest, others(s)).c_str());
  size_t i = 0;
  for (auto x = s->statement; x; x = x->next, ++i) {
    Rel a = see(x->scattering);
    c.check(i < before.size() && a.size() == before[i].size(), "the union of statement %zu has %zu parts", i, a.size());
    for (size_t k = 0; k < a.size(); k++) {
      c.check(a[k].out == mx, "%d output dimensions instead of %d in part %zu of statement %zu", a[k].out, mx, k, i);
      string why;
      c.check(same_schedule(c, before[i][k], a[k], why), "part %zu of statement %zu %s: %s became %s", k, i, why.c_str(), str(before[i][k]).c_str(), str(a[k]).c_str());
    }
  }
  c.check(i == before.size(), "%zu statements instead of %zu", i, before.size());
  string once = text(s);
  osl_scop_normalize_scattering(s);
  c.check(text(s) == once, "normalizing twice: %s", differ(once, text(s)).c_str());
  osl_scop_free(s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// order of all pairs of instances of two statements with plain schedules
void order(Ctx& c, int maxout) {
  int prec = c.pick(vector<int>{OSL_PRECISION_MP, OSL_PRECISION_DP}, "precision");
  osl_scop_p s = fresh<osl_scop_t>();
  s->version = 1;
  vector<vector<vector<long>>> f;  // per statement, per output dimension: coefficients of i, N and 1
  osl_statement_p* t = &s->statement;
  for (int k = 0; k < 2; k++) {
    int out = c.choose(maxout + 1, "output dimensions");
    vector<vector<long>> w;
    vector<Row> m;
    for (int d = 0; d < out; d++) {
      int e = c.choose(5, "time");
      static const long T[5][3] = {{0, 0, 0}, {1, 0, 0}, {-1, 1, 0}, {0, 0, 1}, {0, 1, -1}};
      w.push_back({T[e][0], T[e][1], T[e][2]});
      Row r(out + 4, "0");
      r[1 + d] = "-1";
      for (int j = 0; j < 3; j++) r[1 + out + j] = std::to_string(T[e][j]);
      m.push_back(r);
    }
    f.push_back(w);
    *t = fresh<osl_statement_t>();
    (*t)->scattering = build(Rel{part(OSL_TYPE_SCATTERING, out, 1, 0, 1, m, prec)});
    t = &(*t)->next;
  }
  if (!c.state(text(s), 0)) { osl_scop_free(s); return; }
  osl_scop_normalize_scattering(s);
  Rel a = see(s->statement->scattering), b = see(s->statement->next->scattering);
  c.check(a.size() == 1 && b.size() == 1 && a[0].out == b[0].out, "sizes differ after normalization");
  // time stamp read from the normalized relation: the only solution of its rows
  auto stamp = [&](const Part& p, long i, long N) {
    vector<long> ts(p.out, 0);
    vector<bool> seen(p.out, false);
    for (auto& r : p.m) {
      int d = -1;
      for (int j = 0; j < p.out; j++) if (r[1 + j] != "0") { c.check(d < 0, "two outputs in a row"); d = j; }
      c.check(d >= 0 && !seen[d], "a row does not define one output");
      seen[d] = true;
      long v = atol(r[1 + p.out].c_str()) * i + atol(r[2 + p.out].c_str()) * N + atol(r[3 + p.out].c_str());
      ts[d] = -v / atol(r[1 + d].c_str());
    }
    for (bool x : seen) c.check(x, "an output dimension is not defined");
    return ts;
  };
  auto plain = [&](int k, long i, long N) {
    vector<long> ts;
    for (auto& w : f[k]) ts.push_back(w[0] * i + w[1] * N + w[2]);
    return ts;
  };
  auto cmp = [](vector<long> x, vector<long> y) {
    size_t n = std::max(x.size(), y.size());
    x.resize(n, 0);
    y.resize(n, 0);
    return x < y ? -1 : x == y ? 0 : 1;
  };
  for (long N = -1; N <= 2; N++)
    for (long i = -2; i <= 2; i++)
      for (long j = -2; j <= 2; j++) {
        c.step();
        c.check(cmp(stamp(a[0], i, N), stamp(b[0], j, N)) == cmp(plain(0, i, N), plain(1, j, N)), "instances i=%ld and j=%ld, N=%ld, are ordered differently", i, j, N);
      }
  osl_scop_free(s);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// the operation beneath it
void extend(Ctx& c) {
  int prec = PRECS[c.choose(3, "precision")];
  int n = c.choose(3, "parts") + 1, dim = c.choose(5, "dimensions asked for"), mx = 0;
  Rel r;
  for (int k = 0; k < n; k++) {
    int out = c.choose(4, "output dimensions");
    if (k == 2 && out == 2) return;
    r.push_back(scat(c, out, 1, k % 2, 1, (c.choose(2, "kind") * 2 + k) % 5, prec));
    mx = std::max(mx, out);
  }
  if (!c.state(std::to_string(dim) + str(r), 0)) return;
  osl_relation_p x = build(r), y = nullptr;
  mc::Snap sn = mc::snapshot();
  bool died = mc::dies([&] { y = osl_relation_extend_output(x, dim); });
  c.step();
  c.check(died == (mx > dim), "extending %s to %d dimensions: %s", str(r).c_str(), dim, died ? "error" : "no error");
  if (died) { mc::forget(); return; }
  Rel z = see(y);
  c.check(z.size() == r.size(), "%zu parts", z.size());
  for (size_t k = 0; k < z.size(); k++) {
    string why;
    c.check(z[k].out == dim, "%d dimensions instead of %d", z[k].out, dim);
    c.check(same_schedule(c, r[k], z[k], why), "part %zu %s: %s became %s", k, why.c_str(), str(r[k]).c_str(), str(z[k]).c_str());
  }
  osl_relation_free(y);
  c.check(mc::changed(sn).empty(), "the relation changed, or a leak: %s", mc::changed(sn).c_str());
  osl_relation_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// any number of constraints, also more than there are outputs, with every column that can stand behind them
void extend_rows(Ctx& c, int rows_) {
  int prec = PRECS[c.choose(3, "precision")];
  int out = c.choose(4, "output dimensions"), in = c.choose(mc::q(2, 3), "inputs"), loc = c.choose(mc::q(2, 3), "local dimensions"), par = c.choose(mc::q(2, 3), "parameters");
  int rows = c.choose(rows_ + 1, "constraints"), more = c.choose(4, "dimensions to add"), dim = out + more, n = 1 + c.flip("a second part");
  Rel r;
  for (int k = 0; k < n; k++) {
    vector<Row> m;
    int cols = 2 + out + in + loc + par;
    for (int i = 0; i < rows + k; i++) {
      Row w;
      for (int j = 0; j < cols; j++) w.push_back(j == 0 ? std::to_string((i + k) % 2) : std::to_string(1 + j + 20 * i + 7 * k));
      m.push_back(w);
    }
    r.push_back(part(OSL_TYPE_SCATTERING, out, in, loc, par, m, prec));
  }
  if (!c.state(std::to_string(dim) + str(r), 0)) return;
  osl_relation_p x = build(r);
  mc::Snap sn = mc::snapshot();
  osl_relation_p y = osl_relation_extend_output(x, dim);
  c.step();
  Rel z = see(y);
  c.check(z.size() == r.size(), "%zu parts", z.size());
  for (size_t k = 0; k < z.size(); k++) {
    string why;
    c.check(z[k].out == dim, "%d dimensions instead of %d", z[k].out, dim);
    c.check(same_schedule(c, r[k], z[k], why), "part %zu %s: %s became %s", k, why.c_str(), str(r[k]).c_str(), str(z[k]).c_str());
  }
  osl_relation_free(y);
  c.check(mc::changed(sn).empty(), "the relation changed, or a leak: %s", mc::changed(sn).c_str());
  osl_relation_free(x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  mc::add("nothing", "NULL", [](Ctx& c) { c.state("null"); c.step(); osl_scop_normalize_scattering(nullptr); });
  mc::add("schedules", "one statement, unions of up to 2 parts with up to " + std::to_string(mc::q(2, 3)) + " outputs, 5 kinds of constraints, local dimensions", [](Ctx& c) { normal(c, 1, mc::q(2, 3), 2, true, PRECS[c.choose(3, "precision")]); });
  mc::add("statements", "up to 3 statements, unions of up to " + std::to_string(mc::q(1, 2)) + " parts with up to 3 outputs", [](Ctx& c) { normal(c, 3, 3, mc::q(1, 2), false, OSL_PRECISION_MP); });
  mc::add("unions", "up to 2 statements, unions of up to " + std::to_string(mc::q(2, 3)) + " parts with up to " + std::to_string(mc::q(2, 3)) + " outputs", [](Ctx& c) { normal(c, 2, mc::q(2, 3), mc::q(2, 3), false, OSL_PRECISION_DP); });
  mc::add("order", "two statements, all schedules of up to " + std::to_string(mc::q(2, 3)) + " dimensions over 5 time functions, all pairs of instances in a box", [](Ctx& c) { order(c, mc::q(2, 3)); });
  mc::add("extension", "unions of up to 3 parts, up to 3 outputs, asked for up to 4", extend);
  mc::add("extension of any relation", "up to " + std::to_string(mc::q(5, 7)) + " constraints, up to 3 outputs, " + std::to_string(mc::q(1, 2)) + " of inputs, local dimensions and parameters each, up to 3 dimensions more", [](Ctx& c) { extend_rows(c, mc::q(5, 7)); });
}
