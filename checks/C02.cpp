// C02: fixed-precision overflow is an error, never a wrong number.
#include "intops.hpp"
#include "io.hpp"
using namespace io;

mc::Property property() {
  return {"C02",
          "every operation is run in each precision and aliasing on every operand pair of the boundary set: when the exact "
          "result does not fit, the process must end in an error, otherwise the exact value must be stored; every ordered pair "
          "of precisions is run on every boundary value for integers, relations and pairs of relations",
          {"long and long long are 64 bits wide (LP64)"}};
}
namespace {
// expects f to die exactly when !fits
bool judge(Ctx& c, bool fits, const char* what, const string& v, int p, const std::function<void()>& f) {
  bool d = mc::dies(f);
  c.step();
  c.state(string(what) + pname(p) + v);
  c.check(d == !fits, fits ? "%s %s(%s): error although the value fits" : "%s %s(%s): no error although the value does not fit", pname(p), what, v.c_str());
  c.outcome(string(what) + (d ? " error" : " ok"));
  return !d;
}
void ints_(Ctx& c) {
  int p = PRECS[c.choose(3, "from")], n = PRECS[c.choose(3, "to")];
  static vector<string> vals = values(true, true);
  const string& s = c.pick(vals, "value");
  Z z(s);
  if (!z.fits(p)) return;
  osl_int_t v;
  mk(p, &v, s);
  c.note("%s -> %s value %s", pname(p), pname(n), s.c_str());
  if (!judge(c, z.fits(n), "set_precision", s, p, [&] { osl_int_set_precision(p, n, &v); })) return;
  c.check(get(n, v) == s, "set_precision %s -> %s changes %s into %s", pname(p), pname(n), s.c_str(), get(n, v).c_str());
  osl_int_clear(n, &v);
  c.check(mc::live() == 0, "set_precision leaks %s", mc::live_desc().c_str());
}
void rels(Ctx& c) {
  int p = PRECS[c.choose(3, "from")], n = PRECS[c.choose(3, "to")];
  static vector<string> vals = values(true, false);
  const string& s = c.pick(vals, "value");
  int parts = 1 + c.choose(2, "parts"), where = c.choose(4, "cell");
  Z z(s);
  if (!z.fits(p)) return;
  Rel u;
  for (int k = 0; k < parts; k++) u.push_back(part(OSL_TYPE_DOMAIN, 1, 0, 0, 0, {{"1", "2", "-7"}, {"0", "3", std::to_string(4 + k)}}, p));
  u.back().m[where / 2][1 + where % 2] = s;
  osl_relation_p r = build(u);
  if (!judge(c, z.fits(n), "relation_set_precision", s, p, [&] { osl_relation_set_precision(n, r); })) return;
  for (auto& q : u) q.prec = n;
  c.check(see(r) == u, "relation precision %s -> %s: expected %s got %s", pname(p), pname(n), str(u).c_str(), text(r).c_str());
  osl_relation_free(r);
  c.check(mc::live() == 0, "leak %s", mc::live_desc().c_str());
}
// unions whose parts have different precisions: every part is converted, wherever it stands
void unions(Ctx& c, int most) {
  int n = PRECS[c.choose(3, "to")], parts = 1 + c.choose(most, "parts"), at = c.choose(parts, "part with the value");
  static vector<string> vals = {"0", "-5", "2147483648", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "123456789012345678901234567890"};
  const string& s = c.pick(vals, "value");
  Z z(s);
  Rel u;
  for (int k = 0; k < parts; k++) {
    int p = PRECS[c.choose(3, "precision")], rows = c.choose(3, "rows");
    if (k == at && (!rows || !z.fits(p))) return;
    vector<Row> m;
    for (int i = 0; i < rows; i++) m.push_back({"1", std::to_string(k), k == at && i == rows - 1 ? s : std::to_string(-i)});
    u.push_back(part(OSL_TYPE_DOMAIN, 1, 0, 0, 0, m, p));
  }
  osl_relation_p r = build(u);
  if (!judge(c, z.fits(n), "relation_set_precision", s + str(u), u[at].prec, [&] { osl_relation_set_precision(n, r); })) return;
  for (auto& q : u) q.prec = n;
  c.check(see(r) == u, "union to %s: expected %s got %s", pname(n), str(u).c_str(), text(r).c_str());
  osl_relation_free(r);
  c.check(mc::live() == 0, "leak %s", mc::live_desc().c_str());
}
// the precision of two unions, decided by their first parts, is given to every part of both
void union_pairs(Ctx& c) {
  static vector<string> vals = {"-3", "2147483648", "9223372036854775807", "9223372036854775808"};
  Rel u[2];
  bool fits = true;
  for (auto& x : u) {
    int parts = 1 + c.choose(3, "parts"), p = PRECS[c.choose(3, "precision")];
    const string& s = c.pick(vals, "last value");
    if (!Z(s).fits(p)) return;
    for (int k = 0; k < parts; k++) x.push_back(part(OSL_TYPE_SCATTERING, 1, 0, 0, 0, {{"0", std::to_string(k), k == parts - 1 ? s : "1"}}, p));
  }
  int p = u[0][0].prec, n = u[1][0].prec;
  int best = p == OSL_PRECISION_MP || n == OSL_PRECISION_MP ? OSL_PRECISION_MP : p == OSL_PRECISION_DP || n == OSL_PRECISION_DP ? OSL_PRECISION_DP : OSL_PRECISION_SP;
  for (auto& x : u) fits = fits && Z(x.back().m[0][2]).fits(best);
  osl_relation_p a = build(u[0]), b = build(u[1]);
  if (!judge(c, fits, "set_same_precision", str(u[0]) + str(u[1]), p, [&] { osl_relation_set_same_precision(a, b); })) return;
  for (auto& x : u) for (auto& q : x) q.prec = best;
  c.check(see(a) == u[0] && see(b) == u[1], "set_same_precision: %s and %s", text(a).c_str(), text(b).c_str());
  osl_relation_free(a);
  osl_relation_free(b);
  c.check(mc::live() == 0, "leak %s", mc::live_desc().c_str());
}
void pairs(Ctx& c) {
  int p = PRECS[c.choose(3, "a")], n = PRECS[c.choose(3, "b")];
  static vector<string> vals = values(true, false);
  const string &s = c.pick(vals, "value a"), &t = c.pick(vals, "value b");
  bool two = c.flip("union");
  Z z(s), y(t);
  if (!z.fits(p) || !y.fits(n)) return;
  Rel a = {part(OSL_TYPE_DOMAIN, 1, 0, 0, 0, {{"1", s, "-7"}}, p)}, b = {part(OSL_TYPE_DOMAIN, 1, 0, 0, 0, {{"0", "9", t}}, n)};
  if (two) a.push_back(part(OSL_TYPE_DOMAIN, 1, 0, 0, 0, {{"0", "1", s}}, p));
  osl_relation_p ra = build(a), rb = build(b);
  int best = p == OSL_PRECISION_MP || n == OSL_PRECISION_MP ? OSL_PRECISION_MP : p == OSL_PRECISION_DP || n == OSL_PRECISION_DP ? OSL_PRECISION_DP : OSL_PRECISION_SP;
  if (!judge(c, z.fits(best) && y.fits(best), "set_same_precision", s, p, [&] { osl_relation_set_same_precision(ra, rb); })) return;
  for (auto& q : a) q.prec = best;
  for (auto& q : b) q.prec = best;
  c.check(see(ra) == a && see(rb) == b, "set_same_precision %s %s: %s %s", pname(p), pname(n), text(ra).c_str(), text(rb).c_str());
  osl_relation_set_same_precision(ra, nullptr);
  osl_relation_set_same_precision(nullptr, rb);
  c.check(see(ra) == a && see(rb) == b, "set_same_precision with NULL changed a relation");
  osl_relation_free(ra); osl_relation_free(rb);
  c.check(mc::live() == 0, "leak %s", mc::live_desc().c_str());
}
void conv(Ctx& c) {
  int p = PRECS[c.choose(3, "precision")];
  static vector<string> vals = values(true, true);
  const string& s = c.pick(vals, "value");
  Z z(s);
  bool si = mpz_fits_sint_p(z.z), sl = mpz_fits_slong_p(z.z);
  int op = c.choose(4, "conversion");
  osl_int_t v;
  if (op < 3) {
    if (!z.fits(p)) return;
    mk(p, &v, s);
    long got = 0;
    const char* n = op == 0 ? "get_si" : op == 1 ? "get_long" : "get_long_long";
    if (!judge(c, op == 0 ? si : sl, n, s, p, [&] { got = op == 0 ? osl_int_get_si(p, v) : op == 1 ? osl_int_get_long(p, v) : osl_int_get_long_long(p, v); })) return;
    c.check(std::to_string(got) == s, "%s %s(%s) = %ld", pname(p), n, s.c_str(), got);
  } else {
    osl_int_init(p, &v);
    put(p, &v, "4");
    if (!judge(c, z.fits(p), "sscanf", s, p, [&] { md::Text in(s); osl_int_sscanf(in.base, p, &v); })) return;
    c.check(get(p, v) == s, "%s sscanf(%s) stores %s", pname(p), s.c_str(), get(p, v).c_str());
  }
  osl_int_clear(p, &v);
}
void vectors(Ctx& c) {  // the guards hold through the vector and relation entry points
  int p = PRECS[c.choose(3, "precision")];
  static vector<string> vals = values(false, false);
  const string &s = c.pick(vals, "value"), &t = c.pick(vals, "other");
  int op = c.choose(6, "operation");
  Z a(s), b(t), r, d;
  static const char* names[] = {"vector_add", "vector_sub", "vector_add_scalar", "vector_mul_scalar", "relation_add_vector", "relation_sub_vector"};
  if ((op == 2 || op == 3) && !mpz_fits_sint_p(b.z)) return;
  exact(op == 0 || op == 2 || op == 4 ? ADD : op == 3 ? MUL : SUB, a, b, r, d);
  osl_vector_p x = build_vec(p, {"0", s}), y = build_vec(p, {"0", t}), z = nullptr;
  Rel u = {part(OSL_TYPE_DOMAIN, 0, 0, 0, 0, {{"0", s}}, p)};
  osl_relation_p rel = build(u);
  int k = op == 2 || op == 3 ? atoi(t.c_str()) : 0;
  bool ok = judge(c, r.fits(p), names[op], s + "," + t, p, [&] {
    switch (op) {
      case 0: z = osl_vector_add(x, y); break;
      case 1: z = osl_vector_sub(x, y); break;
      case 2: z = osl_vector_add_scalar(x, k); break;
      case 3: z = osl_vector_mul_scalar(x, k); break;
      case 4: osl_relation_add_vector(rel, y, 0); break;
      case 5: osl_relation_sub_vector(rel, y, 0); break;
    }
  });
  if (!ok) return;
  string got = z ? get(p, z->v[1]) : get(p, rel->m[0][1]);
  c.check(got == r.str(), "%s %s(%s, %s) = %s, exact %s", pname(p), names[op], s.c_str(), t.c_str(), got.c_str(), r.str().c_str());
  osl_vector_free(x); osl_vector_free(y); osl_vector_free(z); osl_relation_free(rel);
}
}  // namespace
void setup() {
  arithmetic("overflow-boundary", true, true, true);
  power_arithmetic("overflow-every-width", true, true);
  mc::add("int-precision", "all ordered precision pairs x boundary values", ints_);
  mc::add("relation-precision", "all ordered precision pairs x boundary values x cell x 1-2 union parts", rels);
  mc::add("union-precision", "all unions of 1.." + std::to_string(mc::q(3, 4)) + " parts of any precision and 0..2 rows x target x value x place", [](Ctx& c) { unions(c, mc::q(3, 4)); });
  mc::add("union-same-precision", "all pairs of unions of 1..3 parts x precisions x values in the last part", union_pairs);
  mc::add("same-precision", "all ordered precision pairs x pairs of boundary values x 1-2 union parts", pairs);
  mc::add("conversions", "all conversions to C integers and from text x boundary values", conv);
  mc::add("vector-and-relation", "element-wise operations of vectors and relations x pairs of boundary values", vectors);
}
