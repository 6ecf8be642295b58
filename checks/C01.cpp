// C01: integer operations are exact in every precision.
#include "intops.hpp"
#include "io.hpp"
using namespace io;

mc::Property property() {
  return {"C01",
          "every operation is run on the real osl_int in each precision, with every aliasing of destination and operands, "
          "on every operand pair of the bounded value sets, and compared with exact arbitrary-precision arithmetic; "
          "sequences of operations on a small store are explored against an exact store",
          {"division by zero is outside the property (no exact result exists)",
           "size in base 10 may exceed the digit count by one in multiple precision (documented by the library)"}};
}
namespace {
int sgn(long v) { return (v > 0) - (v < 0); }
void predicates(Ctx& c, int prec, const string& sa, const string& sb) {
  Z a(sa), b(sb);
  osl_int_t va, vb;
  mk(prec, &va, sa); mk(prec, &vb, sb);
  int k = sgn(mpz_cmp(a.z, b.z));
  auto ck = [&](const char* n, int got, bool want) {
    c.step();
    c.check(!!got == want, "%s %s(%s, %s) = %d", pname(prec), n, sa.c_str(), sb.c_str(), got);
  };
  ck("eq", osl_int_eq(prec, va, vb), k == 0);
  ck("ne", osl_int_ne(prec, va, vb), k != 0);
  ck("lt", osl_int_lt(prec, va, vb), k < 0);
  ck("le", osl_int_le(prec, va, vb), k <= 0);
  ck("gt", osl_int_gt(prec, va, vb), k > 0);
  ck("ge", osl_int_ge(prec, va, vb), k >= 0);
  int s = mpz_sgn(a.z);
  ck("pos", osl_int_pos(prec, va), s > 0);
  ck("neg", osl_int_neg(prec, va), s < 0);
  ck("zero", osl_int_zero(prec, va), s == 0);
  ck("one", osl_int_one(prec, va), mpz_cmp_si(a.z, 1) == 0);
  ck("mone", osl_int_mone(prec, va), mpz_cmp_si(a.z, -1) == 0);
  if (mpz_sgn(b.z)) ck("divisible", osl_int_divisible(prec, va, vb), mpz_divisible_p(a.z, b.z));
  size_t s2 = osl_int_size_in_base_2(prec, va);
  c.check(s2 == mpz_sizeinbase(a.z, 2), "%s size_in_base_2(%s) = %zu", pname(prec), sa.c_str(), s2);
  size_t digits = sa.size() - (s < 0), s10 = osl_int_size_in_base_10(prec, va);
  if (s) c.check(s10 == digits || (prec == OSL_PRECISION_MP && s10 == digits + 1), "%s size_in_base_10(%s) = %zu", pname(prec), sa.c_str(), s10);
  osl_int_swap(prec, &va, &vb);
  c.check(get(prec, va) == sb && get(prec, vb) == sa, "%s swap(%s, %s) gives %s, %s", pname(prec), sa.c_str(), sb.c_str(), get(prec, va).c_str(), get(prec, vb).c_str());
  osl_int_swap(prec, &va, &va);
  c.check(get(prec, va) == sb, "%s swap with itself changed %s to %s", pname(prec), sb.c_str(), get(prec, va).c_str());
  c.outcome(string("cmp ") + std::to_string(k) + " s" + std::to_string(s) + " b2 " + std::to_string(s2));
  osl_int_clear(prec, &va); osl_int_clear(prec, &vb);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void predicates(Ctx& c, int prec, const vector<string>& v, bool all) {
  const string& a = c.pick(v, "a");
  if (all) for (auto& b : v) predicates(c, prec, a, b);
  else predicates(c, prec, a, c.pick(v, "b"));
}
void predicates(Ctx& c) {
  int prec = PRECS[c.choose(3, "precision")];
  static vector<string> wv = values(true, true), nv = values(false, true);
  predicates(c, prec, prec == OSL_PRECISION_MP ? wv : nv, false);
}
void conversions(Ctx& c, int prec, const vector<string>& v) {
  const string& sa = c.pick(v, "a");
  Z a(sa);
  c.step();
  auto same = [&](const char* n, const osl_int_t& x) {
    c.check(get(prec, x) == sa, "%s %s(%s) gives %s", pname(prec), n, sa.c_str(), get(prec, x).c_str());
  };
  osl_int_t va;
  mk(prec, &va, sa);
  if (mpz_fits_sint_p(a.z)) {
    int i = (int)mpz_get_si(a.z);
    c.check(osl_int_get_si(prec, va) == i, "%s get_si(%s)", pname(prec), sa.c_str());
    osl_int_t x;
    osl_int_init(prec, &x); osl_int_set_si(prec, &x, i); same("set_si", x); osl_int_clear(prec, &x);
    osl_int_init_set_si(prec, &x, i); same("init_set_si", x); osl_int_clear(prec, &x);
  }
  if (mpz_fits_slong_p(a.z)) {
    long l = mpz_get_si(a.z);
    c.check(osl_int_get_long(prec, va) == l, "%s get_long(%s)", pname(prec), sa.c_str());
    c.check(osl_int_get_long_long(prec, va) == l, "%s get_long_long(%s)", pname(prec), sa.c_str());
    osl_int_t x;
    osl_int_init(prec, &x); osl_int_set_long(prec, &x, l); same("set_long", x); osl_int_clear(prec, &x);
    osl_int_init(prec, &x); osl_int_set_long_long(prec, &x, l); same("set_long_long", x); osl_int_clear(prec, &x);
    osl_int_init_set_long(prec, &x, l); same("init_set_long", x); osl_int_clear(prec, &x);
    osl_int_init_set_long_long(prec, &x, l); same("init_set_long_long", x); osl_int_clear(prec, &x);
  }
  double d = osl_int_get_d(prec, va);
  if (mpz_sizeinbase(a.z, 2) <= 53) c.check(d == mpz_get_d(a.z), "%s get_d(%s) = %g", pname(prec), sa.c_str(), d);
  Z dz, err;  // larger ones: within one unit of the 53rd bit
  mpz_set_d(dz.z, d);
  mpz_sub(err.z, dz.z, a.z);
  mpz_mul_2exp(err.z, err.z, 52);
  c.check(mpz_cmpabs(err.z, a.z) <= 0, "%s get_d(%s) = %g", pname(prec), sa.c_str(), d);
  osl_int_t* h = osl_int_malloc(prec);
  c.check(get(prec, *h) == "0", "%s malloc gives %s", pname(prec), get(prec, *h).c_str());
  osl_int_assign(prec, h, va);
  same("assign to heap integer", *h);
  osl_int_free(prec, h);
  // text
  char b1[OSL_MAX_STRING], b2[OSL_MAX_STRING];
  osl_int_sprint(b1, prec, va);
  osl_int_sprint_txt(b2, prec, va);
  c.check(sa == b2, "%s sprint_txt(%s) = '%s'", pname(prec), sa.c_str(), b2);
  string padded = sa.size() < 4 ? string(4 - sa.size(), ' ') + sa : sa;
  string trimmed = b1;
  trimmed.erase(0, trimmed.find_first_not_of(' '));
  c.check(trimmed == sa, "%s sprint(%s) = '%s'", pname(prec), sa.c_str(), b1);
  char* mem = nullptr; size_t msz = 0;
  FILE* f = open_memstream(&mem, &msz);
  osl_int_print(f, prec, va);
  fclose(f);
  c.check(string(mem) == b1, "%s print(%s) = '%s'", pname(prec), sa.c_str(), mem);
  free(mem);
  // reading back, with leading blanks and something behind
  static const char* lead[] = {"", " ", "   ", "\t"};
  static const char* tail[] = {"", " ", " 42", "\n7 8", "\t#x"};
  string in = string(lead[c.choose(4, "leading")]) + sa + tail[c.choose(5, "trailing")];
  size_t end = in.find(sa) + sa.size();
  osl_int_t x;
  osl_int_init(prec, &x);
  md::Text t(in);
  osl_int_sscanf(t.base, prec, &x);
  same("sscanf", x);
  put(prec, &x, "5");
  char* p = &in[0];
  osl_int_sread(&p, prec, &x);
  same("sread", x);
  c.check(p == &in[0] + end, "%s sread('%s') leaves the position at '%s'", pname(prec), in.c_str(), p);
  osl_int_clear(prec, &x);
  c.outcome(sa);
  osl_int_clear(prec, &va);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void conversions(Ctx& c) {
  int prec = PRECS[c.choose(3, "precision")];
  static vector<string> wv = values(true, true), nv = values(false, true);
  conversions(c, prec, prec == OSL_PRECISION_MP ? wv : nv);
}
void sequences(Ctx& c) {  // a store of three integers, all operation sequences
  int prec = PRECS[c.choose(3, "precision")];
  osl_int_t s[3];
  vector<Z> m = {Z(0L), Z(1L), Z(-3L)};
  for (int i = 0; i < 3; i++) mk(prec, &s[i], m[i].str());
  int depth = mc::q(2, 3);
  for (int k = 0; k < depth; k++) {
    string canon = pname(prec);
    for (auto& z : m) canon += " " + z.str();
    if (!c.state(canon, depth - k)) break;
    int op = c.choose(NOPS - 1, "op");
    if (op >= INITSET) op++;
    bool un = op >= BIN_END && op < UN_END, si = op >= UN_END;
    int d = c.choose(3, "dest"), a = c.choose(3, "a"), b = un ? a : si ? 0 : c.choose(3, "b");
    int bi = si ? c.pick(vector<int>{-3, 4}, "i") : 0;
    Z r, r2;
    if (!exact(op, m[a], si ? Z((long)bi) : m[b], r, r2)) continue;
    if (!r.fits(prec) || (op == FDQR && !r2.fits(prec))) continue;
    int d2 = (d + 1) % 3;
    c.step();
    if (c.tracing()) c.note("%s s%d = s%d, s%d/%d", opname(op), d, a, b, bi);
    apply(prec, op, &s[d], &s[d2], s[a], s[b], bi);
    m[d] = r;
    if (op == FDQR) m[d2] = r2;
    for (int i = 0; i < 3; i++)
      c.check(get(prec, s[i]) == m[i].str(), "%s after %s: variable %d is %s, exact %s", pname(prec), opname(op), i, get(prec, s[i]).c_str(), m[i].str().c_str());
  }
  string fin;
  for (auto& z : m) fin += " " + z.str();
  c.outcome(fin);
  for (auto& x : s) osl_int_clear(prec, &x);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void meta(Ctx& c) {
  int p = c.choose(140, "precision") - 5;
  c.step();
  bool want = p == 32 || p == 64 || p == 0;
  c.check(!!osl_int_is_precision_supported(p) == want, "is_precision_supported(%d)", p);
  if (!want) {
    osl_int_t x, y;
    x.dp = 3; y.dp = 4;
    c.check(mc::dies([&] { osl_int_add(p, &x, x, y); }), "add in unknown precision %d accepted", p);
    c.check(mc::dies([&] { osl_int_init(p, &x); }), "init in unknown precision %d accepted", p);
  }
  c.outcome(want ? "yes" : "no");
}
}  // namespace
void setup() {
  arithmetic("boundary-operands", true, true, false);
  mc::add("small-operands", "all operations x precisions x aliasing x all pairs in [-12,12]", [](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    int op = c.choose(NOPS, "operation");
    int alias = c.pick(aliases(op), "aliasing");
    int a = c.choose(25, "a") - 12;
    for (int b = -12; b <= 12; b++) {
      if ((alias == 7 || alias == 8) && a != b) continue;
      one(c, prec, op, std::to_string(a), std::to_string(b), alias, true, false);
    }
  });
  mc::add("predicates", "all comparisons and predicates x precisions x operand pairs from the boundary set", [](Ctx& c) { predicates(c); });
  mc::add("conversions-and-text", "all conversions and text forms x precisions x boundary values x surrounding text", [](Ctx& c) { conversions(c); });
  power_arithmetic("every-width", true, false);
  mc::add("predicates-every-width", "all comparisons and predicates x precisions x pairs of +-2^k+d and +-10^k+d, |d| <= " + std::to_string(mc::q(1, 2)), [](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    static vector<string> v[2] = {powers(false, 66, mc::q(1, 2), true), powers(true, 130, mc::q(0, 1), true)};
    predicates(c, prec, v[prec == OSL_PRECISION_MP], true);
  });
  mc::add("conversions-every-width", "all conversions and text forms x precisions x +-2^k+d and +-10^k+d, |d| <= 2 x surrounding text", [](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    static vector<string> v[2] = {powers(false, 66, 2, true), powers(true, 200, 2, true)};
    conversions(c, prec, v[prec == OSL_PRECISION_MP]);
  });
  mc::add("sequences", "all operation sequences of depth 2 (thorough 3) on a store of three integers", sequences);
  mc::add("precisions", "all precision codes in [-5,134]", meta);
}
