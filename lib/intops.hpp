// Integer operations of int.h against exact (GMP, harness side) arithmetic.
#pragma once
#include <climits>
#include <unistd.h>

#include "model.hpp"

namespace io {
using namespace md;
using mc::Ctx;

struct Z {  // value-semantics mpz
  mpz_t z;
  Z() { mc::Own o; mpz_init2(z, 640); }
  Z(long v) : Z() { mpz_set_si(z, v); }
  Z(const string& s) : Z() { mpz_set_str(z, s.c_str(), 10); }
  Z(const Z& o) : Z() { mpz_set(z, o.z); }
  Z& operator=(const Z& o) { mpz_set(z, o.z); return *this; }
  ~Z() { mpz_clear(z); }
  string str() const {
    char* p = mpz_get_str(nullptr, 10, z);
    string s = p;
    void (*fr)(void*, size_t);
    mp_get_memory_functions(nullptr, nullptr, &fr);
    fr(p, s.size() + 1);
    return s;
  }
  bool fits(int prec) const { return prec == OSL_PRECISION_MP || mpz_fits_slong_p(z); }
};
static_assert(sizeof(long) == 8 && sizeof(long long) == 8, "LP64 expected");

inline vector<string> small_values() {
  vector<string> v;
  for (int i = 0; i <= 12; i++) { v.push_back(std::to_string(i)); if (i) v.push_back(std::to_string(-i)); }
  return v;
}
// boundary values: around 0, the int range, the square root of the 64-bit range, powers of ten, the 64-bit range
inline vector<string> values(bool wide, bool many) {
  std::set<string> s;
  vector<string> out;
  auto add = [&](const Z& z) { if (s.insert(z.str()).second) out.push_back(z.str()); };
  auto around = [&](const string& c, int d) {
    for (int k = -d; k <= d; k++) { Z x(c); Z y((long)k); mpz_add(x.z, x.z, y.z); if (wide || x.fits(OSL_PRECISION_SP)) { add(x); mpz_neg(x.z, x.z); if (wide || x.fits(OSL_PRECISION_SP)) add(x); } }
  };
  around("0", many ? 13 : 4);
  for (const char* p : {"6", "10", "12"}) around(p, 0);
  around("9223372036854775807", 2);
  around("9223372036854775808", 0);
  around("4611686018427387904", 1);
  around("3037000500", 1);
  around("2147483648", 1);
  around("4294967296", 1);
  if (many) {
    for (const char* p : {"100", "99", "1000000007", "999999999999999999", "1000000000000000000", "3074457345618258603",
                          "1844674407370955161", "2305843009213693951", "6148914691236517205", "65536", "255"}) around(p, 1);
  }
  if (wide) {
    around("18446744073709551616", 1);
    around("340282366920938463463374607431768211456", 1);
    around("1000000000000000000000000000000", 0);
  }
  return out;
}

// every +-2^k+d and +-10^k+d
inline vector<string> powers(bool wide, int bits, int d, bool tens) {
  std::set<string> s;
  vector<string> out;
  auto add = [&](const Z& z) { if ((wide || z.fits(OSL_PRECISION_SP)) && s.insert(z.str()).second) out.push_back(z.str()); };
  for (int base : {2, 10}) {
    if (base == 10 && !tens) continue;
    int top = base == 2 ? bits : bits * 3 / 10;
    for (int k = 0; k <= top; k++)
      for (int e = -d; e <= d; e++) {
        Z x, y((long)e);
        mpz_ui_pow_ui(x.z, base, k);
        mpz_add(x.z, x.z, y.z);
        add(x);
        mpz_neg(x.z, x.z);
        add(x);
      }
  }
  return out;
}

enum Op { ADD, SUB, MUL, DIVX, FDQ, FDR, FDQR, MOD, GCD, LCM, BIN_END,       // binary, destination
          NEG = BIN_END, ABS, INC, DEC, ASSIGN, INITSET, UN_END,           // unary, destination
          ADDSI = UN_END, MULSI, SI_END,                                   // value and C int
          NOPS = SI_END };
inline const char* opname(int o) {
  static const char* n[] = {"add", "sub", "mul", "div_exact", "floor_div_q", "floor_div_r", "floor_div_q_r", "mod", "gcd", "lcm",
                            "oppose", "abs", "increment", "decrement", "assign", "init_set", "add_si", "mul_si"};
  return n[o];
}
// exact result(s); false when the operation is not defined on these operands
inline bool exact(int op, const Z& a, const Z& b, Z& r, Z& r2) {
  switch (op) {
    case ADD: case ADDSI: mpz_add(r.z, a.z, b.z); return true;
    case SUB: mpz_sub(r.z, a.z, b.z); return true;
    case MUL: case MULSI: mpz_mul(r.z, a.z, b.z); return true;
    case DIVX: if (!mpz_sgn(b.z) || !mpz_divisible_p(a.z, b.z)) return false; mpz_divexact(r.z, a.z, b.z); return true;
    case FDQ: if (!mpz_sgn(b.z)) return false; mpz_fdiv_q(r.z, a.z, b.z); return true;
    case FDR: if (!mpz_sgn(b.z)) return false; mpz_fdiv_r(r.z, a.z, b.z); return true;
    case FDQR: if (!mpz_sgn(b.z)) return false; mpz_fdiv_qr(r.z, r2.z, a.z, b.z); return true;
    case MOD: if (!mpz_sgn(b.z)) return false; mpz_mod(r.z, a.z, b.z); return true;
    case GCD: mpz_gcd(r.z, a.z, b.z); return true;
    case LCM: mpz_lcm(r.z, a.z, b.z); return true;
    case NEG: mpz_neg(r.z, a.z); return true;
    case ABS: mpz_abs(r.z, a.z); return true;
    case INC: mpz_add_ui(r.z, a.z, 1); return true;
    case DEC: mpz_sub_ui(r.z, a.z, 1); return true;
    case ASSIGN: case INITSET: r = a; return true;
  }
  return false;
}
inline void mk(int prec, osl_int_t* v, const string& s) { osl_int_init(prec, v); put(prec, v, s); }

// runs the operation in the library; d: destination, d2 second one
inline void apply(int prec, int op, osl_int_t* d, osl_int_t* d2, const osl_int_t& a, const osl_int_t& b, int bi) {
  switch (op) {
    case ADD: osl_int_add(prec, d, a, b); break;
    case SUB: osl_int_sub(prec, d, a, b); break;
    case MUL: osl_int_mul(prec, d, a, b); break;
    case DIVX: osl_int_div_exact(prec, d, a, b); break;
    case FDQ: osl_int_floor_div_q(prec, d, a, b); break;
    case FDR: osl_int_floor_div_r(prec, d, a, b); break;
    case FDQR: osl_int_floor_div_q_r(prec, d, d2, a, b); break;
    case MOD: osl_int_mod(prec, d, a, b); break;
    case GCD: osl_int_gcd(prec, d, a, b); break;
    case LCM: osl_int_lcm(prec, d, a, b); break;
    case NEG: osl_int_oppose(prec, d, a); break;
    case ABS: osl_int_abs(prec, d, a); break;
    case INC: osl_int_increment(prec, d, a); break;
    case DEC: osl_int_decrement(prec, d, a); break;
    case ASSIGN: osl_int_assign(prec, d, a); break;
    case INITSET: osl_int_clear(prec, d); osl_int_init_set(prec, d, a); break;
    case ADDSI: osl_int_add_si(prec, d, a, bi); break;
    case MULSI: osl_int_mul_si(prec, d, a, bi); break;
  }
}
// One case. fit: run representable cases; nofit: run the others (expecting an error)
inline void one(Ctx& c, int prec, int op, const string& sa, const string& sb, int alias, bool fit, bool nofit, bool coarse = false) {
  Z a(sa), b(sb), r, r2;
  if (!a.fits(prec) || !b.fits(prec)) return;
  bool si = op == ADDSI || op == MULSI;
  if (si && !mpz_fits_sint_p(b.z)) return;
  if (!exact(op, a, b, r, r2)) return;
  bool ok = r.fits(prec) && (op != FDQR || r2.fits(prec));
  if (ok ? !fit : !nofit) return;
  osl_int_t va, vb, d, d2;
  mk(prec, &va, sa); mk(prec, &vb, sb); mk(prec, &d, "77"); mk(prec, &d2, "78");
  // alias: 0 fresh, 1 dest is first operand, 2 dest is second, 3 (q_r) r is first, 4 r is second, 5 q=first r=second, 6 q=second r=first,
  // 7 both operands the same object (a==b), dest fresh, 8 all the same
  osl_int_t *pd = &d, *pd2 = &d2;
  bool bin = op < BIN_END;
  if (alias == 1 || alias == 5 || alias == 8) pd = &va;
  if (alias == 2 || alias == 6) pd = &vb;
  if (alias == 3 || alias == 6) pd2 = &va;
  if (alias == 4 || alias == 5) pd2 = &vb;
  if (op == INITSET) pd = &d;
  const osl_int_t& ob = (alias == 7 || alias == 8) && bin ? va : vb;
  int bi = si ? atoi(sb.c_str()) : 0;
  c.step();
  if (c.tracing()) c.note("%s %s(%s, %s) alias=%d exact=%s", pname(prec), opname(op), sa.c_str(), sb.c_str(), alias, r.str().c_str());
  bool died = mc::dies([&] { apply(prec, op, pd, pd2, va, ob, bi); });
  if (died) {
    c.check(!ok, "%s %s(%s, %s) alias %d: error although the exact result %s fits", pname(prec), opname(op), sa.c_str(), sb.c_str(), alias, r.str().c_str());
    c.outcome("overflow error");
    return;
  }
  string got = get(prec, *pd);
  c.check(ok, "%s %s(%s, %s) alias %d: exact result %s does not fit but %s was returned without an error", pname(prec), opname(op), sa.c_str(), sb.c_str(), alias, r.str().c_str(), got.c_str());
  c.check(got == r.str(), "%s %s(%s, %s) alias %d = %s, exact %s", pname(prec), opname(op), sa.c_str(), sb.c_str(), alias, got.c_str(), r.str().c_str());
  if (op == FDQR) {
    string g2 = get(prec, *pd2);
    c.check(g2 == r2.str(), "%s %s(%s, %s) alias %d remainder = %s, exact %s", pname(prec), opname(op), sa.c_str(), sb.c_str(), alias, g2.c_str(), r2.str().c_str());
  }
  if (pd != &va && (op != FDQR || pd2 != &va)) c.check(get(prec, va) == sa, "%s %s modified its first operand", pname(prec), opname(op));
  if (pd != &vb && (op != FDQR || pd2 != &vb)) c.check(get(prec, vb) == sb, "%s %s modified its second operand", pname(prec), opname(op));
  c.outcome(string(opname(op)) + " " + (coarse ? std::to_string(mpz_sizeinbase(r.z, 2)) + (mpz_sgn(r.z) < 0 ? " bits, negative" : " bits") : r.str()));
  osl_int_clear(prec, &va); osl_int_clear(prec, &vb); osl_int_clear(prec, &d); osl_int_clear(prec, &d2);
  c.check(mc::live() == 0, "%s %s leaks: %s", pname(prec), opname(op), mc::live_desc().c_str());
}
inline vector<int> aliases(int op) {
  if (op == FDQR) return {0, 1, 2, 3, 4, 5, 6, 7};
  if (op < BIN_END) return {0, 1, 2, 7, 8};
  if (op == INITSET) return {0};
  return {0, 1};
}
inline void arithmetic(const char* name, bool wide, bool fit, bool nofit) {
  mc::add(name, "all operations x precisions x aliasing patterns x operand pairs from the boundary set", [=](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    static vector<string> wv = values(true, true), nv = values(false, true);
    const vector<string>& v = prec == OSL_PRECISION_MP && wide ? wv : nv;
    int op = c.choose(NOPS, "operation");
    int alias = c.pick(aliases(op), "aliasing");
    const string& a = c.pick(v, "a");
    bool un = op >= BIN_END && op < UN_END;
    if (alias == 7 || alias == 8) { one(c, prec, op, a, a, alias, fit, nofit); return; }
    if (op == ADDSI || op == MULSI) {
      static const vector<string> si = {"0", "1", "-1", "2", "-2", "3", "-7", "1000", "2147483647", "-2147483647", "-2147483648"};
      one(c, prec, op, a, c.pick(si, "i"), alias, fit, nofit);
      return;
    }
    one(c, prec, op, a, un ? string("5") : c.pick(v, "b"), alias, fit, nofit);
  });
}
// the same over all numbers next to a power of two or ten: every width of number
inline void power_arithmetic(const char* name, bool fit, bool nofit) {
  int d = mc::q(1, 2);
  mc::add(name, "all operations x precisions x pairs of +-2^k+d (|d| <= " + std::to_string(d) + ", k <= 66; multiple precision 130); one operand: +-2^k+d, +-10^k+d, |d| <= 2", [=](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")], op = c.choose(NOPS, "operation");
    bool mp = prec == OSL_PRECISION_MP, un = op >= BIN_END && op < UN_END;
    static const vector<string> si = {"0", "1", "-1", "2", "-2", "3", "-7", "10", "1000", "65536", "1073741824", "2147483647", "-2147483647", "-2147483648"};
    static vector<string> big[2] = {powers(false, 66, 2, true), powers(true, 130, 2, true)}, two[2] = {powers(false, 66, d, false), powers(true, 130, d, false)};
    const vector<string>& v = un || op >= UN_END ? big[mp] : two[mp];
    const string& a = c.pick(v, "a");
    if (un) { for (int al : aliases(op)) one(c, prec, op, a, "5", al, fit, nofit, true); return; }
    if (op >= UN_END) { for (int al : aliases(op)) for (auto& i : si) one(c, prec, op, a, i, al, fit, nofit, true); return; }
    for (auto& b : v) one(c, prec, op, a, b, 0, fit, nofit, true);
  });
}
}  // namespace io
