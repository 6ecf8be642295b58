// C08: vector operations compute the exact vector.
#include "intops.hpp"
#include "io.hpp"
using namespace md;
using mc::Ctx;
typedef __int128 I;

mc::Property property() {
  return {"C08",
          "every vector operation on all vectors up to the stated size over a set of boundary values, in the three precisions, "
          "and every sequence of operations up to the stated length on two vector registers, against the same operation on a "
          "plain integer array: value, size and precision of the (fresh) result, operands untouched, an error report when "
          "sizes or precisions differ or a value does not fit",
          {"the first-element rules of constraints are not part of vector arithmetic"}};
}
namespace {
string dec(I v) {
  if (v == 0) return "0";
  bool n = v < 0;
  string s;
  while (v) { int d = (int)(v % 10); s = char('0' + (d < 0 ? -d : d)) + s; v /= 10; }
  return n ? "-" + s : s;
}
I num(const string& s) {
  I v = 0;
  for (char ch : s) if (ch != '-') v = v * 10 + (ch - '0');
  return s[0] == '-' ? -v : v;
}
bool fits(int prec, I v) { return prec == OSL_PRECISION_MP || (v >= LONG_MIN && v <= LONG_MAX); }
using V = vector<string>;
struct Res { bool dies = false; V v; };
vector<string> values(int prec, bool many) {
  vector<string> v = {"0", "1", "-3", "9223372036854775807", "-9223372036854775808"};
  if (many) for (const char* x : {"2", "-1", "2147483647", "-2147483648", "4611686018427387904", "9223372036854775806"}) v.push_back(x);
  if (prec == OSL_PRECISION_MP) { v.push_back("18446744073709551616"); if (many) v.push_back("-1180591620717411303424"); }
  return v;
}
V vec(Ctx& c, int n, const vector<string>& dom) {
  V v;
  for (int i = 0; i < n; i++) v.push_back(c.pick(dom, "value"));
  return v;
}
void intact(Ctx& c, const osl_vector_t* x, const V& v, int prec, const char* op) {
  c.check(x->size == (int)v.size() && x->precision == prec && see_vec(x) == v, "%s changed its operand %s to %s", op, str(v).c_str(), str(see_vec(x)).c_str());
}
void verify(Ctx& c, const char* op, bool died, osl_vector_p y, const Res& w, int prec, const string& args) {
  c.check(died == w.dies, "%s %s: %s", op, args.c_str(), died ? "error on a legal operation" : "no error");
  if (died) return;
  c.check(y->size == (int)w.v.size() && y->precision == prec && see_vec(y) == w.v, "%s %s = %s, expected %s", op, args.c_str(), str(see_vec(y)).c_str(), str(w.v).c_str());
}
void single(Ctx& c, int maxn, bool many) {
  int prec = PRECS[c.choose(3, "precision")];
  int n = c.choose(maxn + 1, "size");
  auto dom = n > 2 ? vector<string>{"0", "1", "-3", prec == OSL_PRECISION_MP ? "18446744073709551616" : "9223372036854775807"} : values(prec, many);
  V a = vec(c, n, dom);
  osl_vector_p x = build_vec(prec, a);
  int op = c.choose(5, "operation");
  string args = string(pname(prec)) + str(a);
  c.state(args + std::to_string(op));
  c.step();
  if (op == 0 || op == 1) {
    static const vector<int> K = {0, 1, -1, 7, INT_MAX, INT_MIN};
    int k = c.pick(K, "scalar");
    Res w;
    if (op == 0) {  // the constant of a constraint is its last element: needs a first one too
      w.v = a;
      if (n < 2) w.dies = true;
      else { I r = num(a[n - 1]) + k; w.dies = !fits(prec, r); w.v[n - 1] = dec(r); }
    } else for (auto& e : a) { I r = num(e) * k; if (!fits(prec, r)) w.dies = true; w.v.push_back(dec(r)); }
    osl_vector_p y = nullptr;
    bool died = mc::dies([&] { y = op == 0 ? osl_vector_add_scalar(x, k) : osl_vector_mul_scalar(x, k); });
    verify(c, op ? "mul_scalar" : "add_scalar", died, y, w, prec, args + "," + std::to_string(k));
    intact(c, x, a, prec, "scalar operation");
    c.check(died || y != x, "not a fresh vector");
    osl_vector_free(y);
    if (died) mc::forget();
  } else if (op == 2 || op == 3) {
    bool died = mc::dies([&] { if (op == 2) osl_vector_tag_equality(x); else osl_vector_tag_inequality(x); });
    c.check(died == (n == 0), "tagging %s: %s", args.c_str(), died ? "error" : "no error");
    V w = a;
    if (n) w[0] = op == 2 ? "0" : "1";
    intact(c, x, w, prec, "tag");
  } else {
    bool scal = true;
    for (int i = 0; i + 1 < n; i++) scal &= a[i] == "0";
    c.check((osl_vector_is_scalar(x) != 0) == scal, "is_scalar %s", args.c_str());
    intact(c, x, a, prec, "is_scalar");
    c.check(osl_vector_equal(x, x), "equal to itself");
    c.check(!osl_vector_equal(x, nullptr) && !osl_vector_equal(nullptr, x) && osl_vector_equal(nullptr, nullptr), "comparison with an absent vector");
  }
  if (mc::live()) osl_vector_free(x);
}
void two(Ctx& c, int maxn, bool many) {
  int prec = PRECS[c.choose(3, "precision")];
  int n = c.choose(maxn + 1, "size");
  int other = c.choose(4, "second operand: same, shorter, longer, other precision");
  int m = other == 1 ? n - 1 : other == 2 ? n + 1 : n, prec2 = other == 3 ? PRECS[(c.choose(2, "which") + 1 + (prec == OSL_PRECISION_MP ? 0 : prec == OSL_PRECISION_SP ? 1 : 2)) % 3] : prec;
  if (m < 0) return;
  bool same = other == 0;
  auto d = values(prec, many && n < 2);
  if (n > 1) d = {"0", "1", "-3", "9223372036854775807"};
  if (!same) d = {"0", "5"};
  V a = vec(c, n, d), b = vec(c, m, d);
  bool alias = same && a == b && c.flip("same vector twice");
  osl_vector_p x = build_vec(prec, a), z = alias ? x : build_vec(prec2, b);
  string args = string(pname(prec)) + str(a) + pname(prec2) + str(b);
  int op = c.choose(3, "operation");
  c.state(args + std::to_string(op) + (alias ? "alias" : ""));
  c.step();
  bool forgot = false;
  if (op < 2) {
    Res w;
    w.dies = m != n || prec != prec2;
    if (!w.dies) for (int i = 0; i < n; i++) { I r = op ? num(a[i]) - num(b[i]) : num(a[i]) + num(b[i]); if (!fits(prec, r)) w.dies = true; w.v.push_back(dec(r)); }
    osl_vector_p y = nullptr;
    bool died = mc::dies([&] { y = op ? osl_vector_sub(x, z) : osl_vector_add(x, z); });
    verify(c, op ? "sub" : "add", died, y, w, prec, args);
    c.check(died || (y != x && y != z), "not a fresh vector");
    osl_vector_free(y);
    if (died) forgot = true;
  } else {
    bool eq = a == b && prec == prec2;
    c.check((osl_vector_equal(x, z) != 0) == eq && (osl_vector_equal(z, x) != 0) == eq, "equal(%s) should be %d", args.c_str(), eq);
  }
  intact(c, x, a, prec, "operation");
  intact(c, z, b, prec2, "operation");
  osl_vector_free(x);
  if (!alias) osl_vector_free(z);
  if (forgot) mc::forget();
}
// histories on two registers: results of operations are operands of the next
void history(Ctx& c, int depth) {
  int prec = PRECS[c.choose(3, "precision")];
  V a = {"0", "1", "2"}, b = {"1", "-4", "9"};
  osl_vector_p x = build_vec(prec, a), y = build_vec(prec, b);
  for (int i = 0; i < depth; i++) {
    if (!c.state(string(pname(prec)) + str(a) + str(b), depth - i)) break;
    int op = c.choose(9, "operation");
    osl_vector_p r = nullptr;
    V w;
    auto lin = [&](int s) { for (size_t k = 0; k < a.size(); k++) w.push_back(dec(num(a[k]) + s * num(b[k]))); };
    c.step();
    switch (op) {
      case 0: r = osl_vector_add(x, y); lin(1); break;
      case 1: r = osl_vector_sub(x, y); lin(-1); break;
      case 2: r = osl_vector_mul_scalar(x, -2); for (auto& e : a) w.push_back(dec(num(e) * -2)); break;
      case 3: r = osl_vector_mul_scalar(y, 0); for (auto& e : b) { (void)e; w.push_back("0"); } break;
      case 4: r = osl_vector_add_scalar(x, -3); w = a; w.back() = dec(num(a.back()) - 3); break;
      case 5: r = osl_vector_add_scalar(y, 5); w = b; w.back() = dec(num(b.back()) + 5); break;
      case 6: osl_vector_tag_equality(x); a[0] = "0"; break;
      case 7: osl_vector_tag_inequality(y); b[0] = "1"; break;
      case 8: std::swap(x, y); std::swap(a, b); break;
    }
    if (r) {
      c.check(see_vec(r) == w && r->precision == prec, "operation %d on %s %s = %s, expected %s", op, str(a).c_str(), str(b).c_str(), str(see_vec(r)).c_str(), str(w).c_str());
      if (c.flip("keep in first")) { osl_vector_free(x); x = r; a = w; } else { osl_vector_free(y); y = r; b = w; }
    }
    intact(c, x, a, prec, "operation");
    intact(c, y, b, prec, "operation");
    bool sc = true;
    for (size_t k = 0; k + 1 < a.size(); k++) sc &= a[k] == "0";
    c.check((osl_vector_is_scalar(x) != 0) == sc, "is_scalar %s", str(a).c_str());
    c.check((osl_vector_equal(x, y) != 0) == (a == b), "equal %s %s", str(a).c_str(), str(b).c_str());
  }
  osl_vector_free(x);
  osl_vector_free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void create(Ctx& c) {
  int prec = PRECS[c.choose(3, "precision")];
  int n = c.choose(40, "size");
  bool env = c.flip("default precision");
  if (env) setenv("OSL_PRECISION", penv(prec), 1);
  osl_vector_p x = env ? osl_vector_malloc(n) : osl_vector_pmalloc(prec, n);
  if (env) unsetenv("OSL_PRECISION");
  c.state(std::to_string(n) + pname(prec));
  c.step();
  intact(c, x, V(n, "0"), prec, "creation");
  osl_vector_free(x);
  osl_vector_free(nullptr);
  c.check(!osl_vector_is_scalar(nullptr), "an absent vector is no scalar");
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void absent(Ctx& c) {
  int op = c.choose(6, "operation");
  osl_vector_p x = osl_vector_pmalloc(OSL_PRECISION_MP, 2);
  c.state(std::to_string(op));
  c.step();
  bool died = mc::dies([&] {
    switch (op) {
      case 0: (void)!osl_vector_add(x, nullptr); break;
      case 1: (void)!osl_vector_add(nullptr, x); break;
      case 2: (void)!osl_vector_sub(x, nullptr); break;
      case 3: (void)!osl_vector_sub(nullptr, x); break;
      case 4: (void)!osl_vector_add_scalar(nullptr, 1); break;
      case 5: osl_vector_tag_equality(nullptr); break;
    }
  });
  c.check(died, "an absent operand is not reported");
  osl_vector_free(x);
}
}  // namespace

void setup() {
  int n = mc::q(3, 4);
  mc::add("one vector", "scalar operations, tags, scalar test: all vectors of size 0.." + std::to_string(n) + " over boundary values, three precisions", [n](Ctx& c) { single(c, n, true); });
  mc::add("two vectors", "addition, subtraction, comparison: all pairs of vectors of size 0.." + std::to_string(mc::q(2, 3)) + ", also of different sizes and precisions and the same vector twice", [](Ctx& c) { two(c, mc::q(2, 3), true); });
  mc::add("histories", "all operation sequences of length " + std::to_string(mc::q(5, 7)), [](Ctx& c) { history(c, mc::q(5, 7)); });
  mc::add("creation", "sizes 0..39", create);
  mc::add("absent operands", "every operation", absent);
}
