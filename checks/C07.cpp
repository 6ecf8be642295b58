// C07: equality is exact.
#include "wide.hpp"
#include "chains.hpp"
using namespace gn;

mc::Property property() {
  return {"C07",
          "two copies of every generated value are built separately, zero, one (thorough: two) single differences are "
          "applied to one of them at every possible place, and the library's equality is asked in both orders; also all "
          "pairs of independently generated values and NULL against everything.  The oracle compares the contents "
          "read from the public fields, with the documented freedoms (comment and textual payloads always equal, "
          "extension lists, registries, arrays, loops and extbody segments unordered)",
          {"the precision of a relation counts as content", "user pointers do not count as content"}};
}

static void mutate(Ctx& c, const Subject& s, int r, int nmut, bool deep) {
  int prec = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  G g(c);
  void* x = s.make(g, prec, r);
  g.again();
  void* y = s.make(g, prec, r);
  c.check(s.text(x) == s.text(y), "harness: replay differs");
  for (int k = 0; k < nmut; k++) {
    Slots z(deep, prec);
    if (y || s.name == "relation" || s.name == "statement" || s.name == "scop" || s.name == "generic" || s.name == "interface" || s.name == "relation_list") s.slots(z, &y, c);
    int m = c.choose((int)z.v.size() + 1, "difference");
    if (m == 0) break;
    c.note("  difference: %s", z.v[m - 1].what.c_str());
    z.v[m - 1].f();
  }
  string cx = s.canon(x), cy = s.canon(y);
  c.state(s.name + cx + "|" + cy);
  c.step();
  bool want = cx == cy;
  c.outcome(want ? "equal" : "different");
  string tx = s.text(x), ty = s.text(y);
  c.check(s.equal(x, y) == want, "equal(x,y) is %d for %s and %s", !want, cut(tx).c_str(), cut(ty).c_str());
  c.check(s.equal(y, x) == want, "equal(y,x) is %d for %s and %s", !want, cut(ty).c_str(), cut(tx).c_str());
  c.check(s.equal(y, y), "not equal to itself: %s", cut(ty).c_str());
  c.check(s.text(x) == tx && s.text(y) == ty, "equality modified its operands");
  s.free(x);
  s.free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
static void pairs(Ctx& c, const Subject& s, int r) {
  int p1 = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  int p2 = s.precisions ? PRECS[c.choose(2, "precision") ? 1 : 0] : OSL_PRECISION_MP;
  G g(c), h(c);
  void* x = c.flip("x present") ? s.make(g, p1, r) : nullptr;
  void* y = c.flip("y present") ? s.make(h, p2, r) : nullptr;
  string cx = s.canon(x), cy = s.canon(y);
  c.state(s.name + cx + "|" + cy);
  c.step();
  bool want = cx == cy;
  c.outcome(want ? "equal" : "different");
  c.check(s.equal(x, y) == want, "equal(x,y) is %d for %s and %s", !want, cut(s.text(x)).c_str(), cut(s.text(y)).c_str());
  c.check(s.equal(y, x) == want, "equal(y,x) is %d for %s and %s", !want, cut(s.text(y)).c_str(), cut(s.text(x)).c_str());
  if (x) s.free(x);
  if (y) s.free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}

// the variants that compare one element and ignore what follows
static void single(Ctx& c) {
  int kind = c.choose(3, "kind"), a = c.choose(3, "first"), b = c.choose(3, "second");
  int t1 = c.choose(3, "rest of first"), t2 = c.choose(3, "rest of second");
  bool got = false;
  auto build3 = [](int x, int rest, auto mk) { auto* h = mk(x); if (rest) h->next = mk(rest - 1); return h; };
  if (kind == 0) {
    auto mk = [](int k) { return build(part(OSL_TYPE_DOMAIN, 1, 0, 0, 1, {{"1", "1", std::to_string(k), "0"}})); };
    auto *x = build3(a, t1, mk), *y = build3(b, t2, mk);
    got = osl_relation_part_equal(x, y);
    osl_relation_free(x); osl_relation_free(y);
  } else if (kind == 1) {
    auto mk = [&](int k) { G g(c); auto* l = (osl_loop_t*)payload(g, OSL_URI_LOOP, 0); if (k == 1) l->stmt_ids[0] = 99; if (k == 2) l->directive ^= 2; return l; };
    auto *x = build3(a, t1, mk), *y = build3(b, t2, mk);
    got = osl_loop_equal_one(x, y);
    osl_loop_free(x); osl_loop_free(y);
  } else {
    auto mk = [&](int k) { G g(c); auto* l = (osl_region_t*)payload(g, OSL_URI_REGION, 0); if (k == 1) l->location = 99; if (k == 2) l->postlude.types[0]++; return l; };
    auto *x = build3(a, t1, mk), *y = build3(b, t2, mk);
    got = osl_region_equal_one(x, y);
    osl_region_free(x); osl_region_free(y);
  }
  c.state(std::to_string(kind) + std::to_string(a) + std::to_string(b) + std::to_string(t1 * 3 + t2));
  c.step();
  c.check(got == (a == b), "equality of single elements (kind %d) is %d for elements %d and %d followed by %d and %d", kind, got, a, b, t1, t2);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}

// any elements against the same ones of which any are replaced by any others
static void elements_(Ctx& c, const Subject& s, const Chain& k, int most) {
  int n = 1 + c.choose(3, "elements"), m = n - 1 + c.choose(3, "elements of the other"), prec = OSL_PRECISION_DP;
  if (m > 3) return;
  vector<int> a = elements(c, k, n, most), b;
  int bits = std::max(1, std::min(k.bits, most / n)), at = c.choose(m + 2, "where they differ");
  for (int i = 0; i < m; i++) {
    int e = i < n ? a[i] : a[0];
    if (at == m + 1 && n > 1 && i < n) e = a[n - 1 - i];                    // the other way round
    else if (i == at) e ^= 1 << c.choose(std::min(k.bits, bits + 2), "field");  // one field of one element
    b.push_back(e);
  }
  void *x = chain(k.uri, prec, a), *y = chain(k.uri, prec, b);
  string cx = s.canon(x), cy = s.canon(y);
  c.state(s.name + cx + "|" + cy);
  c.step();
  bool want = cx == cy;
  c.outcome(want ? "equal" : "different");
  c.check(s.equal(x, y) == want, "equal(x,y) is %d for %s and %s", !want, cut(s.text(x)).c_str(), cut(s.text(y)).c_str());
  c.check(s.equal(y, x) == want, "equal(y,x) is %d for %s and %s", !want, cut(s.text(y)).c_str(), cut(s.text(x)).c_str());
  if (x) s.free(x);
  if (y) s.free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void setup() {
  mc::add("single elements", "relation_part_equal, loop_equal_one, region_equal_one: all pairs of 3 elements, each followed by nothing or one of 2 others", single);
  static vector<Subject> S = subjects();
  for (auto& s : S) {
    if (!s.equal) continue;
    bool big = s.name == "scop" || s.name == "statement";
    int r = mc::q(big ? 0 : 1, big ? 1 : 2);
    mc::add("one difference: " + s.name, "values of richness " + std::to_string(r) + ", every single difference",
            [&s, r](Ctx& c) { mutate(c, s, r, 1, true); });
    mc::add("pairs: " + s.name, "all pairs of values of richness " + std::to_string(big ? 0 : 1) + " and NULL", [&s, big](Ctx& c) { pairs(c, s, big ? mc::q(0, 1) : 1); });
    bool heavy = big || s.name == "dependence" || s.name == "symbols";
    if (mc::thorough() || !heavy)
      mc::add("two differences: " + s.name, "every pair of successive differences", [&s, big](Ctx& c) { mutate(c, s, big ? 0 : 1, 2, false); });
  }
  static vector<Subject> W = wides();
  for (auto& s : W) if (s.equal) mc::add("wide: " + s.name, "3 long values (lists of 3 to 40 elements, unions of 4 parts of mixed precisions), every single difference", [&s](Ctx& c) { Slots::Lean l; mutate(c, s, 0, 1, false); });
  static vector<Subject> all = subjects();
  for (auto& k : chains())
    for (auto& s : all)
      if (s.uri == k.uri && s.name == k.uri)
        mc::add("elements: " + s.name, "lists of up to 3 elements, every field of every element chosen on its own (up to " + std::to_string(mc::q(9, 12)) + " fields in play), against the same list with one field changed, one element less or more, or reversed", [&s, &k](Ctx& c) { elements_(c, s, k, mc::q(9, 12)); });
}
