// C06: copies are deep, complete and independent.
#include "wide.hpp"
#include "chains.hpp"
using namespace gn;

mc::Property property() {
  return {"C06",
          "every generated value of every kind is cloned (whole, or its first n elements) and the copy compared with the "
          "source through the public fields and the library's own equality; then either side is modified at every possible "
          "place, or freed, and the other side must still have its contents (use of freed or shared storage is an error "
          "under the address checker and the allocation ledger)",
          {"user pointers (usr fields) are not part of a copy", "interfaces have a URI (lists refuse the others)", "asking relation_nclone for more parts than there are is reported as an error (documented behaviour)"}};
}
static bool null_ok(const Subject& s) { return s.uri.empty() || s.next; }

// an interface without URI is refused by every list operation
static void drop_invalid(Slots& z) {
  Muts v;
  for (auto& m : z.v) if (m.what.find(".URI absent") == string::npos) v.push_back(m);
  z.v = v;
}
static void clone_(Ctx& c, const Subject& s, int r, bool deep) {
  int prec = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  G g(c);
  void* x = s.make(g, prec, r);
  // optionally an unusual source (absent components, extreme strings)
  if (r >= 0 && (x || null_ok(s))) {
    Slots z(deep, prec);
    if (x || s.uri.empty() || s.uri == OSL_URI_RELATION) s.slots(z, &x, c);
    drop_invalid(z);
    int m = c.choose((int)z.v.size() + 1, "variation of the source");
    if (m) { c.note("  source: %s", z.v[m - 1].what.c_str()); z.v[m - 1].f(); }
  }
  string t = s.text(x);
  c.state(s.name + t);
  void* y = s.clone(x);
  c.step();
  c.check(s.text(x) == t, "cloning modified its source: %s", differ(t, s.text(x)).c_str());
  c.check(s.text(y) == t, "clone differs from its source %s", differ(t, s.text(y)).c_str());
  if (s.equal && (x || s.uri.empty() || s.uri == OSL_URI_RELATION)) c.check(s.equal(x, y) && s.equal(y, x), "the library says the clone differs from its source %s", cut(t).c_str());
  bool src = c.flip("free the clone first");
  if (src) std::swap(x, y);
  if (x) s.free(x);
  c.check(s.text(y) == t, "freeing the %s changed the other: %s", src ? "clone" : "source", differ(t, s.text(y)).c_str());
  void* w = s.clone(y);
  c.check(s.text(w) == t, "second clone differs %s", differ(t, s.text(w)).c_str());
  if (y) s.free(y);
  c.check(s.text(w) == t, "freeing changed a second clone");
  if (w) s.free(w);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
static void modify(Ctx& c, const Subject& s, int r) {
  int prec = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  G g(c);
  void* x = s.make(g, prec, r);
  string t = s.text(x);
  void* y = s.clone(x);
  if (c.flip("modify the clone")) std::swap(x, y);
  Slots z(false, prec);
  if (x) s.slots(z, &x, c);
  int m = c.choose((int)z.v.size() + 1, "modification");
  c.step();
  if (m) {
    c.note("  modify: %s", z.v[m - 1].what.c_str());
    c.state(s.name + t + z.v[m - 1].what);
    z.v[m - 1].f();
  }
  c.check(s.text(y) == t, "modifying one side changed the other: %s", differ(t, s.text(y)).c_str());
  if (x) s.free(x);
  c.check(s.text(y) == t, "freeing one side changed the other: %s", differ(t, s.text(y)).c_str());
  if (y) s.free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
static void truncate(const Subject& s, void** h, int n) {
  void** t = h;
  for (int i = 0; *t && i != n; i++) t = s.next(*t);
  if (*t) s.free(*t);
  *t = nullptr;
}
static int length(const Subject& s, void* x) {
  int n = 0;
  for (; x; x = *s.next(x)) ++n;
  return n;
}
static void nclone_(Ctx& c, const Subject& s, int r) {
  int prec = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  G g(c);
  void* x = c.flip("present") ? s.make(g, prec, r) : nullptr;
  g.again();
  int have = length(s, x);
  int n = c.choose(have + 3, "n") - 1;
  void* want = x ? s.make(g, prec, r) : nullptr;
  if (n >= 0) truncate(s, &want, n);
  string t = s.text(x), tw = s.text(want);
  c.state(s.name + t + "n" + std::to_string(n));
  c.step();
  void* y = nullptr;
  bool died = mc::dies([&] { y = s.nclone(x, n); });
  if (s.uri == OSL_URI_RELATION && n > have) {
    c.check(died, "no error for cloning %d parts of %d", n, have);
  } else {
    c.check(!died, "error when cloning %d elements of %d", n, have);
    c.check(s.text(x) == t, "nclone modified its source");
    c.check(s.text(y) == tw, "nclone(%d) of %d elements: %s", n, have, differ(tw, s.text(y)).c_str());
    if (x) s.free(x);
    c.check(s.text(y) == tw, "freeing the source changed the limited clone");
    x = nullptr;
    if (y) s.free(y);
  }
  if (x) s.free(x);
  if (want) s.free(want);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// the copies of one element only
static void ones(Ctx& c) {
  int kind = c.choose(2, "kind");
  int n = 1 + c.choose(3, "length");
  G g(c);
  if (kind == 0) {
    osl_loop_p h = nullptr;
    for (int i = 0; i < n; i++) { auto l = (osl_loop_p)payload(g, OSL_URI_LOOP, 0); l->stmt_ids[0] = i; l->next = h; h = l; }
    osl_loop_p y = osl_loop_clone_one(h);
    osl_loop_p rest = h->next;
    h->next = nullptr;
    string t = md::payload(OSL_URI_LOOP, h);
    c.check(md::payload(OSL_URI_LOOP, y) == t, "loop_clone_one: %s", differ(t, md::payload(OSL_URI_LOOP, y)).c_str());
    osl_loop_free(h);
    c.check(md::payload(OSL_URI_LOOP, y) == t, "loop_clone_one shares storage");
    osl_loop_free(y); osl_loop_free(rest);
  } else {
    osl_region_t* h = nullptr;
    for (int i = 0; i < n; i++) { auto l = (osl_region_t*)payload(g, OSL_URI_REGION, 0); l->location = i; l->next = h; h = l; }
    osl_region_t* y = osl_region_clone_one(h);
    osl_region_t* rest = h->next;
    h->next = nullptr;
    string t = md::payload(OSL_URI_REGION, h);
    c.check(md::payload(OSL_URI_REGION, y) == t, "region_clone_one: %s", differ(t, md::payload(OSL_URI_REGION, y)).c_str());
    osl_region_free(h);
    c.check(md::payload(OSL_URI_REGION, y) == t, "region_clone_one shares storage");
    osl_region_free(y); osl_region_free(rest);
  }
  c.state(std::to_string(kind * 10 + n));
  c.step();
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}

static void elements_(Ctx& c, const Subject& s, const Chain& k) {
  int n = c.choose(4, "elements"), prec = OSL_PRECISION_DP;
  void* x = chain(k.uri, prec, elements(c, k, n, mc::q(12, 15)));
  string t = s.text(x);
  c.state(s.name + t);
  void* y = s.clone(x);
  c.step();
  c.check(s.text(x) == t && s.text(y) == t, "clone differs from its source %s", differ(t, s.text(y)).c_str());
  if (x) c.check(s.equal(x, y) && s.equal(y, x), "the library says the clone differs from its source %s", cut(t).c_str());
  if (x) s.free(x);
  c.check(s.text(y) == t, "freeing the source changed the clone: %s", differ(t, s.text(y)).c_str());
  if (y) s.free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void setup() {
  static vector<Subject> S = subjects();
  mc::add("one element", "loop_clone_one and region_clone_one on lists of 1..3", ones);
  for (auto& s : S) {
    bool big = s.name == "scop" || s.name == "statement" || s.name == "dependence" || s.name == "symbols";
    int r = mc::q(big ? 0 : 1, s.name == "dependence" || big ? 1 : 2);
    mc::add("clone: " + s.name, "values of richness " + std::to_string(r) + ", also with every single variation; both orders of freeing", [&s, r](Ctx& c) { clone_(c, s, r, true); });
    mc::add("modify: " + s.name, "every single modification of either side", [&s, r](Ctx& c) { modify(c, s, r); });
    if (s.nclone) {
      int rr = mc::q(1, s.name == "statement" ? 1 : 2);
      mc::add("nclone: " + s.name, "every n from -1 to two more than the length", [&s, rr](Ctx& c) { nclone_(c, s, rr); });
    }
  }
  static vector<Subject> W = wides();
  for (auto& s : W) {
    mc::add("wide: " + s.name, string("3 long values (lists of 3 to 40 elements, unions of 4 parts of mixed precisions)") + (!mc::thorough() ? "" : ", plain and with every single variation of the source"), [&s](Ctx& c) { clone_(c, s, mc::q(-1, 0), false); });
    if (s.nclone) mc::add("wide nclone: " + s.name, "every n from -1 to two more than the length", [&s](Ctx& c) { nclone_(c, s, 0); });
    if (mc::thorough()) mc::add("wide modify: " + s.name, "every single modification of either side", [&s](Ctx& c) { modify(c, s, 0); });
  }
  static vector<Subject> all = subjects();
  for (auto& k : chains())
    for (auto& s : all)
      if (s.uri == k.uri && s.name == k.uri)
        mc::add("elements: " + s.name, "lists of up to 3 elements, every field of every element chosen on its own (up to " + std::to_string(mc::q(12, 15)) + " fields in play)", [&s, &k](Ctx& c) { elements_(c, s, k); });
}
