// C12: every extension payload survives printing and reading.
#include "chains.hpp"
using namespace gn;

mc::Property property() {
  return {"C12",
          "every generated payload of every kind, as is and with every single well-formed variation (values, lengths around "
          "internal buffer sizes, element counts), is printed and read back directly, and between its tags in a list from a "
          "string and from a file; contents read from the public fields must be the same and the text consumed exactly",
          {"word lists that are payloads on their own have at least one word", "names hold no blank and no '#', text lines hold no '#'", "all four parts of a symbol and the domain of a dependence are present", "comment and clay texts do not start with a line break",
           "the irregular extension is read with its interface registered, by default it is not; textual data prints nothing by design"}};
}
namespace {
bool text_to_end(const string& u) { return u == OSL_URI_COMMENT || u == OSL_URI_CLAY || u == OSL_URI_TEXTUAL; }
// payload in variation
void* vary(Ctx& c, const Subject& s, G& g, int r, int prec, bool deep, bool second = false, int length = 0) {
  void* x = s.make(g, prec, r);
  if (length) {
    Slots z(false, prec);
    Slots::length = length;
    s.slots(z, &x, c);
    Slots::length = 0;
    Muts v;
    for (auto& m : z.v) if (m.wf && m.what.compare(0, 7, "length ") == 0) v.push_back(m);
    if (int m = v.empty() ? 0 : c.choose((int)v.size() + 1, "lengthened")) { c.note("  %s %d", v[m - 1].what.c_str(), length); v[m - 1].f(); }
    return x;
  }
  Slots z(deep, prec);
  if (x || s.next) {
    s.slots(z, &x, c);
    Muts v;
    for (auto& m : z.v) if (m.wf) v.push_back(m);
    int m = c.choose((int)v.size() + 1, "variation");
    if (m) { c.note("  variation: %s", v[m - 1].what.c_str()); v[m - 1].f(); }
  }
  if (second) {
    Slots z2(false, prec);
    s.slots(z2, &x, c);
    Muts v;
    for (auto& m : z2.v) if (m.wf) v.push_back(m);
    int m = c.choose((int)v.size() + 1, "second variation");
    if (m) { c.note("  variation: %s", v[m - 1].what.c_str()); v[m - 1].f(); }
  }
  return x;
}
// a list of no word has no text
bool no_words(const Subject& s, const void* x) {
  return (s.uri == OSL_URI_STRINGS && see_strings((osl_strings_p)x).empty()) || (s.uri == OSL_URI_SCATNAMES && see_strings(((osl_scatnames_p)x)->names).empty());
}
string content(const Subject& s, const void* x) { return s.text(x); }

void value(Ctx& c, const Subject& s, void* x, int prec, int length);
void direct(Ctx& c, const Subject& s, int r, bool second, int length = 0) {
  int prec = s.precisions && !length ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  G g(c);
  value(c, s, vary(c, s, g, r, prec, !second, second, length), prec, length);
}
void value(Ctx& c, const Subject& s, void* x, int prec, int length) {
  string want = content(s, x);
  c.state(s.name + want);
  string t = s.print(x);
  if (no_words(s, x)) {
    s.free(x);
    return;
  }
  static const vector<string> TAIL = {"", "REST 17\n", "\nREST 17\n", "# rest"};
  string tail = text_to_end(s.uri) ? "" : length ? TAIL[1] : c.pick(TAIL, "what follows");
  Text in(t + tail);
  setenv("OSL_PRECISION", penv(prec), 1);
  osl_interface_p itf = kind(s.uri).itf();
  void* y = itf->sread(&in.pos);
  c.step();
  unsetenv("OSL_PRECISION");
  string got = content(s, y);
  c.outcome(cut(t, 60));
  c.check(got == want, "read back %s from: %s", differ(want, got).c_str(), cut(t, 600).c_str());
  string rest = in.rest();
  // white space right after the payload belongs to nobody
  if (!tail.empty()) {
    bool ok = rest.size() >= tail.size() && rest.compare(rest.size() - tail.size(), tail.size(), tail) == 0;
    c.check(ok, "what follows the payload was consumed, left '%s' after %s", cut(rest).c_str(), cut(t, 600).c_str());
    if (ok) rest.resize(rest.size() - tail.size());
  }
    while (!rest.empty()) {  // blank or comment lines only
      size_t e = rest.find('\n');
      string l = rest.substr(0, e);
      c.check(blank(l) || l[l.find_first_not_of(" \t")] == '#', "part of the payload's text was not read: '%s'", cut(rest).c_str());
      rest = e == string::npos ? "" : rest.substr(e + 1);
    }
  c.check(itf->equal(x, y), "the library says the payload read differs from the one printed: %s", cut(t).c_str());
  string t2 = s.print(y);
  c.check(t2 == t, "printing what was read gives another text %s", differ(t, t2).c_str());
  c.check(content(s, x) == want, "printing or comparing modified the payload");
  osl_interface_free(itf);
  s.free(x);
  if (y) s.free(y);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
void in_list(Ctx& c, const Subject& s, const vector<Subject>& all, int r) {
  int prec = s.precisions ? PRECS[c.choose(3, "precision")] : OSL_PRECISION_MP;
  G g(c);
  void* x = vary(c, s, g, r, prec, false);
  if (no_words(s, x)) {
    s.free(x);
    return;
  }
  // neighbours
  int nb = c.choose(4, "neighbours");
  osl_generic_p list = generic(s.uri.c_str(), x);
  string other = s.uri == OSL_URI_BODY ? OSL_URI_ARRAYS : OSL_URI_BODY, other2 = s.uri == OSL_URI_COMMENT ? OSL_URI_CLAY : OSL_URI_COMMENT;
  G f(c);
  if (nb & 1) { osl_generic_p o = generic(other.c_str(), payload(f, other, 0, prec)); o->next = list; list = o; }
  if (nb & 2) { osl_generic_p* t = &list; while (*t) t = &(*t)->next; *t = generic(other2.c_str(), payload(f, other2, 0, prec)); }
  string want = text(list);
  c.state("list" + want);
  int how = c.choose(3, "medium");
  string t = how ? printed([&](FILE* o) { osl_generic_print(o, list); }) : take(osl_generic_sprint(list));
  osl_interface_p reg = osl_interface_get_default_registry();
  if (s.uri == OSL_URI_IRREGULAR) osl_interface_add(&reg, osl_irregular_interface());
  setenv("OSL_PRECISION", penv(prec), 1);
  osl_generic_p got = nullptr;
  if (how < 2) {
    Text in(t);
    got = osl_generic_sread(&in.pos, reg);
    c.check(blank(in.rest()), "the extension text was not read to its end: '%s'", cut(in.rest()).c_str());
  } else {
    In in(t + "\n</OpenScop>\nnext\n");
    got = osl_generic_read(in.f, reg);
    string rest = in.rest();
    c.check(rest == "\nnext\n" || rest == "next\n", "reading the extensions left '%s'", cut(rest).c_str());
  }
  unsetenv("OSL_PRECISION");
  c.step();
  string have = text(got);
  c.check(have == want, "read back %s from %s", differ(want, have).c_str(), cut(t, 600).c_str());
  c.check(osl_generic_equal(list, got), "the library says the lists differ");
  osl_interface_free(reg);
  osl_generic_free(list);
  osl_generic_free(got);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
  (void)all;
}
}  // namespace

void setup() {
  static vector<Subject> S = subjects();
  for (auto& s : S) {
    if (s.uri.empty() || s.uri == OSL_URI_TEXTUAL || s.uri == OSL_URI_NULL) continue;
    int r = mc::q(s.uri == OSL_URI_DEPENDENCE || s.uri == OSL_URI_SYMBOLS ? 0 : 1, 2);
    mc::add("direct: " + s.name, "values of richness " + std::to_string(r) + " with every single well-formed variation", [&s, r](Ctx& c) { direct(c, s, r, false); });
    int r2 = mc::q(0, s.uri == OSL_URI_DEPENDENCE || s.uri == OSL_URI_SYMBOLS ? 0 : 1);
    mc::add("two variations: " + s.name, "values of richness " + std::to_string(r2) + " with every pair of well-formed variations", [&s, r2](Ctx& c) { direct(c, s, r2, true); });
    mc::add("lengths: " + s.name, "any one text of any length of 1..60, 1800..2060, 3900..4110 (thorough: 1..4200, 8100..8200)", [&s](Ctx& c) { static const vector<int> L = [] { vector<int> l; for (int i = 1; i <= 8200; i++) if (mc::thorough() ? i <= 4200 || i >= 8100 : i <= 60 || (i >= 1800 && i <= 2060) || (i >= 3900 && i <= 4110)) l.push_back(i); return l; }(); int n = c.pick(L, "length"); direct(c, s, 1, false, n); });
    mc::add("in a list: " + s.name, "every variation, alone or with neighbours, from string and file", [&s, r](Ctx& c) { in_list(c, s, S, mc::q(0, 1)); });
  }
  for (auto& k : chains())
    for (auto& s : S)
      if (s.uri == k.uri && s.name == k.uri)
        mc::add("elements: " + s.name, "lists of up to 3 elements, every field of every element chosen on its own (up to " + std::to_string(mc::q(12, 15)) + " fields in play)", [&s, &k](Ctx& c) {
          int n = c.choose(4, "elements"), prec = s.precisions ? OSL_PRECISION_DP : OSL_PRECISION_MP;
          value(c, s, chain(k.uri, prec, elements(c, k, n, mc::q(12, 15))), prec, 1);
        });
}
