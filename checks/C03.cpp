// C03: a printed relation reads back as the same relation.
#include "io.hpp"
using namespace md;
using mc::Ctx;

mc::Property property() {
  return {"C03",
          "every relation of the bounded families is printed with every printer (string/file, plain/named, with or "
          "without the type) and the text read with every reader (string/file); the relation read must equal the plain "
          "description in type, dimensions and every coefficient of every part, and the text must be consumed exactly",
          {"multiple-precision values have fewer than 2048 digits (longer ones are refused with an error when printed)"}};
}

namespace {
// the seven types that have a textual name
const int TYPES[] = {OSL_UNDEFINED, OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};

enum Printer { SPRINT, PRINT, SPPRINT, PPRINT, POLYLIB, NPRINTERS };
const char* pnames[] = {"sprint", "print", "spprint", "pprint", "spprint_polylib"};

string print(int how, const osl_relation_t* r, const osl_names_t* n) {
  switch (how) {
    case SPRINT: return take(osl_relation_sprint(r));
    case PRINT: return printed([&](FILE* f) { osl_relation_print(f, r); });
    case SPPRINT: return take(osl_relation_spprint(r, n));
    case PPRINT: return printed([&](FILE* f) { osl_relation_pprint(f, r, n); });
    default: return take(osl_relation_spprint_polylib(r, n));
  }
}

// print with `how`, read with every reader at precision rp, compare with m
void round_trip(Ctx& c, const Rel& m, int how, const osl_names_t* n, int rp, const string& tail) {
  osl_relation_p r = build(m);
  if (!c.state(string(pnames[how]) + penv(rp) + str(m) + text(n))) c.note("content already visited");
  for (int i = 0; i < 5; i++) c.step();
  string t = print(how, r, n);
  Rel want = m;
  for (auto& p : want) p.prec = rp;
  c.outcome(cut(t, 100));
  if (how == POLYLIB) {
    for (auto& p : want) p.type = OSL_UNDEFINED;
    Text x(t + tail);
    setenv("OSL_PRECISION", penv(rp), 1);
    for (int k = 0; k < 2; k++) {
      x.pos = x.base;
      osl_relation_p q = k ? osl_relation_sread_polylib(&x.pos) : osl_relation_psread_polylib(&x.pos, rp);
      Rel got = see(q);
      for (auto& p : got) p.type = OSL_UNDEFINED;  // the type is not part of this format
      c.check(got == want, "polylib string: expected %s got %s", cut(str(want)).c_str(), cut(str(got)).c_str());
      osl_relation_free(q);
    }
  } else {
    string head = "";
    Text x(t + tail);
    setenv("OSL_PRECISION", penv(rp), 1);
    for (int k = 0; k < 2; k++) {
      x.pos = x.base;
      osl_relation_p q = k ? osl_relation_sread(&x.pos) : osl_relation_psread(&x.pos, rp);
      Rel got = see(q);
      c.check(got == want, "%s then %s: expected %s got %s", pnames[how], k ? "sread" : "psread", cut(str(want)).c_str(), cut(str(got)).c_str());
      c.check(osl_relation_equal(q, r) == std::all_of(m.begin(), m.end(), [&](const Part& p) { return p.prec == rp; }), "%s then sread: not equal() to the original", pnames[how]);
      string rest = x.rest();
      // what is left: the comment of the last row, if any, then the tail
      c.check(rest.size() >= tail.size() && rest.compare(rest.size() - tail.size(), tail.size(), tail) == 0,
              "psread consumed the text that follows: left '%s'", cut(rest).c_str());
      string gap = rest.substr(0, rest.size() - tail.size());
      size_t i = gap.find_first_not_of(" \t\n");
      c.check(i == string::npos || gap[i] == '#', "psread left unread data '%s'", cut(gap).c_str());
      osl_relation_free(q);
    }
    for (int k = 0; k < 2; k++) {
      In in(t + tail);
      osl_relation_p q = k ? osl_relation_read(in.f) : osl_relation_pread(in.f, rp);
      Rel got = see(q);
      c.check(got == want, "%s then %s: expected %s got %s", pnames[how], k ? "read" : "pread", cut(str(want)).c_str(), cut(str(got)).c_str());
      string rest = in.rest();
      c.check(rest == tail, "pread left '%s' instead of '%s'", cut(rest).c_str(), cut(tail).c_str());
      osl_relation_free(q);
    }
  }
  unsetenv("OSL_PRECISION");
  Rel after = see(r);
  c.check(after == m, "printing changed the relation");
  osl_relation_free(r);
}
void finish(Ctx& c) { c.check(mc::live() == 0, "%ld blocks leaked: %s", mc::live(), mc::live_desc().c_str()); }

const char* SMALL[] = {"0", "1", "-1", "2", "-7", "10", "-12345"};
}  // namespace

void setup() {
  static bool T = mc::thorough();
  // (a) every cell value pattern on small shapes
  mc::add("cells", "1 part, 1 row (thorough: 2), up to 3 dimensions of any kind, every cell from {0,1,-1,2,10,-12345,limits}, types, precisions", [](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    int type = TYPES[c.choose(7, "type")];
    int how = c.choose(T ? NPRINTERS : 2, "printer");
    int kind = c.choose(5, "which dimension");
    int extra = c.choose(T ? 3 : 2, "more dims");
    int d[4] = {0, 0, 0, 0};
    if (kind < 4) d[kind] = 1;
    if (extra) d[(kind + extra) % 4] += 1;
    vector<string> a = {"0", "1", "-1", "2", "10", "-12345"};
    if (prec == OSL_PRECISION_MP) { a.push_back("123456789012345678901234567890"); a.push_back("-9223372036854775809"); }
    else { a.push_back("9223372036854775807"); a.push_back("-9223372036854775808"); }
    int cols = 2 + d[0] + d[1] + d[2] + d[3];
    Row row;
    for (int j = 0; j < cols; j++) row.push_back(j == 0 ? (c.flip("marker") ? "1" : "0") : c.pick(a, "cell"));
    if (!T && cols == 4 && type != OSL_TYPE_DOMAIN && (type != OSL_TYPE_READ || how)) return;
    Rel m = {part(type, d[0], d[1], d[2], d[3], {row}, prec)};
    round_trip(c, m, how, nullptr, prec, "\n");
    finish(c);
  });
  // (b) all shapes
  mc::add("shapes", "1..2 parts; each part any of: 0..2 dimensions of each kind (thorough 0..3 for the first), 0..2 rows, labelled cells; all printers, types and precisions", [](Ctx& c) {
    int nparts = 1 + c.choose(2, "parts");
    int how = c.choose(NPRINTERS, "printer");
    int prec = PRECS[c.choose(3, "precision")];
    int type = TYPES[c.choose(7, "type")];
    bool named = (how == SPPRINT || how == PPRINT || how == POLYLIB);
    Rel m;
    for (int k = 0; k < nparts; k++) {
      int d[4];
      int lim = k == 0 ? mc::q(3, nparts == 1 ? 4 : 3) : 2;
      if (nparts == 2 && !T) lim = 2;
      for (int i = 0; i < 4; i++) d[i] = c.choose(!T && k == 1 && (i == 1 || i == 2) ? 1 : lim, "dim");
      int rows = c.choose(3, "rows");
      vector<Row> rr;
      for (int i = 0; i < rows; i++) {
        Row r;
        for (int j = 0; j < 2 + d[0] + d[1] + d[2] + d[3]; j++)
          r.push_back(j == 0 ? std::to_string(i % 2) : std::to_string(((k + 1) * 100 + i * 10 + j) * (j % 2 ? 1 : -1)));
        rr.push_back(r);
      }
      m.push_back(part(type, d[0], d[1], d[2], d[3], rr, prec));
    }
    osl_names_p n = named ? build_names(seq("Par", 3), seq("it", 3), seq("sc", 3), seq("loc", 3), seq("Arr", 9)) : nullptr;
    round_trip(c, m, how, n, prec, "77\n");
    if (n) osl_names_free(n);
    finish(c);
  });
  // (c) many parts
  mc::add("unions", "3..4 (thorough 12) parts, every choice of rows 0..2 per part", [](Ctx& c) {
    vector<int> np = {3, 4};
    if (T) np.push_back(6);
    int nparts = c.pick(np, "parts");
    int how = c.choose(NPRINTERS, "printer");
    int prec = PRECS[c.choose(3, "precision")];
    int type = TYPES[c.choose(7, "type")];
    Rel m;
    for (int k = 0; k < nparts; k++) {
      int rows = c.choose(nparts > 4 ? 2 : 3, "rows");
      vector<Row> rr;
      for (int i = 0; i < rows; i++) rr.push_back({std::to_string((i + k) % 2), std::to_string(10 * k + i), std::to_string(-k), "7"});
      m.push_back(part(type, k % 2, 0, 0, 2 - k % 2, rr, prec));
    }
    round_trip(c, m, how, nullptr, prec, "\n");
    finish(c);
  });
  mc::add("any attributes", "1..3 parts, each 0..2 rows of 0..4 columns with attributes that match, are undefined, are all 0 or exceed the columns; 3 printers, types and precisions", [](Ctx& c) {
    int n = 1 + c.choose(3, "parts"), prec = PRECS[c.choose(3, "precision")], type = TYPES[c.choose(7, "type")], how = c.pick(vector<int>{SPRINT, PRINT, POLYLIB}, "printer");
    Rel m;
    for (int k = 0; k < n; k++) {
      static const int R[][2] = {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {1, 1}, {1, 2}, {1, 3}, {2, 4}};
      int s = k == 2 && !T ? c.choose(3, "shape") : c.choose(8, "shape"), a = k == 2 && !T ? 0 : c.choose(5, "attributes");
      Part p;
      p.type = type; p.prec = prec; p.rows = R[s][0]; p.cols = R[s][1];
      if (a == 0) p.par = std::max(0, p.cols - 2);
      else if (a == 1) p.out = p.in = p.loc = p.par = OSL_UNDEFINED;
      else if (a == 3) p.out = 5, p.loc = 1;
      else if (a == 4) p.in = p.cols, p.par = OSL_UNDEFINED;
      for (int i = 0; i < p.rows; i++) { Row r; for (int j = 0; j < p.cols; j++) r.push_back(std::to_string(10 * k + 3 * i + j - 2)); p.m.push_back(r); }
      m.push_back(p);
    }
    c.note("%s", str(m).c_str());
    round_trip(c, m, how, nullptr, prec, "7 tail\n");
    finish(c);
  });
  mc::add("long unions", "5..101 parts, shapes that repeat with period 1..3, rows 0..2, all printers, types and precisions, the same one in every part or not", [](Ctx& c) {
    int n = c.pick(T ? vector<int>{5, 8, 9, 10, 11, 12, 20, 99, 100, 101, 300} : vector<int>{5, 9, 10, 11, 20, 100}, "parts");
    int how = c.choose(NPRINTERS, "printer");
    int type = TYPES[c.choose(7, "type")];
    int prec = PRECS[c.choose(3, "precision")], mixed = c.choose(2, "other precision in every third part");
    int period = c.choose(3, "period"), rows = c.choose(3, "rows");
    Rel m;
    for (int k = 0; k < n; k++) {
      int s = period ? k % (period + 1) : 0;
      vector<Row> rr;
      for (int i = 0; i < (rows + s) % 3; i++) { Row r(4 + s, std::to_string(-k)); r[0] = std::to_string((i + k) % 2); r[1] = std::to_string(10 * k + i); rr.push_back(r); }
      m.push_back(part(type, s, 0, 0, 2, rr, mixed && k % 3 == 1 ? PRECS[prec == PRECS[0] ? 1 : 0] : prec));
    }
    round_trip(c, m, how, nullptr, prec, "\n");
    finish(c);
  });
  mc::add("mixed precisions", "unions of 1..3 parts of any precision, read in any precision", [](Ctx& c) {
    int n = 1 + c.choose(3, "parts"), rp = PRECS[c.choose(3, "read in")], how = c.choose(NPRINTERS, "printer");
    Rel m;
    for (int k = 0; k < n; k++) {
      int p = PRECS[c.choose(3, "precision")];
      vector<Row> rr;
      for (int i = c.choose(3, "rows"); i--;) rr.push_back({std::to_string((i + k) % 2), c.flip("large") ? "-9223372036854775807" : "12", std::to_string(k)});
      m.push_back(part(OSL_TYPE_DOMAIN, 1, 0, 0, 0, rr, p));
    }
    round_trip(c, m, how, nullptr, rp, "3\n");
    finish(c);
  });
  mc::add("long lists", "lists of 4..101 relations, absent ones in between, unions in between", [](Ctx& c) {
    int n = c.pick(vector<int>{4, 9, 10, 11, 99, 100, 101}, "length"), gap = c.choose(4, "absent ones"), prec = PRECS[c.choose(3, "precision")];
    bool uni = c.flip("unions");
    vector<Rel> want;
    osl_relation_list_p l = nullptr, *tl = &l;
    for (int k = 0; k < n; k++) {
      *tl = (osl_relation_list_p)mc::lalloc(sizeof(osl_relation_list_t));
      (*tl)->next = nullptr;
      (*tl)->elt = nullptr;
      if (!gap || k % (gap + 1)) {
        Rel m;
        for (int p = 0; p < (uni && k % 2 ? 2 : 1); p++) m.push_back(part(TYPES[k % 7], p, 0, 0, 2 - p, {{"1", std::to_string(k), std::to_string(p), "-3"}}, prec));
        (*tl)->elt = build(m);
        want.push_back(m);
      }
      tl = &(*tl)->next;
    }
    string t = printed([&](FILE* f) { osl_relation_list_print(f, l); });
    c.state(std::to_string(prec) + t + text(l));
    c.step();
    In in(t + "5\n");
    osl_relation_list_p q = osl_relation_list_pread(in.f, prec);
    vector<Rel> got;
    for (osl_relation_list_p e = q; e; e = e->next) got.push_back(see(e->elt));
    c.check(got == want, "%zu relations of %zu are read back, or other ones", got.size(), want.size());
    osl_relation_list_free(q);
    osl_relation_list_free(l);
    finish(c);
  });
  // (d) widths and lengths: internal buffers are 2048 characters
  mc::add("widths", "relations with 2..700 columns or 0..400 rows around the internal line limits, digits 1..18, types, precisions, printers", [](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    int how = c.choose(NPRINTERS, "printer");
    int type = TYPES[c.choose(mc::q(4, 7), "type")];
    int kind = c.choose(4, "dimension kind");
    int digits = c.pick(vector<int>{1, 4, 18}, "digits");
    vector<int> ws = {2, 40, 99, 100, 101, 102, 107, 108, 113, 114, 340, 341, 408, 409, 410, 411, 412, 700};
    if (!T) ws = {2, 41, 100, 107, 108, 341, 408, 409, 410, 411, 600};
    int cols = c.pick(ws, "columns");
    int rows = c.pick(vector<int>{0, 1, 2}, "rows");
    if (!T && cols > 200 && (kind + how + type) % 3) return;
    int d[4] = {0, 0, 0, 0};
    d[kind] = cols - 2;
    vector<Row> rr;
    for (int i = 0; i < rows; i++) {
      Row r;
      for (int j = 0; j < cols; j++) {
        string v = std::to_string(1 + (j + i) % 9);
        while ((int)v.size() < digits) v += std::to_string((j + (int)v.size()) % 10);
        r.push_back(j == 0 ? std::to_string(i % 2) : (j % 2 ? "-" : "") + v);
      }
      rr.push_back(r);
    }
    round_trip(c, {part(type, d[0], d[1], d[2], d[3], rr, prec)}, how, nullptr, prec, "\n");
    finish(c);
  });
  mc::add("tall", "0..400 rows, 1..2 parts", [](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    int how = c.choose(NPRINTERS, "printer");
    int rows = c.pick(vector<int>{3, 10, 63, 64, 65, 100, 255, 256, 257, 400}, "rows");
    int np = 1 + c.choose(2, "parts");
    Rel m;
    for (int k = 0; k < np; k++) {
      vector<Row> rr;
      for (int i = 0; i < rows + k; i++) rr.push_back({std::to_string(i % 2), std::to_string(i - 17), std::to_string(k * 1000 + i), "-4"});
      m.push_back(part(OSL_TYPE_DOMAIN, 1, 0, 0, 1, rr, prec));
    }
    round_trip(c, m, how, nullptr, prec, "0 0\n");
    finish(c);
  });
  mc::add("digits", "one cell of 1..2040 digits (multiple precision), either sign, any column", [](Ctx& c) {
    int how = c.choose(NPRINTERS, "printer");
    bool neg = c.flip("negative");
    int col = 1 + c.choose(3, "column");
    int n = c.pick(vector<int>{1, 3, 4, 5, 18, 19, 20, 21, 38, 39, 40, 99, 100, 101, 255, 256, 500, 1000, 1023, 1024, 1025, 1500, 2000, 2030, 2040}, "digits");
    string v = neg ? "-" : "";
    for (int i = 0; i < n; i++) v += '1' + (i * 7 + 3) % 9;
    Row r = {"1", "3", "-4", "5"};
    r[col] = v;
    round_trip(c, {part(OSL_TYPE_DOMAIN, 1, 0, 0, 1, {r, {"0", "6", "7", "8"}}, OSL_PRECISION_MP)}, how, nullptr, OSL_PRECISION_MP, "\n");
    finish(c);
  });
  // (e) names that decorate the output
  mc::add("names", "names of length 1..5000, too few names, names with digits and operators; every relation kind; the data read back never depends on them", [](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    int type = TYPES[c.choose(7, "type")];
    int how = c.pick(vector<int>{SPPRINT, PPRINT, POLYLIB}, "printer");
    int which = c.choose(5, "long list");
    int len = c.pick(vector<int>{1, 3, 4, 5, 79, 80, 99, 100, 101, 1000, 2040, 2047, 2048, 2049, 5000}, "length");
    int cnt = c.choose(4, "number of names");
    int style = c.choose(3, "style");
    vector<string> l[5] = {{"P1", "P2"}, {"i1", "i2"}, {"c1", "c2"}, {"l1", "l2"}, {"A1", "A2"}};
    l[which].clear();
    for (int i = 0; i < cnt; i++) {
      string s(len, style == 1 ? '7' : (char)('a' + i));
      if (style == 2) s = s.substr(0, len / 2) + "#" + s.substr(len / 2);
      l[which].push_back(s);
    }
    osl_names_p n = build_names(l[0], l[1], l[2], l[3], l[4]);
    bool acc = type >= OSL_TYPE_READ;
    int out = type == OSL_TYPE_CONTEXT ? 0 : 2, in = (type == OSL_TYPE_CONTEXT || type == OSL_TYPE_DOMAIN) ? 0 : 2;
    Rel m;
    int cols = 2 + out + in + 2 + 2;
    for (int k = 0; k < 2; k++) {
      vector<Row> rr;
      for (int i = 0; i < 2; i++) {
        Row r;
        for (int j = 0; j < cols; j++) r.push_back(j == 0 ? std::to_string(i) : std::to_string(10 * i + j + k));
        if (acc && i == 0) { r = Row(cols, "0"); r[1] = "-1"; r[cols - 1] = "2"; }
        if (!acc && i == 1 && out > 0) { for (int j = 1; j <= out; j++) r[j] = "0"; r[1] = "-1"; r[0] = "0"; }
        rr.push_back(r);
      }
      m.push_back(part(type, out, in, 2, 2, rr, prec));
    }
    string before = text(n);
    round_trip(c, m, how, n, prec, "\n");
    c.check(text(n) == before, "names modified");
    osl_names_free(n);
    finish(c);
  });
  // (f) reading in another precision than the one printed
  mc::add("cross-precision", "printed in one precision, read in another, values fitting both", [](Ctx& c) {
    int p1 = PRECS[c.choose(3, "from")], p2 = PRECS[c.choose(3, "to")];
    int how = c.choose(mc::q(2, NPRINTERS), "printer");
    int type = TYPES[c.choose(mc::q(2, 7), "type")];
    vector<string> a = {"0", "1", "-1", "2147483647", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775807", "-9223372036854775808"};
    Row r = {"0", c.pick(a, "v"), c.pick(a, "v"), c.pick(a, "v")};
    round_trip(c, {part(type, 1, 0, 0, 1, {r, {"1", "5", "6", "7"}}, p1)}, how, nullptr, p2, "\n");
    finish(c);
  });
  // (g) several relations one after the other on one medium
  mc::add("sequence", "2..3 relations of different shapes read one after the other from one stream or string", [](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    int n = 2 + c.choose(mc::q(1, 2), "count");
    bool file = c.flip("file");
    vector<Rel> all;
    string t;
    for (int k = 0; k < n; k++) {
      int type = TYPES[c.choose(7, "type")];
      int np = 1 + c.choose(2, "parts");
      int rows = c.choose(3, "rows");
      Rel m;
      for (int p = 0; p < np; p++) {
        vector<Row> rr;
        for (int i = 0; i < rows; i++) rr.push_back({std::to_string(i % 2), std::to_string(100 * k + 10 * p + i), "-1", std::to_string(k)});
        m.push_back(part(type, p, 0, 0, 2 - p, rr, prec));
      }
      osl_relation_p r = build(m);
      t += take(osl_relation_sprint(r));
      osl_relation_free(r);
      all.push_back(m);
    }
    c.state(std::to_string(prec) + t);
    Text x(t);
    In in(t);
    for (int k = 0; k < n; k++) {
      // the string reader expects the position at the type: skip what precedes
      if (!file) osl_util_sskip_blank_and_comments(&x.pos);
      osl_relation_p q = file ? osl_relation_pread(in.f, prec) : osl_relation_psread(&x.pos, prec);
      Rel got = see(q);
      c.check(got == all[k], "relation %d of the sequence: expected %s got %s", k, str(all[k]).c_str(), str(got).c_str());
      osl_relation_free(q);
    }
    finish(c);
  });
  // (h) lists
  mc::add("lists", "lists of 0..3 relations (each absent, single or union; any type), plain and named, all precisions", [](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    int n = c.choose(mc::q(4, 4), "length");
    int named = c.choose(3, "printer");
    vector<Rel> want;
    osl_relation_list_p l = nullptr, *tl = &l;
    for (int k = 0; k < n; k++) {
      int e = c.choose(4, "element");
      *tl = (osl_relation_list_p)mc::lalloc(sizeof(osl_relation_list_t));
      (*tl)->next = nullptr;
      (*tl)->elt = nullptr;
      if (e > 0) {
        int type = TYPES[c.choose(n == 3 ? mc::q(4, 7) : 7, "type")];
        Rel m;
        int np = e == 2 ? 2 : 1;
        for (int p = 0; p < np; p++) {
          vector<Row> rr;
          for (int i = 0; i < (e == 3 ? 0 : 2 - p); i++) rr.push_back({std::to_string(i % 2), std::to_string(100 * k + 10 * p + i), "-1", std::to_string(k)});
          m.push_back(part(type, p, 0, 0, 2 - p, rr, prec));
        }
        (*tl)->elt = build(m);
        want.push_back(m);
      }
      tl = &(*tl)->next;
    }
    osl_names_p nm = named == 2 ? build_names(seq("Q", 2), seq("j", 2), seq("s", 2), {}, seq("B", 2)) : nullptr;
    string t = printed([&](FILE* f) {
      if (named) osl_relation_list_pprint(f, l, nm); else osl_relation_list_print(f, l);
    });
    c.state(std::to_string(prec) + t + text(l));
    for (int k = 0; k < 2; k++) {
      c.step();
      In in(t + "5\n");
      setenv("OSL_PRECISION", penv(prec), 1);
      osl_relation_list_p q = k ? osl_relation_list_read(in.f) : osl_relation_list_pread(in.f, prec);
      unsetenv("OSL_PRECISION");
      vector<Rel> got;
      size_t nodes = 0;
      for (osl_relation_list_p e = q; e; e = e->next, ++nodes) if (e->elt) got.push_back(see(e->elt));
      c.check(nodes == got.size(), "the list read has %zu nodes for %zu relations", nodes, got.size());
      c.check(got.size() == want.size(), "list of %zu relations read back as %zu", want.size(), got.size());
      for (size_t i = 0; i < got.size(); i++)
        c.check(got[i] == want[i], "list element %zu: expected %s got %s", i, str(want[i]).c_str(), str(got[i]).c_str());
      string rest = in.rest();
      while (true) {  // what follows the list: blank or comment lines, then the marker
        size_t e = rest.find('\n');
        if (e == string::npos || !(blank(rest.substr(0, e)) || rest[0] == '#')) break;
        rest = rest.substr(e + 1);
      }
      c.check(rest == "5\n", "reading the list left '%s'", cut(rest).c_str());
      osl_relation_list_free(q);
    }
    // elements only, without the count
    string e = printed([&](FILE* f) { osl_relation_list_pprint_elts(f, l, nm); });
    c.check(t.size() >= e.size() && t.compare(t.size() - e.size(), e.size(), e) == 0, "pprint_elts differs from the elements of pprint");
    if (nm) osl_names_free(nm);
    osl_relation_list_free(l);
    finish(c);
  });
}
