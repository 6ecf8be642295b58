// Every reader of the library, with a base text, how to look at its result and how to free it.
#pragma once
#include "observers.hpp"

namespace rd {
using namespace gn;
struct Reader {
  string name, text;
  std::function<void*(FILE*)> file;   // one of the two media
  std::function<void*(char**)> str;
  std::function<void(void*)> free;
  std::function<string(const void*)> look;  // uses the result; its text
  bool null_frees = true;
  void* read(const string& s) const {
    if (file) { In in(s); return file(in.f); }
    Text in(s);
    return str(&in.pos);
  }
};
inline vector<string> split_tokens(const string& s, vector<std::pair<size_t, size_t>>& at) {
  vector<string> v;
  size_t i = 0;
  while (i < s.size()) {
    if (isspace((unsigned char)s[i])) { ++i; continue; }
    size_t b = i;
    while (i < s.size() && !isspace((unsigned char)s[i])) ++i;
    v.push_back(s.substr(b, i - b));
    at.push_back({b, i - b});
  }
  return v;
}
inline vector<string> split_lines(const string& s) {
  vector<string> v;
  string w;
  for (char ch : s) { w += ch; if (ch == '\n') { v.push_back(w); w.clear(); } }
  if (!w.empty()) v.push_back(w);
  return v;
}
inline string join(const vector<string>& v) { string s; for (auto& x : v) s += x; return s; }

// comments removed, to have short base texts whose every byte matters
inline string bare(const string& t) {
  string r;
  for (auto& l : split_lines(t)) {
    size_t h = l.find('#');
    string k = h == string::npos ? l : l.substr(0, h) + "\n";
    while (k.size() > 1 && k[k.size() - 2] == ' ') k.erase(k.size() - 2, 1);
    string q;  // single blanks
    for (char ch : k) if (!(ch == ' ' && (q.empty() || q.back() == ' '))) q += ch;
    if (q != "\n") r += q;
  }
  return r;
}
// ----------------------------------------------------------------- readers
const string MATRIX = "DOMAIN\n2 5 2 0 0 1\n0 1 -1 0 2\n1 0 1 1 -3\n";
const string ACCESS = "WRITE\n2 7 2 2 0 1\n0 -1 0 0 0 0 1\n0 0 -1 1 0 0 2\n";
const string SCATT = "SCATTERING\n1 6 1 2 0 1\n0 -1 1 0 0 0\n";
const string UNION = "DOMAIN\n2\n1 5 2 0 0 1\n0 1 -1 0 2\n1 6 2 0 1 1\n1 0 1 1 -3 4\n";
const string WIDE = "DOMAIN\n1 14 0 0 0 12\n1 0 -10 20 30 40 50 60 70 80 90 11 12 123\n";
const string BODY = "<body>\n# iterators\n2\nwordi wordj\nwordx[wordi][wordj] = wordy;\n</body>\n";
inline string scop_text(int k) {
  string s = "<OpenScop>\nC\nCONTEXT\n1 3 0 0 0 1\n1 1 -2\n1\n<strings>\nwordN\n</strings>\n";
  if (k == 0) return s + "1\n" + "2\n" + MATRIX + SCATT + "1\n" + BODY + "</OpenScop>\n";
  if (k == 1) return s + "2\n" + "4\n" + UNION + SCATT + ACCESS + ACCESS + "2\n" + BODY + "<comment>\nrem\n</comment>\n" + "0\n1\n" + BODY + "<arrays>\n2\n1 wordA\n2 wordB\n</arrays>\n<scatnames>\nworda wordb\n</scatnames>\n</OpenScop>\n";
  if (k == 2) return "<OpenScop>\nFORTRAN\nCONTEXT\n0 2 0 0 0 0\n0\n0\n<coordinates>\nwordfile\n1 2\n3 4\n5\n</coordinates>\n</OpenScop>\n<OpenScop>\nC\nCONTEXT\n0 2 0 0 0 0\n0\n0\n</OpenScop>\n";
  return "";
}
inline osl_interface_p registry() { return osl_interface_get_default_registry(); }
inline vector<Reader> readers(bool payloads, bool structures) {
  vector<Reader> v;
  osl_names_p (*nm)() = [] { return build_names(seq("P", 9), seq("i", 9), seq("c", 9), seq("l", 9), seq("A", 9)); };
  auto look_rel = [nm](const void* x) {
    auto r = (const osl_relation_t*)x;
    printed([&](FILE* f) { osl_relation_dump(f, r); });
    osl_relation_p y = osl_relation_clone((osl_relation_p)r);
    osl_relation_equal(r, y);
    osl_relation_free(y);
    osl_relation_integrity_check(r, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED);
    (void)nm;
    return text(r);
  };
  auto look_scop = [](const void* x) {
    auto s = (osl_scop_p)x;
    printed([&](FILE* f) { osl_scop_dump(f, s); });
    osl_scop_p y = osl_scop_clone(s);
    osl_scop_equal(s, y);
    osl_scop_free(y);
    osl_scop_integrity_check(s);
    return text(s);
  };
  if (structures) {
    for (auto& t : {MATRIX, ACCESS, UNION, WIDE}) {
      for (int p : PRECS) if (p == OSL_PRECISION_MP || (t != ACCESS && t != WIDE)) v.push_back({string("relation_pread ") + pname(p), t, [p](FILE* f) { return (void*)osl_relation_pread(f, p); }, nullptr, [](void* x) { osl_relation_free((osl_relation_p)x); }, look_rel});
      v.push_back({"relation_psread", t, nullptr, [](char** s) { return (void*)osl_relation_psread(s, OSL_PRECISION_MP); }, [](void* x) { osl_relation_free((osl_relation_p)x); }, look_rel});
    }
    v.push_back({"relation_psread_polylib", "2\n1 5 2 0 0 1\n0 1 -1 0 2\n1 5 2 0 0 1\n1 1 0 2 -3\n", nullptr, [](char** s) { return (void*)osl_relation_psread_polylib(s, OSL_PRECISION_MP); }, [](void* x) { osl_relation_free((osl_relation_p)x); }, look_rel});
    v.push_back({"relation_list_pread", "2\n" + ACCESS + "READ\n1 6 1 2 0 1\n0 -1 0 0 0 1\n", [](FILE* f) { return (void*)osl_relation_list_pread(f, OSL_PRECISION_MP); }, nullptr, [](void* x) { osl_relation_list_free((osl_relation_list_p)x); }, [](const void* x) {
                   auto l = (osl_relation_list_p)x;
                   printed([&](FILE* f) { osl_relation_list_dump(f, l); });
                   osl_relation_list_p y = osl_relation_list_clone(l);
                   osl_relation_list_equal(l, y);
                   osl_relation_list_free(y);
                   return text(l);
                 }});
    v.push_back({"statement_pread", "3\n" + MATRIX + SCATT + ACCESS + "1\n" + BODY, [](FILE* in) {
                   osl_interface_p g = registry();
                   struct F { osl_interface_p g; ~F() { osl_interface_free(g); } } f{g};
                   return (void*)osl_statement_pread(in, g, OSL_PRECISION_MP);
                 }, nullptr, [](void* x) { osl_statement_free((osl_statement_p)x); }, [](const void* x) {
                   auto s = (osl_statement_p)x;
                   printed([&](FILE* f) { osl_statement_dump(f, s); });
                   osl_statement_p y = osl_statement_clone(s);
                   osl_statement_equal(s, y);
                   osl_statement_free(y);
                   return text(s);
                 }});
    for (int k = 0; k < 3; k++) v.push_back({"scop_read " + std::to_string(k), scop_text(k), [](FILE* f) { return (void*)osl_scop_read(f); }, nullptr, [](void* x) { osl_scop_free((osl_scop_p)x); }, look_scop});
    v.push_back({"strings_read", "worda wordb wordc\n", [](FILE* f) { return (void*)osl_strings_read(f); }, nullptr, [](void* x) { osl_strings_free((osl_strings_p)x); }, [](const void* x) { return text((const osl_strings_t*)x); }});
    for (auto& t : {string("<strings>\nworda wordb\n</strings>\n<comment>\nrem\n</comment>\n"), string("<arrays>\n1\n1 worda\n</arrays>\n<unknown>\n7 8\n</unknown>\n<body>\n1\nwordi\nwordx;\n</body>\n")}) {
      auto look = [](const void* x) {
        auto l = (osl_generic_p)x;
        printed([&](FILE* f) { osl_generic_dump(f, l); });
        osl_generic_p y = osl_generic_clone(l);
        osl_generic_equal(l, y);
        osl_generic_free(y);
        return text(l);
      };
      auto fr = [](void* x) { osl_generic_free((osl_generic_p)x); };
      struct F { osl_interface_p g; F() : g(registry()) {} ~F() { osl_interface_free(g); } };
      v.push_back({"generic_sread", t, nullptr, [](char** s) { F f; return (void*)osl_generic_sread(s, f.g); }, fr, look});
      v.push_back({"generic_read", t + "</OpenScop>\n", [](FILE* s) { F f; return (void*)osl_generic_read(s, f.g); }, nullptr, fr, look});
      v.push_back({"generic_read_one", t, [](FILE* s) { F f; return (void*)osl_generic_read_one(s, f.g); }, nullptr, fr, look});
    }
  }
  if (payloads) {
    static vector<Subject> S = subjects();
    for (auto& s : S) {
      if (s.uri.empty() || s.uri == OSL_URI_NULL) continue;
      // the printed form of one value, without its comments
      static const std::map<string, string> T = {
          {OSL_URI_STRINGS, "worda wordb"}, {OSL_URI_COMMENT, "worda wordb\nwordc\n"}, {OSL_URI_TEXTUAL, "worda\nwordb\n"}, {OSL_URI_CLAY, "worda(wordb);\nwordc\n"},
          {OSL_URI_BODY, "# nb\n2\n# it\nwordi wordj\n# ex\nwordx[wordi] = wordy;\n"}, {OSL_URI_RELATION, MATRIX}, {OSL_URI_SCATNAMES, "worda wordb\n"}};
      auto it = T.find(s.uri);
      string t;
      if (it != T.end()) t = it->second;
      else {
        mc::Ctx c0;
        G g(c0);
        void* x = s.make(g, OSL_PRECISION_MP, 0);
        t = bare(s.print(x));
        s.free(x);
      }
      string u = s.uri;
      v.push_back({u, t, nullptr, [u](char** q) {
                     struct F { osl_interface_p g; ~F() { osl_interface_free(g); } } f{kind(u).itf()};
                     return f.g->sread(q);
                   }, s.free, [&s](const void* x) {
                     if (!x) return string();
                     printed([&](FILE* f) { s.idump(f, x, 0); });
                     void* y = s.clone(x);
                     s.equal(x, y);
                     s.free(y);
                     return s.text(x);
                   }, s.next != nullptr});
    }
  }
  return v;
}
}  // namespace rd
