// Media: what the library prints to files and strings, and texts to read.
#pragma once
#include "model.hpp"

namespace md {
// text printed on a FILE*
inline string printed(const std::function<void(FILE*)>& f) {
  struct Mem {
    char* b = nullptr;
    size_t n = 0;
    FILE* o;
    Mem() { o = open_memstream(&b, &n); }
    void close() { if (o) fclose(o); o = nullptr; }
    ~Mem() { close(); ::free(b); }
  } m;
  f(m.o);
  m.close();
  return string(m.b, m.n);
}
// takes ownership of a string returned by the library
inline string take(char* s) {
  string r = s ? s : "";
  mc::lfree(s);
  return r;
}
// a text in an exactly sized heap block (overreads are detected)
struct Text {
  char *base, *pos;
  size_t n;
  explicit Text(const string& s) : n(s.size()) {
    base = (char*)::malloc(n + 1);
    memcpy(base, s.data(), n);
    base[n] = 0;
    pos = base;
  }
  ~Text() { ::free(base); }
  long at() const { return pos - base; }
  string rest() const { return string(pos, base + n - pos); }
  Text(const Text&) = delete;
};
// an array in an exactly sized heap block
template <class T>
struct Blk {
  T* p;
  explicit Blk(const vector<T>& v) {
    p = (T*)::malloc(v.size() * sizeof(T));
    for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
  }
  ~Blk() { ::free(p); }
  Blk(const Blk&) = delete;
};
struct In {  // a text as a stream
  string s;
  FILE* f;
  explicit In(const string& t) : s(t) { f = s.empty() ? fopen("/dev/null", "r") : fmemopen((void*)s.data(), s.size(), "r"); }
  ~In() { if (f) fclose(f); }
  string rest() {
    string r;
    int ch;
    while ((ch = fgetc(f)) != EOF) r += (char)ch;
    return r;
  }
  In(const In&) = delete;
};
inline bool blank(const string& s) { return s.find_first_not_of(" \t\n\r\v\f") == string::npos; }
inline string cut(const string& s, size_t n = 300) { return s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + " bytes)"; }
// first point of difference, for messages
inline string differ(const string& a, const string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t s = i > 60 ? i - 60 : 0;
  return "at " + std::to_string(i) + ": expected '" + cut(a.substr(s), 200) + "' got '" + cut(b.substr(s), 200) + "'";
}
// names for every dimension kind; the strings are prefix + number
inline osl_names_p build_names(const vector<string>& par, const vector<string>& it, const vector<string>& sc,
                               const vector<string>& lo, const vector<string>& ar) {
  osl_names_p n = (osl_names_p)mc::lalloc(sizeof(osl_names_t));
  n->parameters = build_strings(par);
  n->iterators = build_strings(it);
  n->scatt_dims = build_strings(sc);
  n->local_dims = build_strings(lo);
  n->arrays = build_strings(ar);
  return n;
}
inline vector<string> seq(const string& p, int n) {
  vector<string> v;
  for (int i = 1; i <= n; i++) v.push_back(p + std::to_string(i));
  return v;
}
}  // namespace md
