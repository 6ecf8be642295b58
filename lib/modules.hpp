// Running the scenarios of other checks under another judgement.
#pragma once
#include "mc.hpp"
#define MODULES(X) X(C01) X(C03) X(C04) X(C05) X(C06) X(C07) X(C08) X(C09) X(C10) X(C11) X(C12) X(C13) X(C14) X(C15) X(C16) X(C17) X(C18) X(C20) X(C21) X(C22) X(C24) X(C25) X(C26) X(C27) X(C28)
#define X(m) void setup_##m();
MODULES(X)
#undef X
namespace mc {
// keep(module, scenario): which scenarios to run
inline void add_modules(std::function<bool(const std::string&, const std::string&)> k) {
#define X(m) prefix = #m ": "; keep = [k](const std::string& s) { return !k || k(#m, s); }; setup_##m();
  MODULES(X)
#undef X
  prefix = "";
  keep = nullptr;
}
// the scenarios that repeat what the others reach with more data only
inline bool one_of(const std::string& n, const std::vector<const char*>& v) {
  for (const char* h : v) if (n.compare(0, strlen(h), h) == 0) return true;
  return false;
}
// ... the scenarios whose calls all appear in others too
inline bool redundant(const std::string& m, const std::string& s) {
  return one_of(m + ": " + s, {"C05: two-ops", "C05: large", "C03: shapes", "C03: unions", "C18: characters", "C15: setters", "C15: relations", "C15: components", "C11: nodes", "C14: ", "C10: long", "C09: types", "C07: two", "C04: order",
                               "C04: one SCoP, two", "C04: in a statement: dependence", "C04: in a SCoP: dependence", "C22: t", "C22: u", "C22: a", "C01: small", "C12: ", "C06: clone", "C06: modify", "C06: elements", "C04: in", "C24: ", "C13: one", "C13: components"});
}
inline bool heavy(const std::string& m, const std::string& s) {
  return one_of(m + ": " + s, {"C01: boundary", "C01: sequences", "C01: every", "C01: predicates-every", "C01: conversions-every", "C03: cells", "C03: names", "C03: cross-precision", "C08: histories", "C12: two variations", "C16: extension",
                            "C18: values", "C18: texts",  "C22: three", "C22: more", "C22: large", "C09: one list", "C14: relation", "C14: markers", "C14: array", "C03: widths", "C26: one read", "C26: three reads", "C17: payloads: two", "C06: wide: ", "C07: wide", "C07: elements", "C12: elements", "C04: lists", "C24: wide dumps", "C13: components"});
}
}  // namespace mc
