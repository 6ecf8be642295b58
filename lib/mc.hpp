// Stateless explicit-choice model checker for sequential C code.
//
// A scenario is a function of a choice sequence: every call to Ctx::choose(n)
// is a branching point with n successors.  The explorer enumerates *all*
// choice sequences depth first, running the real library code on each, in
// forked children (one per shard), so crashes, sanitizer reports, library
// exit() calls and hangs become attributable to one choice sequence.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mc {

enum class Tier { quick, thorough };
extern Tier tier;
inline bool thorough() { return tier == Tier::thorough; }
// pick a bound by tier
inline int q(int quick_v, int thorough_v) { return thorough() ? thorough_v : quick_v; }

struct Prune {};  // thrown to abandon an execution that another shard owns / state seen

// What an execution is judged for.
//  judge:  everything the scenario states
//  memory: only crashes, sanitizer reports, hangs and leaks; an execution that
//          fails for any other reason is abandoned without a verdict
//  faults: every execution is repeated with an allocation failing, once per
//          allocation point (call stack) not failed before; each repetition
//          must end in a reported error and an orderly exit
enum class Mode { judge, memory, faults };
extern Mode mode;
extern std::string prefix;                              // prepended to scenario names
extern std::function<bool(const std::string&)> keep;    // which scenarios mc::add keeps
extern int occurrences;  // faults: how often the scenarios added from now on fail one allocation point

class Ctx {
 public:
  // ---- branching
  int choose(int n, const char* what = "");
  template <class T>
  const T& pick(const std::vector<T>& v, const char* what = "") {
    return v[choose((int)v.size(), what)];
  }
  bool flip(const char* what = "") { return choose(2, what) == 1; }
  // ---- states.  Returns true when the state (with this many remaining steps)
  // must still be expanded, false when an equivalent visit already covered it.
  bool state(const std::string& canon, int remaining = 0);
  void step() { ++transitions; }
  // ---- tracing
  bool tracing() const { return tracing_; }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  // distinct observable outcomes (non vacuity evidence)
  void outcome(const std::string& s);
  // ---- verdicts
  void check(bool ok, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));

  // internals
  std::vector<int> choices, arity;
  size_t pos = 0, preset = 0;
  uint64_t transitions = 0;
  bool tracing_ = false;
  std::string trace;
  int shard = 0, nshards = 1;
  bool replay = false, again = false;
};

using Body = std::function<void(Ctx&)>;
struct Scenario {
  std::string name;
  std::string bounds;  // human readable statement of the bounds explored
  Body body;
  int occ = 1;
};
void add(const std::string& name, const std::string& bounds, Body b);

// Runs fn; returns true if the library terminated the process (exit) in it.
// fn must not own C++ objects with destructors across library calls.
bool dies(const std::function<void()>& fn);

// ---- library allocation tracking: the library objects are linked with
// malloc/realloc/calloc/free/strdup redirected here.
long live();             // blocks allocated by the library and not yet freed
void forget();           // drop the table (start of an execution)
void lfree(void* p);     // free memory handed out by the library
char* lstrdup(const char* s);  // give the library a string it will own
void* lalloc(size_t n);
extern int untracked;    // >0: allocations are the harness's own
struct Own { Own() { ++untracked; } ~Own() { --untracked; } };
extern long fail_at;     // >0: the n-th library allocation from now returns NULL
extern long alloc_count; // library allocations since reset
std::string live_desc();
// contents of every block the library (or lalloc/lstrdup) holds
using Snap = std::map<void*, std::string>;
Snap snapshot();
std::string changed(const Snap& before);  // "" when nothing was modified, added or released

struct Property {
  const char* id;
  const char* rule;
  std::vector<std::string> assumptions;
  Mode mode = Mode::judge;
};
int main_(int argc, char** argv, const Property& p);

}  // namespace mc

// Every driver defines: property(), and setup() which registers scenarios.
mc::Property property();
void setup();
