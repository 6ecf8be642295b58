#include "mc.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <unordered_map>
#include <unordered_set>

#include <gmp.h>

// the checker's own objects stay out of the address checker (its bookkeeping would
// dominate the cost of an execution); the library's blocks all go through it
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
void* operator new(size_t n) {
  void* p = __libc_malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __libc_free(p); }
void operator delete[](void* p) noexcept { __libc_free(p); }
void operator delete(void* p, size_t) noexcept { __libc_free(p); }
void operator delete[](void* p, size_t) noexcept { __libc_free(p); }

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:"
         "max_malloc_fill_size=1048576:malloc_fill_byte=190:"
         "detect_stack_use_after_return=0:handle_segv=1:print_summary=1:"
         "quarantine_size_mb=16:allow_user_segv_handler=1:max_allocation_size_mb=512:"
         "strict_string_checks=0:symbolize=1";
}
extern "C" const char* __ubsan_default_options() {
  return "halt_on_error=1:print_stacktrace=1:exitcode=78";
}

namespace mc {

Tier tier = Tier::quick;
static std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> s;
  return s;
}
Mode mode = Mode::judge;
std::string prefix;
std::function<bool(const std::string&)> keep;
int occurrences = 1;
void add(const std::string& n, const std::string& b, Body body) {
  if (keep && !keep(n)) return;
  scenarios().push_back({prefix + n, b, std::move(body), occurrences});
}

// ------------------------------------------------------------------ shared
static const int MAXC = 512;
struct Shared {  // one per running child
  volatile uint64_t heartbeat;
  volatile int nchoices;
  int choices[MAXC];
  int arity[MAXC];
  volatile int failed;
  char msg[4096];
  // results, updated continuously
  uint64_t executions, transitions;
  volatile int done;     // exhausted its subtree
  volatile int capped;   // stopped at the deadline
};
static Shared* sh = nullptr;  // in child
static double deadline = 0;

static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ alloc
static const size_t TB = 1 << 16;
static std::unordered_map<void*, size_t>* tab;  // harness memory, untracked
long fail_at = 0, alloc_count = 0;
int untracked = 0;
static bool injected = false;       // the failure has happened in this execution
static off_t err_pos = 0;           // length of stderr when it happened
static bool recording = false;
static std::vector<uint64_t> points;  // allocation points of the execution
static uint64_t __attribute__((noinline)) call_stack() {
  uint64_t h = 88172645463325252ull;
  uintptr_t* f = (uintptr_t*)__builtin_frame_address(0);
  uintptr_t lo = (uintptr_t)f, hi = lo + (1 << 20);
  for (int i = 0; i < 16; i++) {
    h = (h ^ f[1]) * 0x100000001B3ull;
    h ^= h >> 29;
    uintptr_t* n = (uintptr_t*)f[0];
    if ((uintptr_t)n <= (uintptr_t)f || (uintptr_t)n > hi || ((uintptr_t)n & 7)) break;
    f = n;
  }
  return h;
}
static bool __attribute__((noinline)) should_fail() {
  if (untracked) return false;
  ++alloc_count;
  if (recording) points.push_back(call_stack());
  if (fail_at > 0 && alloc_count == fail_at) {
    injected = true;
    fflush(stderr);
    err_pos = lseek(2, 0, SEEK_CUR);
    return true;
  }
  return false;
}
static void track(void* p, size_t n) {
  if (!p || untracked) return;
  if (!tab) { tab = new std::unordered_map<void*, size_t>(); tab->reserve(4096); }
  (*tab)[p] = n;
}
long live() { return tab ? (long)tab->size() : 0; }
void forget() {
  if (tab) tab->clear();
  fail_at = 0;
  alloc_count = 0;
}
std::string live_desc() {
  std::string s;
  int k = 0;
  std::vector<size_t> v;
  if (tab) for (auto& e : *tab) v.push_back(e.second);
  std::sort(v.begin(), v.end());
  for (size_t n : v) {
    if (k++ == 8) { s += "..."; break; }
    s += std::to_string(n) + "B ";
  }
  return s;
}
Snap snapshot() {
  Snap s;
  if (tab) for (auto& e : *tab) s[e.first] = std::string((char*)e.first, e.second);
  return s;
}
std::string changed(const Snap& b) {
  std::string r;
  for (auto& e : b) {
    auto it = tab ? tab->find(e.first) : decltype(tab->find(nullptr))();
    if (!tab || it == tab->end()) { r += "a block of " + std::to_string(e.second.size()) + " bytes was released; "; continue; }
    if (it->second != e.second.size() || memcmp(e.first, e.second.data(), e.second.size())) {
      size_t k = 0;
      while (k < e.second.size() && ((char*)e.first)[k] == e.second[k]) ++k;
      r += "byte " + std::to_string(k) + " of a block of " + std::to_string(e.second.size()) + " bytes was modified; ";
    }
  }
  if (tab) for (auto& e : *tab) if (!b.count(e.first)) r += "a block of " + std::to_string(e.second) + " bytes was left over; ";
  return r.substr(0, 600);
}
}  // namespace mc

extern "C" {
void* vf_malloc(size_t n) {
  if (mc::should_fail()) return nullptr;
  void* p = malloc(n ? n : 1);
  mc::track(p, n);
  return p;
}
void* vf_calloc(size_t a, size_t b) {
  if (mc::should_fail()) return nullptr;
  void* p = calloc(a, b);
  mc::track(p, a * b);
  return p;
}
void* vf_realloc(void* q, size_t n) {
  if (mc::should_fail()) return nullptr;
  if (q && mc::tab) mc::tab->erase(q);
  void* p = realloc(q, n ? n : 1);
  mc::track(p, n);
  return p;
}
void vf_free(void* p) {
  if (p && mc::tab) mc::tab->erase(p);
  free(p);
}
char* vf_strdup(const char* s) {
  if (mc::should_fail()) return nullptr;
  char* p = strdup(s);
  mc::track(p, p ? strlen(p) + 1 : 0);
  return p;
}
char* vf_strndup(const char* s, size_t n) {
  if (mc::should_fail()) return nullptr;
  char* p = strndup(s, n);
  mc::track(p, p ? strlen(p) + 1 : 0);
  return p;
}
// GMP memory: tracked, never failed (GMP aborts on its own)
static void* g_alloc(size_t n) {
  void* p = malloc(n);
  mc::track(p, n);
  return p;
}
static void* g_realloc(void* q, size_t, size_t n) {
  bool was = q && mc::tab && mc::tab->erase(q);
  void* p = realloc(q, n);
  if (was) mc::track(p, n);
  return p;
}
static void g_free(void* p, size_t) {
  if (p && mc::tab) mc::tab->erase(p);
  free(p);
}
}

namespace mc {
void lfree(void* p) { vf_free(p); }
char* lstrdup(const char* s) {
  char* p = strdup(s);
  track(p, strlen(s) + 1);
  return p;
}
void* lalloc(size_t n) {
  void* p = malloc(n ? n : 1);
  track(p, n);
  return p;
}

// ------------------------------------------------------------------ exit
struct Died { int code; };      // the library called exit()
struct FaultSeen { int code; bool reported; };  // ... after the injected failure
struct Abandon {};              // memory mode: failed for another reason
static int guards = 0;          // dies() in progress
static void record_fail(const char* m) {
  if (sh) {
    snprintf(sh->msg, sizeof sh->msg, "%s", m);
    sh->failed = 1;
  }
  fflush(stderr);
  _exit(42);
}
bool dies(const std::function<void()>& fn) {
  struct Guard { Guard() { ++guards; } ~Guard() { --guards; } } g;
  try {
    fn();
  } catch (Died&) {
    return true;
  }
  return false;
}
static int exit_called(int code) {  // 0: throw nothing
  if (injected) {
    fflush(stderr);
    throw FaultSeen{code, lseek(2, 0, SEEK_CUR) > err_pos};
  }
  if (guards) throw Died{code};
  if (sh && mode == Mode::memory) throw Abandon();
  if (sh) {
    char b[128];
    snprintf(b, sizeof b, "library terminated the process with exit(%d)", code);
    record_fail(b);
  }
  return 0;
}
}  // namespace mc
extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int code) __attribute__((noreturn));
void __wrap_exit(int code) {
  mc::exit_called(code);
  __real_exit(code);
}
}

namespace mc {
// ------------------------------------------------------------------ Ctx
static const int SHARD_DEPTH = 3;
int Ctx::choose(int n, const char* what) {
  if (n <= 0) fail("harness: choose(%d) %s", n, what);
  if (pos == MAXC) fail("harness: more than %d choices", MAXC);
  int v;
  if (pos < choices.size()) {
    v = choices[pos];
    if (pos < arity.size() && arity[pos] != n && arity[pos] >= 0)
      fail("harness: non-deterministic replay at choice %zu (%d vs %d) %s", pos, arity[pos], n, what);
    if (pos >= arity.size()) arity.push_back(n);
    if (v >= n) fail("harness: replay choice out of range at %zu", pos);
  } else {
    v = 0;
    choices.push_back(0);
    arity.push_back(n);
  }
  if (sh) {
    sh->choices[pos] = v;
    sh->arity[pos] = n;
    sh->nchoices = pos + 1;
  }
  ++pos;
  if (tracing_ && n > 1) note("  choose %s: %d of %d", what, v, n);
  if ((int)pos == SHARD_DEPTH && !replay && nshards > 1) {
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < SHARD_DEPTH; i++) h = (h ^ (choices[i] + 1)) * 1099511628211ull;
    h ^= h >> 29;
    if ((int)(h % nshards) != shard) throw Prune();
  }
  return v;
}
static bool owned_short(const Ctx& c) {
  if (c.nshards <= 1 || c.replay || (int)c.pos >= SHARD_DEPTH) return true;
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < c.pos; i++) h = (h ^ (c.choices[i] + 1)) * 1099511628211ull;
  h ^= h >> 29;
  return (int)(h % c.nshards) == c.shard;
}
static uint64_t hash64(const std::string& s) {
  uint64_t h = 0x9E3779B97F4A7C15ull ^ s.size();
  for (unsigned char ch : s) { h ^= ch; h *= 0x100000001B3ull; h ^= h >> 31; }
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
  return h;
}
static std::unordered_map<uint64_t, int> seen;  // hash -> remaining depth explored
static std::unordered_set<uint64_t> outcomes;
bool Ctx::state(const std::string& canon, int remaining) {
  uint64_t h = hash64(canon);
  if (replay) { if (tracing_) note("  state %s", canon.size() < 400 ? canon.c_str() : "(large)"); return true; }
  auto it = seen.find(h);
  if (again) return true;
  if (pos < preset) return true;  // replaying a prefix that is already being expanded
  if (it == seen.end()) { seen[h] = remaining; return true; }
  // a prefix shared by several shards must not be cut before ownership is known
  if ((int)pos < SHARD_DEPTH) { if (it->second < remaining) it->second = remaining; return true; }
  if (it->second >= remaining) return false;
  it->second = remaining;
  return true;
}
void Ctx::outcome(const std::string& s) {
  if (outcomes.size() < 2000000) outcomes.insert(hash64(s));
  if (tracing_) note("  outcome %s", s.c_str());
}
void Ctx::note(const char* fmt, ...) {
  if (!tracing_) return;
  char b[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  trace += b;
  trace += "\n";
  if (trace.size() > 200000) trace.resize(200000);
}
void Ctx::fail(const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (mode == Mode::memory && !strstr(b, "leak") && strncmp(b, "harness", 7)) throw Abandon();
  if (injected) {
    char t[3500];
    snprintf(t, sizeof t, "%.3400s", b);
    snprintf(b, sizeof b, "continued after memory request %ld failed: %s", fail_at, t);
  }
  if (tracing_) { fwrite(trace.data(), 1, trace.size(), stdout); printf("FAIL: %s\n", b); fflush(stdout); }
  record_fail(b);
  abort();
}
void Ctx::check(bool ok, const char* fmt, ...) {
  if (ok) return;
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  fail("%s", b);
}

// ------------------------------------------------------------------ child
static void release_all() {  // memory of an execution that was abandoned half way
  if (!tab) return;
  std::vector<void*> v;
  for (auto& e : *tab) v.push_back(e.first);
  tab->clear();
  for (void* p : v) free(p);
}
static void start(Ctx& c) {
  c.pos = 0;
  c.preset = c.choices.size();
  c.trace.clear();
  c.transitions = 0;
  injected = false;
  guards = 0;
  untracked = 0;
  if (mode == Mode::faults) release_all();
  forget();
}
static void run_body(const Scenario& s, Ctx& c) {
  start(c);
  try {
    s.body(c);
  } catch (Abandon&) {
    return;
  }
  if (c.pos < c.choices.size()) c.fail("harness: execution consumed %zu of %zu choices", c.pos, c.choices.size());
}
static std::unordered_map<uint64_t, int> failed_points;
static void run_one(const Scenario& s, Ctx& c) {
  if (mode != Mode::faults) { run_body(s, c); return; }
  struct Off { ~Off() { recording = false; } } off;
  points.clear();
  recording = true;
  run_body(s, c);
  recording = false;
  std::vector<uint64_t> P = points;
  uint64_t t = c.transitions;
  std::string trace = c.trace;
  c.choices.resize(c.pos);
  c.arity.resize(c.pos);
  for (size_t i = 0; i < P.size(); i++) {
    if (!c.replay && failed_points[P[i]] >= s.occ) continue;
    ++failed_points[P[i]];
    struct Again { Ctx& c; Again(Ctx& x) : c(x) { c.again = true; } ~Again() { c.again = false; } } again(c);
    if (lseek(2, 0, SEEK_CUR) > (4 << 20)) { if (ftruncate(2, 0)) {} lseek(2, 0, SEEK_SET); }
    start(c);
    fail_at = (long)i + 1;
    if (sh) ++sh->heartbeat;
    bool ended = false, reported = false;
    int code = 0;
    try {
      s.body(c);
    } catch (FaultSeen& f) {
      ended = true;
      code = f.code;
      reported = f.reported;
    }
    ++t;
    if (injected) {
      if (!ended) { injected = false; c.fail("memory request %zu failed and the execution went on to its end", i + 1); }
      if (!reported) { injected = false; c.fail("exit(%d) without any report after memory request %zu failed", code, i + 1); }
      if (code == 0) { injected = false; c.fail("exit status 0 after memory request %zu failed", i + 1); }
    }
    injected = false;
  }
  release_all();
  forget();
  c.pos = c.choices.size();
  c.transitions = t;
  c.trace = trace;
}
static bool next(std::vector<int>& ch, std::vector<int>& ar) {
  while (!ch.empty()) {
    if (ch.back() + 1 < ar.back()) { ++ch.back(); return true; }
    ch.pop_back();
    ar.pop_back();
  }
  return false;
}
static void child(const Scenario& s, int shard, int nshards, std::vector<int> ch, std::vector<int> ar,
                  const std::string& statefile, bool trace_mode) {
  Ctx c;
  c.shard = shard;
  c.nshards = nshards;
  c.choices = ch;
  c.arity = ar;
  bool have = true;
  std::vector<std::vector<int>> samples;
  while (have) {
    bool pruned = false;
    sh->nchoices = 0;
    try {
      run_one(s, c);
    } catch (Prune&) {
      pruned = true;
    }
    c.choices.resize(c.pos);
    c.arity.resize(c.pos);
    if (!pruned && owned_short(c)) {
      ++sh->executions;
      sh->transitions += c.transitions;
      uint64_t e = sh->executions;
      if (e == 1 || e == 17 || e == 1009) samples.push_back(c.choices);
    }
    ++sh->heartbeat;
    have = next(c.choices, c.arity);
    if ((sh->heartbeat & 63) == 0 && have && now() > deadline) { sh->capped = 1; break; }
  }
  FILE* f = fopen(statefile.c_str(), "ab");
  if (f) {
    for (auto& e : seen) fwrite(&e.first, 8, 1, f);
    fclose(f);
  }
  f = fopen((statefile + ".out").c_str(), "ab");
  if (f) {
    for (auto e : outcomes) fwrite(&e, 8, 1, f);
    fclose(f);
  }
  f = fopen((statefile + ".smp").c_str(), "a");
  if (f) {
    for (auto& v : samples) {
      for (int x : v) fprintf(f, "%d ", x);
      fprintf(f, "\n");
    }
    fclose(f);
  }
  sh->done = 1;
  (void)trace_mode;
  _exit(0);
}

struct Viol {
  std::string scenario;
  std::vector<int> choices;
  std::string msg, trace;
};

static Shared* new_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  memset(p, 0, sizeof(Shared));
  return (Shared*)p;
}
static void redirect_quiet() {
  int n = open("/dev/null", O_WRONLY);
  if (n >= 0) { dup2(n, 2); close(n); }
}
static void redirect_counted(const std::string& f) {  // stderr whose length can be asked
  int n = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (n >= 0) { dup2(n, 2); close(n); unlink(f.c_str()); }
}
static void limits() {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

// Re-runs one choice sequence alone.  Returns 0 ok, 1 failed, 2 hang.
static int replay(const Scenario& s, const std::vector<int>& ch, std::string& msg, std::string& trace, const std::string& tmp, double limit) {
  Shared* S = new_shared();
  std::string of = tmp + "/replay.out", ef = tmp + "/replay.err";
  pid_t p = fork();
  if (p == 0) {
    sh = S;
    limits();
    int o = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(o, 1);
    dup2(e, 2);
    Ctx c;
    c.replay = true;
    c.tracing_ = true;
    c.choices = ch;
    try { run_one(s, c); } catch (Prune&) {}
    fwrite(c.trace.data(), 1, c.trace.size(), stdout);
    fflush(stdout);
    S->done = 1;
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  bool hung = false;
  while (waitpid(p, &st, WNOHANG) == 0) {
    usleep(2000);
    if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
  }
  auto slurp = [](const std::string& f) {
    std::string r;
    FILE* h = fopen(f.c_str(), "r");
    if (!h) return r;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, h)) > 0 && r.size() < 100000) r.append(b, n);
    fclose(h);
    return r;
  };
  trace = slurp(of);
  std::string err = slurp(ef);
  int rc;
  if (hung) { rc = 2; msg = "execution does not terminate"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->done) rc = 0;
  else {
    rc = 1;
    if (S->failed) msg = S->msg;
    else if (WIFSIGNALED(st)) msg = std::string("crash: signal ") + strsignal(WTERMSIG(st));
    else msg = "crash: child exit " + std::to_string(WEXITSTATUS(st));
    if (!S->failed) {
      size_t a = err.find("ERROR: AddressSanitizer");
      if (a == std::string::npos) a = err.find("runtime error:");
      if (a != std::string::npos) {
        size_t e = err.find('\n', a);
        msg += ": " + err.substr(a, std::min(e - a, (size_t)300));
      }
    }
  }
  if (err.size() > 6000) err = err.substr(0, 3000) + "\n...\n" + err.substr(err.size() - 3000);
  trace += "--- stderr of the execution ---\n" + err;
  munmap(S, sizeof(Shared));
  return rc;
}

static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

static std::set<std::string> load_known(const std::string& file, const std::string& id) {
  std::set<std::string> r;
  FILE* f = fopen(file.c_str(), "r");
  if (!f) return r;
  char b[8192];
  std::string pre = "finding: property=" + id + " ";
  while (fgets(b, sizeof b, f)) {
    std::string l = b;
    while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
    if (l.compare(0, pre.size(), pre) == 0) r.insert(l.substr(pre.size()));
  }
  fclose(f);
  return r;
}

int main_(int argc, char** argv, const Property& prop) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  mp_set_memory_functions(g_alloc, g_realloc, g_free);
  std::string cmd = argc > 1 ? argv[1] : "quick";
  mode = prop.mode;
  std::string root = getenv("VERIF_ROOT") ? getenv("VERIF_ROOT") : "/verif";
  std::string tmp = getenv("VERIF_TMP") ? getenv("VERIF_TMP") : "/tmp";
  std::string only = getenv("VERIF_ONLY") ? getenv("VERIF_ONLY") : "";
  int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
  if (cmd == "thorough") tier = Tier::thorough;
  signal(SIGPIPE, SIG_IGN);

  if (cmd == "replay") {
    if (argc < 3) return 2;
    FILE* f = fopen(argv[2], "r");
    if (!f) { perror(argv[2]); return 2; }
    char b[65536];
    std::string sc, tr;
    std::vector<int> ch;
    while (fgets(b, sizeof b, f)) {
      std::string l = b;
      while (!l.empty() && l.back() == '\n') l.pop_back();
      if (l.compare(0, 10, "scenario: ") == 0) sc = l.substr(10);
      if (l.compare(0, 6, "tier: ") == 0 && l.substr(6) == "thorough") tier = Tier::thorough;
      if (l.compare(0, 9, "choices: ") == 0) {
        const char* p = l.c_str() + 9;
        char* e;
        for (long v = strtol(p, &e, 10); e != p; v = strtol(p, &e, 10)) { ch.push_back((int)v); p = e; }
      }
      if (l.compare(0, 4, "----") == 0) break;
    }
    fclose(f);
    setup();
    for (auto& s : scenarios())
      if (s.name == sc) {
        std::string msg, trace;
        int rc = replay(s, ch, msg, trace, tmp, 60);
        printf("%s", trace.c_str());
        if (rc) { printf("REPRODUCED: %s\nVIOLATION property=%s replay=%s\n", msg.c_str(), prop.id, argv[2]); return 1; }
        printf("not reproduced\n");
        return 0;
      }
    fprintf(stderr, "unknown scenario %s\n", sc.c_str());
    return 2;
  }

  double t0 = now();
  setup();
  double budget = thorough() ? 780 : 420;
  if (getenv("VERIF_BUDGET")) budget = atof(getenv("VERIF_BUDGET"));
  deadline = t0 + budget;
  int ncpu = (int)sysconf(_SC_NPROCESSORS_ONLN);
  if (ncpu < 1) ncpu = 1;
  if (ncpu > 16) ncpu = 16;
  if (getenv("VERIF_JOBS")) ncpu = atoi(getenv("VERIF_JOBS"));  // for experiments: fewer processes, stop at the first violation
  size_t most = getenv("VERIF_FIRST") ? 1 : 24;
  int nsh = 8;
  struct Task {
    int sc, shard;
    std::vector<int> ch, ar;
    pid_t pid = 0;
    Shared* S = nullptr;
    uint64_t hb = 0;
    double hbt = 0;
    int fails = 0;
    bool finished = false;
  };
  std::vector<Task> tasks;
  for (size_t i = 0; i < scenarios().size(); i++) {
    if (!only.empty() && scenarios()[i].name.find(only) == std::string::npos) continue;
    for (int k = 0; k < nsh; k++) {
      Task t;
      t.sc = (int)i;
      t.shard = k;
      tasks.push_back(t);
    }
  }
  std::vector<uint64_t> execs(scenarios().size()), trans(scenarios().size());
  std::vector<bool> capped(scenarios().size());
  std::vector<Viol> viols;
  std::set<std::string> viol_key;
  std::map<int, int> nviol_sc;
  size_t running = 0;
  auto sfile = [&](int sc) { return tmp + "/st." + std::to_string(sc); };
  auto launch = [&](Task& t) {
    if (!t.S) t.S = new_shared();
    t.S->failed = 0;
    t.S->done = 0;
    t.S->nchoices = 0;
    t.pid = fork();
    if (t.pid == 0) {
      sh = t.S;
      limits();
      if (mode == Mode::faults) redirect_counted(tmp + "/err." + std::to_string(getpid()));
      else redirect_quiet();
      child(scenarios()[t.sc], t.shard, nsh, t.ch, t.ar,
            sfile(t.sc) + "." + std::to_string(t.shard), false);
    }
    t.hb = t.S->heartbeat;
    t.hbt = now();
    ++running;
  };
  size_t nexttask = 0;
  size_t left = tasks.size();
  bool stop = false;
  while (left > 0) {
    if (stop) {
      for (auto& t : tasks)
        if (t.pid) { kill(t.pid, SIGKILL); int st; waitpid(t.pid, &st, 0); execs[t.sc] += t.S->executions; trans[t.sc] += t.S->transitions; }
      for (auto& t : tasks) if (!t.finished) capped[t.sc] = true;
      break;
    }
    while (running < (size_t)ncpu && nexttask < tasks.size()) launch(tasks[nexttask++]);
    bool progress = false;
    for (auto& t : tasks) {
      if (!t.pid) continue;
      int st;
      pid_t r = waitpid(t.pid, &st, WNOHANG);
      bool hung = false;
      if (r == 0) {
        if (t.S->heartbeat != t.hb) { t.hb = t.S->heartbeat; t.hbt = now(); }
        else if (now() - t.hbt > 20) { kill(t.pid, SIGKILL); waitpid(t.pid, &st, 0); hung = true; }
        if (!hung) continue;
      }
      progress = true;
      --running;
      t.pid = 0;
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && t.S->done) {
        execs[t.sc] += t.S->executions;
        trans[t.sc] += t.S->transitions;
        if (t.S->capped) capped[t.sc] = true;
        t.finished = true;
        --left;
        munmap(t.S, sizeof(Shared));
        t.S = nullptr;
        continue;
      }
      // failed execution: confirm by replaying it alone
      int n = t.S->nchoices;
      std::vector<int> ch(t.S->choices, t.S->choices + n), ar(t.S->arity, t.S->arity + n);
      const Scenario& s = scenarios()[t.sc];
      std::string msg, trace;
      int rc = replay(s, ch, msg, trace, tmp, 40);
      if (rc == 0) {
        std::string first = t.S->failed ? t.S->msg : "child died";
        if (first.compare(0, 8, "harness:") == 0 || !hung) {
          // not reproducible alone: depends on earlier executions in the same process
          // (e.g. library global state).  Report as violation only if it repeats
          // when the whole shard is run again from scratch.
          fprintf(stderr, "note: %s: '%s' did not reproduce alone\n", s.name.c_str(), first.c_str());
          if (t.fails >= 1) {
            msg = first + " (reproducible only after the preceding executions of the same process: state leaks between calls)";
            rc = 1;
          } else {
            t.fails++;
            t.ch.clear();
            t.ar.clear();
            t.S->executions = t.S->transitions = 0;
            launch(t);
            continue;
          }
        }
      }
      if (rc != 0) {
        std::string key = s.name + " | ";
        for (size_t i = 0; i < msg.size(); i++) {  // addresses vary
          if (msg.compare(i, 2, "0x") == 0) { size_t j = i + 2; while (j < msg.size() && isxdigit((unsigned char)msg[j])) ++j; key += "ADDR"; i = j - 1; }
          else key += msg[i];
        }
        if (viol_key.insert(key).second && viols.size() < 40) viols.push_back({s.name, ch, msg, trace});
        nviol_sc[t.sc]++;
        if (rc == 2 || viol_key.size() >= most) stop = true;
      }
      t.fails++;
      if (t.fails > 12 || nviol_sc[t.sc] > 40 || !next(ch, ar)) {
        execs[t.sc] += t.S->executions;
        trans[t.sc] += t.S->transitions;
        if (t.fails > 12 || nviol_sc[t.sc] > 40) capped[t.sc] = true;
        t.finished = true;
        --left;
        continue;
      }
      t.ch = ch;
      t.ar = ar;
      launch(t);
    }
    if (!progress) usleep(1000);
  }

  // -------- aggregate
  uint64_t states = 0, noutc = 0, E = 0, T = 0;
  bool all = true;
  std::string scj, samples;
  int nsamples = 0;
  for (size_t i = 0; i < scenarios().size(); i++) {
    const Scenario& s = scenarios()[i];
    if (!only.empty() && s.name.find(only) == std::string::npos) continue;
    auto load = [&](const std::string& suffix) {
      std::vector<uint64_t> v;
      for (int k = 0; k < nsh; k++) {
        FILE* f = fopen((sfile(i) + "." + std::to_string(k) + suffix).c_str(), "rb");
        if (!f) continue;
        uint64_t x;
        while (fread(&x, 8, 1, f) == 1) v.push_back(x);
        fclose(f);
      }
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
      return v.size();
    };
    uint64_t ns = load(""), no = load(".out");
    states += ns;
    noutc += no;
    E += execs[i];
    T += trans[i];
    if (capped[i]) all = false;
    char b[512];
    snprintf(b, sizeof b, "%s{\"scenario\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,\"distinct_outcomes\":%llu,\"complete\":%s,\"bounds\":\"",
             scj.empty() ? "" : ",", jesc(s.name).c_str(), (unsigned long long)ns, (unsigned long long)trans[i],
             (unsigned long long)execs[i], (unsigned long long)no, capped[i] ? "false" : "true");
    scj += b;
    scj += jesc(s.bounds) + "\"}";
    printf("%-34s executions=%-9llu states=%-9llu transitions=%-9llu outcomes=%-7llu %s\n", s.name.c_str(),
           (unsigned long long)execs[i], (unsigned long long)ns, (unsigned long long)trans[i], (unsigned long long)no,
           capped[i] ? "CAPPED" : "complete");
    // samples
    if (nsamples < 6 && viols.empty()) {
      for (int k = 0; k < nsh && nsamples < 6; k += 5) {
        FILE* f = fopen((sfile(i) + "." + std::to_string(k) + ".smp").c_str(), "r");
        if (!f) continue;
        char l[8192];
        std::string last;
        while (fgets(l, sizeof l, f)) last = l;
        fclose(f);
        if (last.empty()) continue;
        std::vector<int> ch;
        const char* p = last.c_str();
        char* e;
        for (long v = strtol(p, &e, 10); e != p; v = strtol(p, &e, 10)) { ch.push_back((int)v); p = e; }
        std::string msg, trace;
        replay(s, ch, msg, trace, tmp, 60);
        size_t z = trace.find("--- stderr");
        if (z != std::string::npos) trace.resize(z);
        if (trace.size() > 1500) trace = trace.substr(0, 1500) + "...";
        samples += std::string(samples.empty() ? "" : ",") + "\"" + jesc(s.name + " choices=" + last + "\n" + trace) + "\"";
        ++nsamples;
        break;
      }
    }
  }
  std::set<std::string> known = load_known(root + "/known_findings.txt", prop.id);
  int nv = 0;
  std::string rdir = root + "/replays";
  mkdir(rdir.c_str(), 0755);
  std::string vio;
  for (auto& v : viols) {
    if (nv >= 8) break;
    std::string sig = v.scenario + " | " + v.msg;
    if (known.count(sig)) {
      printf("KNOWN-FINDING: property=%s %s\n", prop.id, sig.c_str());
      continue;
    }
    std::string path = rdir + "/" + prop.id + "-" + std::to_string(nv + 1) + ".replay";
    FILE* f = fopen(path.c_str(), "w");
    if (f) {
      fprintf(f, "property: %s\nscenario: %s\ntier: %s\nchoices: ", prop.id, v.scenario.c_str(), thorough() ? "thorough" : "quick");
      for (int x : v.choices) fprintf(f, "%d ", x);
      fprintf(f, "\nmessage: %s\nreplay with: ./run.sh %s replay %s\n----\n%s\n", v.msg.c_str(), prop.id, path.c_str(), v.trace.c_str());
      fclose(f);
    }
    printf("violation in %s: %s\n", v.scenario.c_str(), v.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", prop.id, path.c_str());
    ++nv;
  }
  std::string ev = getenv("VERIF_EVIDENCE") ? getenv("VERIF_EVIDENCE") : root + "/evidence/" + prop.id + ".json";
  FILE* f = fopen(ev.c_str(), "w");
  if (f) {
    fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\"coverage\":{", prop.id,
            thorough() ? "thorough" : "quick", seed);
    fprintf(f, "\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\"distinct_outcomes\":%llu,"
               "\"rule\":\"%s\",\"exhaustive\":%s,\"scenarios\":[%s],\"samples\":[%s]},",
            (unsigned long long)states, (unsigned long long)T, (unsigned long long)E, (unsigned long long)noutc,
            jesc(prop.rule).c_str(), all ? "true" : "false", scj.c_str(), samples.c_str());
    fprintf(f, "\"assumptions\":[");
    for (size_t i = 0; i < prop.assumptions.size(); i++)
      fprintf(f, "%s\"%s\"", i ? "," : "", jesc(prop.assumptions[i]).c_str());
    fprintf(f, "],\"wall_s\":%.2f,\"violations\":%d}\n", now() - t0, nv);
    fclose(f);
  }
  printf("%s: executions=%llu states=%llu transitions=%llu violations=%d wall=%.1fs\n", prop.id, (unsigned long long)E,
         (unsigned long long)states, (unsigned long long)T, nv, now() - t0);
  return nv ? 1 : 0;
}
}  // namespace mc

int main(int argc, char** argv) { return mc::main_(argc, argv, property()); }
