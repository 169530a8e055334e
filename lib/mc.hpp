// mc.hpp - stateless model checker: depth-first enumeration of every choice trail of a scenario,
// re-executing the real code from the start for each trail, over several forked workers.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Violation {
  std::string sig;  // stable identification of what failed (matched against known findings)
  std::string msg;
};
struct Prune {};

// ---- used by scenarios ------------------------------------------------------------------------
int choose(int n, const char *what = "");   // nondeterministic choice in [0,n)
[[noreturn]] void fail(const std::string &sig, const std::string &msg);
inline void require(bool c, const std::string &sig, const std::string &msg = "") {
  if (!c) fail(sig, msg);
}
#define MC_REQUIRE(c, sig, ...)                                    \
  do {                                                             \
    if (!(c)) ::mc::fail(sig, ::mc::format(__VA_ARGS__));          \
  } while (0)
std::string format(const char *fmt = "", ...) __attribute__((format(printf, 1, 2)));
void assume(bool c);                         // prune this trail if false
void state(uint64_t h);                      // record a visited state
void step(uint64_t n = 1);                   // record transitions
void nontrivial();                           // mark the current execution as non-trivial
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // trace line
bool verbose();                              // replaying?
bool thorough();
int worker_id();
const std::string &scratch();                // per-worker scratch directory (exists)
std::string fresh_dir();                     // new empty directory below scratch(); removed before the next execution
void add_eval(uint64_t n = 1);               // extra evaluations inside one execution (e.g. crash images)
void add_nontrivial(uint64_t n = 1);

// ---- hashing ----------------------------------------------------------------------------------
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
  return mix(h, n);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 7) { return hash_bytes(s.data(), s.size(), h ^ 1469598103934665603ULL); }

// ---- low-level trail access (for the thread scheduler) ------------------------------------------
int choose_raw(int n);

struct Scenario {
  std::string name;
  std::function<void()> body;
  bool thorough_only = false;
  bool serial = false;         // run in one worker only
  bool isolate = false;        // every execution in a forked process of its own (thread schedules)
  double hang_s = 60;          // an execution longer than this is a violation (non-termination)
};

struct Spec {
  std::string property;
  std::string level;           // model_checking | exploration | fault_enumeration
  std::string rule;
  std::vector<std::string> assumptions;
  int workers = 8;
  double deadline_s = 0;       // 0 = default per tier
  bool crash_is_violation = true;
};

int run_main(int argc, char **argv, const Spec &spec, const std::vector<Scenario> &scenarios);

}  // namespace mc
