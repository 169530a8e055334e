#include "mc.hpp"

#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <typeinfo>
#include <unordered_set>

namespace mc {
namespace {

constexpr int kMaxTrail = 1 << 16;
constexpr int kMaxWorkers = 16;
constexpr int kQueue = 256, kMaxItem = 4096;
constexpr int kMaxSig = 200, kMaxMsg = 3000, kMaxSamples = 6, kMaxSample = 2400;

struct WorkerShm {
  std::atomic<int> trail_len;
  uint16_t choice[kMaxTrail];
  uint16_t arity[kMaxTrail];
  std::atomic<uint64_t> execs, pruned, steps, nontrivial, evals;
  std::atomic<int64_t> exec_start_ms;  // 0 = idle
  std::atomic<int> violation;          // 1 = set
  char sig[kMaxSig];
  char msg[kMaxMsg];
  std::atomic<int> nsamples;
  char samples[2][kMaxSample];
  std::atomic<int> internal_error;
  char ierr[512];
};
struct Item {
  int len;
  uint16_t c[kMaxItem], n[kMaxItem];
};
struct IsoShm {  // result of an execution that ran in a process of its own
  std::atomic<int> done;
  int r, pos, len, nontriv, nstates, trace_len;
  uint64_t states[2048];
  char trace[1 << 16];
};
struct KnownHit {
  std::atomic<uint64_t> hits;
  char sig[kMaxSig];
  char msg[512];
};
struct Shm {
  std::atomic<int> stop;
  std::atomic<int> timed_out;
  // work queue of trail prefixes: idle workers take, busy workers give away their shallowest alternatives
  std::atomic<int> qlock;
  std::atomic<int> qn;       // items in the queue
  int qhead;
  int active;                // workers exploring an item
  Item q[kQueue];
  KnownHit known[64];
  WorkerShm w[kMaxWorkers];
};

Shm *g_shm = nullptr;
WorkerShm *g_w = nullptr;
int g_wid = 0;
int g_pos = 0;       // position in trail during an execution
int g_len = 0;       // length of recorded trail
IsoShm *g_iso = nullptr;
bool g_in_iso = false;
int g_workers_now = 1;
bool g_verbose = false, g_thorough = false, g_replay = false;
std::string g_scratch, g_root;
int g_dirno = 0;
std::string g_trace;
bool g_nontriv = false;
std::unordered_set<uint64_t> g_states;
std::set<std::string> g_known;
double g_deadline = 0;

double now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
int64_t now_ms() { return int64_t(now_s() * 1000) + 1; }

std::string vfmt(const char *fmt, va_list ap) {
  char buf[4096];
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  if (n < 0) return fmt;
  return std::string(buf, std::min<size_t>(size_t(n), sizeof buf - 1));
}

int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
void rm_tree(const std::string &p) {
  if (p.size() < 6 || p.find("/vpmc.") == std::string::npos) return;  // only ever our own scratch
  ::nftw(p.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS);
}

std::string json_esc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c == '\n')
      o += "\\n";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += char(c);
  }
  return o + "\"";
}

[[noreturn]] void internal_error(const std::string &m) {
  if (g_w) {
    g_w->internal_error = 1;
    snprintf(g_w->ierr, sizeof g_w->ierr, "%s", m.c_str());
  }
  fprintf(stderr, "mc: internal error: %s\n", m.c_str());
  if (g_shm) g_shm->stop = 1;
  _exit(77);
}

[[noreturn]] void iso_finish(int r) {
  g_iso->r = r;
  g_iso->pos = g_pos;
  g_iso->len = g_len;
  g_iso->nontriv = g_nontriv;
  int n = 0;
  for (uint64_t h : g_states)
    if (n < 2048) g_iso->states[n++] = h;
  g_iso->nstates = n;
  g_iso->trace_len = int(std::min<size_t>(g_trace.size(), sizeof g_iso->trace));
  memcpy(g_iso->trace, g_trace.data(), size_t(g_iso->trace_len));
  g_iso->done = 1;
  _exit(0);
}

int run_body(const Scenario &sc);
// the same, in a forked process: every execution starts from the same memory image and may end anywhere
int run_isolated(const Scenario &sc) {
  if (!g_iso) g_iso = static_cast<IsoShm *>(mmap(nullptr, sizeof(IsoShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_iso->done = 0;
  g_w->exec_start_ms = now_ms();
  pid_t p = fork();
  if (p < 0) internal_error("fork failed");
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_in_iso = true;
    g_states.clear();
    iso_finish(run_body(sc));
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  g_w->exec_start_ms = 0;
  if (g_w->internal_error) _exit(77);
  if (!g_iso->done) {
    std::string why = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"
                                      : "exited with status " + std::to_string(WEXITSTATUS(st));
    snprintf(g_w->sig, kMaxSig, "process-crash");
    snprintf(g_w->msg, kMaxMsg, "the code under test crashed: %s", why.c_str());
    g_len = g_w->trail_len;
    g_pos = g_len;
    return 2;
  }
  g_pos = g_iso->pos;
  g_len = g_iso->len;
  g_nontriv = g_iso->nontriv;
  g_trace.assign(g_iso->trace, size_t(g_iso->trace_len));
  for (int i = 0; i < g_iso->nstates; ++i)
    if (g_states.size() < 4000000) g_states.insert(g_iso->states[i]);
  return g_iso->r;
}

// Runs the scenario once along the current trail. Returns: 0 ok, 1 pruned, 2 violation
int run_body(const Scenario &sc) {
  g_pos = 0;
  g_trace.clear();
  g_nontriv = false;
  rm_tree(g_scratch + "/x");
  ::mkdir((g_scratch + "/x").c_str(), 0777);
  g_dirno = 0;
  g_w->exec_start_ms = now_ms();
  int r = 0;
  try {
    sc.body();
  } catch (const Prune &) {
    r = 1;
  } catch (const Violation &v) {
    snprintf(g_w->sig, kMaxSig, "%s", v.sig.c_str());
    snprintf(g_w->msg, kMaxMsg, "%s", v.msg.c_str());
    r = 2;
  } catch (const std::exception &e) {
    snprintf(g_w->sig, kMaxSig, "unexpected-exception");
    snprintf(g_w->msg, kMaxMsg, "exception escaped the scenario: %s: %s", typeid(e).name(), e.what());
    r = 2;
  }
  if (!g_in_iso) g_w->exec_start_ms = 0;
  if (r != 2 && g_pos < g_len)
    internal_error("nondeterminism: execution ended before its recorded trail (" + sc.name + ")");
  return r;
}
int run_once(const Scenario &sc) { return sc.isolate ? run_isolated(sc) : run_body(sc); }

struct QLock {
  QLock() {
    while (g_shm->qlock.exchange(1)) usleep(1);
  }
  ~QLock() { g_shm->qlock = 0; }
};
void q_push(int len, int last) {  // caller holds the lock; trail[0..len) with the last choice replaced
  Item &it = g_shm->q[(g_shm->qhead + g_shm->qn) % kQueue];
  it.len = len;
  memcpy(it.c, g_w->choice, sizeof(uint16_t) * size_t(len));
  memcpy(it.n, g_w->arity, sizeof(uint16_t) * size_t(len));
  if (len) it.c[len - 1] = uint16_t(last);
  g_shm->qn++;
}
// give away the shallowest untried alternatives; returns the new floor
int donate(int floor) {
  if (g_workers_now < 2 || g_shm->qn >= g_workers_now) return floor;
  for (int p = floor; p < g_len && p + 1 < kMaxItem; ++p) {
    int alts = g_w->arity[p] - 1 - g_w->choice[p];
    if (alts <= 0) {
      // everything above is done: raise the floor for good
      if (p == floor) floor = p + 1;
      continue;
    }
    QLock l;
    if (g_shm->qn + alts > kQueue) return floor;
    for (int c = g_w->choice[p] + 1; c < g_w->arity[p]; ++c) q_push(p + 1, c);
    return p + 1;
  }
  return floor;
}
bool take() {
  bool counted = false;
  for (;;) {
    if (g_shm->stop || g_shm->timed_out) return false;
    {
      QLock l;
      if (g_shm->qn > 0) {
        Item &it = g_shm->q[g_shm->qhead];
        g_len = it.len;
        memcpy(g_w->choice, it.c, sizeof(uint16_t) * size_t(g_len));
        memcpy(g_w->arity, it.n, sizeof(uint16_t) * size_t(g_len));
        g_w->trail_len = g_len;
        g_shm->qhead = (g_shm->qhead + 1) % kQueue;
        g_shm->qn--;
        g_shm->active++;
        return true;
      }
      if (g_shm->active == 0) return false;
    }
    (void)counted;
    usleep(300);
  }
}

void finish_exec(int r) {
  if (r == 1) {
    g_w->pruned++;
    return;
  }
  g_w->execs++;
  if (g_nontriv) g_w->nontrivial++;
  if (g_nontriv && r == 0 && g_w->nsamples < 2) {
    snprintf(g_w->samples[g_w->nsamples], kMaxSample, "%s", g_trace.c_str());
    g_w->nsamples++;
  }
}

// returns true if the violation must stop the run
bool handle_violation() {
  if (g_known.count(g_w->sig)) {
    for (auto &k : g_shm->known) {
      if (k.sig[0] == 0) {  // benign race between workers: duplicates merge when printing
        snprintf(k.msg, sizeof k.msg, "%s", g_w->msg);
        snprintf(k.sig, sizeof k.sig, "%s", g_w->sig);
        k.hits++;
        return false;
      }
      if (strcmp(k.sig, g_w->sig) == 0) {
        k.hits++;
        return false;
      }
    }
    return false;
  }
  return true;
}

bool backtrack(int floor) {
  while (g_len > floor) {
    if (g_w->choice[g_len - 1] + 1 < g_w->arity[g_len - 1]) {
      g_w->choice[g_len - 1]++;
      g_w->trail_len = g_len;
      return true;
    }
    --g_len;
  }
  g_w->trail_len = g_len;
  return false;
}

// Enumerate all trails below the current prefix (trail[0..floor)).
void dfs(const Scenario &sc, int floor) {
  for (;;) {
    if (g_shm->stop) return;
    if (g_deadline > 0 && now_s() > g_deadline) {
      g_shm->timed_out = 1;
      return;
    }
    int r = run_once(sc);
    finish_exec(r);
    if (r == 2) {
      g_len = std::min(g_len, g_pos);
      g_w->trail_len = g_len;
      if (handle_violation()) {
        g_w->violation = 1;
        g_shm->stop = 1;
        return;
      }
    }
    floor = donate(floor);
    if (!backtrack(floor)) return;
  }
}

void child_setup(int wid) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_wid = wid;
  g_w = &g_shm->w[wid];
  g_scratch = g_root + "/w" + std::to_string(wid);
  ::mkdir(g_scratch.c_str(), 0777);
  if (!g_replay) {
    int fd = ::open("/dev/null", O_WRONLY);
    if (getenv("MC_SHOW") == nullptr) {
      dup2(fd, 1);
      dup2(fd, 2);
    }
    ::close(fd);
  }
}
void dump_states() {
  std::string p = g_root + "/states." + std::to_string(g_wid) + "." + std::to_string(getpid());
  FILE *f = fopen(p.c_str(), "wb");
  if (!f) return;
  std::vector<uint64_t> v(g_states.begin(), g_states.end());
  if (!v.empty()) (void)!fwrite(v.data(), 8, v.size(), f);
  fclose(f);
}
[[noreturn]] void child_exit(int code) {
  dump_states();
  fflush(nullptr);
  _exit(code);
}

struct Found {
  bool any = false;
  std::string scenario, sig, msg;
  std::vector<std::pair<int, int>> trail;
};

std::vector<std::pair<int, int>> shm_trail(const WorkerShm &w) {
  std::vector<std::pair<int, int>> t;
  for (int i = 0; i < w.trail_len; ++i) t.emplace_back(w.choice[i], w.arity[i]);
  return t;
}

// Wait for children; watch for hangs and crashes.
void supervise(std::vector<pid_t> pids, const Scenario &sc, Found &found, std::string &ierr) {
  size_t live = pids.size();
  while (live > 0) {
    int st = 0;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (size_t i = 0; i < pids.size(); ++i) {
        if (pids[i] != p) continue;
        pids[i] = -1;
        --live;
        auto &w = g_shm->w[i];
        if (w.internal_error) {
          ierr = w.ierr;
          g_shm->stop = 1;
        } else if (w.violation) {
          if (!found.any) found = {true, sc.name, w.sig, w.msg, shm_trail(w)};
        } else if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
          g_shm->stop = 1;
          if (!found.any) {
            std::string why = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"
                                              : "exited with status " + std::to_string(WEXITSTATUS(st));
            found = {true, sc.name, "process-crash", "the code under test crashed: " + why, shm_trail(w)};
          }
        }
      }
      continue;
    }
    if (p < 0) break;
    int64_t t = now_ms();
    for (size_t i = 0; i < pids.size(); ++i) {
      if (pids[i] < 0) continue;
      int64_t s = g_shm->w[i].exec_start_ms;
      if (s != 0 && double(t - s) > sc.hang_s * 1000) {
        g_shm->stop = 1;
        if (!found.any) found = {true, sc.name, "hang", "execution did not finish within " + std::to_string(int(sc.hang_s)) + " s", shm_trail(g_shm->w[i])};
        kill(pids[i], SIGKILL);
        g_shm->w[i].exec_start_ms = 0;
      }
    }
    usleep(2000);
  }
}

void reset_run() {
  g_shm->stop = 0;
  g_shm->qlock = 0;
  g_shm->qn = 0;
  g_shm->qhead = 0;
  g_shm->active = 0;
  for (auto &w : g_shm->w) {
    w.trail_len = 0;
    w.violation = 0;
    w.exec_start_ms = 0;
    w.internal_error = 0;
  }
}

// replay a trail in a forked child. Returns true if a violation (any) shows again.
bool replay_in_child(const Scenario &sc, const Found &f, std::string &trace_out, bool show) {
  reset_run();
  std::string tf = g_root + "/trace.txt";
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    g_replay = show;
    child_setup(0);
    g_verbose = true;
    g_len = int(f.trail.size());
    for (int i = 0; i < g_len; ++i) {
      g_w->choice[i] = uint16_t(f.trail[size_t(i)].first);
      g_w->arity[i] = uint16_t(f.trail[size_t(i)].second);
    }
    g_w->trail_len = g_len;
    int fd = ::open(tf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
    ::close(fd);
    g_pos = 0;
    int r = run_once(sc);
    if (r == 2) g_w->violation = 1;
    FILE *o = fopen(tf.c_str(), "wb");
    fwrite(g_trace.data(), 1, g_trace.size(), o);
    fclose(o);
    _exit(0);
  }
  Found g;
  std::string ierr;
  supervise({p}, sc, g, ierr);
  std::ifstream in(tf);
  std::stringstream ss;
  ss << in.rdbuf();
  trace_out = ss.str();
  if (show && g.any) printf("REPRODUCED sig=%s : %s\n", g.sig.c_str(), g.msg.c_str());
  return g.any;
}

std::string env_or(const char *k, const char *d) {
  const char *v = getenv(k);
  return v && *v ? v : d;
}
}  // namespace

int choose_raw(int n) {
  if (n <= 0 || n > 65535) internal_error("choose arity " + std::to_string(n));
  if (g_pos < g_len) {
    if (g_w->arity[g_pos] != n)
      internal_error("nondeterminism: choice " + std::to_string(g_pos) + " had arity " + std::to_string(g_w->arity[g_pos]) + " now " + std::to_string(n));
    return g_w->choice[g_pos++];
  }
  if (g_len >= kMaxTrail) internal_error("trail too long");
  g_w->choice[g_len] = 0;
  g_w->arity[g_len] = uint16_t(n);
  ++g_len;
  ++g_pos;
  g_w->trail_len = g_len;
  return 0;
}

int choose(int n, const char *) {
  if (n == 1) return 0;
  return choose_raw(n);
}

void fail(const std::string &sig, const std::string &msg) {
  if (g_in_iso) {
    snprintf(g_w->sig, kMaxSig, "%s", sig.c_str());
    snprintf(g_w->msg, kMaxMsg, "%s", msg.c_str());
    iso_finish(2);
  }
  throw Violation{sig, msg};
}
std::string format(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  auto s = vfmt(fmt, ap);
  va_end(ap);
  return s;
}
void assume(bool c) {
  if (!c && g_in_iso) iso_finish(1);
  if (!c) throw Prune{};
}
void state(uint64_t h) {
  if (g_states.size() < 4000000) g_states.insert(h);
}
void step(uint64_t n) { g_w->steps += n; }
void nontrivial() { g_nontriv = true; }
void add_eval(uint64_t n) { g_w->evals += n; }
void add_nontrivial(uint64_t n) { g_w->nontrivial += n; }
void note(const char *fmt, ...) {
  if (!g_verbose && g_w->nsamples >= 2) return;
  va_list ap;
  va_start(ap, fmt);
  auto s = vfmt(fmt, ap);
  va_end(ap);
  if (g_replay) {
    printf("  %s\n", s.c_str());
    fflush(stdout);
  }
  if (g_trace.size() < 200000) {
    g_trace += s;
    g_trace += "; ";
  }
}
bool verbose() { return g_verbose; }
bool thorough() { return g_thorough; }
int worker_id() { return g_wid; }
const std::string &scratch() { return g_scratch; }
std::string fresh_dir() {
  std::string p = g_scratch + "/x/d" + std::to_string(g_dirno++);
  ::mkdir(p.c_str(), 0777);
  return p;
}

int run_main(int argc, char **argv, const Spec &spec, const std::vector<Scenario> &scenarios) {
  double t0 = now_s();
  std::string tier = env_or("VERIF_TIER", "quick");
  std::string replay, only, verif = env_or("VERIF_DIR", ".");
  double dl = spec.deadline_s;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--replay" && i + 1 < argc)
      replay = argv[++i];
    else if (a == "--thorough")
      tier = "thorough";
    else if (a == "--only" && i + 1 < argc)
      only = argv[++i];
    else if (a == "--deadline" && i + 1 < argc)
      dl = atof(argv[++i]);
  }
  g_thorough = tier == "thorough";
  if (const char *e = getenv("MC_DEADLINE")) dl = dl > 0 ? std::min(dl, atof(e)) : atof(e);
  if (dl <= 0) dl = g_thorough ? 700 : 240;
  int workers = std::min(spec.workers, kMaxWorkers);
  if (const char *e = getenv("MC_WORKERS")) workers = std::max(1, std::min(kMaxWorkers, atoi(e)));

  g_shm = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_w = &g_shm->w[0];
  {
    std::string base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    std::string t = base + "/vpmc.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) {
      perror("mkdtemp");
      return 3;
    }
    g_root = b.data();
  }
  struct Cleaner {
    ~Cleaner() { rm_tree(g_root); }
  } cleaner;

  // known findings: lines "property=<id> sig=<sig> ..." (entries starting with "fixed:" suppress nothing)
  {
    std::ifstream in(verif + "/known-findings.txt");
    std::string l;
    while (std::getline(in, l)) {
      std::string key = "property=" + spec.property + " sig=";
      if (l.rfind(key, 0) == 0) {
        auto e = l.find(' ', key.size());
        g_known.insert(l.substr(key.size(), e == std::string::npos ? std::string::npos : e - key.size()));
      }
    }
  }

  if (!replay.empty()) {
    std::ifstream in(replay);
    if (!in) {
      fprintf(stderr, "cannot read %s\n", replay.c_str());
      return 3;
    }
    Found f;
    std::string l;
    while (std::getline(in, l)) {
      if (l.rfind("scenario ", 0) == 0) f.scenario = l.substr(9);
      if (l.rfind("trail ", 0) == 0) {
        std::stringstream ss(l.substr(6));
        std::string tok;
        while (ss >> tok) f.trail.emplace_back(atoi(tok.c_str()), atoi(tok.c_str() + tok.find('/') + 1));
      }
    }
    for (auto &sc : scenarios)
      if (sc.name == f.scenario) {
        std::string tr;
        bool ok = replay_in_child(sc, f, tr, true);
        printf("%s\n", ok ? "replay: violation reproduced" : "replay: no violation");
        return ok ? 1 : 0;
      }
    fprintf(stderr, "unknown scenario %s\n", f.scenario.c_str());
    return 3;
  }

  Found found;
  std::string ierr;
  bool exhaustive = true;
  int unconfirmed = 0;
  std::string per_scenario;
  std::vector<const Scenario *> todo;
  for (auto &sc : scenarios)
    if ((only.empty() || only == sc.name) && (g_thorough || !sc.thorough_only)) todo.push_back(&sc);
  double start = now_s();
  for (size_t k = 0; k < todo.size() && !found.any && ierr.empty(); ++k) {
    const Scenario &sc = *todo[k];
    double sc0 = now_s();
    uint64_t e0 = 0, s0 = 0;
    for (auto &w : g_shm->w) {
      e0 += w.execs;
      s0 += w.steps;
    }
    double remain = start + dl - now_s();
    g_deadline = now_s() + std::max(1.0, remain / double(todo.size() - k) * (todo.size() - k > 1 ? 1.6 : 1.0));
    if (g_deadline > start + dl) g_deadline = start + dl;
    // 2. workers
    if (!found.any && ierr.empty()) {
      reset_run();
      std::vector<pid_t> pids;
      int nw = sc.serial ? 1 : workers;
      g_shm->qn = 1;
      g_shm->q[0].len = 0;
      for (int i = 0; i < nw; ++i) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
          child_setup(i);
          g_workers_now = nw;
          while (take()) {
            dfs(sc, g_len);
            QLock l;
            g_shm->active--;
          }
          child_exit(0);
        }
        pids.push_back(p);
      }
      supervise(pids, sc, found, ierr);
      if (g_shm->timed_out) {
        exhaustive = false;
        g_shm->timed_out = 0;
      }
    }
    uint64_t e1 = 0, s1 = 0;
    for (auto &w : g_shm->w) {
      e1 += w.execs;
      s1 += w.steps;
    }
    char b[400];
    snprintf(b, sizeof b, "%s{\"scenario\": %s, \"executions\": %llu, \"transitions\": %llu, \"wall_s\": %.2f}", per_scenario.empty() ? "" : ", ",
             json_esc(sc.name).c_str(), (unsigned long long)(e1 - e0), (unsigned long long)(s1 - s0), now_s() - sc0);
    per_scenario += b;
    printf("scenario %-40s executions=%llu transitions=%llu %.1fs%s\n", sc.name.c_str(), (unsigned long long)(e1 - e0), (unsigned long long)(s1 - s0),
           now_s() - sc0, exhaustive ? "" : " (bounded by time so far)");
    fflush(stdout);
    // 3. confirm a violation by replaying it
    if (found.any) {
      std::string tr;
      bool ok = false;
      Found f = found;
      for (int t = 0; t < 3 && !ok; ++t) ok = replay_in_child(sc, f, tr, false);
      if (!ok && found.sig == "hang") ok = false;
      if (!ok) {
        printf("UNCONFIRMED (did not replay) scenario=%s sig=%s %s\n", f.scenario.c_str(), f.sig.c_str(), f.msg.c_str());
        ++unconfirmed;
        exhaustive = false;
        found = Found{};
        continue;
      }
      std::string dir = verif + "/out";
      ::mkdir(dir.c_str(), 0777);
      std::string path = dir + "/replay-" + spec.property + "-" + sc.name + ".txt";
      std::ofstream o(path);
      o << "property " << spec.property << "\nscenario " << sc.name << "\nsig " << found.sig << "\nmsg " << found.msg << "\ntrail";
      for (auto &c : found.trail) o << " " << c.first << "/" << c.second;
      o << "\ntrace " << tr << "\n";
      o.close();
      printf("violation: scenario=%s sig=%s\n  %s\n  trace: %s\n", sc.name.c_str(), found.sig.c_str(), found.msg.c_str(), tr.c_str());
      printf("VIOLATION property=%s replay=%s\n", spec.property.c_str(), path.c_str());
      fflush(stdout);
    }
  }

  // totals
  uint64_t execs = 0, steps = 0, nontriv = 0, pruned = 0, evals = 0;
  std::string samples;
  int ns = 0;
  for (auto &w : g_shm->w) {
    execs += w.execs;
    steps += w.steps;
    nontriv += w.nontrivial;
    pruned += w.pruned;
    evals += w.evals;
    for (int i = 0; i < w.nsamples && ns < kMaxSamples; ++i, ++ns) samples += (samples.empty() ? "" : ", ") + json_esc(w.samples[i]);
  }
  uint64_t nstates = 0;
  {
    std::vector<uint64_t> all;
    for (int i = 0; i < kMaxWorkers; ++i) {
    }
    FILE *ls = popen(("ls " + g_root + " 2>/dev/null | grep '^states'").c_str(), "r");
    char line[512];
    while (ls && fgets(line, sizeof line, ls)) {
      std::string f = g_root + "/" + std::string(line, strcspn(line, "\n"));
      std::ifstream in(f, std::ios::binary | std::ios::ate);
      size_t sz = size_t(in.tellg());
      size_t o = all.size();
      all.resize(o + sz / 8);
      in.seekg(0);
      in.read(reinterpret_cast<char *>(all.data() + o), std::streamsize(sz / 8 * 8));
    }
    if (ls) pclose(ls);
    std::sort(all.begin(), all.end());
    nstates = uint64_t(std::unique(all.begin(), all.end()) - all.begin());
  }
  if (found.any) exhaustive = false;
  std::map<std::string, std::pair<uint64_t, std::string>> known;
  for (auto &k : g_shm->known)
    if (k.sig[0]) {
      known[k.sig].first += k.hits;
      known[k.sig].second = k.msg;
    }
  for (auto &k : known) printf("KNOWN-FINDING: property=%s %s (%llu executions): %s\n", spec.property.c_str(), k.first.c_str(), (unsigned long long)k.second.first, k.second.second.c_str());

  std::string ev;
  {
    std::stringstream o;
    o << "{\"property\": " << json_esc(spec.property) << ", \"tier\": " << json_esc(g_thorough ? "thorough" : "quick")
      << ", \"seed\": " << atoi(env_or("VERIF_SEED", "1").c_str()) << ", \"level\": " << json_esc(spec.level) << ", \"coverage\": {";
    o << "\"evaluations\": " << (execs + evals) << ", \"distinct_nontrivial\": " << nontriv << ", \"rule\": " << json_esc(spec.rule);
    o << ", \"states\": " << nstates << ", \"transitions\": " << steps << ", \"traces_validated_against_impl\": " << execs;
    o << ", \"executions\": " << execs << ", \"pruned\": " << pruned << ", \"unconfirmed\": " << unconfirmed;
    o << ", \"exhaustive\": " << (exhaustive ? "true" : "false");
    o << ", \"scenarios\": [" << per_scenario << "], \"samples\": [" << samples << "]}";
    o << ", \"violations\": " << (found.any ? 1 : 0) << ", \"assumptions\": [";
    for (size_t i = 0; i < spec.assumptions.size(); ++i) o << (i ? ", " : "") << json_esc(spec.assumptions[i]);
    o << "], \"wall_s\": " << (now_s() - t0) << "}";
    ev = o.str();
  }
  {
    ::mkdir((verif + "/evidence").c_str(), 0777);
    std::ofstream o(verif + "/evidence/" + spec.property + ".json");
    o << ev << "\n";
  }
  printf("property %s: executions=%llu evaluations=%llu nontrivial=%llu states=%llu transitions=%llu exhaustive=%s wall=%.1fs\n", spec.property.c_str(),
         (unsigned long long)execs, (unsigned long long)(execs + evals), (unsigned long long)nontriv, (unsigned long long)nstates, (unsigned long long)steps,
         exhaustive ? "yes" : "no", now_s() - t0);
  if (!ierr.empty()) {
    fprintf(stderr, "INTERNAL ERROR: %s\n", ierr.c_str());
    return 3;
  }
  return found.any ? 1 : 0;
}

}  // namespace mc
