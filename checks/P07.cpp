// P07 collection ownership: every interleaving (at file-system-call granularity, up to a preemption bound) of real processes
// creating, opening, using and closing one path, each of which may be killed at any call.
// mc-fsx
#include <spdlog/spdlog.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include "checks/dc.hpp"
#include "lib/fsx.hpp"
using namespace dc;

namespace {
// ---- the actors' side: every call stops until the controller says go ---------------------------------
int g_sock = -1;  // >= 0 in an actor process
bool g_quiet = false;
void say(char c) {
  while (::syscall(SYS_write, g_sock, &c, 1) < 0 && errno == EINTR) {}
}
void wait_go() {
  char c = 0;
  long n;
  while ((n = ::syscall(SYS_read, g_sock, &c, 1)) < 0 && errno == EINTR) {}
  if (n != 1) _exit(9);
}
void stop(char c) {
  if (g_sock < 0 || g_quiet) return;
  int e = errno;
  say(c);
  wait_go();
  errno = e;
}
void on_step(fsx::Kind, const char *) { stop('s'); }
}  // namespace
extern "C" int flock(int fd, int op) {
  if (g_sock < 0) return int(::syscall(SYS_flock, fd, op));
  stop('s');
  while (true) {
    int r = int(::syscall(SYS_flock, fd, op | LOCK_NB));
    if (r == 0 || (op & LOCK_NB) || errno != EWOULDBLOCK) return r;
    stop('b');  // would sleep: runs again after somebody else did something
  }
}
extern "C" int stat(const char *p, struct stat *b) {
  stop('s');
  return int(::syscall(SYS_newfstatat, AT_FDCWD, p, b, 0));
}

namespace {
enum What { Create, CreateUse, Open, OpenUse, OpenTwice };
const char *const kNames[] = {"create", "create+flush", "open", "open+flush", "open,open"};
constexpr uint32_t kDim = 2;
Row row(int label) { return {uint64_t(label), {float(label), 1}}; }
void add(DiskCollection &c, const Row &r) { c.add_batch(r.v.data(), &r.label, 1); }

// messages to the controller: s step, b blocked, h holding (about to use), F flushed, c about to close, C closed, e attempt failed, d done
[[noreturn]] void actor(int sock, What w, int id, const fs::path &p) {
  ::prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_sock = sock;
  wait_go();
  fsx::set_step_hook(p.parent_path().string(), on_step);
  auto attempt = [&](bool create, bool use) {
    try {
      auto c = create ? std::make_unique<DiskCollection>(p, kDim, MetricType::L2, DiskIndexType::Flat) : std::make_unique<DiskCollection>(DiskCollection::open(p));
      stop('h');
      if (use) {
        add(*c, row(id));
        try {
          c->flush();
          stop('F');
        } catch (const std::exception &) {
          stop('f');
        }
      }
      stop('c');
      c.reset();
      stop('C');
    } catch (const std::exception &) {
      stop('e');
    }
  };
  switch (w) {
    case Create: attempt(true, false); break;
    case CreateUse: attempt(true, true); break;
    case Open: attempt(false, false); break;
    case OpenUse: attempt(false, true); break;
    case OpenTwice: attempt(false, false), attempt(false, false); break;
  }
  say('d');
  _exit(0);
}

struct Shape {
  const char *name;
  int base;  // 0 nothing, 1 an existing collection, 2 an existing collection without a lock file
  std::vector<What> who;
  int preempt, deaths;
  bool thorough_only = false;
};
struct Actor {
  pid_t pid = -1;
  int sock = -1;
  bool dead = false, done = false, blocked = false;
  bool holding = false, attempting = false;
  int failed = 0, held = 0, flushed = 0;
  bool overlapped = false;  // somebody held the collection at some moment of the current attempt
};
struct Guard {
  std::vector<Actor> &a;
  ~Guard() {
    for (auto &x : a) {
      if (x.pid > 0 && !x.dead) ::kill(x.pid, SIGKILL), ::waitpid(x.pid, nullptr, 0);
      if (x.sock >= 0) ::close(x.sock);
    }
  }
};
void body(const Shape &s) {
  fs::path base = mc::fresh_dir(), p = base / "col";
  if (s.base) {
    DiskCollection c(p, kDim, MetricType::L2, DiskIndexType::Flat);
    add(c, row(50));
    c.flush();
  }
  if (s.base == 2) fs::remove(p / ".lock");
  size_t n = s.who.size();
  std::vector<Actor> a(n);
  Guard guard{a};
  for (size_t i = 0; i < n; ++i) {
    int sv[2];
    MC_REQUIRE(::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) == 0, "setup", "socketpair");
    pid_t pid = ::fork();
    MC_REQUIRE(pid >= 0, "setup", "fork");
    if (pid == 0) {
      ::close(sv[0]);
      for (auto &x : a)
        if (x.sock >= 0) ::close(x.sock);
      actor(sv[1], s.who[i], int(i) + 1, p);
    }
    ::close(sv[1]);
    a[i].pid = pid;
    a[i].sock = sv[0];
    a[i].attempting = true;
  }
  std::string hist;
  int preempt = mc::thorough() ? s.preempt + 1 : s.preempt, deaths = s.deaths;
  size_t cur = 0;
  bool first = true;
  int killed_holding = 0;
  (void)killed_holding;
  auto holders = [&] {
    int h = 0;
    for (auto &x : a) h += x.holding && !x.dead;
    return h;
  };
  auto mark = [&] {  // remember who may fail because somebody else holds the collection or is trying to
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        if (i != j && !a[j].dead && !a[j].done && a[j].attempting && a[i].attempting) a[i].overlapped = true;
  };
  while (true) {
    std::vector<size_t> can;
    bool alive = false;
    for (size_t i = 0; i < n; ++i) {
      bool run = !a[i].dead && !a[i].done;
      alive |= run;
      if (run && !a[i].blocked) can.push_back(i);
    }
    if (!alive) break;
    MC_REQUIRE(!can.empty(), "deadlock", "every process waits for the lock;%s", hist.c_str());
    bool go_on = std::find(can.begin(), can.end(), cur) != can.end() && !first;
    // choices: the current one first, then the others, then killing the current one
    std::vector<size_t> opt;
    if (go_on) opt.push_back(cur);
    for (auto i : can)
      if (!(go_on && i == cur) && (!go_on || preempt > 0)) opt.push_back(i);
    int nk = deaths > 0 && go_on ? 1 : 0;
    int ch = mc::choose(int(opt.size()) + nk, "schedule");
    mc::step();
    if (ch == int(opt.size())) {
      --deaths;
      ::kill(a[cur].pid, SIGKILL);
      ::waitpid(a[cur].pid, nullptr, 0);
      a[cur].dead = true;
      hist += mc::format(" kill%zu", cur);
      for (auto &x : a) x.blocked = false;
      a[cur].holding = a[cur].attempting = false;
      continue;
    }
    size_t i = opt[size_t(ch)];
    if (go_on && i != cur) --preempt;
    cur = i;
    first = false;
    mark();
    char g = 'g', m = 0;
    MC_REQUIRE(::write(a[i].sock, &g, 1) == 1, "setup", "write");
    ssize_t r = ::read(a[i].sock, &m, 1);
    MC_REQUIRE(r == 1, "crash", "process %zu (%s) died;%s", i, kNames[s.who[i]], hist.c_str());
    for (auto &x : a) x.blocked = false;
    if (m != 's') hist += mc::format(" %zu:%c", i, m);
    switch (m) {
      case 's': break;
      case 'b': a[i].blocked = true; break;
      case 'h':
        a[i].holding = true;
        a[i].held++;
        MC_REQUIRE(holders() <= 1, "two-owners", "two processes hold the collection at once;%s", hist.c_str());
        break;
      case 'F': a[i].flushed++; break;
      case 'f': mc::fail("flush-failed", "the owner could not flush;" + hist); break;
      case 'c': a[i].holding = false; break;  // from here on the lock may be free
      case 'C': a[i].overlapped = false; break;
      case 'e':
        a[i].failed++;
        // an opener of an existing collection may fail only because somebody else has it, or is trying to
        if (s.base && s.who[i] != Create && s.who[i] != CreateUse)
          MC_REQUIRE(a[i].overlapped, "refused-free", "opening failed although nobody else used the collection;%s", hist.c_str());
        a[i].overlapped = false;
        break;
      case 'd': a[i].done = true, a[i].attempting = false; ::waitpid(a[i].pid, nullptr, 0), a[i].dead = true; break;
    }
  }
  bool any_dead = deaths < s.deaths;
  // ---- the state afterwards ----
  int creators = 0, created = 0, opened = 0, openers = 0;
  for (size_t i = 0; i < n; ++i) {
    bool c = s.who[i] == Create || s.who[i] == CreateUse;
    creators += c;
    created += c ? a[i].held : 0;
    openers += !c;
    opened += c ? 0 : a[i].held;
  }
  std::error_code ec;
  bool published = fs::exists(p / "collection_manifest.txt", ec);
  MC_REQUIRE(created <= 1, "two-creators", "%d processes created the same collection;%s", created, hist.c_str());
  if (s.base) MC_REQUIRE(created == 0, "created-over", "a collection was created over an existing one;%s", hist.c_str());
  if (!s.base && creators && !any_dead) MC_REQUIRE(created == 1, "nobody-created", "no creator succeeded;%s", hist.c_str());
  if (s.base && !creators && !any_dead && openers) MC_REQUIRE(opened >= 1, "nobody-opened", "no opener succeeded;%s", hist.c_str());
  if (created || s.base) MC_REQUIRE(published, "lost-collection", "the collection is gone;%s", hist.c_str());
  if (published) {
    std::unique_ptr<DiskCollection> c;
    try {
      c = std::make_unique<DiskCollection>(DiskCollection::open(p));
    } catch (const std::exception &e) {
      mc::fail("unusable-after", mc::format("after everybody closed or died the collection cannot be opened (%s);%s", e.what(), hist.c_str()));
    }
    std::set<uint64_t> must, may, got;
    if (s.base) must.insert(50);
    for (size_t i = 0; i < n; ++i) {
      if (a[i].flushed) must.insert(i + 1);
      else if (s.who[i] == CreateUse || s.who[i] == OpenUse) may.insert(i + 1);
    }
    DiskSearchOptions o;
    o.top_k = 20;
    float q[kDim] = {0, 0};
    for (auto &h : c->search(q, o)) MC_REQUIRE(got.insert(h.label).second, "duplicate-row", "row %llu twice;%s", (unsigned long long)h.label, hist.c_str());
    for (auto l : must) MC_REQUIRE(got.count(l), "lost-row", "flushed row %llu is gone;%s", (unsigned long long)l, hist.c_str());
    for (auto l : got) MC_REQUIRE(must.count(l) || (any_dead && may.count(l)), "foreign-row", "row %llu was never flushed;%s", (unsigned long long)l, hist.c_str());
    // it is fully usable, and refuses a second owner meanwhile
    bool second = false;
    try {
      DiskCollection::open(p);
      second = true;
    } catch (const std::exception &) {
    }
    MC_REQUIRE(!second, "two-owners", "a second open succeeded while the collection was open;%s", hist.c_str());
    add(*c, row(77));
    c->flush();
    MC_REQUIRE(c->size() == got.size() + 1, "unusable-after", "flush after the race lost rows;%s", hist.c_str());
    uint64_t h = 0;
    for (auto l : got) h = mc::mix(h, l);
    mc::state(mc::mix(h, uint64_t(created * 16 + opened)));
  } else {
    mc::state(1);
  }
  mc::nontrivial();
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P07";
  sp.level = "model_checking";
  sp.rule = "every execution has at least two processes using one path";
  sp.assumptions = {"nobody removes the lock file", "a creator that is killed before publishing leaves a directory which has to be removed by hand (documented)",
                    "an opener that arrives while a collection is being created fails"};
  static const std::vector<Shape> shapes{
      {"create-create", 0, {Create, Create}, 4, 0},
      {"create-create-create", 0, {Create, Create, Create}, 2, 0},
      {"create-open", 0, {CreateUse, Open}, 3, 0},
      {"create-open-open", 0, {Create, Open, Open}, 2, 0},
      {"create-create-open", 0, {Create, Create, Open}, 2, 0},
      {"create-use-open-use", 0, {CreateUse, OpenUse}, 2, 0},
      {"create-create-kill", 0, {Create, Create}, 2, 1},
      {"create-open-kill", 0, {CreateUse, OpenTwice}, 1, 1},
      {"open-open", 1, {Open, Open}, 3, 0},
      {"open-open-open", 1, {Open, Open, Open}, 2, 0},
      {"open-use-open-use", 1, {OpenUse, OpenUse}, 2, 0},
      {"open-use-open-twice", 1, {OpenUse, OpenTwice}, 2, 0},
      {"open-create", 1, {OpenUse, Create}, 2, 0},
      {"open-open-kill", 1, {OpenUse, OpenTwice}, 1, 1},
      {"open-open-open-kill", 1, {OpenUse, Open, Open}, 1, 1, true},
      {"create-create-open-kill", 0, {Create, CreateUse, Open}, 1, 1, true},
      {"open-open-kill-kill", 1, {OpenUse, OpenUse}, 1, 2, true},
      {"legacy-open-open", 2, {Open, Open}, 3, 0},
      {"legacy-open-kill", 2, {OpenUse, OpenTwice}, 1, 1},
  };
  std::vector<mc::Scenario> sc;
  for (auto &s : shapes) {
    mc::Scenario x;
    x.name = s.name;
    x.body = [&s] { body(s); };
    x.thorough_only = s.thorough_only;
    sc.push_back(x);
  }
  return mc::run_main(argc, argv, sp, sc);
}
