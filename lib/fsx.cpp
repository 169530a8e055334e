#include "fsx.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <unordered_map>

namespace fsx {
namespace {
// A tiny spin lock: pthread mutexes may be under the control of the thread explorer.
volatile int g_lk = 0;
struct Guard {
  Guard() {
    while (__sync_lock_test_and_set(&g_lk, 1)) {
    }
  }
  ~Guard() { __sync_lock_release(&g_lk); }
};
bool g_rec = false;
std::string g_root;
Log *g_log = nullptr;
Tree *g_live = nullptr;  // live structure (kids only; data not kept)
int g_next_ino = 1;
struct FdInfo {
  int ino = -1;
  bool append = false;
  std::string path;
};
std::unordered_map<int, FdInfo> *g_fds = nullptr;

bool g_fault = false;
std::string g_froot;
int g_fat = -1, g_ferr = 0, g_fmode = 0;
uint32_t g_fmask = 0;
bool g_ffired = false;
int g_fail_next_write_fd = -1;
std::vector<FaultPoint> *g_fpoints = nullptr;

std::string g_hroot;
StepHook g_hook = nullptr;
thread_local int t_in = 0;  // inside our own code

template <typename F>
F real(const char *n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}

std::string norm(const std::string &p) {
  std::string s = p;
  if (s.empty()) return s;
  if (s[0] != '/') {
    char b[PATH_MAX];
    if (getcwd(b, sizeof b)) s = std::string(b) + "/" + s;
  }
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && s[i] == '/') ++i;
    size_t j = i;
    while (j < s.size() && s[j] != '/') ++j;
    std::string c = s.substr(i, j - i);
    i = j;
    if (c.empty() || c == ".") continue;
    if (c == "..") {
      if (!parts.empty()) parts.pop_back();
      continue;
    }
    parts.push_back(c);
  }
  std::string o;
  for (auto &c : parts) o += "/" + c;
  return o.empty() ? "/" : o;
}
std::string at_path(int dfd, const char *p) {
  if (p == nullptr) return "";
  if (p[0] == '/' || dfd == AT_FDCWD) return norm(p);
  char l[64], b[PATH_MAX];
  snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
  ssize_t n = ::readlink(l, b, sizeof b - 1);
  if (n <= 0) return norm(p);
  b[n] = 0;
  return norm(std::string(b) + "/" + p);
}
bool below(const std::string &root, const std::string &p) {
  return !root.empty() && p.size() >= root.size() && p.compare(0, root.size(), root) == 0 && (p.size() == root.size() || p[root.size()] == '/');
}
// resolve to (dir ino, name) in the live tree; returns false if outside or parent missing
bool resolve(const std::string &p, int &dir, std::string &name, int &ino) {
  if (!below(g_root, p)) return false;
  std::string rel = p.substr(g_root.size());
  dir = -1;
  ino = 0;
  name.clear();
  size_t i = 0;
  while (i < rel.size()) {
    while (i < rel.size() && rel[i] == '/') ++i;
    if (i >= rel.size()) break;
    size_t j = rel.find('/', i);
    if (j == std::string::npos) j = rel.size();
    if (ino < 0) return false;
    dir = ino;
    name = rel.substr(i, j - i);
    auto &k = g_live->n[dir].kids;
    auto it = k.find(name);
    ino = it == k.end() ? -1 : it->second;
    i = j;
  }
  return true;
}

void load_tree(Tree &t, int ino, const std::string &path, int *next, bool data) {
  DIR *d = opendir(path.c_str());
  if (!d) return;
  std::vector<std::string> names;
  while (auto *e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") names.push_back(n);
  }
  closedir(d);
  std::sort(names.begin(), names.end());
  for (auto &n : names) {
    std::string p = path + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) != 0) continue;
    int id = (*next)++;
    t.n[ino].kids[n] = id;
    t.n[id].dir = S_ISDIR(st.st_mode);
    if (S_ISDIR(st.st_mode))
      load_tree(t, id, p, next, data);
    else if (data && S_ISREG(st.st_mode)) {
      int fd = real<int (*)(const char *, int, ...)>("open")(p.c_str(), O_RDONLY);
      if (fd >= 0) {
        std::string s(size_t(st.st_size), 0);
        size_t o = 0;
        while (o < s.size()) {
          ssize_t r = real<ssize_t (*)(int, void *, size_t)>("read")(fd, s.data() + o, s.size() - o);
          if (r <= 0) break;
          o += size_t(r);
        }
        s.resize(o);
        t.n[id].data = s;
        real<int (*)(int)>("close")(fd);
      }
    }
  }
}

// returns true if the call must fail (errno set)
bool fault(Kind k, const std::string &path, int fd = -1) {
  if (t_in) return false;
  if (g_hook && below(g_hroot, path)) {
    t_in++;
    g_hook(k, path.c_str());
    t_in--;
  }
  if (!g_fault || !below(g_froot, path) || !(g_fmask & bit(k))) return false;
  Guard g;
  if (k == Kind::Write && fd >= 0 && fd == g_fail_next_write_fd) {
    g_fail_next_write_fd = -1;
    errno = g_ferr;
    return true;
  }
  int idx = int(g_fpoints->size());
  g_fpoints->push_back({k, path.substr(std::min(path.size(), g_froot.size()))});
  if (idx == g_fat) {
    g_ffired = true;
    if (g_fmode == 1 && k == Kind::Write) return false;  // handled by the caller (short write)
    errno = g_ferr;
    return true;
  }
  return false;
}
bool short_write_now(const std::string &path, int fd, size_t n) {
  if (!g_fault || g_fmode != 1 || !below(g_froot, path) || n < 2) return false;
  Guard g;
  if (int(g_fpoints->size()) - 1 == g_fat && g_fpoints->back().kind == Kind::Write) {
    g_fail_next_write_fd = fd;
    return true;
  }
  return false;
}

void rec_open(int fd, const std::string &p, int flags, bool existed) {
  if (!g_rec || fd < 0) return;
  Guard g;
  int dir, ino;
  std::string name;
  if (!resolve(p, dir, name, ino)) return;
  if (ino < 0) {
    if (!existed) {
      ino = g_next_ino++;
      g_live->n[dir].kids[name] = ino;
      g_live->n[ino].dir = false;
      Entry e{Op::Link};
      e.dir = dir;
      e.name = name;
      e.ino = ino;
      g_log->e.push_back(e);
    } else
      return;
  } else if ((flags & O_TRUNC) && !g_live->n[ino].dir) {
    Entry e{Op::Trunc};
    e.ino = ino;
    e.off = 0;
    g_log->e.push_back(e);
  }
  (*g_fds)[fd] = {ino, (flags & O_APPEND) != 0, p};
}
std::string fd_path(int fd) {
  if (g_fds) {
    auto it = g_fds->find(fd);
    if (it != g_fds->end()) return it->second.path;
  }
  if (!g_fault && !g_hook) return "";
  char l[64], b[PATH_MAX];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = ::readlink(l, b, sizeof b - 1);
  if (n <= 0) return "";
  return std::string(b, size_t(n));
}
void rec_write(int fd, uint64_t off, const void *b, size_t n) {
  if (!g_rec || n == 0) return;
  Guard g;
  auto it = g_fds->find(fd);
  if (it == g_fds->end()) return;
  Entry e{Op::Write};
  e.ino = it->second.ino;
  e.off = off;
  e.data.assign(static_cast<const char *>(b), n);
  g_log->e.push_back(std::move(e));
}
void rec_sync(int fd) {
  if (!g_rec) return;
  Guard g;
  auto it = g_fds->find(fd);
  if (it == g_fds->end()) return;
  Entry e{Op::Sync};
  e.ino = it->second.ino;
  g_log->e.push_back(std::move(e));
}
void rec_trunc_ino(int ino, uint64_t n) {
  Entry e{Op::Trunc};
  e.ino = ino;
  e.off = n;
  g_log->e.push_back(std::move(e));
}
void rec_unlink(const std::string &p) {
  if (!g_rec) return;
  Guard g;
  int dir, ino;
  std::string name;
  if (!resolve(p, dir, name, ino) || ino < 0 || dir < 0) return;
  g_live->n[dir].kids.erase(name);
  Entry e{Op::Unlink};
  e.dir = dir;
  e.name = name;
  e.ino = ino;
  g_log->e.push_back(std::move(e));
}
void rec_mkdir(const std::string &p) {
  if (!g_rec) return;
  Guard g;
  int dir, ino;
  std::string name;
  if (!resolve(p, dir, name, ino) || dir < 0 || ino >= 0) return;
  ino = g_next_ino++;
  g_live->n[dir].kids[name] = ino;
  g_live->n[ino].dir = true;
  Entry e{Op::Link};
  e.dir = dir;
  e.name = name;
  e.ino = ino;
  e.isdir = true;
  g_log->e.push_back(std::move(e));
}
void rec_rename(const std::string &a, const std::string &b) {
  if (!g_rec) return;
  Guard g;
  int d1, i1, d2, i2;
  std::string n1, n2;
  if (!resolve(a, d1, n1, i1) || !resolve(b, d2, n2, i2) || i1 < 0) return;
  g_live->n[d1].kids.erase(n1);
  g_live->n[d2].kids[n2] = i1;
  Entry e{Op::Rename};
  e.dir = d1;
  e.name = n1;
  e.dir2 = d2;
  e.name2 = n2;
  e.ino = i1;
  g_log->e.push_back(std::move(e));
}
bool exists(const std::string &p) {
  struct stat st;
  return ::lstat(p.c_str(), &st) == 0;
}
bool active() { return (g_rec || g_fault || g_hook) && !t_in; }
}  // namespace

void begin(const std::string &root) {
  t_in++;
  g_root = norm(root);
  delete g_log;
  delete g_live;
  delete g_fds;
  g_log = new Log;
  g_live = new Tree;
  g_fds = new std::unordered_map<int, FdInfo>;
  g_log->root = g_root;
  g_log->initial.n[0].dir = true;
  int next = 1;
  load_tree(g_log->initial, 0, g_root, &next, true);
  *g_live = g_log->initial;
  for (auto &kv : g_live->n) kv.second.data.clear();
  g_next_ino = next;
  t_in--;
  g_rec = true;
}
void mark(const std::string &t) {
  if (!g_rec) return;
  Guard g;
  Entry e{Op::Mark};
  e.data = t;
  g_log->e.push_back(std::move(e));
}
Log end() {
  g_rec = false;
  Log l = std::move(*g_log);
  delete g_log;
  delete g_live;
  delete g_fds;
  g_log = nullptr;
  g_live = nullptr;
  g_fds = nullptr;
  return l;
}
bool recording() { return g_rec; }

std::string Log::describe(size_t i) const {
  const Entry &x = e[i];
  char b[256];
  switch (x.op) {
    case Op::Link: snprintf(b, sizeof b, "%s %s(ino%d)", x.isdir ? "mkdir" : "create", x.name.c_str(), x.ino); break;
    case Op::Unlink: snprintf(b, sizeof b, "unlink %s", x.name.c_str()); break;
    case Op::Rename: snprintf(b, sizeof b, "rename %s->%s", x.name.c_str(), x.name2.c_str()); break;
    case Op::Write: snprintf(b, sizeof b, "write ino%d @%llu+%zu", x.ino, (unsigned long long)x.off, x.data.size()); break;
    case Op::Trunc: snprintf(b, sizeof b, "trunc ino%d %llu", x.ino, (unsigned long long)x.off); break;
    case Op::Sync: snprintf(b, sizeof b, "sync ino%d", x.ino); break;
    case Op::Mark: snprintf(b, sizeof b, "mark %s", x.data.c_str()); break;
  }
  return b;
}
std::string Image::describe(const Log &l) const {
  std::string s = "crash after entry " + std::to_string(k) + "/" + std::to_string(l.e.size());
  if (k > 0) s += " (" + l.describe(k - 1) + ")";
  size_t meta = 0;
  for (size_t i = 0; i < k; ++i) meta += l.e[i].meta();
  if (meta_prefix < meta) s += ", last " + std::to_string(meta - meta_prefix) + " directory changes lost";
  if (!lost.empty()) {
    s += ", lost:";
    for (auto i : lost) s += " [" + l.describe(i) + "]";
  }
  if (torn >= 0) s += ", last write torn at byte " + std::to_string(torn) + (torn_zero ? " (rest zero)" : "");
  return s;
}

uint64_t images(const Log &l, const Policy &p, size_t from, size_t to, const std::function<bool(const Image &)> &fn) {
  uint64_t cnt = 0;
  for (size_t k = from; k <= to && k <= l.e.size(); ++k) {
    // skip crash points right after pure markers/syncs in kill mode: same image as before
    size_t meta_total = 0, meta_min = 0;
    std::vector<size_t> pending;
    {
      std::vector<size_t> metas;
      for (size_t i = 0; i < k; ++i) {
        const auto &e = l.e[i];
        if (e.meta()) metas.push_back(i);
        if (e.dataop()) pending.push_back(i);
        if (e.op == Op::Sync) {
          pending.erase(std::remove_if(pending.begin(), pending.end(), [&](size_t j) { return l.e[j].ino == e.ino; }), pending.end());
          // a directory sync makes every change of that directory durable, a file sync also the file's own
          // creation or rename, and with them every earlier directory change (ordered metadata journal)
          bool covers = false;
          for (size_t m = meta_min; m < metas.size(); ++m)
            if (l.e[metas[m]].dir == e.ino || l.e[metas[m]].dir2 == e.ino || l.e[metas[m]].ino == e.ino) covers = true;
          if (covers) {
            size_t last = 0;
            for (size_t m = 0; m < metas.size(); ++m)
              if (l.e[metas[m]].dir == e.ino || l.e[metas[m]].dir2 == e.ino || l.e[metas[m]].ino == e.ino) last = m + 1;
            meta_min = std::max(meta_min, last);
          }
        }
      }
      meta_total = metas.size();
    }
    if (!p.power_loss) {
      meta_min = meta_total;
      pending.clear();
    }
    auto emit = [&](size_t mp, const std::vector<size_t> &lost, int64_t torn, bool zero = false) {
      Image im;
      im.k = k;
      im.meta_prefix = mp;
      im.lost = lost;
      im.torn = torn;
      im.torn_zero = zero;
      ++cnt;
      return fn(im);
    };
    std::set<std::vector<size_t>> subsets;
    subsets.insert(std::vector<size_t>{});
    if (pending.size() <= p.full_subset_limit) {
      for (uint64_t m = 0; m < (1ull << pending.size()); ++m) {
        std::vector<size_t> s;
        for (size_t i = 0; i < pending.size(); ++i)
          if (m >> i & 1) s.push_back(pending[i]);
        subsets.insert(s);
      }
    } else {
      subsets.insert(pending);
      for (size_t i = 0; i < pending.size(); ++i) {
        subsets.insert({pending[i]});
        auto s = pending;
        s.erase(s.begin() + long(i));
        subsets.insert(s);
        subsets.insert(std::vector<size_t>(pending.begin() + long(i), pending.end()));
      }
    }
    for (size_t mp = meta_min; mp <= meta_total; ++mp)
      for (auto &s : subsets)
        if (!emit(mp, s, -1)) return cnt;
    if (p.torn && k > 0 && l.e[k - 1].op == Op::Write) {
      size_t n = l.e[k - 1].data.size();
      std::set<size_t> cuts;
      if (n <= p.torn_all_bytes)
        for (size_t c = 0; c < n; ++c) cuts.insert(c);
      else {
        for (size_t c : {size_t(0), size_t(1), size_t(4), size_t(7), size_t(8), n / 4, n / 2, n - n / 4, n - 8, n - 4, n - 1}) cuts.insert(c);
        for (size_t c = 512; c < n; c += 512) cuts.insert(c);
      }
      for (size_t c : cuts)
      {
        if (!emit(meta_total, {}, int64_t(c))) return cnt;
        if (p.power_loss && p.torn_zero && !emit(meta_total, {}, int64_t(c), true)) return cnt;
      }
    }
  }
  return cnt;
}

Tree apply(const Log &l, const Image &im) {
  Tree t = l.initial;
  size_t meta = 0;
  std::set<size_t> lost(im.lost.begin(), im.lost.end());
  for (size_t i = 0; i < im.k; ++i) {
    const auto &e = l.e[i];
    if (e.meta()) {
      if (meta++ >= im.meta_prefix) continue;
      switch (e.op) {
        case Op::Link:
          t.n[e.ino].dir = e.isdir;
          t.n[e.dir].kids[e.name] = e.ino;
          break;
        case Op::Unlink: t.n[e.dir].kids.erase(e.name); break;
        case Op::Rename:
          t.n[e.dir].kids.erase(e.name);
          t.n[e.dir2].kids[e.name2] = e.ino;
          break;
        default: break;
      }
    } else if (e.dataop()) {
      if (lost.count(i)) continue;
      auto &d = t.n[e.ino].data;
      if (e.op == Op::Trunc)
        d.resize(e.off);
      else {
        size_t n = e.data.size();
        if (im.torn >= 0 && i + 1 == im.k) {
          if (im.torn_zero && d.size() < e.off + n) d.resize(e.off + n);
          n = size_t(im.torn);
        }
        if (n == 0) continue;
        if (d.size() < e.off + n) d.resize(e.off + n);
        memcpy(d.data() + e.off, e.data.data(), n);
      }
    }
  }
  return t;
}
static void write_node(const Tree &t, int ino, const std::string &p) {
  auto it = t.n.find(ino);
  if (it == t.n.end()) return;
  for (auto &kv : it->second.kids) {
    auto c = t.n.find(kv.second);
    std::string q = p + "/" + kv.first;
    if (c != t.n.end() && c->second.dir) {
      ::mkdir(q.c_str(), 0777);
      write_node(t, kv.second, q);
    } else {
      int fd = ::open(q.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
      if (fd < 0) continue;
      if (c != t.n.end()) {
        const auto &d = c->second.data;
        size_t o = 0;
        while (o < d.size()) {
          ssize_t r = ::write(fd, d.data() + o, d.size() - o);
          if (r <= 0) break;
          o += size_t(r);
        }
      }
      ::close(fd);
    }
  }
}
void write_tree(const Tree &t, const std::string &dir) {
  t_in++;
  ::mkdir(dir.c_str(), 0777);
  write_node(t, 0, dir);
  t_in--;
}
static uint64_t hash_node(const Tree &t, int ino) {
  auto it = t.n.find(ino);
  uint64_t h = 1469598103934665603ULL;
  auto add = [&](const void *p, size_t n) {
    const unsigned char *c = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
  };
  if (it == t.n.end()) return h;
  if (!it->second.dir) {
    add(it->second.data.data(), it->second.data.size());
    return h;
  }
  for (auto &kv : it->second.kids) {
    add(kv.first.data(), kv.first.size() + 1);
    uint64_t x = hash_node(t, kv.second);
    add(&x, 8);
  }
  return h * 31 + 7;
}
uint64_t tree_hash(const Tree &t) { return hash_node(t, 0); }
Tree read_tree(const std::string &dir) {
  t_in++;
  Tree t;
  t.n[0].dir = true;
  int next = 1;
  load_tree(t, 0, dir, &next, true);
  t_in--;
  return t;
}

void fault_arm(const std::string &root, int at, int err, int mode, uint32_t mask) {
  delete g_fpoints;
  g_fpoints = new std::vector<FaultPoint>;
  g_froot = norm(root);
  g_fat = at;
  g_ferr = err;
  g_fmode = mode;
  g_fmask = mask;
  g_ffired = false;
  g_fail_next_write_fd = -1;
  g_fault = true;
}
std::vector<FaultPoint> fault_disarm(bool *fired) {
  g_fault = false;
  if (fired) *fired = g_ffired;
  std::vector<FaultPoint> v = g_fpoints ? *g_fpoints : std::vector<FaultPoint>{};
  return v;
}
void set_step_hook(const std::string &root, StepHook h) {
  g_hroot = root.empty() ? "" : norm(root);
  g_hook = h;
}
}  // namespace fsx

using namespace fsx;

// ------------------------------------------------------------------------------------------------
// Interposed libc entry points.
extern "C" {

static int open_common(const char *fn, int dfd, const char *path, int flags, mode_t mode) {
  using R_ropenat = std::type_identity_t<int (*)(int, const char *, int, ...)>; static R_ropenat p_ropenat = nullptr; R_ropenat ropenat = p_ropenat; if (!ropenat) p_ropenat = ropenat = real<R_ropenat>("openat");
  (void)fn;
  if (!active()) return ropenat(dfd, path, flags, mode);
  std::string p = at_path(dfd, path);
  bool want_write = (flags & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC)) != 0;
  if (fault((flags & O_DIRECTORY) ? Kind::Open : Kind::Open, p)) return -1;
  bool existed = exists(p);
  int fd = ropenat(dfd, path, flags, mode);
  (void)want_write;
  if (fd >= 0) rec_open(fd, p, flags, existed);
  return fd;
}
int open(const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    m = mode_t(va_arg(ap, int));
    va_end(ap);
  }
  return open_common("open", AT_FDCWD, path, flags, m);
}
int open64(const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    m = mode_t(va_arg(ap, int));
    va_end(ap);
  }
  return open_common("open", AT_FDCWD, path, flags, m);
}
int openat(int d, const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    m = mode_t(va_arg(ap, int));
    va_end(ap);
  }
  return open_common("openat", d, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    m = mode_t(va_arg(ap, int));
    va_end(ap);
  }
  return open_common("openat", d, path, flags, m);
}
int creat(const char *p, mode_t m) { return open_common("creat", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *fopen_common(const char *path, const char *mode) {
  using R_rfopen = std::type_identity_t<FILE *(*)(const char *, const char *)>; static R_rfopen p_rfopen = nullptr; R_rfopen rfopen = p_rfopen; if (!rfopen) p_rfopen = rfopen = real<R_rfopen>("fopen");
  if (!active()) return rfopen(path, mode);
  std::string p = norm(path);
  if (fault(Kind::Open, p)) return nullptr;
  bool existed = exists(p);
  FILE *f = rfopen(path, mode);
  if (f) {
    int flags = mode[0] == 'w' ? (O_CREAT | O_TRUNC | O_WRONLY) : mode[0] == 'a' ? (O_CREAT | O_APPEND | O_WRONLY) : O_RDONLY;
    rec_open(fileno(f), p, flags, existed);
  }
  return f;
}
FILE *fopen(const char *p, const char *m) { return fopen_common(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen_common(p, m); }

ssize_t write(int fd, const void *b, size_t n) {
  using R_r = std::type_identity_t<ssize_t (*)(int, const void *, size_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("write");
  if (!active() || fd <= 2) return r(fd, b, n);
  std::string p = fd_path(fd);
  if (p.empty()) return r(fd, b, n);
  if (fault(Kind::Write, p, fd)) return -1;
  if (short_write_now(p, fd, n)) n = n / 2;
  off_t o = 0;
  if (g_rec) {
    auto it = g_fds->find(fd);
    o = it != g_fds->end() && it->second.append ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR);
  }
  ssize_t k = r(fd, b, n);
  if (k > 0) rec_write(fd, uint64_t(o), b, size_t(k));
  return k;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  using R_r = std::type_identity_t<ssize_t (*)(int, const struct iovec *, int)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("writev");
  if (!active() || fd <= 2) return r(fd, v, c);
  std::string p = fd_path(fd);
  if (p.empty()) return r(fd, v, c);
  std::string all;
  for (int i = 0; i < c; ++i) all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
  return write(fd, all.data(), all.size());
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  using R_r = std::type_identity_t<ssize_t (*)(int, const void *, size_t, off_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pwrite");
  if (!active()) return r(fd, b, n, o);
  std::string p = fd_path(fd);
  if (p.empty()) return r(fd, b, n, o);
  if (fault(Kind::Write, p, fd)) return -1;
  if (short_write_now(p, fd, n)) n = n / 2;
  ssize_t k = r(fd, b, n, o);
  if (k > 0) rec_write(fd, uint64_t(o), b, size_t(k));
  return k;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) {
  using R_r = std::type_identity_t<ssize_t (*)(int, void *, size_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("read");
  if (!active() || !(g_fault || g_hook)) return r(fd, b, n);
  std::string p = fd_path(fd);
  if (!p.empty() && fault(Kind::Read, p)) return -1;
  return r(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  using R_r = std::type_identity_t<ssize_t (*)(int, void *, size_t, off_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pread");
  if (!active() || !(g_fault || g_hook)) return r(fd, b, n, o);
  std::string p = fd_path(fd);
  if (!p.empty() && fault(Kind::Read, p)) return -1;
  return r(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
static bool fd_is_dir(int fd) {
  struct stat st;
  return fstat(fd, &st) == 0 && S_ISDIR(st.st_mode);
}
int fsync(int fd) {
  using R_r = std::type_identity_t<int (*)(int)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("fsync");
  if (!active()) return r(fd);
  std::string p = fd_path(fd);
  if (p.empty()) return r(fd);
  if (fault(fd_is_dir(fd) ? Kind::SyncDir : Kind::Sync, p)) return -1;
  rec_sync(fd);  // tmpfs: no need for the real call
  return 0;
}
int fdatasync(int fd) {
  using R_r = std::type_identity_t<int (*)(int)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("fdatasync");
  if (!active()) return r(fd);
  return fsync(fd);
}
int ftruncate(int fd, off_t n) {
  using R_r = std::type_identity_t<int (*)(int, off_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("ftruncate");
  if (!active()) return r(fd, n);
  std::string p = fd_path(fd);
  if (!p.empty() && fault(Kind::Trunc, p)) return -1;
  int k = r(fd, n);
  if (k == 0 && g_rec) {
    Guard g;
    auto it = g_fds->find(fd);
    if (it != g_fds->end()) rec_trunc_ino(it->second.ino, uint64_t(n));
  }
  return k;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char *path, off_t n) {
  using R_r = std::type_identity_t<int (*)(const char *, off_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("truncate");
  if (!active()) return r(path, n);
  std::string p = norm(path);
  if (fault(Kind::Trunc, p)) return -1;
  int k = r(path, n);
  if (k == 0 && g_rec) {
    Guard g;
    int d, i;
    std::string nm;
    if (resolve(p, d, nm, i) && i >= 0) rec_trunc_ino(i, uint64_t(n));
  }
  return k;
}
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int close(int fd) {
  using R_r = std::type_identity_t<int (*)(int)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("close");
  if (!active()) return r(fd);
  std::string p = fd_path(fd);
  bool f = !p.empty() && fault(Kind::Close, p);
  int e = errno;
  if (g_rec) {
    Guard g;
    g_fds->erase(fd);
  }
  int k = r(fd);
  if (f) {
    errno = e;
    return -1;
  }
  return k;
}
int fclose(FILE *f) {
  using R_r = std::type_identity_t<int (*)(FILE *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("fclose");
  if (active() && g_rec && f) {
    Guard g;
    g_fds->erase(fileno(f));
  }
  return r(f);
}
static int rename_common(int d1, const char *a, int d2, const char *b, unsigned flags) {
  using R_r2 = std::type_identity_t<int (*)(int, const char *, int, const char *, unsigned)>; static R_r2 p_r2 = nullptr; R_r2 r2 = p_r2; if (!r2) p_r2 = r2 = real<R_r2>("renameat2");
  using R_r = std::type_identity_t<int (*)(int, const char *, int, const char *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("renameat");
  if (!active()) return flags ? r2(d1, a, d2, b, flags) : r(d1, a, d2, b);
  std::string p = at_path(d1, a), q = at_path(d2, b);
  if (fault(Kind::Rename, q)) return -1;
  int k = flags ? r2(d1, a, d2, b, flags) : r(d1, a, d2, b);
  if (k == 0) rec_rename(p, q);
  return k;
}
int rename(const char *a, const char *b) { return rename_common(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return rename_common(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return rename_common(d1, a, d2, b, f); }
long syscall(long nr, ...) noexcept {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (long &x : a) x = va_arg(ap, long);
  va_end(ap);
  if (nr == 316 /* SYS_renameat2 */) return rename_common(int(a[0]), (const char *)a[1], int(a[2]), (const char *)a[3], unsigned(a[4]));
  using R_r = std::type_identity_t<long (*)(long, ...)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("syscall");
  return r(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static int unlink_common(int d, const char *a, int flags) {
  using R_r = std::type_identity_t<int (*)(int, const char *, int)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("unlinkat");
  if (!active()) return r(d, a, flags);
  std::string p = at_path(d, a);
  if (fault(Kind::Unlink, p)) return -1;
  int k = r(d, a, flags);
  if (k == 0) rec_unlink(p);
  return k;
}
int unlink(const char *a) { return unlink_common(AT_FDCWD, a, 0); }
int rmdir(const char *a) { return unlink_common(AT_FDCWD, a, AT_REMOVEDIR); }
int unlinkat(int d, const char *a, int f) { return unlink_common(d, a, f); }
int remove(const char *a) {
  struct stat st;
  if (::lstat(a, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(a);
  return unlink(a);
}
int mkdir(const char *a, mode_t m) {
  using R_r = std::type_identity_t<int (*)(const char *, mode_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("mkdir");
  if (!active()) return r(a, m);
  std::string p = norm(a);
  if (fault(Kind::Mkdir, p)) return -1;
  int k = r(a, m);
  if (k == 0) rec_mkdir(p);
  return k;
}
int mkdirat(int d, const char *a, mode_t m) {
  using R_r = std::type_identity_t<int (*)(int, const char *, mode_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("mkdirat");
  if (!active()) return r(d, a, m);
  std::string p = at_path(d, a);
  if (fault(Kind::Mkdir, p)) return -1;
  int k = r(d, a, m);
  if (k == 0) rec_mkdir(p);
  return k;
}
int link(const char *a, const char *b) {
  using R_r = std::type_identity_t<int (*)(const char *, const char *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("link");
  if (!active()) return r(a, b);
  std::string p = norm(a), q = norm(b);
  if (fault(Kind::Rename, q)) return -1;
  int k = r(a, b);
  if (k == 0 && g_rec) {
    Guard g;
    int d1, i1, d2, i2;
    std::string n1, n2;
    if (resolve(p, d1, n1, i1) && resolve(q, d2, n2, i2) && i1 >= 0) {
      g_live->n[d2].kids[n2] = i1;
      Entry e{Op::Link};
      e.dir = d2;
      e.name = n2;
      e.ino = i1;
      g_log->e.push_back(std::move(e));
    }
  }
  return k;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  using R_r = std::type_identity_t<ssize_t (*)(int, int, off_t *, size_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("sendfile");
  if (!active()) return r(o, i, off, n);
  errno = EINVAL;  // force the read/write fallback so that the bytes are seen
  return -1;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  using R_r = std::type_identity_t<ssize_t (*)(int, off64_t *, int, off64_t *, size_t, unsigned)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("copy_file_range");
  if (!active()) return r(a, x, b, y, n, f);
  errno = ENOSYS;
  return -1;
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) {
  using R_r = std::type_identity_t<void *(*)(void *, size_t, int, int, int, off_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("mmap");
  if (fd < 0 || !active() || !(g_fault || g_hook)) return r(a, n, prot, flags, fd, o);
  std::string p = fd_path(fd);
  if (!p.empty() && fault(Kind::Mmap, p)) return MAP_FAILED;
  return r(a, n, prot, flags, fd, o);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t o) { return mmap(a, n, prot, flags, fd, o); }
}
