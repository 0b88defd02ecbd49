// Stateless explorer: enumerates every sequence of choose() results of a harness function.
// One header, included by exactly one translation unit per harness binary (MC_MAIN) .
#pragma once
#ifndef MC_SYSTEM_ERROR
# include <system_error>
# define MC_SYSTEM_ERROR std::system_error
# define MC_ASIO_OPEN namespace asio {
# define MC_ASIO_CLOSE }
# define MC_CONT_HELPERS asio_handler_cont_helpers
# define MC_HASH(x) std::hash<std::error_code>()(x)
#endif
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

constexpr int MAXPATH = 6000;
constexpr int MAXMSG = 6000;
constexpr int QCAP = 2048;
constexpr int MAXCOVER = 256;
constexpr int MAXKNOWN = 16;

struct Entry { uint16_t chosen, n; };

struct PathBuf {
  int len;
  Entry e[MAXPATH];
  const char* tag[MAXPATH]; // valid in all processes: string literals, same image after fork
};

struct Slot {
  std::atomic<uint64_t> execs, choices, steps, beat, maxlen;
  std::atomic<int> idle;
  std::atomic<int> vio;        // 1: violation, 2: internal error
  char msg[MAXMSG];
  PathBuf path;
  PathBuf sample;              // an interesting path for the evidence file
  std::atomic<int> has_sample;
};

struct Cover { char name[96]; std::atomic<uint64_t> n; };

struct QEntry { int len; Entry e[MAXPATH]; };

struct SharedHdr {
  std::atomic<int> lock;
  std::atomic<int> stop;
  std::atomic<int> idle;
  std::atomic<int> qn;
  std::atomic<uint64_t> nstates;
  std::atomic<uint64_t> state_overflow;
  std::atomic<int> ncover;
  Cover cover[MAXCOVER];
  std::atomic<int> nknown;
  Cover known[MAXKNOWN];
};

struct Options {
  std::string tier = "quick";
  std::string out, replay, vdir = ".", known, only;
  int workers = 8;
  double time_limit = 600;
  int bound = -1;         // overrides the deviation bound
  uint64_t max_execs = 0; // debugging aid
  bool verbose = false;
  uint64_t table = 1u << 22;
};

struct Config {
  const char* property = "";
  double hang_cpu = 40, hang_wall = 120;
  bool pin = false; // pin each worker to one cpu (threaded harnesses)
};

class Ctx {
public:
  // ---- to be used by harnesses -------------------------------------------------
  int choose(int n, const char* tag) { return choose_impl(n, tag, false); }
  // Non-default (non zero) results use up one unit of the deviation bound.
  int choose_dev(int n, const char* tag) { return choose_impl(n, tag, true); }
  bool flag(const char* tag) { return choose(2, tag) != 0; }
  int budget() const { return bound - used; }
  void set_bound(int b) { if (opt_bound < 0) bound = b; else bound = opt_bound; }

  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
  {
    va_list ap; va_start(ap, fmt); vfail(1, fmt, ap);
  }
  [[noreturn]] void internal(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
  {
    va_list ap; va_start(ap, fmt); vfail(2, fmt, ap);
  }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
  {
    if (!logging) return;
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    log += b; log += '\n';
    if (verbose) { ssize_t r = ::write(2, b, strlen(b)); r = ::write(2, "\n", 1); (void)r; }
  }
  void state(uint64_t h);
  // Stateful pruning: true if an execution already continued from this state (the hash must cover everything the
  // continuation depends on, including the remaining depth). The harness then ends the execution.
  bool seen(uint64_t h);
  int insert(uint64_t h);
  void step(uint64_t k = 1) { slot->steps.store(slot->steps.load(std::memory_order_relaxed) + k, std::memory_order_relaxed); }
  void cover(const char* name) { bump(hdr->cover, hdr->ncover, MAXCOVER, name); }
  // A listed known finding: counted. Not listed: violation.
  void known(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
  {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    std::string k = std::string(",") + opts->known + ",";
    if (k.find(std::string(",") + key + ",") == std::string::npos) fail("%s", b);
    bump(hdr->known, hdr->nknown, MAXKNOWN, key);
    note("known finding %s: %s", key, b);
  }
  bool thorough() const { return opts->tier == "thorough"; }
  const char* only() const { return opts->only.c_str(); }
  void interesting() { mark = true; }

  // ---- engine -------------------------------------------------------------------
  Options* opts = nullptr;
  SharedHdr* hdr = nullptr;
  Slot* slot = nullptr;
  std::atomic<uint64_t>* table = nullptr; uint64_t table_n = 0;
  bool logging = false, verbose = false, replaying = false, mark = false;
  int bound = 1 << 30, opt_bound = -1, used = 0;
  int pos = 0, fixed = 0;
  std::string log;
  void (*on_violation)() = nullptr;

  int choose_impl(int n, const char* tag, bool dev)
  {
    if (n <= 0) internal("choose(%d) at %s", n, tag);
    if (n == 1) return 0;
    if (n > 65535) internal("choose too wide at %s", tag);
    if (dev && used >= bound) return 0;
    PathBuf& p = slot->path;
    int r;
    if (pos < p.len) {
      if (p.e[pos].n != n) {
        // n==0: prefix donated by another worker or replay file without arity
        if (p.e[pos].n != 0 || p.e[pos].chosen >= n)
          internal("nondeterminism: choice %d (%s) has %d alternatives, expected %d", pos, tag, n, p.e[pos].n);
        p.e[pos].n = (uint16_t)n;
      }
      p.tag[pos] = tag;
      r = p.e[pos].chosen;
    } else {
      if (pos >= MAXPATH) internal("path too long at %s", tag);
      p.e[pos].chosen = 0; p.e[pos].n = (uint16_t)n; p.tag[pos] = tag;
      p.len = pos + 1;
      r = 0;
    }
    ++pos;
    if (dev && r) ++used;
    if (logging) note("  [%s] -> %d of %d", tag, r, n);
    return r;
  }

  [[noreturn]] void vfail(int kind, const char* fmt, va_list ap)
  {
    vsnprintf(slot->msg, MAXMSG, fmt, ap);
    slot->path.len = pos < slot->path.len ? pos : slot->path.len;
    slot->vio = kind;
    if (verbose) { note("FAIL: %s", slot->msg); }
    if (replaying) { FILE* f = stderr; fprintf(f, "replay: %s\n", slot->msg); fflush(f); }
    if (on_violation) on_violation();
    _exit(42);
  }

  void bump(Cover* arr, std::atomic<int>& n, int cap, const char* name)
  {
    int k = n.load();
    for (int i = 0; i < k; ++i)
      if (!strncmp(arr[i].name, name, 95)) { arr[i].n++; return; }
    lock();
    k = n.load();
    for (int i = 0; i < k; ++i)
      if (!strncmp(arr[i].name, name, 95)) { unlock(); arr[i].n++; return; }
    if (k < cap) { strncpy(arr[k].name, name, 95); arr[k].n = 1; n = k + 1; }
    unlock();
  }
  void lock() { int z = 0; while (!hdr->lock.compare_exchange_weak(z, 1)) { z = 0; sched_yield_raw(); } }
  void unlock() { hdr->lock = 0; }
  static void sched_yield_raw() { syscall(SYS_sched_yield); }
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}
inline uint64_t hbytes(uint64_t h, const void* p, size_t n)
{
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
  return mix(h, n);
}
inline uint64_t hstr(uint64_t h, const std::string& s) { return hbytes(h, s.data(), s.size()); }

// 1: new, 0: already there, -1: table full
inline int Ctx::insert(uint64_t h)
{
  if (!h) h = 1;
  uint64_t i = (h * 0x9e3779b97f4a7c15ull) % table_n;
  for (int probe = 0; probe < 64; ++probe, i = (i + 1) % table_n) {
    uint64_t cur = table[i].load(std::memory_order_relaxed);
    if (cur == h) return 0;
    if (cur == 0) {
      if (table[i].compare_exchange_strong(cur, h)) return 1;
      if (cur == h) return 0;
    }
  }
  hdr->state_overflow++;
  return -1;
}
inline void Ctx::state(uint64_t h)
{
  step();
  if (insert(h) == 1) hdr->nstates++;
}
inline bool Ctx::seen(uint64_t h)
{
  if (replaying || pos < slot->path.len) return false;
  return insert(mix(h, 0x5eed)) == 0;
}

using RunFn = void (*)(Ctx&);

namespace detail {
struct Engine {
  Options opt; Config cfg; RunFn fn; Ctx ctx;
  SharedHdr* hdr; Slot* slots; QEntry* queue; std::atomic<uint64_t>* table;
  double t0;
  static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  template <typename T> static T* shm(size_t bytes)
  {
    void* p = mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return (T*)p;
  }
  void setup()
  {
    hdr = shm<SharedHdr>(sizeof(SharedHdr));
    slots = shm<Slot>(sizeof(Slot) * (opt.workers + 2));
    queue = shm<QEntry>(sizeof(QEntry) * QCAP);
    table = shm<std::atomic<uint64_t>>(opt.table * 8);
    ctx.opts = &opt; ctx.hdr = hdr; ctx.table = table; ctx.table_n = opt.table; ctx.opt_bound = opt.bound;
  }
  void run_once()
  {
    ctx.pos = 0; ctx.used = 0; ctx.bound = ctx.opt_bound >= 0 ? ctx.opt_bound : (1 << 30); ctx.mark = false;
    ctx.log.clear();
    slot().beat++;
    fn(ctx);
    if (ctx.pos < slot().path.len) ctx.internal("nondeterminism: execution ended after %d of %d choices", ctx.pos, slot().path.len);
  }
  Slot& slot() { return *ctx.slot; }
  // Explore the subtree below the frozen prefix in slot().path
  void subtree(int fixed)
  {
    Slot& s = slot(); PathBuf& p = s.path;
    uint64_t local = 0;
    for (;;) {
      run_once();
      s.execs++; s.choices += p.len;
      if ((uint64_t)p.len > s.maxlen) s.maxlen = p.len;
      if (ctx.mark && s.has_sample < 1) { memcpy(&s.sample, &p, offsetof(PathBuf, e) + sizeof(Entry) * p.len); s.has_sample = 1; }
      ++local;
      if (hdr->stop) return;
      // donate work if someone is idle
      if (hdr->idle.load(std::memory_order_relaxed) > 0 && hdr->qn.load(std::memory_order_relaxed) < opt.workers * 2) {
        for (int i = fixed; i < p.len; ++i)
          if (p.e[i].chosen + 1 < p.e[i].n) {
            ctx.lock();
            int room = QCAP - hdr->qn;
            int cnt = p.e[i].n - 1 - p.e[i].chosen;
            if (cnt > room) { ctx.unlock(); break; }
            for (int a = p.e[i].chosen + 1; a < p.e[i].n; ++a) {
              QEntry& q = queue[hdr->qn];
              q.len = i + 1;
              memcpy(q.e, p.e, sizeof(Entry) * (i + 1));
              q.e[i].chosen = (uint16_t)a;
              hdr->qn++;
            }
            ctx.unlock();
            fixed = i + 1;
            break;
          } else if (i == fixed) fixed = i + 1;
      }
      int i = p.len - 1;
      while (i >= fixed && p.e[i].chosen + 1 >= p.e[i].n) --i;
      if (i < fixed) return;
      p.e[i].chosen++;
      p.len = i + 1;
    }
  }
  void worker(int id)
  {
    ctx.slot = &slots[id];
    if (cfg.pin) {
      cpu_set_t have, set; CPU_ZERO(&have); CPU_ZERO(&set);
      sched_getaffinity(0, sizeof have, &have);
      int ncpu = CPU_COUNT(&have);
      if (ncpu > 0) {
        int want = id % ncpu, k = 0;
        for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &have) && k++ == want) { CPU_SET(c, &set); break; }
        sched_setaffinity(0, sizeof set, &set);
      }
    }
    bool idle = false;
    for (;;) {
      if (hdr->stop) break;
      ctx.lock();
      bool got = false;
      if (hdr->qn > 0) {
        int k = --hdr->qn;
        Slot& s = slot();
        s.path.len = queue[k].len;
        memcpy(s.path.e, queue[k].e, sizeof(Entry) * queue[k].len);
        got = true;
        if (idle) { hdr->idle--; idle = false; }
      } else if (!idle) { hdr->idle++; idle = true; }
      bool done = !got && hdr->idle == opt.workers && hdr->qn == 0;
      ctx.unlock();
      slot().idle = idle;
      if (got) { subtree(slot().path.len); slot().path.len = 0; continue; }
      if (done) break;
      usleep(500);
    }
    slot().idle = 1;
    _exit(0);
  }
  static double cpu_of(pid_t pid)
  {
    clockid_t id; timespec t;
    if (clock_getcpuclockid(pid, &id) || clock_gettime(id, &t)) return 0;
    return t.tv_sec + t.tv_nsec * 1e-9;
  }
  std::string describe(const PathBuf& p, bool tags)
  {
    std::string s;
    for (int i = 0; i < p.len; ++i) { if (i) s += ' '; s += std::to_string(p.e[i].chosen); (void)tags; }
    return s;
  }
  static std::string jesc(const std::string& in)
  {
    std::string o = "\"";
    for (unsigned char c : in) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += c;
    }
    return o + "\"";
  }
  // Run a given path in a child; returns exit status; output log to file
  int run_path(const std::string& choices, bool verbose, std::string* log, std::string* msg)
  {
    Slot* s = &slots[opt.workers + 1];
    memset((void*)s->msg, 0, MAXMSG); s->vio = 0;
    PathBuf& p = s->path; p.len = 0;
    const char* c = choices.c_str(); char* e;
    for (;;) { long v = strtol(c, &e, 10); if (e == c) break; p.e[p.len].chosen = (uint16_t)v; p.e[p.len].n = 0; p.len++; c = e; }
    int fds[2]; if (pipe(fds)) return -1;
    char tmpl[] = "/tmp/mcrunXXXXXX"; int efd = mkstemp(tmpl); unlink(tmpl);
    pid_t pid = fork();
    if (!pid) {
      ::close(fds[0]);
      if (!verbose) { dup2(efd, 2); }
      ctx.slot = s; ctx.logging = true; ctx.verbose = verbose; ctx.replaying = true;
      static Engine* self; static int out; self = this; out = fds[1];
      ctx.on_violation = [] { ssize_t r = ::write(out, self->ctx.log.data(), self->ctx.log.size()); (void)r; };
      alarm(120);
      run_once();
      ssize_t r = ::write(fds[1], ctx.log.data(), ctx.log.size()); (void)r;
      _exit(0);
    }
    ::close(fds[1]);
    std::string l; char b[4096]; ssize_t r;
    while ((r = ::read(fds[0], b, sizeof b)) > 0 || (r < 0 && errno == EINTR)) if (r > 0 && l.size() < 4000000) l.append(b, r);
    ::close(fds[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (log) *log = l;
    if (msg) {
      *msg = s->msg;
      if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 42)) {
        std::string err; lseek(efd, 0, SEEK_SET);
        while ((r = ::read(efd, b, sizeof b)) > 0) err.append(b, r);
        *msg = crash_text(st, err);
      }
    }
    ::close(efd);
    return st;
  }
  static std::string crash_text(int st, const std::string& err)
  {
    std::string m;
    if (WIFSIGNALED(st)) m = "process died with signal " + std::to_string(WTERMSIG(st));
    else m = "process exited with status " + std::to_string(WEXITSTATUS(st));
    size_t k = err.find("ERROR: AddressSanitizer");
    if (k == std::string::npos) k = err.find("runtime error");
    if (k != std::string::npos) m += ": " + err.substr(k, 1500);
    else if (!err.empty()) m += ": " + err.substr(err.size() > 800 ? err.size() - 800 : 0);
    return m;
  }
  int explore()
  {
    t0 = now();
    hdr->qn = 1; queue[0].len = 0;
    std::vector<pid_t> pid(opt.workers);
    std::vector<int> efd(opt.workers);
    for (int i = 0; i < opt.workers; ++i) {
      char tmpl[] = "/tmp/mcerrXXXXXX"; efd[i] = mkstemp(tmpl); unlink(tmpl);
      pid[i] = fork();
      if (!pid[i]) { dup2(efd[i], 2); worker(i); }
    }
    std::vector<uint64_t> lastbeat(opt.workers, 0); std::vector<double> lastt(opt.workers, now()), lastcpu(opt.workers, 0);
    std::vector<char> mine(opt.workers, 0); // killed by this process
    int alive = opt.workers; int bad = -1; std::string badmsg; bool internal = false, timeout = false;
    std::string badpath;
    auto slurp = [&](int fd) { std::string err; char b[4096]; ssize_t r; lseek(fd, 0, SEEK_SET); while ((r = ::read(fd, b, sizeof b)) > 0) err.append(b, r); return err; };
    while (alive > 0) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        int id = -1; for (int i = 0; i < opt.workers; ++i) if (pid[i] == p) id = i;
        if (id < 0) continue;
        --alive; pid[id] = 0;
        Slot& s = slots[id];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && s.vio == 0) {
          // ended from outside (or by the lines below, after the time was up): says nothing about the code
          if (!mine[id] && bad < 0) { internal = true; bad = id; badmsg = "a worker was killed"; badpath = describe(s.path, false); }
          hdr->stop = 1;
          continue;
        }
        if (bad < 0 || internal) {
          if (s.vio == 2) { if (bad < 0) { internal = true; bad = id; badmsg = s.msg; badpath = describe(s.path, false); } }
          else {
            internal = false; bad = id;
            badpath = describe(s.path, false);
            badmsg = s.vio == 1 ? std::string(s.msg) : crash_text(st, slurp(efd[id]));
          }
        }
        hdr->stop = 1;
        continue;
      }
      usleep(20000);
      double t = now();
      if (t - t0 > opt.time_limit && !hdr->stop) { timeout = true; hdr->stop = 1; }
      uint64_t total = 0;
      for (int i = 0; i < opt.workers; ++i) {
        total += slots[i].execs;
        if (!pid[i]) continue;
        uint64_t b = slots[i].beat;
        if (b != lastbeat[i] || slots[i].idle) { lastbeat[i] = b; lastt[i] = t; lastcpu[i] = cpu_of(pid[i]); continue; }
        if (t - lastt[i] > 2) {
          double c = cpu_of(pid[i]) - lastcpu[i];
          if (c > cfg.hang_cpu || t - lastt[i] > cfg.hang_wall) {
            if (bad < 0 || internal) {
              internal = false; bad = i; badpath = describe(slots[i].path, false);
              badmsg = "execution does not terminate (no progress for " + std::to_string((int)(t - lastt[i])) + " s)";
            }
            mine[i] = 1; kill(pid[i], SIGKILL); hdr->stop = 1;
          } else if (hdr->stop && t - lastt[i] > 10) { mine[i] = 1; kill(pid[i], SIGKILL); }
        }
      }
      if (opt.max_execs && total > opt.max_execs && !hdr->stop) { timeout = true; hdr->stop = 1; }
      if (bad >= 0 && !internal && hdr->stop) for (int i = 0; i < opt.workers; ++i) if (pid[i]) { mine[i] = 1; kill(pid[i], SIGKILL); }
    }
    uint64_t execs = 0, choices = 0, steps = 0, maxlen = 0;
    for (int i = 0; i < opt.workers; ++i) {
      execs += slots[i].execs; choices += slots[i].choices; steps += slots[i].steps;
      if (slots[i].maxlen > maxlen) maxlen = slots[i].maxlen;
    }
    double wall = now() - t0;
    int rc = 0;
    std::string replayfile; int reproduced = 0;
    if (bad >= 0) {
      rc = internal ? 2 : 1;
      std::string log, msg;
      for (int k = 0; k < 2; ++k) {
        if (badmsg.find("does not terminate") != std::string::npos) break;
        int st = run_path(badpath, false, &log, &msg);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ++reproduced;
      }
      replayfile = opt.vdir + "/replay-" + cfg.property + ".json";
      FILE* f = fopen(replayfile.c_str(), "w");
      if (f) {
        fprintf(f, "{\"property\":%s,\"tier\":%s,\"bound\":%d,\"choices\":%s,\"message\":%s,\"replays_reproduced\":%d,\"trace\":%s}\n",
                jesc(cfg.property).c_str(), jesc(opt.tier).c_str(), opt.bound, jesc(badpath).c_str(), jesc(badmsg).c_str(), reproduced, jesc(log.substr(0, 200000)).c_str());
        fclose(f);
      }
      fprintf(stderr, "%s: %s: %s\nchoices: %s\n%s\n", cfg.property, internal ? "INTERNAL" : "violation", badmsg.c_str(), badpath.substr(0, 2000).c_str(),
              log.size() > 6000 ? log.substr(log.size() - 6000).c_str() : log.c_str());
    }
    // samples
    std::vector<std::string> samples;
    if (bad < 0) {
      std::string l; run_path("", false, &l, nullptr); samples.push_back(l);
      int k = 0;
      for (int i = 0; i < opt.workers && k < 2; ++i) if (slots[i].has_sample) { ++k; run_path(describe(slots[i].sample, false), false, &l, nullptr); samples.push_back(l); }
    }
    if (!opt.out.empty()) {
      FILE* f = fopen(opt.out.c_str(), "w");
      fprintf(f, "{\"executions\":%llu,\"choices\":%llu,\"steps\":%llu,\"states\":%llu,\"state_overflow\":%llu,\"max_depth\":%llu,\"exhaustive\":%s,\"wall_s\":%.3f,\"rc\":%d,\"bound\":%d,",
              (unsigned long long)execs, (unsigned long long)choices, (unsigned long long)steps, (unsigned long long)hdr->nstates.load(), (unsigned long long)hdr->state_overflow.load(),
              (unsigned long long)maxlen, (!timeout && bad < 0) ? "true" : "false", wall, rc, opt.bound);
      fprintf(f, "\"cover\":{");
      for (int i = 0; i < hdr->ncover; ++i) fprintf(f, "%s%s:%llu", i ? "," : "", jesc(hdr->cover[i].name).c_str(), (unsigned long long)hdr->cover[i].n.load());
      fprintf(f, "},\"known\":{");
      for (int i = 0; i < hdr->nknown; ++i) fprintf(f, "%s%s:%llu", i ? "," : "", jesc(hdr->known[i].name).c_str(), (unsigned long long)hdr->known[i].n.load());
      fprintf(f, "},\"samples\":[");
      for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jesc(samples[i].substr(0, 3000)).c_str());
      fprintf(f, "],\"message\":%s,\"replay\":%s,\"reproduced\":%d}\n", jesc(badmsg).c_str(), jesc(replayfile).c_str(), reproduced);
      fclose(f);
    }
    fprintf(stderr, "%s: executions=%llu choices=%llu states=%llu maxdepth=%llu wall=%.1fs %s\n", cfg.property, (unsigned long long)execs, (unsigned long long)choices,
            (unsigned long long)hdr->nstates.load(), (unsigned long long)maxlen, wall, bad >= 0 ? (internal ? "INTERNAL" : "VIOLATION") : timeout ? "TIMEOUT(not exhaustive)" : "exhaustive");
    if (opt.verbose)
      for (int i = 0; i < hdr->ncover; ++i) fprintf(stderr, "  cover %-60s %llu\n", hdr->cover[i].name, (unsigned long long)hdr->cover[i].n.load());
    return rc;
  }
};
}

inline int main_explore(int argc, char** argv, Config cfg, RunFn fn)
{
  static detail::Engine E;
  E.cfg = cfg; E.fn = fn;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") E.opt.tier = val();
    else if (a == "--out") E.opt.out = val();
    else if (a == "--replay") E.opt.replay = val();
    else if (a == "--vdir") E.opt.vdir = val();
    else if (a == "--known") E.opt.known = val();
    else if (a == "--only") E.opt.only = val();
    else if (a == "--workers") E.opt.workers = atoi(val().c_str());
    else if (a == "--time-limit") E.opt.time_limit = atof(val().c_str());
    else if (a == "--bound") E.opt.bound = atoi(val().c_str());
    else if (a == "--max-execs") E.opt.max_execs = atoll(val().c_str());
    else if (a == "--table") E.opt.table = 1ull << atoi(val().c_str());
    else if (a == "-v") E.opt.verbose = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  E.setup();
  if (!E.opt.replay.empty()) {
    // either a literal choice list or the name of a replay file
    std::string ch = E.opt.replay;
    if (FILE* f = fopen(ch.c_str(), "r")) {
      std::string s; char b[4096]; size_t r; while ((r = fread(b, 1, sizeof b, f)) > 0) s.append(b, r); fclose(f);
      auto field = [&](const char* k) { size_t p = s.find(std::string("\"") + k + "\":\""); if (p == std::string::npos) return std::string(); p += strlen(k) + 4; return s.substr(p, s.find('"', p) - p); };
      ch = field("choices"); if (!field("tier").empty()) E.opt.tier = field("tier");
    }
    std::string log, msg;
    int st = E.run_path(ch, true, &log, &msg);
    fprintf(stderr, "replay ended: %s %s\n", (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? "no violation" : "VIOLATION", msg.c_str());
    return (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? 0 : 1;
  }
  return E.explore();
}

} // namespace mc
