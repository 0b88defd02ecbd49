// C01: asynchronous operations complete exactly once, on their executor, with the true result.
#include "async_env.hpp"
#include <array>
#include <list>

namespace {
asioext::open_flags RW = asioext::open_flags::access_read_write | asioext::open_flags::open_existing;

constexpr uint64_t FARBASE = 0x180000000, FAR = FARBASE + 1; // needs more than 32 bits; the file has data there
bool cancelled; // the program cancels or closes files: operations may be aborted
struct Ctxs {
  std::unique_ptr<asio::io_context> a, b;
  Ctxs() : a(new asio::io_context), b(new asio::io_context) {}
};
size_t run_ctx(Env& e, asio::io_context& x, int idx)
{
  int t = sched::self();
  { sched::Quiet q; e.running[t] = idx; }
  size_t n = x.run();
  { sched::Quiet q; e.running[t] = -1; }
  return n;
}
void make_service(asio::io_context& x, int threads)
{
  if (threads > 1) asio::add_service<Service>(x, new Service(x, (std::size_t)threads));
}
using IoEx = asio::io_context::executor_type;
using PFile = asioext::basic_file<Service, IoEx>;
using Strand = asio::strand<IoEx>;

// how = 0: default executor, 1: handler bound to context b, 2: handler bound to a strand on a, 3: to a strand on b
template <typename F> void start(Env& e, F& f, OpRec& o, Ctxs& x, int how, Handler h)
{
  switch (how) {
    case 0: e.initiate(f, o, std::move(h)); break;
    case 1: e.initiate(f, o, asio::bind_executor(x.b->get_executor(), std::move(h))); break;
    case 2: e.initiate(f, o, asio::bind_executor(Strand(x.a->get_executor()), std::move(h))); break;
    case 3: e.initiate(f, o, asio::bind_executor(Strand(x.b->get_executor()), std::move(h))); break;
  }
}
int ctx_of(int how) { return how == 1 || how == 3 ? 1 : 0; }
void must_be_handled(Env& e, int ctx, const char* who)
{
  sched::Quiet q;
  for (auto& o : e.ops)
    if (o.ctx == ctx && o.started && !o.calls) e.c.fail("%s returned although operation %d (%s) is outstanding", who, o.id, kinds[o.kind]);
}

// ---- one or two operations, the contexts are run by the initiating thread afterwards ----------------------------------
template <typename F> void single(Env& e, int nops)
{
  mc::Ctx& c = e.c;
  int pool = 1 + c.choose(2, "pool threads - 1");
  int nfiles = nops > 1 ? 1 + c.choose(2, "files - 1") : 1;
  int k[2], how[2];
  bool th = c.thorough();
  for (int i = 0; i < nops; ++i) {
    static const int order[4] = {READ_AT, WRITE_AT, READ, WRITE};
    k[i] = order[c.choose(nops == 1 || th ? 4 : 2, "kind")];
    how[i] = c.choose(nops == 1 ? 4 : 2, "executor");
  }
  static const uint64_t offs[] = {1, FAR};
  uint64_t off = nops == 1 && (k[0] == READ_AT || k[0] == WRITE_AT) ? offs[c.choose(2, "offset")] : 1;
  if (off == FAR) { auto& n = *e.w.inodes[0]; for (int j = 0; j < 8; ++j) n.bytes[(int64_t)FARBASE + j] = (unsigned char)('s' + j); n.size = (int64_t)FARBASE + 8; }
  int end = c.choose(nops == 1 ? 3 : 2, "then"); // 0: nothing, 1: cancel, 2: close the file
  e.answer_mode = !end;
  cancelled = end;
  Ctxs x;
  make_service(*x.a, pool);
  {
    std::unique_ptr<F> f[2];
    for (int i = 0; i < nfiles; ++i) f[i].reset(new F(*x.a, i ? "/sim/b" : "/sim/a", RW));
    for (int i = 0; i < nops; ++i) {
      sched::point("program");
      int fi = nfiles > 1 ? i : 0;
      OpRec& o = e.record((Kind)k[i], fi, fi, off + i, 3, ctx_of(how[i]));
      start(e, *f[fi], o, x, how[i], Handler(e, o));
    }
    if (end) {
      sched::point("program");
      if (c.logging) c.note("%s", end == 1 ? "cancel()" : "close()");
      if (end == 1) f[0]->cancel(); else f[0]->close();
    }
    sched::point("program");
    bool bfirst = how[0] == 1 || how[0] == 3;
    for (int r = 0; r < 2; ++r) {
      int idx = bfirst ? 1 - r : r;
      run_ctx(e, idx ? *x.b : *x.a, idx);
      must_be_handled(e, idx, "io_context::run()");
    }
  }
}
// ---- contexts are run by threads of their own, kept alive by a work guard until all operations are started --------------
void threaded(Env& e)
{
  mc::Ctx& c = e.c;
  int runners = 1 + c.choose(2, "threads running the context - 1");
  int how = c.choose(2, "executor");
  int k = c.choose(2, "kind") ? WRITE_AT : READ_AT;
  bool chain = c.flag("handler starts another operation");
  cancelled = !chain && c.flag("cancel");
  Ctxs x;
  File f(*x.a, "/sim/a", RW);
  static File* sf; static Ctxs* sx; static int show; sf = &f; sx = &x; show = how;
  asio::io_context& rc = ctx_of(how) ? *x.b : *x.a;
  auto guard = std::make_unique<asio::executor_work_guard<IoEx>>(rc.get_executor());
  std::vector<std::thread> t;
  for (int i = 0; i < runners; ++i) t.emplace_back([&] { run_ctx(e, rc, ctx_of(how)); must_be_handled(e, ctx_of(how), "io_context::run()"); });
  sched::point("program");
  OpRec& o = e.record((Kind)k, 0, 0, 2, 3, ctx_of(how));
  Handler h(e, o);
  if (chain) h.then = [](Env& e, OpRec&) {
    OpRec& p = e.record(READ_AT, 0, 0, 1, 2, ctx_of(show));
    start(e, *sf, p, *sx, show, Handler(e, p));
  };
  start(e, f, o, x, how, std::move(h));
  sched::point("program");
  if (cancelled) { f.cancel(); sched::point("program"); }
  guard.reset();
  for (auto& q : t) q.join();
  must_be_handled(e, ctx_of(how), "io_context::run()");
}
// ---- several threads start operations on files of their own, one runs the context ---------------------------------------
void initiators(Env& e)
{
  mc::Ctx& c = e.c;
  int pool = 1 + c.choose(2, "pool threads - 1");
  Ctxs x;
  make_service(*x.a, pool);
  std::unique_ptr<File> f[2];
  for (int i = 0; i < 2; ++i) f[i].reset(new File(*x.a, i ? "/sim/b" : "/sim/a", RW));
  std::vector<std::thread> t;
  for (int i = 0; i < 2; ++i) t.emplace_back([&, i] {
    OpRec& o = e.record(i ? WRITE_AT : READ_AT, i, i, 1, 2, 0);
    start(e, *f[i], o, x, 0, Handler(e, o));
  });
  for (auto& q : t) q.join();
  run_ctx(e, *x.a, 0);
  must_be_handled(e, 0, "io_context::run()");
}

// ---- buffer sequences, which go away when the initiating function returns; handlers that throw ------------------------------
struct Boom {};
template <typename Seq, typename F, typename H> void launch(Env& e, F& f, OpRec& o, const Seq& s, H&& h)
{
  int t = sched::self(), prev;
  { sched::Quiet q; prev = e.starting[t]; e.starting[t] = o.id + 1; o.started = e.tick(); }
  if constexpr (std::is_same<typename Seq::value_type, asio::mutable_buffer>::value) {
    if (o.kind == READ) f.async_read_some(s, std::forward<H>(h)); else f.async_read_some_at(o.offset, s, std::forward<H>(h));
  } else {
    if (o.kind == WRITE) f.async_write_some(s, std::forward<H>(h)); else f.async_write_some_at(o.offset, s, std::forward<H>(h));
  }
  { sched::Quiet q; e.starting[t] = prev; o.returned = e.tick(); }
}
static const std::vector<std::vector<int>> layouts = {{}, {0}, {3}, {1, 2}, {2, 0, 1}, {0, 0, 3}, {3, 0}, {1, 1, 1, 1}, std::vector<int>(16, 1), std::vector<int>(17, 1), std::vector<int>(64, 1), std::vector<int>(65, 1), std::vector<int>(80, 1)};
void sequences(Env& e)
{
  mc::Ctx& c = e.c;
  static const Kind order[4] = {READ_AT, WRITE_AT, READ, WRITE};
  Kind k = order[c.choose(4, "kind")];
  auto& lay = layouts[c.choose((int)layouts.size(), "layout")];
  int container = c.choose(3, "container"); // vector, list, array of three
  if (container == 2 && lay.size() != 3) return;
  int how = c.choose(2, "executor");
  bool throws = c.flag("the handler throws");
  e.answer_mode = lay.size() < 10;
  size_t total = 0; for (int l : lay) total += l;
  if (!total) { e.foreign = true; e.answer_mode = 0; }
  Ctxs x;
  {
    File f(*x.a, "/sim/a", RW);
    OpRec& o = e.record(k, 0, 0, 1, total, ctx_of(how));
    size_t at = total; for (int l : lay) { at -= l; o.parts.emplace_back(o.buf.get() + at, l); } // last piece first in memory
    Handler h(e, o);
    if (throws) h.then = [](Env&, OpRec&) { throw Boom(); };
    auto go = [&](auto buffer) { // what the caller passes is overwritten afterwards
      typedef decltype(buffer) B; static unsigned char trap[8];
      auto with = [&](auto& s) {
        if (how) launch(e, f, o, s, asio::bind_executor(x.b->get_executor(), std::move(h)));
        else launch(e, f, o, s, std::move(h));
        for (auto& b : s) b = B(trap, 1);
      };
      if (container == 0) { std::vector<B> s(o.parts.begin(), o.parts.end()); with(s); }
      else if (container == 1) { std::list<B> s(o.parts.begin(), o.parts.end()); with(s); }
      else { std::array<B, 3> s = {B(o.parts[0]), B(o.parts[1]), B(o.parts[2])}; with(s); }
    };
    if (k == READ || k == READ_AT) go(asio::mutable_buffer()); else go(asio::const_buffer());
    OpRec* second = nullptr;
    if (throws) { second = &e.record(READ_AT, 0, 0, 2, 2, 0); start(e, f, *second, x, 0, Handler(e, *second)); }
    sched::point("program");
    bool thrown = false;
    for (int r = 0; r < 2; ++r) {
      int idx = how ? 1 - r : r;
      for (;;) { try { run_ctx(e, idx ? *x.b : *x.a, idx); break; } catch (const Boom&) { thrown = true; } }
      must_be_handled(e, idx, "io_context::run()");
    }
    if (thrown != throws) c.fail("the exception of the handler %s", throws ? "is lost" : "comes from nowhere");
  }
}

std::string bytes_at(const simfs::Inode& i, int64_t at, int64_t n)
{
  std::string s((size_t)n, '\0');
  for (int64_t k = 0; k < n; ++k) { auto b = i.bytes.find(at + k); if (b != i.bytes.end()) s[(size_t)k] = (char)b->second; }
  return s;
}
void run(mc::Ctx& c)
{
  bool th = c.thorough();
  int scenario = c.choose(6, "scenario");
  static const char* names[] = {"single", "single, plain executor", "two operations", "threaded", "initiators", "buffer sequences"};
  if (*c.only() && strcmp(c.only(), names[scenario])) return;
  c.note("scenario: %s", names[scenario]);
  static const int qb[] = {2, 2, 1, 2, 2, 1}, tb[] = {3, 3, 2, 2, 3, 2};
  c.set_bound(th ? tb[scenario] : qb[scenario]);
  Env e(c);
  cancelled = false;
  e.w.create("/sim/a", "abcdefgh");
  e.w.create("/sim/b", "ABCDEFGH");
  sched::Options o;
  e.begin(o);
  switch (scenario) {
    case 0: single<File>(e, 1); break;
    case 1: single<PFile>(e, 1); break;
    case 2: single<File>(e, 2); break;
    case 3: threaded(e); break;
    case 4: initiators(e); break;
    case 5: sequences(e); break;
  }
  sched::end();
  std::string outcome = names[scenario];
  for (auto& p : e.ops) {
    e.check_result(p);
    if (p.aborted() && !cancelled) c.fail("operation %d was aborted although nobody cancelled it", p.id);
    if (p.aborted()) { outcome += std::string(" ") + kinds[p.kind] + " aborted"; continue; }
    if (cancelled && p.hit_inode < 0) { outcome += std::string(" ") + kinds[p.kind] + " closed"; continue; } // closed underneath
    if (!p.size && p.hit_inode < 0) { outcome += std::string(" ") + kinds[p.kind] + " of nothing"; continue; }
    if (p.hit_inode != p.inode) c.fail("operation %d accessed the wrong file", p.id);
    bool far = p.at >= (int64_t)FARBASE;
    const std::string& ref = far ? "stuvwxyz" : p.inode ? "ABCDEFGH" : "abcdefgh";
    size_t at = (size_t)(far ? p.at - (int64_t)FARBASE : p.at);
    if (p.result > 0 && !p.parts.empty()) { // read: in the order of the sequence; write: the bytes are all the same
      std::string got; for (auto& b : p.parts) got.append((char*)b.data(), b.size());
      size_t n = (size_t)p.result;
      if (p.kind == WRITE || p.kind == WRITE_AT) { if (bytes_at(*e.w.inodes[p.inode], p.at, p.result) != got.substr(0, n)) c.fail("operation %d didn't write its data", p.id); }
      else if (got.substr(0, n) != bytes_at(*e.w.inodes[p.inode], p.at, p.result) || got.find_first_not_of('\xEE', n) != std::string::npos) c.fail("operation %d read '%s'", p.id, got.c_str());
    } else if (p.result > 0) {
      std::string want((p.kind == READ || p.kind == READ_AT) ? ref.substr(at, (size_t)p.result) : std::string((size_t)p.result, (char)('p' + p.id)));
      bool overlapped = false;
      for (auto& q : e.ops) if (&q != &p && q.inode == p.inode && (q.kind == WRITE || q.kind == WRITE_AT)) overlapped = true;
      if ((p.kind == READ || p.kind == READ_AT)) {
        if (!overlapped && std::string((char*)p.buf.get(), p.result) != want) c.fail("operation %d read '%.*s' instead of '%s'", p.id, (int)p.result, (char*)p.buf.get(), want.c_str());
        for (size_t i = (size_t)p.result; i < p.size; ++i) if (p.buf[i] != 0xEE) c.fail("operation %d changed its buffer beyond the bytes it reports", p.id);
      } else if (!overlapped && bytes_at(*e.w.inodes[p.inode], p.at, p.result) != want) c.fail("operation %d didn't write its data", p.id);
    }
    outcome += std::string(" ") + kinds[p.kind] + "=" + std::to_string(p.n) + (p.ec ? "!" : "") + "@" + std::to_string(p.thread);
  }
  e.check_fds_closed();
  c.step(sched::points());
  c.state(mc::hstr(1, outcome));
  c.cover(names[scenario]);
  if (e.ops.size() > 1) c.interesting();
}
}
int main(int argc, char** argv)
{
  mc::Config cfg; cfg.property = "C01"; cfg.pin = true; cfg.hang_cpu = 20;
  return mc::main_explore(argc, argv, cfg, run);
}
