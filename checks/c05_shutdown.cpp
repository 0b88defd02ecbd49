// C05: destroying a context with operations in any state of progress; files living concurrently on one context.
#include "async_env.hpp"

namespace {
asioext::open_flags RW = asioext::open_flags::access_read_write | asioext::open_flags::open_existing;
using IoEx = asio::io_context::executor_type;
void make_service(asio::io_context& x, int threads)
{
  if (threads > 1) asio::add_service<Service>(x, new Service(x, (std::size_t)threads));
}
struct World : Env {
  std::unique_ptr<asio::io_context> a, b;
  bool down = false;
  World(mc::Ctx& c) : Env(c), a(new asio::io_context), b(new asio::io_context) {}
  void verify()
  {
    for (auto& o : ops) {
      if (o.destroyed != 1) c.fail("operation %d: handler destroyed %d times", o.id, o.destroyed);
      if (o.calls > 1) c.fail("operation %d: handler called %d times", o.id, o.calls);
      if (o.effects > 1) c.fail("operation %d: the file was accessed %d times", o.id, o.effects);
      if (o.wrong) c.fail("operation %d: %s", o.id, o.wrong_why.c_str());
      if (o.calls && !o.aborted() && !o.effects && o.ec != asio::error::bad_descriptor) c.fail("operation %d: completed without an access", o.id);
      if (o.effects && o.hit_inode >= 0 && o.hit_inode != o.inode) c.fail("operation %d accessed another file", o.id);
      c.cover(o.calls ? o.aborted() ? "handler called: aborted" : "handler called" : o.effects ? "accessed, handler destroyed" : o.arrived ? "in its system call" : "never begun");
    }
    check_fds_closed();
  }
  void handler_ctx(int t, int x) { sched::Quiet q; running[t] = x; }
};
// Who owns the files: 0: a local variable that dies before the context, 1: the first handler, 2: both handlers,
// 3: an object bound into a posted function that never runs
void shutdown(World& e)
{
  mc::Ctx& c = e.c;
  int pool = 1 + c.choose(2, "pool threads - 1");
  int nops = 1 + c.choose(2, "operations - 1");
  int owner = c.choose(4, "owner");
  int how = owner ? c.choose(2, "executor") * 2 : c.choose(4, "executor"); // 0: default, 1: other context, 2: strand, 3: strand of the other context
  int nfiles = nops == 2 && owner != 2 ? 1 + c.choose(2, "files - 1") : nops == 2 ? 2 : 1;
  int polls = c.choose(3, "handlers run before");
  int then = owner ? 0 : c.choose(3, "before destroying"); // 0: nothing, 1: cancel, 2: close
  int runner = c.flag("another thread runs the context");
  if (runner && polls) return;
  make_service(*e.a, pool);
  sched::point("program");
  std::thread t;
  {
    std::shared_ptr<File> f[2];
    for (int i = 0; i < nfiles; ++i) f[i] = std::make_shared<File>(*e.a, i ? "/sim/b" : "/sim/a", RW);
    auto guard = std::make_unique<asio::executor_work_guard<IoEx>>(e.a->get_executor());
    if (runner) t = std::thread([&e] { e.handler_ctx(sched::self(), 0); e.a->run(); e.handler_ctx(sched::self(), -1); });
    for (int i = 0; i < nops; ++i) {
      sched::point("program");
      int fi = nfiles > 1 ? i : 0;
      OpRec& o = e.record(i ? WRITE_AT : READ_AT, fi, fi, (uint64_t)i + 1, 2, how == 1 || how == 3 ? 1 : 0);
      Handler h(e, o);
      if (owner == 1 && i == 0) { h.extra = std::shared_ptr<void>(std::make_shared<std::pair<std::shared_ptr<void>, std::shared_ptr<void>>>(f[0], f[1])); }
      if (owner == 2) h.extra = f[fi];
      switch (how) {
        case 0: e.initiate(*f[fi], o, std::move(h)); break;
        case 1: e.initiate(*f[fi], o, asio::bind_executor(e.b->get_executor(), std::move(h))); break;
        case 2: e.initiate(*f[fi], o, asio::bind_executor(asio::strand<IoEx>(e.a->get_executor()), std::move(h))); break;
        case 3: e.initiate(*f[fi], o, asio::bind_executor(asio::strand<IoEx>(e.b->get_executor()), std::move(h))); break;
      }
    }
    if (owner == 3) asio::post(*e.a, [g0 = f[0], g1 = f[1]] {});
    sched::point("program");
    if (then == 1) f[0]->cancel(); else if (then == 2) f[0]->close();
    for (int i = 0; i < polls; ++i) { sched::point("program"); e.handler_ctx(0, 0); e.a->poll_one(); e.handler_ctx(0, -1); }
    if (runner) { sched::point("program"); e.a->stop(); t.join(); }
    guard.reset();
    sched::point("program");
  }
  e.a.reset();
  if (e.w.count_open()) c.fail("%d handles are still open after the context has been destroyed", e.w.count_open());
  size_t calls = 0; for (auto& o : e.ops) calls += (size_t)o.calls;
  if (c.flag("the other context runs")) { e.handler_ctx(0, 1); e.b->run(); e.handler_ctx(0, -1); } // what had been posted there
  e.b.reset();
}
// ---- concurrent lifetimes --------------------------------------------------------------------------------------------
// The program of one thread on files of its own (i: thread)
void life(World& e, int kind, int i)
{
  const char* p[] = {"/sim/a", "/sim/b", "/sim/c"};
  auto start = [&](File& f) { OpRec& o = e.record(READ_AT, i, i, 1, 2, -1); e.initiate(f, o, Handler(e, o)); };
  switch (kind) {
    case 0: { File f(*e.a); } break;
    case 1: { File f(*e.a, p[i], RW); start(f); } break;
    case 2: { File f(*e.a, p[i], RW); File g(std::move(f)); g.close(); } break;
    case 3: { std::unique_ptr<File> f(new File(*e.a)), g(new File(*e.a, p[i], RW)); *f = std::move(*g); g.reset(); f->cancel(); } break;
    case 4: { File f(*e.a, p[i], RW); File g(*e.b); f = std::move(g); File h(*e.a, p[i], RW); f = std::move(h); } break;
    case 5: { std::unique_ptr<File> f(new File(*e.a, p[i], RW)), g(new File(*e.a)), h(new File(*e.b)); f.reset(); *h = std::move(*g); g.reset(); } break;
  }
}
void concurrent(World& e, bool three)
{
  mc::Ctx& c = e.c;
  int n = three ? 3 : 2;
  int k[3]; for (int i = 0; i < n; ++i) { k[i] = c.choose(6, "program of a thread"); if (i && k[i] < k[i - 1]) return; }
  int before = three ? 1 : c.choose(2, "the service and a file exist already");
  std::unique_ptr<File> f; if (before) { f.reset(new File(*e.a)); File g(*e.b); }
  sched::settle();
  std::thread t[3];
  for (int i = 0; i < n; ++i) t[i] = std::thread([&e, &k, i] { life(e, k[i], i); });
  for (int i = 0; i < n; ++i) t[i].join();
  if (f && f->is_open()) c.fail("a file nobody touched is open");
  sched::calm(true);
  f.reset();
  e.handler_ctx(0, 0); e.a->run(); e.handler_ctx(0, -1);
  for (auto& o : e.ops) if (o.calls != 1) c.fail("operation %d: handler called %d times", o.id, o.calls);
  e.a.reset(); e.b.reset();
  sched::calm(false);
}
void run(mc::Ctx& c)
{
  bool th = c.thorough();
  int sc = c.choose(4, "scenario");
  static const char* names[] = {"shutdown, every mutex operation", "shutdown, coarse", "two threads", "three threads"};
  if (*c.only() && strcmp(c.only(), names[sc])) return;
  static const int qb[] = {1, 2, 2, 1}, tb[] = {2, 3, 3, 2};
  c.set_bound(th ? tb[sc] : qb[sc]);
  World* e = new World(c);
  e->w.create("/sim/a", "abcdefgh"); e->w.create("/sim/b", "ABCDEFGH"); e->w.create("/sim/c", "01234567");
  sched::Options o; o.locks = sc != 1;
  e->begin(o);
  if (sc < 2) shutdown(*e); else concurrent(*e, sc == 3);
  sched::Quiet* q = nullptr; (void)q;
  e->a.reset(); e->b.reset();
  sched::end();
  e->verify();
  c.step(sched::points());
  uint64_t h = sc;
  for (auto& p : e->ops) { h = mc::mix(h, (uint64_t)p.calls * 8 + (p.arrived != 0) * 4 + p.effects); h = mc::mix(h, (uint64_t)p.ec.value()); }
  for (auto& k : e->w.log) h = mc::mix(h, (uint64_t)k.op * 64 + k.fd);
  c.state(h);
  c.cover(names[sc]);
  if (e->ops.size() > 1) c.interesting();
  delete e;
}
}
int main(int argc, char** argv)
{
  mc::Config cfg; cfg.property = "C05"; cfg.pin = true; cfg.hang_cpu = 20;
  return mc::main_explore(argc, argv, cfg, run);
}
