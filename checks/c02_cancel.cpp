// C02: cancel() aborts exactly the earlier operations that had not begun; C03: closing/destroying/assigning over a file.
#include "async_env.hpp"
#ifndef PROP
#define PROP 2
#endif

namespace {
asioext::open_flags RW = asioext::open_flags::access_read_write | asioext::open_flags::open_existing;
constexpr unsigned long INF = ~0ul;
// one call of cancel/close/... on a file; operations started before it on that file are concerned
struct Cut { int file; unsigned long called, returned; const char* what; };

struct World : Env {
  std::unique_ptr<asio::io_context> a, b;
  std::vector<Cut> cuts;
  World(mc::Ctx& c) : Env(c), a(new asio::io_context), b(new asio::io_context) {}
  template <typename F> void cut(int file, const char* what, F&& f)
  {
    sched::point("program");
    unsigned long t;
    { sched::Quiet q; t = tick(); if (c.logging) c.note("thread %d: %s of file %d", sched::self(), what, file); }
    f();
    { sched::Quiet q; cuts.push_back({file, t, tick(), what}); if (c.logging) c.note("thread %d: %s of file %d returned", sched::self(), what, file); }
  }
  void go(File& f, int file, int inode, Kind k, Handler* (*)(Handler*) = nullptr)
  {
    sched::point("program");
    OpRec& o = record(k, file, inode, (uint64_t)ops.size() + 1, 2, 0);
    initiate(f, o, Handler(*this, o));
  }
  void drain(asio::io_context& x, int idx)
  {
    int t = sched::self();
    { sched::Quiet q; running[t] = idx; }
    x.restart(); x.run();
    { sched::Quiet q; running[t] = -1; }
  }
  // fd_closes: the cut closes the descriptor
  void verify(bool closes)
  {
    for (auto& o : ops) {
      bool must = false, may = false; const char* by = "";
      for (auto& k : cuts) {
        if (k.file != o.file || o.started > k.returned) continue;
        if (o.returned && o.returned < k.called) {
          // an operation that entered its access during the call may have been too fast or too slow
          if (!o.arrived || o.arrived > k.returned) { must = true; by = k.what; }
          else if (o.arrived > k.called) may = true;
        } else if (o.started < k.returned) may = true; // concurrent start (not generated)
      }
      if (o.calls != 1) c.fail("operation %d: handler called %d times", o.id, o.calls);
      if (must) {
        if (o.arrived || o.effects) c.fail("operation %d accesses the file (%s) although its access hadn't begun when %s returned", o.id, kinds[o.kind], by);
        if (closes ? !o.ec : !o.aborted()) c.fail("operation %d completes with '%s' although its access hadn't begun when %s returned", o.id, o.ec.message().c_str(), by);
        if (o.n) c.fail("operation %d: aborted with %zu bytes", o.id, o.n);
        if (o.destroyed != 1) c.fail("operation %d: handler destroyed %d times", o.id, o.destroyed);
        c.cover("aborted");
        continue;
      }
      if (o.aborted() && !may) c.fail("operation %d is aborted, but no %s concerns it", o.id, closes ? "close" : "cancel()");
      if (o.aborted() && o.arrived) c.fail("operation %d is reported as aborted, but it entered its access", o.id);
      if (closes && !o.effects && o.ec && !o.n) { c.cover("aborted during"); continue; } // failed without an access
      if (closes && o.effects && o.hit_inode != o.inode) {
        if (o.hit_inode < 0) { // the descriptor was closed under it
          if (o.ec != asio::error::bad_descriptor) c.fail("operation %d: no descriptor, but '%s'", o.id, o.ec.message().c_str());
          c.cover("descriptor already closed");
          continue;
        }
        unsigned long closed = INF;
        for (auto& k : cuts) if (k.file == o.file && o.started < k.returned && k.returned < closed) closed = k.returned;
        if (o.arrived < first_close)
          c.known("reuse-window", "operation %d had entered its system call before its file was closed, but accesses another file that has been opened since and got the same descriptor", o.id);
        else c.fail("operation %d accesses file %d instead of its own file %d, which was closed before the access began", o.id, o.hit_inode, o.inode);
        continue;
      }
      check_result(o);
      if (o.hit_inode != o.inode) c.fail("operation %d accessed the wrong file", o.id);
      c.cover(o.aborted() ? "aborted during" : "completed");
    }
  }
  unsigned long first_close = INF; // when the close system call of file 0 took effect
};
void make_service(asio::io_context& x, int threads)
{
  if (threads > 1) asio::add_service<Service>(x, new Service(x, (std::size_t)threads));
}
Kind kind_of(mc::Ctx& c)
{
  static const Kind k4[] = {READ_AT, WRITE_AT, READ, WRITE};
  return k4[c.choose(c.thorough() ? 4 : 2, "kind")];
}

// ---- C02 --------------------------------------------------------------------------------------------------------------
void cancel_program(World& e, bool fine)
{
  mc::Ctx& c = e.c;
  int pool = 1 + c.choose(2, "pool threads - 1");
  int nfiles = fine ? 1 : 1 + c.choose(2, "files - 1");
  int who = c.choose(2, "cancelling thread"); // 0: the initiating one, 1: a thread running the context meanwhile exists
  int len = fine ? 3 : c.thorough() ? 5 : 4;
  // program: start/cancel on either file; at least one start before a cancel, at most 3 starts
  struct Step { bool cancel; int file; };
  std::vector<Step> prog; int starts = 0, cancels = 0;
  for (int i = 0; i < len; ++i) {
    int k = c.choose(1 + (starts < 3 ? nfiles : 0) + (starts && cancels < 2 ? nfiles : 0), "step");
    if (!k) break;
    --k;
    if (starts < 3 && k < nfiles) { prog.push_back({false, k}); ++starts; }
    else { if (starts < 3) k -= nfiles; prog.push_back({true, k}); ++cancels; }
  }
  if (!starts || !cancels) return;
  Kind k0 = kind_of(c);
  if (!fine) { static const int as[] = {FULL, FAIL, NOTHING}; e.all_answers = as[c.choose(3, "answer to every access")]; }
  make_service(*e.a, pool);
  {
    std::unique_ptr<File> f[2];
    for (int i = 0; i < nfiles; ++i) f[i].reset(new File(*e.a, i ? "/sim/b" : "/sim/a", RW));
    sched::settle();
    std::thread runner;
    auto guard = std::make_unique<asio::executor_work_guard<asio::io_context::executor_type>>(e.a->get_executor());
    if (who) { runner = std::thread([&] { e.drain(*e.a, 0); }); sched::settle(); }
    for (auto& s : prog) {
      if (s.cancel) e.cut(s.file, "cancel()", [&] {
        error_code ec = asio::error::host_not_found;
        f[s.file]->cancel(ec);
        if (ec) c.fail("cancel() of an open file reports '%s'", ec.message().c_str());
      });
      else e.go(*f[s.file], s.file, s.file, e.ops.size() == 1 ? (k0 == READ_AT ? WRITE_AT : READ_AT) : k0);
    }
    sched::point("program");
    sched::calm(true); // nothing that follows depends on the order
    guard.reset();
    if (who) runner.join(); else e.drain(*e.a, 0);
    // cancelling leaves the files usable
    for (int i = 0; i < nfiles; ++i) {
      if (!f[i]->is_open()) c.fail("file %d isn't open any more after cancel()", i);
      e.go(*f[i], i, i, READ_AT);
    }
    e.drain(*e.a, 0);
  }
}
// cancel from inside a completion handler
void cancel_in_handler(World& e)
{
  mc::Ctx& c = e.c;
  int pool = 1 + c.choose(2, "pool threads - 1");
  int more = 1 + c.choose(2, "operations after the first");
  bool again = c.flag("start another one in the handler");
  make_service(*e.a, pool);
  File f(*e.a, "/sim/a", RW);
  sched::settle();
  static World* w; static File* pf; static bool ag; w = &e; pf = &f; ag = again;
  OpRec& o = e.record(READ_AT, 0, 0, 1, 2, 0);
  Handler h(e, o);
  h.then = [](Env&, OpRec&) {
    w->cut(0, "cancel()", [] { pf->cancel(); });
    if (ag) w->go(*pf, 0, 0, READ_AT);
  };
  e.initiate(f, o, std::move(h));
  for (int i = 0; i < more; ++i) e.go(f, 0, 0, i ? READ_AT : WRITE_AT);
  e.drain(*e.a, 0);
}

// ---- C03 --------------------------------------------------------------------------------------------------------------
void close_program(World& e, bool fine)
{
  mc::Ctx& c = e.c;
  static const char* hows[] = {"close", "close(ec)", "destruction", "move assignment of a closed file", "move assignment of an open file", "move assignment across contexts"};
  int how = c.choose(6, "how");
  int pool = 1 + c.choose(2, "pool threads - 1");
  int nops = fine ? 1 : 1 + c.choose(2, "operations - 1");
  int other = fine ? c.choose(2, "then") : c.choose(5, "then"); // 0: nothing, 1: reopen in the same object, 2: in another object on the same context, 3: on another context, 4: another thread, right when the descriptor is free
  bool start_more = other && other != 4 ? c.flag("start an operation on the new file") : false;
  bool runner = c.flag("context run by another thread");
  Kind k0 = fine ? READ_AT : kind_of(c);
  make_service(*e.a, pool);
  {
    std::unique_ptr<File> f(new File(*e.a, "/sim/a", RW)), g, h;
    if (how == 3) g.reset(new File(*e.a));
    if (how == 4) g.reset(new File(*e.a, "/sim/c", RW));
    if (how == 5) g.reset(new File(*e.b, "/sim/c", RW));
    auto guard = std::make_unique<asio::executor_work_guard<asio::io_context::executor_type>>(e.a->get_executor());
    std::thread t;
    if (runner) t = std::thread([&] { e.drain(*e.a, 0); });
    sched::settle();
    int fd = f->native_handle();
    if (fd != simfs::BASE) c.fail("unexpected descriptor %d", fd);
    simfs::Ofd* alien = nullptr;
    if (other == 4) e.on_close = [&](const simfs::Call& k) {
      if (k.fd != simfs::BASE || alien) return;
      alien = new simfs::Ofd; alien->id = 1000; alien->inode = e.w.names["/sim/b"]; alien->flags = O_RDWR; alien->refs = 1;
      e.w.ofds.push_back(alien);
      e.w.fds[0] = alien;
      e.first_close = e.close_effect[0];
      if (c.logging) c.note("another thread opens /sim/b and gets descriptor %d", k.fd);
      sched::point("descriptor reused");
    };
    for (int i = 0; i < nops; ++i) e.go(*f, 0, 0, i ? (k0 == READ_AT ? WRITE_AT : READ_AT) : k0);
    e.cut(0, hows[how], [&] {
      switch (how) {
        case 0: f->close(); break;
        case 1: { error_code ec = asio::error::host_not_found; f->close(ec); if (ec) c.fail("close() reports '%s'", ec.message().c_str()); break; }
        case 2: f.reset(); break;
        case 3: case 4: case 5: *f = std::move(*g); break;
      }
    });
    e.first_close = e.close_effect[0];
    if (!e.first_close) c.fail("%s doesn't close the handle", hows[how]);
    if (e.w.fds[0] != alien) c.fail(alien ? "%s closes the descriptor twice, hitting another file" : "%s: the handle is still open", hows[how]);
    if (how < 2 || how == 3) { if (f->is_open()) c.fail("the file is still open after %s", hows[how]); }
    if (how >= 4) {
      if (!f->is_open() || f->native_handle() != simfs::BASE + 1) c.fail("the file doesn't own the handle moved into it");
      if (g->is_open()) c.fail("the moved-from file is open");
    }
    sched::point("program");
    File* nf = nullptr; int nctx = 0;
    error_code ec = asio::error::host_not_found;
    if (other == 1 && f) {
      if (f->is_open()) { e.cut(1, "close()", [&] { f->close(); }); e.cuts.back().file = 1; }
      f->open("/sim/b", RW, ec); nf = f.get(); nctx = how == 5 ? 1 : 0;
    } else if (other == 2 || (other == 1 && !f)) { h.reset(new File(*e.a, "/sim/b", RW, ec)); nf = h.get(); }
    else if (other == 3) { h.reset(new File(*e.b, "/sim/b", RW, ec)); nf = h.get(); nctx = 1; }
    if (nf) {
      if (ec) c.fail("opening another file reports '%s'", ec.message().c_str());
      if (nf->native_handle() != simfs::BASE) c.fail("internal: descriptor not reused");
      if (start_more) {
        sched::point("program");
        OpRec& o = e.record(READ_AT, 2, 1, 3, 2, nctx);
        e.initiate(*nf, o, Handler(e, o));
      }
    }
    sched::point("program");
    sched::calm(true); // nothing that follows depends on the order
    guard.reset();
    if (runner) t.join();
    e.drain(*e.a, 0);
    e.drain(*e.b, 1);
    e.on_close = nullptr;
    if (alien) {
      if (e.w.fds[0] != alien) c.fail("%s: the file another thread has opened meanwhile is closed", hows[how]);
      e.w.fds[0] = nullptr; c.cover("descriptor reused at once");
    }
    // a second close finds nothing to close
    if (f && !f->is_open()) { error_code ec; int n = e.w.calls(simfs::Op::close); f->close(ec); if (e.w.calls(simfs::Op::close) != n) c.fail("closing a closed file closes something"); }
  }
}

void run(mc::Ctx& c)
{
  bool th = c.thorough();
  World* e = new World(c);
  e->w.create("/sim/a", "abcdefgh");
  e->w.create("/sim/b", "ABCDEFGH");
  e->w.create("/sim/c", "01234567");
  bool fine = c.flag("scheduling points at every mutex operation");
#if PROP == 2
  int sc = c.choose(2, "scenario");
  c.set_bound(th ? (fine ? 2 : 3) : (fine ? 1 + sc : 2 + sc));
#else
  int sc = 2;
  c.set_bound(th ? (fine ? 2 : 3) : (fine ? 1 : 2));
#endif
  sched::Options o; o.locks = fine;
  // io_contexts are created by the World before
  e->begin(o);
  if (sc == 0) cancel_program(*e, fine); else if (sc == 1) cancel_in_handler(*e); else close_program(*e, fine);
  e->b.reset(); e->a.reset();
  sched::end();
  e->verify(sc == 2);
  e->check_fds_closed();
  c.step(sched::points());
  uint64_t h = sc;
  for (auto& p : e->ops) { h = mc::mix(h, (uint64_t)p.ec.value() * 8 + p.n); h = mc::mix(h, (p.arrived != 0) * 4 + (p.hit_inode + 1)); h = mc::mix(h, p.kind * 4 + p.file); }
  for (auto& k : e->cuts) h = mc::mix(h, k.file);
  c.state(h);
  c.cover(fine ? "fine-grained" : "coarse");
  if (e->ops.size() > 2) c.interesting();
  delete e;
}
}
int main(int argc, char** argv)
{
  mc::Config cfg; cfg.property = PROP == 2 ? "C02" : "C03"; cfg.pin = true; cfg.hang_cpu = 20;
  return mc::main_explore(argc, argv, cfg, run);
}
