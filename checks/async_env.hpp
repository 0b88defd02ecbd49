// Shared by the checks of the asynchronous file service (C01..C05): one simulated world, recorded operations, handlers
// with a ledger, everything driven by the controlled scheduler.
#pragma once
#include "mc.hpp"
#include "sched.hpp"
#include "simfs.hpp"
#include <asioext/basic_file.hpp>
#include <asioext/file.hpp>
#include <asioext/open.hpp>
#include <asioext/open_flags.hpp>
#include <asioext/thread_pool_file_service.hpp>
#include <asio/bind_executor.hpp>
#include <asio/executor_work_guard.hpp>
#include <asio/io_context.hpp>
#include <asio/strand.hpp>
#include <deque>
#include <memory>
#include <new>
#include <thread>
#include <vector>

using asioext::error_code;
using Service = asioext::thread_pool_file_service;
using File = asioext::basic_file<Service>;
enum Kind { READ, WRITE, READ_AT, WRITE_AT };
inline const char* kinds[] = {"async_read_some", "async_write_some", "async_read_some_at", "async_write_some_at"};
enum Answer { FULL, SHORT, FAIL, INTR, NOTHING, NANSWERS };
inline const char* answers[] = {"full", "one byte", "EIO", "EINTR first", "nothing"};

struct OpRec {
  int id = 0; Kind kind = READ; int file = -1; int inode = -1; uint64_t offset = 0;
  std::unique_ptr<unsigned char[]> buf; size_t size = 0;
  std::vector<asio::mutable_buffer> parts; // the buffer sequence, if it isn't buf; all are pieces of buf
  unsigned long started = 0, returned = 0, arrived = 0, effect = 0, handled = 0; // sequence numbers, 0: never
  int effects = 0; int64_t result = 0; int err = 0; int hit_inode = -1; int64_t at = -1; int hit_fd = -1; std::string seen;
  bool wrong = false; std::string wrong_why;
  int calls = 0, destroyed = 0; error_code ec; size_t n = 0; int thread = -1; bool inside = false;
  int ctx = -1; // index of the context whose thread must run the handler
  bool aborted() const { return ec == asio::error::operation_aborted; }
};

struct Env {
  mc::Ctx& c;
  simfs::World w;
  std::deque<OpRec> ops;
  unsigned long seq = 0;
  int starting[8] = {}; // operation being started by a thread, +1
  int running[8];       // context being run by a thread, -1
  int answer_mode = 0;  // 0: always full, 1: deviations
  int all_answers = 0;  // Answer of every access, in mode 0
  unsigned long close_effect[simfs::MAXFD] = {};
  std::vector<int> open_inode; // per descriptor, for the harness

  static Env*& cur() { static Env* e; return e; }
  explicit Env(mc::Ctx& c) : c(c)
  {
    for (int& r : running) r = -1;
    cur() = this; simfs::world = &w;
    w.before = [this](simfs::Call& k) { before(k); };
    w.policy = [this](simfs::Call& k) { policy(k); };
    w.after = [this](const simfs::Call& k) { after(k); };
  }
  ~Env() { simfs::world = nullptr; cur() = nullptr; }
  unsigned long tick() { return ++seq; }

  void begin(const sched::Options& o)
  {
    sched::Hooks h;
    h.ctx = &c;
    h.choose = [](void* x, int n, const char* t, bool d) { auto& c = *(mc::Ctx*)x; return d ? c.choose_dev(n, t) : c.choose(n, t); };
    h.fail = [](void* x, const char* m) { ((mc::Ctx*)x)->fail("%s", m); };
    h.note = c.logging ? +[](void* x, const char* m) { ((mc::Ctx*)x)->note("%s", m); } : nullptr;
    h.tolerate = [](void* x, const char* m) {
      // asio shuts services down in reverse order of their creation: strands before the file service's threads
      if (!strstr(m, "strand_executor_service8shutdown")) return false;
      ((mc::Ctx*)x)->known("strand-shutdown", "%s", m);
      return true;
    };
    sched::begin(h, o);
  }
  OpRec* by_buffer(const iovec* v, int n)
  {
    for (int i = 0; i < n; ++i)
      for (auto& o : ops)
        if (o.buf && (unsigned char*)v[i].iov_base >= o.buf.get() && (unsigned char*)v[i].iov_base <= o.buf.get() + o.size) return &o;
    return nullptr;
  }
  void before(simfs::Call& k)
  {
    if (!sched::active()) return;
    sched::Quiet q;
    if (k.io()) {
      OpRec* o = by_buffer(k.iov, k.iovcnt);
      if (!o && foreign) return;
      if (!o) c.fail("%s with a buffer no operation was started with", simfs::name(k.op));
      if (!o->arrived) o->arrived = tick();
      if (c.logging) c.note("thread %d: operation %d enters %s on descriptor %d", sched::self(), o->id, simfs::name(k.op), k.fd);
      sched::point("system call");
    } else {
      if (c.logging) c.note("thread %d: enters %s (descriptor %d)", sched::self(), simfs::name(k.op), k.fd);
      sched::point("system call");
    }
  }
  std::function<void(const simfs::Call&)> on_close; // right after a descriptor has been closed
  bool foreign = false; // accesses that don't belong to a recorded operation are fine
  void policy(simfs::Call& k)
  {
    if (!sched::active() || !k.io() || !k.ofd) return;
    sched::Quiet q;
    int a = answer_mode ? c.choose_dev(k.err ? 4 : 5, "answer") : all_answers;
    switch (a) {
      case SHORT: k.limit = 1; break;
      case FAIL: k.force_errno = EIO; break;
      case INTR: k.force_errno = EINTR; break;
      case NOTHING: k.limit = 0; break;
    }
    if (a && c.logging) c.note("answer: %s", answers[a]);
  }
  void after(const simfs::Call& k)
  {
    if (!sched::active()) return;
    sched::Quiet q;
    unsigned long t = tick();
    if (k.op == simfs::Op::close && k.fd >= simfs::BASE) {
      if (k.result < 0 && k.err == EBADF) c.fail("a handle (%d) is closed that isn't open: closed twice", k.fd);
      close_effect[k.fd - simfs::BASE] = t;
      if (on_close) on_close(k);
    }
    if (!k.io()) return;
    OpRec* o = by_buffer(k.iov, k.iovcnt);
    if (!o) return;
    if (k.err == EINTR) return;
    o->effects++; o->effect = t; o->result = k.result; o->err = k.err; o->hit_inode = k.inode_id; o->hit_fd = k.fd; o->at = k.at;
    bool rd = o->kind == READ || o->kind == READ_AT, pos = o->kind == READ_AT || o->kind == WRITE_AT;
    auto bad = [&](const char* m) { o->wrong = true; o->wrong_why = std::string(m) + ": " + simfs::describe(k); };
    if (k.read_like() != rd) bad("wrong direction");
    else if (pos && k.at != (int64_t)o->offset) bad("wrong offset");
    else if (!o->parts.empty()) {
      std::vector<unsigned char*> want, got; // a long sequence may be transferred in part
      for (auto& b : o->parts) for (size_t i = 0; i < b.size(); ++i) want.push_back((unsigned char*)b.data() + i);
      for (int j = 0; j < k.iovcnt; ++j) for (size_t i = 0; i < k.iov[j].iov_len; ++i) got.push_back((unsigned char*)k.iov[j].iov_base + i);
      if (got.size() > want.size() || !std::equal(got.begin(), got.end(), want.begin()) || (got.empty() && !want.empty())) bad("wrong buffers");
    }
    else if (k.iovcnt != 1 || k.iov[0].iov_base != o->buf.get() || k.iov[0].iov_len != o->size) bad("wrong buffers");
    if (k.result > 0) {
      if (rd) o->seen.assign((char*)o->buf.get(), (size_t)k.result);
      sched::access(o->buf.get(), (size_t)k.result, rd);
    }
  }
  // Starts an operation; h gets the operation's handler
  OpRec& record(Kind k, int file, int inode, uint64_t off, size_t size, int ctx)
  {
    sched::Quiet q;
    ops.emplace_back();
    OpRec& o = ops.back();
    o.id = (int)ops.size() - 1; o.kind = k; o.file = file; o.inode = inode; o.offset = off; o.size = size; o.ctx = ctx;
    o.buf.reset(new unsigned char[size ? size : 1]);
    for (size_t i = 0; i < size; ++i) o.buf[i] = (k == READ || k == READ_AT) ? 0xEE : (unsigned char)('p' + o.id);
    if (c.logging) c.note("thread %d: operation %d = %s on file %d", sched::self(), o.id, kinds[k], file);
    return o;
  }
  template <typename F, typename Handler> void initiate(F& f, OpRec& o, Handler&& h)
  {
    int t = sched::self();
    int prev;
    { sched::Quiet q; prev = starting[t]; starting[t] = o.id + 1; o.started = tick(); }
    auto m = asio::buffer(o.buf.get(), o.size);
    switch (o.kind) {
      case READ: f.async_read_some(asio::mutable_buffer(m), std::forward<Handler>(h)); break;
      case WRITE: f.async_write_some(asio::const_buffer(m), std::forward<Handler>(h)); break;
      case READ_AT: f.async_read_some_at(o.offset, asio::mutable_buffer(m), std::forward<Handler>(h)); break;
      case WRITE_AT: f.async_write_some_at(o.offset, asio::const_buffer(m), std::forward<Handler>(h)); break;
    }
    { sched::Quiet q; starting[t] = prev; o.returned = tick(); }
  }
  // The result a handler must get for the recorded access
  void check_result(const OpRec& o)
  {
    sched::Quiet q;
    if (o.wrong) c.fail("operation %d: %s", o.id, o.wrong_why.c_str());
    if (o.calls != 1) c.fail("operation %d (%s): handler called %d times", o.id, kinds[o.kind], o.calls);
    if (o.destroyed != 1) c.fail("operation %d (%s): handler destroyed %d times", o.id, kinds[o.kind], o.destroyed);
    if (o.inside) c.fail("operation %d (%s): handler called from inside the initiating call", o.id, kinds[o.kind]);
    if (o.effects > 1) c.fail("operation %d (%s): the file was accessed %d times", o.id, kinds[o.kind], o.effects);
    if (o.aborted()) {
      if (o.effects) c.fail("operation %d (%s): reported as aborted, but it accessed the file", o.id, kinds[o.kind]);
      if (o.n) c.fail("operation %d (%s): aborted with %zu bytes", o.id, kinds[o.kind], o.n);
      return;
    }
    if (!o.effects && !o.size && !o.ec && !o.n) return; // nothing to transfer
    if (!o.effects) c.fail("operation %d (%s): completed with '%s' and %zu bytes without an access to the file", o.id, kinds[o.kind], o.ec.message().c_str(), o.n);
    error_code want; size_t n = 0;
    if (o.err) want = error_code(o.err, asio::error::get_system_category());
    else if (o.result == 0 && o.size && (o.kind == READ || o.kind == READ_AT)) want = asio::error::eof;
    else n = (size_t)o.result;
    if (o.ec != want || o.n != n)
      c.fail("operation %d (%s): handler got '%s' and %zu bytes, the access gave '%s' and %zu", o.id, kinds[o.kind], o.ec.message().c_str(), o.n, want.message().c_str(), n);
  }
  void check_fds_closed()
  {
    sched::Quiet q;
    if (int n = w.count_open()) c.fail("%d handles were never closed", n);
    int opened = 0, closed = 0;
    for (auto& k : w.log) { if (k.op == simfs::Op::open && k.result >= 0) ++opened; if (k.op == simfs::Op::close && k.result == 0) ++closed; }
    if (opened != closed) c.fail("%d handles opened, %d closed", opened, closed);
  }
};

// Move-only handler with a ledger.
struct Handler {
  Env* e = nullptr; int id = 0; bool own = false;
  std::shared_ptr<void> extra;          // something the handler owns
  void (*then)(Env&, OpRec&) = nullptr; // continuation
  Handler(Env& env, OpRec& o) : e(&env), id(o.id), own(true) {}
  Handler(Handler&& h) noexcept : e(h.e), id(h.id), own(h.own), extra(std::move(h.extra)), then(h.then) { h.own = false; }
  Handler& operator=(Handler&&) = delete;
  ~Handler()
  {
    extra.reset();
    if (!own) return;
    sched::Quiet q;
    if (Env::cur() == e) e->ops[id].destroyed++;
  }
  void operator()(error_code ec, std::size_t n)
  {
    OpRec* o;
    {
      sched::Quiet q;
      Env& v = *e;
      if (!own) v.c.fail("operation %d: a moved-from handler is called", id);
      o = &v.ops[id];
      o->calls++; o->ec = ec; o->n = n; o->handled = v.tick(); o->thread = sched::self();
      for (int i = 0; i < 8; ++i) if (v.starting[i] == id + 1) o->inside = true;
      if (v.c.logging) v.c.note("thread %d: handler of operation %d: %s, %zu bytes", o->thread, id, ec.message().c_str(), n);
      if (o->calls > 1) v.c.fail("operation %d: handler called twice", id);
      if (o->ctx >= 0 && v.running[o->thread] != o->ctx)
        v.c.fail("operation %d: handler called on thread %d, which runs context %d, not context %d", id, o->thread, v.running[o->thread], o->ctx);
      if (ec != asio::error::operation_aborted && !o->effect && o->size && !(v.foreign && ec == asio::error::bad_descriptor)) v.c.fail("operation %d: handler called with '%s' before the file was accessed", id, ec.message().c_str());
    }
    // the buffer must be visible to the handler (race detection)
    volatile unsigned char sink = 0;
    if (ec != asio::error::operation_aborted) for (size_t i = 0; i < o->size; ++i) sink = sink + o->buf[i];
    if (then) then(*e, *o);
  }
};
