// C26: running out of memory. In every operation that may throw, each single allocation fails in turn; the operation
// must throw, leave nothing behind and lose nothing, and all objects must work afterwards.
#include "mc.hpp"
#include <asioext/file.hpp>
#include <asioext/open.hpp>
#include <asioext/duplicate.hpp>
#include <asioext/read_file.hpp>
#include <asioext/write_file.hpp>
#include <asioext/unique_handler.hpp>
#include <asioext/linear_buffer.hpp>
#include <asioext/compose.hpp>
#include <asioext/bind_handler.hpp>
#include <asioext/experimental/buffered_stream.hpp>
#include <asioext/socks/client.hpp>
#include <asioext/socks/error.hpp>
#include <asio/as_tuple.hpp>
#include <asio/bind_executor.hpp>
#include <asio/co_spawn.hpp>
#include <asio/detached.hpp>
#include <asio/post.hpp>
#include <asio/strand.hpp>
#include <asio/use_awaitable.hpp>
#include <asio/use_future.hpp>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <new>
#ifndef PART
# define PART 0
#endif
#if PART == 0
# include "simfs.hpp"
#else
# include <asioext/connect.hpp>
# include "sim_net.hpp"
#endif
using namespace asioext;

// ---- allocations -----------------------------------------------------------------------------------------------------------------
namespace oom {
mc::Ctx* ctx = nullptr; int budget = 1; bool armed_once = true; bool spent = false; // has an allocation failed?
thread_local int armed = 0, quiet = 0;
bool other_thread = false; // a future's promise is fulfilled by a thread of asio's system context, which nobody waits for
std::atomic<long> live{0}, seen{0};
void* take(size_t n)
{
  if (armed && !quiet && budget && armed_once && ctx) {
    ++quiet; ++seen; bool fail = ctx->choose(2, "this allocation fails"); if (fail) { spent = true; --budget; armed_once = false; } --quiet;
    if (fail) throw std::bad_alloc();
  }
  void* p = malloc(n ? n : 1); if (!p) abort(); ++live; return p;
}
void give(void* p) { if (p) { --live; free(p); } }
struct Arm { Arm() { ++armed; } ~Arm() { --armed; } };
struct Quiet { Quiet() { ++quiet; } ~Quiet() { --quiet; } };
}
extern "C" void mc_quiet(int d) { oom::quiet += d; }
void* operator new(size_t n) { return oom::take(n); }
void* operator new[](size_t n) { return oom::take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return oom::take(n); } catch (std::bad_alloc&) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a)  { if (oom::armed && !oom::quiet) oom::give(oom::take(1)); void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); ++oom::live; return p; }
extern "C" void* aligned_alloc(size_t a, size_t n) // asio's own allocator
{
  if (oom::armed && !oom::quiet) { try { oom::give(oom::take(1)); } catch (std::bad_alloc&) { return nullptr; } }
  void* p = nullptr; return posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n) ? nullptr : p;
}
void operator delete(void* p) noexcept { oom::give(p); }
void operator delete[](void* p) noexcept { oom::give(p); }
void operator delete(void* p, size_t) noexcept { oom::give(p); }
void operator delete[](void* p, size_t) noexcept { oom::give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { oom::give(p); }
void operator delete(void* p, std::align_val_t) noexcept { oom::give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { oom::give(p); }

namespace {
const open_flags RW = open_flags::access_read_write | open_flags::open_existing;
struct Live { int* n; explicit Live(int& c) : n(&c) { ++*n; } Live(Live&& o) noexcept : n(o.n) { o.n = nullptr; } ~Live() { if (n) --*n; } };
// Runs f with failing allocations. true: it threw bad_alloc.
template <typename F> bool attempt(mc::Ctx& c, const char* what, F&& f)
{
  oom::armed_once = true; // one failure per call
  try { oom::Arm a; f(); }
  catch (std::bad_alloc&) { oom::Quiet q; if (!oom::spent) c.fail("%s: throws bad_alloc although no allocation failed", what); c.cover(what); return true; }
  catch (MC_SYSTEM_ERROR& e) { c.fail("%s: throws '%s'", what, e.what()); }
  catch (std::exception& e) { c.fail("%s: throws %s", what, e.what()); }
  return false;
}
#if PART == 0
struct Base {
  mc::Ctx& c; simfs::World w; std::mutex m; std::condition_variable cv; bool shut = false;
  explicit Base(mc::Ctx& cc) : c(cc)
  {
    simfs::world = &w; w.create("/sim/a", "abcdefgh"); w.create("/sim/b", "ABCDEFGH");
    w.before = [this](simfs::Call& k) { if (k.io()) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return !shut; }); } };
  }
  ~Base() { release(); simfs::world = nullptr; }
  void hold() { shut = true; }
  void release() { { std::lock_guard<std::mutex> l(m); shut = false; } cv.notify_all(); }
  int opened(int id) const { int n = 0; for (auto* o : w.fds) n += o && o->inode->id == id; return n; }
};
// The object does everything a fresh one does.
void exercise(Base& b, asioext::file& f, asio::io_context& io, const char* what)
{
  auto& c = b.c; error_code ec; char buf[3]; int open_before = b.w.count_open();
  if (f.is_open()) {
    f.seek(seek_origin::from_begin, 0, ec); if (ec) c.fail("%s: seek in a file that says it is open: %s", what, ec.message().c_str());
    f.cancel(ec); if (ec) c.fail("%s: cancel: %s", what, ec.message().c_str());
  } else {
    f.open("/sim/b", open_args(RW), ec); if (ec) c.fail("%s: cannot be opened afterwards: %s", what, ec.message().c_str()); ++open_before;
  }
  for (int i = 0; i < 2; ++i) {
    int times = 0; size_t n = 0; while (attempt(c, "a later async_read_some_at", [&] { f.async_read_some_at(1, asio::buffer(buf), [&](error_code e, size_t k) { ++times; ec = e; n = k; }); })) {}
    io.restart(); io.run();
    if (times != 1 || ec || n != 3) c.fail("%s: a later async_read_some_at delivers %d times: %s, %zu bytes", what, times, ec.message().c_str(), n);
  }
  // cancelling affects what is outstanding
  b.hold(); int done = 0; error_code e1, e2;
  f.async_read_some_at(0, asio::buffer(buf), [&](error_code e, size_t) { ++done; e1 = e; });
  f.async_read_some_at(0, asio::buffer(buf), [&](error_code e, size_t) { ++done; e2 = e; });
  f.cancel(); b.release(); io.restart(); io.run();
  if (done != 2 || e2 != asio::error::operation_aborted) c.fail("%s: a later cancel() does not abort the queued operation (%s)", what, e2.message().c_str());
  f.close(ec); if (ec || f.is_open() || b.w.count_open() != open_before - 1) c.fail("%s: a later close(): %s, %d handles open", what, ec.message().c_str(), b.w.count_open());
}
// ---- files -----------------------------------------------------------------------------------------------------------------------------
void constructing(mc::Ctx& c)
{
  Base b(c); auto pio = std::make_unique<asio::io_context>(); auto& io = *pio; std::unique_ptr<asioext::file> old;
  int kind = c.choose(6, "constructor"), other = c.choose(2, "another file exists"); error_code ec;
  static const char* names[] = {"file(context)", "file(context, name)", "file(context, name that does not exist)", "file(context, handle)", "file(file&&)", "file(context, name, args)"};
  const char* what = names[kind];
  if (other) old.reset(new asioext::file(io, "/sim/a", RW));
  int h = -1; if (kind == 3) h = asioext::open("/sim/b", RW).release().native_handle();
  const int before = b.w.count_open();
  // on the heap, so that whoever still refers to an object that was never constructed is found out
  void* mem = malloc(sizeof(asioext::file)); asioext::file* f = nullptr; bool refused = false;
  bool threw = attempt(c, what, [&] {
    switch (kind) {
      case 0: f = new (mem) asioext::file(io); break;
      case 1: f = new (mem) asioext::file(io, "/sim/b", RW); break;
      case 2: try { f = new (mem) asioext::file(io, "/sim/none", RW); } catch (MC_SYSTEM_ERROR& e) { refused = true; if (e.code().value() != ENOENT) c.fail("%s: %s", what, e.what()); } break;
      case 3: f = new (mem) asioext::file(io, h); break;
      case 4: { oom::Quiet q; asioext::file g(io, "/sim/b", RW); f = new (mem) asioext::file(std::move(g)); break; } // noexcept
      case 5: f = new (mem) asioext::file(io, "/sim/b", open_args(RW)); break;
    }
  });
  if (threw != oom::spent) c.fail("%s: a failed allocation is not reported", what);
  if (!f) {
    if (!threw && !refused) c.fail("%s: neither constructed nor thrown", what);
    if (b.w.count_open() != before) c.fail("%s: threw, %d handles open instead of %d", what, b.w.count_open(), before);
    memset(mem, 0x5a, sizeof(asioext::file)); free(mem); mem = malloc(sizeof(asioext::file));
    f = new (mem) asioext::file(io); // the context and its other files are fine
  }
  if (kind == 3 && threw) ::close(h);
  exercise(b, *f, io, what);
  if (old) exercise(b, *old, io, "the other file");
  bool first = c.choose(2, "the context goes first");
  if (first) { // its files are owned by a function that never runs, and are closed with the context
    f->open("/sim/a", open_args(RW), ec); if (old) old->open("/sim/b", open_args(RW), ec);
    struct Del { void* m; void operator()(asioext::file* x) const { x->~basic_file(); free(m); } };
    asio::post(io, [f = std::unique_ptr<asioext::file, Del>(f, Del{mem}), old = std::move(old)] {}); pio.reset();
  } else { f->~basic_file(); free(mem); old.reset(); pio.reset(); }
  if (b.w.count_open()) c.fail("%s: %d handles left open", what, b.w.count_open());
  c.state(mc::mix(kind * 4 + other * 2 + first, threw)); c.step();
}
void assigning(mc::Ctx& c)
{
  Base b(c); auto p1 = std::make_unique<asio::io_context>(), p2 = std::make_unique<asio::io_context>();
  bool cross = c.choose(2, "contexts"), fo = c.choose(2, "destination open"), go = c.choose(2, "source open"), pending = go && c.choose(2, "pending"), used = c.choose(2, "source was moved from before");
  auto& io1 = *p1; auto& io2 = cross ? *p2 : *p1; const char* what = "move assignment"; char buf[3]; int done = 0;
  {
    asioext::file f(io1), g(io2); error_code ec, pec;
    if (used) { asioext::file t(std::move(g)); }
    if (fo) f.open("/sim/a", open_args(RW), ec);
    if (go) g.open("/sim/b", open_args(RW), ec);
    if (pending) { b.hold(); g.async_read_some_at(0, asio::buffer(buf), [&](error_code e, size_t) { ++done; pec = e; }); }
    bool threw = attempt(c, what, [&] { f = std::move(g); });
    if (threw != oom::spent) c.fail("%s: a failed allocation is not reported", what);
    const int na = b.opened(0), nb = b.opened(1), fi = f.is_open() ? 1 : 0, gi = g.is_open() ? 1 : 0;
    if (nb != go) c.fail("%s: the source's handle is open %d times", what, nb);
    if (na + nb != fi + gi) c.fail("%s: %d handles are open, but %d objects say they are", what, na + nb, fi + gi);
    if (fi && gi && f.native_handle() == g.native_handle()) c.fail("%s: both objects own the same handle", what);
    if (!threw && (gi || fi != go)) c.fail("%s: wrong outcome", what);
    b.release(); io1.restart(); io1.run(); io2.restart(); io2.run();
    if (pending && done != 1) c.fail("%s: the pending operation is delivered %d times", what, done);
    // neither context may be needed by the other's object
    bool gone = cross && !threw && c.choose(2, "old context goes");
    if (gone) { p1.reset(); exercise(b, f, io2, "the destination"); }
    else exercise(b, f, f.get_executor() == io1.get_executor() ? io1 : io2, "the destination");
    exercise(b, g, io2, "the source");
    f.open("/sim/a", open_args(RW), ec); g.open("/sim/b", open_args(RW), ec);
    c.state(mc::mix(cross * 32 + fo * 16 + go * 8 + pending * 4 + used * 2 + gone, threw));
  }
  if (b.w.count_open()) c.fail("%s: %d handles left open", what, b.w.count_open());
  c.step();
}
#endif
// starts an operation with a token; what it delivers
struct Delivered { int times = 0, live = 0; error_code ec; size_t n = 0; std::function<void()> harvest; bool broken = false, told = false; /* through the future */ };
size_t num(size_t n) { return n; } size_t num(socks::auth_method m) { return (size_t)m; } size_t num(const asio::ip::tcp::endpoint&) { return 0; }
template <typename Op> void start(int token, asio::io_context& io, Delivered& d, Op&& op)
{
  switch (token) {
    case 0: { std::unique_ptr<Live> l; { oom::Quiet q; l.reset(new Live(d.live)); } op([&d, l = std::move(l)](error_code ec, auto... v) { ++d.times; d.ec = ec; d.n = (0 + ... + num(v)); }); break; }
    case 1: { std::shared_ptr<Live> l; { oom::Quiet q; l.reset(new Live(d.live)); } auto st = [&] { oom::Quiet q; return asio::make_strand(io); }(); op(asio::bind_executor(st, [&d, l](error_code ec, auto... v) { ++d.times; d.ec = ec; d.n = (0 + ... + num(v)); })); break; }
    case 2: {
      oom::other_thread = true; auto f = op(asio::as_tuple(asio::use_future)); oom::Quiet q; auto p = std::make_shared<decltype(f)>(std::move(f));
      d.harvest = [&d, p] { try { auto t = p->get(); ++d.times; d.ec = std::get<0>(t); if constexpr (std::tuple_size_v<decltype(t)> > 1) d.n = num(std::get<1>(t)); } catch (std::future_error&) { d.broken = true; } catch (std::bad_alloc&) { d.told = true; } };
      break;
    }
    case 3: {
      auto aw = op(asio::as_tuple(asio::use_awaitable)); oom::Quiet q;
      asio::co_spawn(io, std::move(aw), [&d](std::exception_ptr e, auto t) { if (e) { d.broken = true; return; } ++d.times; d.ec = std::get<0>(t); if constexpr (std::tuple_size_v<decltype(t)> > 1) d.n = num(std::get<1>(t)); });
      break;
    }
  }
}
const char* token_names[] = {"callback", "callback on a strand", "as_tuple(use_future)", "as_tuple(use_awaitable)"};
// runs the context; allocations may fail there, too
bool run_armed(mc::Ctx& c, asio::io_context& io, const char* what)
{
  bool threw = false;
  for (int i = 0; i < 3; ++i) { io.restart(); threw |= attempt(c, what, [&] { io.run(); }); }
  return threw;
}
#if PART == 0
void file_operation(mc::Ctx& c)
{
  Base b(c); auto pio = std::make_unique<asio::io_context>(); auto& io = *pio; int kind = c.choose(4, "operation"), token = c.choose(4, "token"), before = c.choose(2, "another outstanding");
  static const char* names[] = {"async_read_some", "async_write_some", "async_read_some_at", "async_write_some_at"};
  std::string what = std::string(names[kind]) + " with " + token_names[token]; char buf[3] = {'x', 'y', 'z'};
  {
    asioext::file f(io, "/sim/a", RW); int others = 0; if (before) { b.hold(); f.async_read_some_at(0, asio::buffer(buf), [&](error_code, size_t) { ++others; }); }
    Delivered d; std::vector<asio::mutable_buffer> mb{asio::buffer(buf)}; std::vector<asio::const_buffer> cb{asio::buffer(buf)};
    size_t io0 = 0;
    auto go = [&](auto&& t) {
      if (kind == 0) return f.async_read_some(mb, std::forward<decltype(t)>(t)); if (kind == 1) return f.async_write_some(cb, std::forward<decltype(t)>(t));
      if (kind == 2) return f.async_read_some_at(2, mb, std::forward<decltype(t)>(t)); return f.async_write_some_at(2, cb, std::forward<decltype(t)>(t));
    };
    bool threw = attempt(c, what.c_str(), [&] { start(token, io, d, go); });
    if (threw != oom::spent) c.fail("%s: a failed allocation is not reported", what.c_str());
    b.release(); io.restart(); io.run(); if (d.harvest) d.harvest(); io.restart(); io.run(); d.harvest = nullptr;
    if (before && others != 1) c.fail("%s: the other operation is delivered %d times", what.c_str(), others);
    if (threw && (d.times || d.broken)) c.fail("%s: threw, but delivered a result", what.c_str());
    if (!threw && (d.times != 1 || d.ec || d.n != 3)) c.fail("%s: delivered %d times: %s, %zu bytes", what.c_str(), d.times, d.ec.message().c_str(), d.n);
    if (d.live) c.fail("%s: the handler is still alive", what.c_str());
    for (auto& k : b.w.log) io0 += k.io();
    if (threw && (int)io0 != before) c.fail("%s: threw, but accessed the file", what.c_str());
    exercise(b, f, io, what.c_str());
    c.state(mc::mix(kind * 8 + token * 2 + before, threw)); c.step();
  }
}
void whole_files(mc::Ctx& c)
{
  Base b(c); int kind = c.choose(8, "function"), into = c.choose(2, "container"); error_code ec; const std::string text(100, 'q'); b.w.create("/sim/long", text);
  static const char* names[] = {"read_file(name)", "read_file(name, error)", "read_file(handle)", "read_file(handle, error)", "write_file(name)", "write_file(name, error)", "duplicate", "open"};
  const char* what = names[kind]; std::string s = "previous"; std::vector<char> v{'p'}; std::string wr(40, 'w');
  {
    unique_file_handle h; if (kind == 2 || kind == 3 || kind == 6) h = asioext::open("/sim/long", RW); const int before = b.w.count_open(); unique_file_handle res;
    auto run = [&] {
      switch (kind) {
        case 0: if (into) read_file("/sim/long", v); else read_file("/sim/long", s); break;
        case 1: if (into) read_file("/sim/long", v, ec); else read_file("/sim/long", s, ec); break;
        case 2: if (into) read_file(h.get(), v); else read_file(h.get(), s); break;
        case 3: if (into) read_file(h.get(), v, ec); else read_file(h.get(), s, ec); break;
        case 4: if (into) write_file("/sim/b", asio::buffer(v)); else write_file("/sim/b", asio::buffer(wr)); break;
        case 5: if (into) write_file("/sim/b", asio::buffer(v), ec); else write_file("/sim/b", asio::buffer(wr), ec); break;
        case 6: res = duplicate(h.get()); break;
        case 7: res = asioext::open("/sim/long", RW); break;
      }
    };
    bool threw = attempt(c, what, run);
    if (threw && b.w.count_open() != before) c.fail("%s: threw, %d handles open instead of %d", what, b.w.count_open(), before);
    if (oom::spent && !threw && !ec) c.fail("%s: a failed allocation is not reported", what);
    if (kind <= 3 && threw) { auto& cur = s; if (!into && cur != "previous" && cur.size() != 100) c.fail("%s: the string is damaged", what); }
    res.close(ec); if (h.is_open()) h.seek(seek_origin::from_begin, 0);
    run(); // works now
    if (ec) c.fail("%s: then fails: %s", what, ec.message().c_str());
    if (kind <= 3 && (into ? std::string(v.begin(), v.end()) : s) != text) c.fail("%s: then reads something else", what);
    if ((kind == 4 || kind == 5) && b.w.names["/sim/b"]->text() != (into ? std::string("p") : wr)) c.fail("%s: then writes something else", what);
    c.state(mc::mix(kind * 2 + into, threw)); c.step();
  }
  if (b.w.count_open()) c.fail("%s: %d handles left open", what, b.w.count_open());
}
// ---- streams ---------------------------------------------------------------------------------------------------------------------------
struct Script { std::string in, sent; size_t pos = 0; };
struct Stream {
  asio::io_context* io; Script* s;
  typedef Stream lowest_layer_type; typedef asio::io_context::executor_type executor_type;
  Stream(asio::io_context* i, Script* x) : io(i), s(x) {}
  Stream& lowest_layer() { return *this; } executor_type get_executor() { return io->get_executor(); }
  template <typename B, typename T> auto async_write_some(const B& bufs, T&& token)
  {
    return asio::async_initiate<T, void(error_code, size_t)>([this, bufs](auto h) { // one that allocates before it does anything
      auto hold = std::make_unique<int>(1); std::string d; { oom::Quiet q; for (auto i = asio::buffer_sequence_begin(bufs); i != asio::buffer_sequence_end(bufs); ++i) { asio::const_buffer b(*i); d.append((const char*)b.data(), b.size()); } }
      size_t n = std::min<size_t>(d.size(), 3); asio::post(*io, [this, h = std::move(h), d, n]() mutable { s->sent += d.substr(0, n); h(error_code(), n); }); }, token);
  }
  template <typename B, typename T> auto async_read_some(const B& bufs, T&& token)
  {
    return asio::async_initiate<T, void(error_code, size_t)>([this, bufs](auto h) {
      auto hold = std::make_unique<int>(1); asio::post(*io, [this, bufs, h = std::move(h)]() mutable {
        size_t n = std::min(std::min<size_t>(asio::buffer_size(bufs), 3), s->in.size() - s->pos), left = n; for (auto i = asio::buffer_sequence_begin(bufs); i != asio::buffer_sequence_end(bufs) && left; ++i) { asio::mutable_buffer b(*i); size_t k = std::min(left, b.size()); memcpy(b.data(), s->in.data() + s->pos, k); s->pos += k; left -= k; }
        h(n ? error_code() : error_code(asio::error::eof), n); }); }, token);
  }
  template <typename B> size_t write_some(const B& b, error_code& ec) { size_t n = std::min<size_t>(asio::buffer_size(b), 3); oom::Quiet q; std::string t(n, 0); asio::buffer_copy(asio::buffer(t), b); s->sent += t; ec = error_code(); return n; }
  template <typename B> size_t read_some(const B& b, error_code& ec) { size_t n = std::min<size_t>(asio::buffer_size(b), 3); n = asio::buffer_copy(b, asio::buffer(s->in.data() + s->pos, std::min(n, s->in.size() - s->pos))); s->pos += n; ec = n ? error_code() : error_code(asio::error::eof); return n; }
};
void buffered(mc::Ctx& c)
{
  auto pio = std::make_unique<asio::io_context>(); auto& io = *pio; Script s; s.in = "0123456789"; Delivered d;
  int kind = c.choose(4, "operation"), token = c.choose(4, "token"), more = c.choose(2, "data added while flushing"); if (kind >= 2) token = more = 0;
  static const char* names[] = {"async_flush", "async_fill", "flush", "fill"}; std::string what = std::string(names[kind]) + " with " + token_names[token];
  {
    buffered_stream<Stream> b(Stream(&io, &s), 256, 256);
    auto put = [&](const char* t) { auto x = dynamic_buffer(b.write_buffer()); auto m = x.prepare(strlen(t)); memcpy(m.data(), t, strlen(t)); x.commit(strlen(t)); };
    put("first data;");
    auto go = [&](auto&& t) { if (kind) return b.async_fill(std::forward<decltype(t)>(t)); return b.async_flush(std::forward<decltype(t)>(t)); };
    bool threw = attempt(c, what.c_str(), [&] { error_code ec; if (kind == 2) b.flush(ec); else if (kind == 3) b.fill(ec); else start(token, io, d, go); });
    if (kind < 2) {
      if (threw && d.times) c.fail("%s: threw, but delivered a result", what.c_str());
      if (more) put("second;");
      if (!threw) threw = run_armed(c, io, "run()");
      io.restart(); io.run();
      if (d.harvest) d.harvest(); d.harvest = nullptr; threw |= d.told;
      if (!threw && d.times != 1) c.fail("%s: delivers %d times", what.c_str(), d.times);
      if (d.times > 1) c.fail("%s: delivers %d times", what.c_str(), d.times);
      if (d.live) c.fail("%s: the handler is still alive", what.c_str());
    }
    if (threw != oom::spent) c.fail("%s: a failed allocation is not reported", what.c_str());
    const bool begun = !s.sent.empty() || s.pos; // the stream has done its part, the continuation was lost with the exception
    std::string expect = more ? "first data;second;" : "first data;";
    if (threw && !d.times && kind == 0 && b.flush_pending() && !begun) c.fail("%s: threw without having begun, but the stream remains busy with flushing", what.c_str());
    if (kind == 0 || kind == 2) {
      if (b.flush_pending() && !begun) c.fail("%s: flush_pending() afterwards", what.c_str());
      if (!b.flush_pending()) {
        error_code ec; for (int i = 0; i < 4 && b.can_flush(); ++i) b.flush(ec);
        if (ec || s.sent != expect) c.fail("%s: the stream received '%s' (%s), '%s' was written", what.c_str(), s.sent.c_str(), ec.message().c_str(), expect.c_str());
      }
    } else {
      error_code ec; for (int i = 0; i < 8 && s.pos < s.in.size(); ++i) b.fill(ec);
      std::string got((const char*)b.read_buffer().data(), b.read_buffer().size());
      if (!begun && got != s.in.substr(0, s.pos)) c.fail("%s: the buffer contains '%s', the stream yielded '%s'", what.c_str(), got.c_str(), s.in.substr(0, s.pos).c_str());
    }
    c.state(mc::mix(kind * 16 + token * 4 + more, threw * 2 + begun)); c.step();
    pio.reset();
  }
}
void socks_exchange(mc::Ctx& c)
{
  auto pio = std::make_unique<asio::io_context>(); auto& io = *pio; Script s; Delivered d; int kind = c.choose(6, "operation"), token = c.choose(4, "token");
  static const char* names[] = {"async_greet", "async_login", "async_execute (SOCKS5, name)", "async_execute (SOCKS5, endpoint)", "async_execute (SOCKS4a, name)", "async_execute (SOCKS4a, endpoint)"};
  std::string what = std::string(names[kind]) + " with " + token_names[token]; Stream st(&io, &s); linear_buffer lb;
  s.in = kind == 0 ? std::string("\x05\x02") : kind == 1 ? std::string("\x01\x00", 2) : kind <= 3 ? std::string("\x05\x00\x00\x01\x01\x02\x03\x04\x05\x06", 10) : std::string("\x00\x5a", 2) + std::string(6, 'x');
  socks::auth_method ms[2] = {socks::auth_method::none, socks::auth_method::username_password}; std::string user = "a user with a long name", pass = "a long password, not short", host = "a.long.host.name.example.org"; asio::ip::tcp::endpoint ep(asio::ip::make_address("10.1.2.3"), 99);
  bool threw = attempt(c, what.c_str(), [&] {
    if (!kind) start(token, io, d, [&](auto&& t) { return socks::async_greet(st, ms, 2, dynamic_buffer(lb), std::forward<decltype(t)>(t)); });
    else start(token, io, d, [&](auto&& t) {
      if (kind == 1) return socks::async_login(st, user, pass, dynamic_buffer(lb), std::forward<decltype(t)>(t));
      if (kind == 2) return socks::async_execute(st, socks::command::connect, host, 80, dynamic_buffer(lb), std::forward<decltype(t)>(t));
      if (kind == 3) return socks::async_execute(st, socks::command::connect, ep, dynamic_buffer(lb), std::forward<decltype(t)>(t));
      if (kind == 4) return socks::async_execute(st, socks::command::connect, host, 80, user, dynamic_buffer(lb), std::forward<decltype(t)>(t));
      return socks::async_execute(st, socks::command::connect, ep, user, dynamic_buffer(lb), std::forward<decltype(t)>(t));
    });
  });
  if (threw) { io.restart(); io.run(); if (d.times) c.fail("%s: threw, but delivered a result", what.c_str()); if (!s.sent.empty()) c.fail("%s: threw, but sent something", what.c_str()); }
  else threw = run_armed(c, io, "run()");
  io.restart(); io.run();
  if (d.harvest) d.harvest(); d.harvest = nullptr; threw |= d.told;
  if (threw != oom::spent) c.fail("%s: a failed allocation is not reported", what.c_str());
  if (!threw && (d.times != 1 || d.ec)) c.fail("%s: delivers %d times: %s", what.c_str(), d.times, d.ec.message().c_str());
  if (threw && d.times > (token == 3)) c.fail("%s: delivers a result although run() threw", what.c_str());
  if (d.live) c.fail("%s: the handler is still alive", what.c_str());
  c.state(mc::mix(kind * 4 + token, threw)); c.step();
}
// ---- small classes -----------------------------------------------------------------------------------------------------------------------
void tokens(mc::Ctx& c)
{
  std::unique_ptr<cancellation_token_source> s; static const char* names[] = {"cancellation_token_source()", "cancel()", "reset()", "reset() after destroy()", "reset() after cancel()", "cancel() after destroy()"};
  int kind = c.choose(6, "operation"); const char* what = names[kind]; alignas(cancellation_token_source) char mem[sizeof(cancellation_token_source)]; cancellation_token_source* p = nullptr;
  if (kind) s.reset(new cancellation_token_source);
  cancellation_token_source none; cancellation_token before(kind ? *s : none);
  if (kind == 3 || kind == 5) s->destroy(); if (kind == 4) s->cancel();
  cancellation_token between(kind ? *s : none); bool b1 = before.cancelled(), b2 = between.cancelled();
  bool threw = attempt(c, what, [&] { if (!kind) p = new (mem) cancellation_token_source; else if (kind == 1 || kind == 5) s->cancel(); else s->reset(); });
  if (threw != oom::spent) c.fail("%s: a failed allocation is not reported", what);
  if (threw && (before.cancelled() != b1 || between.cancelled() != b2)) c.fail("%s: threw, but changed what its tokens say", what);
  if (!kind && threw) p = new (mem) cancellation_token_source;
  auto& src = kind ? *s : *p; src.reset(); cancellation_token t(src);
  if (t.cancelled()) c.fail("%s: a token made afterwards is cancelled", what);
  src.cancel(); if (!t.cancelled()) c.fail("%s: a later cancel() has no effect", what);
  src.reset(); cancellation_token u(src); src.destroy(); if (!u.cancelled()) c.fail("%s: a later destroy() has no effect", what);
  if (p) p->~cancellation_token_source();
  c.state(mc::mix(kind, threw)); c.step();
}
struct Fn { std::shared_ptr<Live> l; int* calls; char pad[200]; void operator()(int) { ++*calls; } };
void handlers(mc::Ctx& c)
{
  int kind = c.choose(3, "operation"), calls = 0, live = 0; static const char* names[] = {"unique_handler(handler)", "posting a bound handler", "async_compose"}; const char* what = names[kind];
  asio::io_context io; bool threw;
  {
    Fn fn{std::make_shared<Live>(live), &calls, {}};
    if (kind == 0) {
      std::unique_ptr<unique_handler<void(int)>> h;
      alignas(unique_handler<void(int)>) char mem[sizeof(unique_handler<void(int)>)]; unique_handler<void(int)>* p = nullptr;
      threw = attempt(c, what, [&] { p = new (mem) unique_handler<void(int)>(std::move(fn)); });
      if (p) { p->complete(1); p->~unique_handler(); }
    } else if (kind == 1) threw = attempt(c, what, [&] { asio::post(io, bind_handler(std::move(fn), 1)); });
    else threw = attempt(c, what, [&] { auto tok = [f = std::move(fn)](error_code) mutable { f(1); }; asioext::async_compose<decltype(tok)&, void(error_code)>([](auto& self, auto...) mutable { self.complete(error_code()); }, tok, io); });
    if (threw && calls) c.fail("%s: threw, but the handler was called", what);
  }
  io.run();
  if (threw != oom::spent) c.fail("%s: a failed allocation is not reported", what);
  if (calls != !threw) c.fail("%s: the handler was called %d times", what, calls);
  if (live) c.fail("%s: %d copies of the handler are left", what, live);
  c.state(mc::mix(kind, threw)); c.step();
}
#else
void connecting(mc::Ctx& c)
{
  World w(c); W = &w; struct Off { ~Off() { W = nullptr; } } off; typedef asio::ip::tcp tcp;
  int outcome = c.choose(4, "outcome"), token = c.choose(5, "token"); static const int outs[4][2] = {{OK_NOW, -1}, {REFUSED_LATER, OK_LATER}, {REFUSED_NOW, TIMEDOUT_LATER}, {OK_LATER, -1}};
  std::string what = token == 4 ? "connect" : std::string("async_connect with ") + token_names[token];
  for (int i = 0; i < 2; ++i) if (outs[outcome][i] >= 0) { Attempt a; a.outcome = outs[outcome][i]; sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(1000 + i); x.sin_addr.s_addr = htonl(0x0a000001 + i); a.addr.assign((char*)&x, sizeof x); w.plan.push_back(a); }
  auto pio = std::make_unique<asio::io_context>(); auto& io = *pio;
  {
    tcp::socket s(io); tcp::resolver r(io); Delivered d; std::string host = "a.long.host.name.example.org", service = "a-long-service-name";
    bool threw = attempt(c, what.c_str(), [&] {
      if (token == 4) { error_code ec; asioext::connect(s, r, host, service, {}, ec); ++d.times; d.ec = ec; return; }
      start(token, io, d, [&](auto&& t) { return asioext::async_connect(s, r, std::string_view(host), std::string_view(service), {}, std::forward<decltype(t)>(t)); });
    });
    const bool at_once = threw; if (threw && d.times) c.fail("%s: threw, but delivered a result", what.c_str());
    if (threw && token != 4 && w.resolves) c.fail("%s: threw, but resolved the name", what.c_str());
    if (token != 4) {
      if (threw) { io.restart(); io.run(); } else threw = run_armed(c, io, "run()");
      io.restart(); io.run(); if (d.harvest) d.harvest(); d.harvest = nullptr; threw |= d.told;
      if (at_once && d.times) c.fail("%s: threw, but delivered a result later", what.c_str());
      if (d.times > 1 || (!threw && d.times != 1)) c.fail("%s: delivers %d times", what.c_str(), d.times);
    }
    if (threw != oom::spent) c.fail("%s: a failed allocation is not reported", what.c_str());
    if (d.live) c.fail("%s: the handler is still alive", what.c_str());
    if (!threw && !d.ec != (outcome != 2)) c.fail("%s: %s", what.c_str(), d.ec.message().c_str());
    // works now
    error_code ec; s.close(ec); w.next = 0; w.cur = -1; w.error.clear(); asioext::connect(s, r, host, service, {}, ec);
    if (!ec != (outcome != 2)) c.fail("%s: a later connect(): %s", what.c_str(), ec.message().c_str());
    c.state(mc::mix(outcome * 5 + token, threw * 2 + at_once)); c.step();
  }
  pio.reset();
  if (!w.fds.empty()) c.fail("%s: %zu sockets left open", what.c_str(), w.fds.size());
}
#endif
void body(mc::Ctx& c)
{
#if PART == 1
  connecting(c);
#else
  switch (c.choose(8, "scenario")) {
    case 0: constructing(c); break; case 1: assigning(c); break; case 2: file_operation(c); break; case 3: whole_files(c); break;
    case 4: buffered(c); break; case 5: socks_exchange(c); break; case 6: tokens(c); break; case 7: handlers(c); break;
  }
#endif
}
void run(mc::Ctx& c)
{
  oom::ctx = &c; oom::budget = 1 + c.thorough(); oom::spent = oom::other_thread = false;
  struct Off { ~Off() { oom::ctx = nullptr; oom::armed = 0; oom::quiet = 0; } } off;
  const long n0 = oom::live; body(c); const long n1 = oom::live;
  if (oom::spent) c.interesting();
  if (n1 != n0 && !oom::other_thread) c.fail("%ld allocations leaked", n1 - n0);
}
}
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C26"; return mc::main_explore(argc, argv, cfg, run); }
