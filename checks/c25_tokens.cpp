// C25: every asynchronous operation, started through every kind of completion token, compared with the callback form.
// PART 0: files; PART 1: connecting by name; PART 2: buffered streams; PART 3: SOCKS.
#include "asioext/detail/config.hpp"
#include "mc.hpp"
#include "asioext/connect.hpp"
#include "asioext/file.hpp"
#include "asioext/open_flags.hpp"
#include "asioext/linear_buffer.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include "asioext/experimental/buffered_stream.hpp"
#include "asioext/socks/client.hpp"
#include <asio/as_tuple.hpp>
#include <asio/append.hpp>
#include <asio/awaitable.hpp>
#include <asio/bind_executor.hpp>
#include <asio/co_spawn.hpp>
#include <asio/deferred.hpp>
#include <asio/detached.hpp>
#include <asio/io_context.hpp>
#include <asio/redirect_error.hpp>
#include <asio/strand.hpp>
#include <asio/use_awaitable.hpp>
#include <asio/use_future.hpp>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>
#ifndef PART
# define PART 0
#endif
#if PART == 0
# include "simfs.hpp"
#elif PART == 1
# include "sim_net.hpp"
#endif
using namespace asioext;
namespace {
enum Token { CALLBACK, FUTURE, TUPLE_FUTURE, AWAIT, TUPLE_AWAIT, REDIRECT_AWAIT, LATE_AWAIT, UNUSED_AWAIT, TUPLE_CALLBACK, REDIRECT_CALLBACK, BOUND_CALLBACK, STRAND_CALLBACK, DETACHED, MOVE_ONLY, TOKENS };
const char* tokens[] = {"callback", "use_future", "as_tuple(use_future)", "use_awaitable", "as_tuple(use_awaitable)", "redirect_error(use_awaitable)", "use_awaitable, awaited later", "use_awaitable, never awaited", "as_tuple(callback)", "redirect_error(callback)", "bind_executor(callback)", "bind_executor(strand, callback)", "detached", "move-only callback"};

struct Out { // what an operation delivered
  int times = 0; bool destroyed_unused = false, broken = false, has_value = false, no_error_info = false; error_code ec; std::string v;
};
struct Live { // counts the objects owned by handlers and coroutine frames
  int* n; explicit Live(int& c) : n(&c) { ++*n; } Live(Live&& o) noexcept : n(o.n) { o.n = nullptr; } Live& operator=(Live&&) = delete; ~Live() { if (n) --*n; }
};
std::string render() { return ""; }
std::string render(size_t n) { return std::to_string(n); }
std::string render(socks::auth_method m) { return "method " + std::to_string((int)m); }
std::string render(const asio::ip::tcp::endpoint& e) { return std::string((const char*)e.data(), e.size()); }

// Runs one operation of a fixture with a token. Fx: start(token), drop() the arguments, io, hio, pump(), go() (lets it finish)
template <typename Fx> struct Driver {
  mc::Ctx& c; Fx& fx; Out& o; int live = 0; bool initiating = false;
  std::function<void()> late; // harvests a future after the context has run
  template <typename... V> void got(asio::io_context* in, error_code ec, V... v)
  {
    if (initiating) c.fail("%s: delivers its result within the initiating function", fx.what().c_str());
    if (in && !in->get_executor().running_in_this_thread()) c.fail("%s: delivers its result on another context", fx.what().c_str());
    if (o.times++) c.fail("%s: delivers its result twice", fx.what().c_str());
    o.ec = ec; o.has_value = sizeof...(v) != 0; o.v = render(v...);
  }
  template <typename T> auto start(T&& t) { struct S { bool& b; ~S() { b = false; } } s{initiating}; initiating = true; return fx.start(std::forward<T>(t)); }
  // a coroutine's operation is launched by the time it is suspended; the frame's own objects are counted
  template <typename F> void coroutine(F&& body)
  {
    asio::co_spawn(fx.io, std::forward<F>(body), asio::detached);
    fx.io.restart(); fx.io.poll(); // up to the first suspension
    fx.drop();
  }
  template <typename R> void future(std::future<R> f)
  {
    fx.drop();
    auto p = std::make_shared<std::future<R>>(std::move(f));
    late = [this, p] {
      if (p->wait_for(std::chrono::seconds(20)) != std::future_status::ready) return; // (may be told by another thread)
      try {
        if constexpr (std::is_void_v<R>) { p->get(); got(nullptr, error_code()); }
        else got(nullptr, error_code(), p->get());
      } catch (MC_SYSTEM_ERROR& e) { got(nullptr, e.code()); o.no_error_info = !e.code(); o.has_value = false; }
      catch (std::future_error& e) { o.broken = e.code() == std::future_errc::broken_promise; }
    };
  }
  template <typename... R> void tuple_future(std::future<std::tuple<R...>> f)
  {
    fx.drop();
    auto p = std::make_shared<decltype(f)>(std::move(f));
    late = [this, p] {
      if (p->wait_for(std::chrono::seconds(20)) != std::future_status::ready) return;
      try { std::apply([this](auto... v) { got(nullptr, v...); }, p->get()); }
      catch (std::future_error& e) { o.broken = e.code() == std::future_errc::broken_promise; }
    };
  }
  // std::future<R> with R the value type of the operation
  template <typename V> static constexpr bool is_void = std::is_void_v<V>;
  template <typename V> void await_late(asio::awaitable<V> aw)
  {
    fx.drop(); fx.io.restart(); fx.io.poll();
    if (fx.begun()) c.fail("%s: begins before it is awaited", fx.what().c_str());
    if constexpr (is_void<V>) asio::co_spawn(fx.io, std::move(aw), [this, l = Live(live)](std::exception_ptr e) { take(e); });
    else asio::co_spawn(fx.io, std::move(aw), [this, l = Live(live)](std::exception_ptr e, V v) { if (e) take(e); else got(&fx.io, error_code(), v); });
    fx.io.restart(); fx.io.poll();
  }
  void take(std::exception_ptr e)
  {
    if (!e) { got(&fx.io, error_code()); return; }
    try { std::rethrow_exception(e); } catch (MC_SYSTEM_ERROR& x) { got(&fx.io, x.code()); o.no_error_info = !x.code(); o.has_value = false; }
  }
  error_code rec; // target of redirect_error
  void launch(int token)
  {
    using V = typename Fx::Value;
    auto cb = [this](asio::io_context* in) { return [this, in, l = std::make_shared<Live>(live)](error_code ec, auto... v) { got(in, ec, v...); }; };
    switch (token) {
      case CALLBACK: start(cb(&fx.io)); fx.drop(); break;
      case MOVE_ONLY: start([this, l = std::make_unique<Live>(live)](error_code ec, auto... v) { got(&fx.io, ec, v...); }); fx.drop(); break;
      case FUTURE: future(start(asio::use_future)); break;
      case TUPLE_FUTURE: tuple_future(start(asio::as_tuple(asio::use_future))); break;
      case AWAIT: coroutine([this]() -> asio::awaitable<void> {
        Live l(live);
        try { if constexpr (is_void<V>) { co_await start(asio::use_awaitable); got(&fx.io, error_code()); } else { auto v = co_await start(asio::use_awaitable); got(&fx.io, error_code(), v); } }
        catch (MC_SYSTEM_ERROR& e) { got(&fx.io, e.code()); o.no_error_info = !e.code(); o.has_value = false; }
      }); break;
      case TUPLE_AWAIT: coroutine([this]() -> asio::awaitable<void> {
        Live l(live);
        auto t = co_await start(asio::as_tuple(asio::use_awaitable));
        std::apply([this](auto... v) { got(&fx.io, v...); }, t);
      }); break;
      case REDIRECT_AWAIT: coroutine([this]() -> asio::awaitable<void> {
        Live l(live); rec = asio::error::address_in_use;
        if constexpr (is_void<V>) { co_await start(asio::redirect_error(asio::use_awaitable, rec)); got(&fx.io, rec); }
        else { auto v = co_await start(asio::redirect_error(asio::use_awaitable, rec)); got(&fx.io, rec, v); }
      }); break;
      case LATE_AWAIT: await_late<V>(start(asio::use_awaitable)); break;
      case UNUSED_AWAIT: { { auto aw = start(asio::use_awaitable); fx.drop(); } fx.io.restart(); fx.io.poll(); if (fx.begun()) c.fail("%s: begins without being awaited", fx.what().c_str()); break; }
      case TUPLE_CALLBACK: start(asio::as_tuple([this, l = std::make_shared<Live>(live)](auto t) { std::apply([this](auto... v) { got(&fx.io, v...); }, t); })); fx.drop(); break;
      case REDIRECT_CALLBACK: rec = asio::error::address_in_use; start(asio::redirect_error([this, l = std::make_shared<Live>(live)](auto... v) { got(&fx.io, rec, v...); }, rec)); fx.drop(); break;
      case BOUND_CALLBACK: start(asio::bind_executor(fx.hio.get_executor(), cb(&fx.hio))); fx.drop(); break;
      case STRAND_CALLBACK: start(asio::bind_executor(asio::make_strand(fx.hio), cb(&fx.hio))); fx.drop(); break;
      case DETACHED: start(asio::detached); fx.drop(); break;
      default: if constexpr (Fx::LAZY) if (token == TOKENS) {
        auto d = start(asio::deferred); fx.drop(); fx.io.restart(); fx.io.poll();
        if (fx.begun()) c.fail("%s: begins before it is launched", fx.what().c_str());
        std::move(d)(cb(&fx.io)); }
    }
  }
  void finish(int token)
  {
    if (token == BOUND_CALLBACK || token == STRAND_CALLBACK) { // neither context runs out of work before the other
      fx.release();
      for (int i = 0; i < 3000000 && !o.times; ++i) { fx.io.restart(); fx.hio.restart(); fx.io.poll(); fx.hio.poll(); if (!o.times) sched_yield(); }
    }
    fx.pump();
    if (late) late();
    late = nullptr;
    if (token == DETACHED || token == UNUSED_AWAIT) { if (o.times) c.fail("delivered"); }
    else if (o.times != 1) c.fail("%s: delivers its result %d times", fx.what().c_str(), o.times);
    if (o.no_error_info) c.fail("%s: throws an exception without an error", fx.what().c_str());
    if (live) c.fail("%s: %d objects owned by its handler or coroutine are left", fx.what().c_str(), live);
  }
};

#if PART == 0
// ---- files ---------------------------------------------------------------------------------------------------------------
struct Gate { std::mutex m; std::condition_variable cv; bool shut = false; };
struct FileFx {
  using Value = size_t; static constexpr bool LAZY = false;
  mc::Ctx& c; simfs::World w; Gate gate; std::unique_ptr<asio::io_context> pio = std::make_unique<asio::io_context>(); asio::io_context& io = *pio; asio::io_context hio; std::unique_ptr<asioext::file> f;
  int kind = 0, answer = 0; const char* token = ""; char buf[2][4]; size_t calls0 = 0; std::string calls;
  struct Args { std::vector<asio::mutable_buffer> mb; std::vector<asio::const_buffer> cb; }; std::unique_ptr<Args> args;
  explicit FileFx(mc::Ctx& cc) : c(cc)
  {
    simfs::world = &w; w.create("/sim/a", "abcdefgh"); w.create("/sim/b", "ABCDEFGH");
    w.before = [this](simfs::Call& k) { if (k.io()) { std::unique_lock<std::mutex> l(gate.m); gate.cv.wait(l, [&] { return !gate.shut; }); } };
    w.policy = [this](simfs::Call& k) { if (!k.io()) return; if (answer == 1) k.limit = 1; if (answer == 2) k.force_errno = EIO; if (answer == 3) k.limit = 0; };
    w.after = [this](const simfs::Call& k) { if (k.io()) calls += simfs::describe(k) + "\n"; };
    f.reset(new asioext::file(io, "/sim/a", open_flags::access_read_write | open_flags::open_existing));
  }
  ~FileFx() { release(); f.reset(); pio.reset(); simfs::world = nullptr; }
  void hold() { gate.shut = true; }
  void release() { { std::lock_guard<std::mutex> l(gate.m); gate.shut = false; } gate.cv.notify_all(); }
  static int outcomes() { return 4; } static int kinds() { return 4; }
  void prepare(int k, int out, int tok)
  {
    static const char* names[] = {"async_read_some", "async_write_some", "async_read_some_at", "async_write_some_at"};
    kind = k; answer = out; token = tokens[tok]; name = names[k]; memcpy(buf[0], "wxyz", 4); memcpy(buf[1], "WXYZ", 4); calls0 = calls.size();
    args.reset(new Args); for (auto& b : buf) { args->mb.push_back(asio::buffer(b, 3)); args->cb.push_back(asio::buffer(b, 3)); }
  }
  std::string name; std::string what() { return name + " with " + token; }
  bool begun() { return calls.size() != calls0; }
  void drop() { args.reset(); }
  template <typename T> auto start(T&& t)
  {
    if (kind == 0) return f->async_read_some(args->mb, std::forward<T>(t));
    if (kind == 1) return f->async_write_some(args->cb, std::forward<T>(t));
    if (kind == 2) return f->async_read_some_at(2, args->mb, std::forward<T>(t));
    return f->async_write_some_at(2, args->cb, std::forward<T>(t));
  }
  void pump() { release(); io.restart(); io.run(); hio.restart(); hio.run(); io.restart(); io.run(); }
  std::string ledger() { std::string s = calls + std::string(buf[0], 4) + std::string(buf[1], 4); for (auto* i : w.inodes) s += "|" + i->text(); return s + "@" + std::to_string(w.fds[0] ? w.fds[0]->pos : -1); }
  void close_all() { f.reset(); release(); pio.reset(); hio.restart(); hio.poll(); }
};
#elif PART >= 2
// ---- buffered stream and SOCKS over a scripted stream ------------------------------------------------------------------------
struct Script { std::string in, sent; size_t pos = 0; int answer = 0, calls = 0; std::string log; };
struct Stream {
  asio::io_context* io; Script* s;
  typedef Stream lowest_layer_type; typedef asio::io_context::executor_type executor_type;
  Stream(asio::io_context* i, Script* x) : io(i), s(x) {}
  Stream& lowest_layer() { return *this; } const Stream& lowest_layer() const { return *this; }
  executor_type get_executor() { return io->get_executor(); }
  bool is_open() const { return true; }
  template <typename B, typename T> auto async_write_some(const B& bufs, T&& token)
  {
    return asio::async_initiate<T, void(error_code, size_t)>([this, bufs](auto h) {
      s->calls++; std::string d; for (auto i = asio::buffer_sequence_begin(bufs); i != asio::buffer_sequence_end(bufs); ++i) { asio::const_buffer b(*i); d.append((const char*)b.data(), b.size()); }
      error_code ec; size_t n = d.size(); if (s->answer == 1 && s->calls == 1 && n > 1) n = 1; if (s->answer == 2) { ec = asio::error::broken_pipe; n = 0; } if (s->answer == 4 && s->calls == 2) { ec = asio::error::connection_reset; n = 0; }
      s->sent += d.substr(0, n); s->log += "w" + std::to_string(n) + " "; done(std::move(h), ec, n); }, token);
  }
  template <typename B, typename T> auto async_read_some(const B& bufs, T&& token)
  {
    return asio::async_initiate<T, void(error_code, size_t)>([this, bufs](auto h) {
      s->calls++; size_t n = std::min(asio::buffer_size(bufs), s->in.size() - s->pos); error_code ec; if (s->answer == 1 && n > 1) n = 1; if (s->answer == 2) { ec = asio::error::connection_reset; n = 0; } else if (!n) ec = asio::error::eof; if (s->answer == 3) { ec = asio::error::eof; n = 0; } if (s->answer == 4 && s->calls == 2) { ec = asio::error::connection_reset; n = 0; }
      size_t left = n; for (auto i = asio::buffer_sequence_begin(bufs); i != asio::buffer_sequence_end(bufs) && left; ++i) { asio::mutable_buffer b(*i); size_t k = std::min(left, b.size()); memcpy(b.data(), s->in.data() + s->pos, k); s->pos += k; left -= k; }
      s->log += "r" + std::to_string(n) + " "; done(std::move(h), ec, n); }, token);
  }
  template <typename B> size_t write_some(const B&, error_code&) { return 0; } template <typename B> size_t read_some(const B&, error_code&) { return 0; }
  template <typename H> void done(H&& h, error_code ec, size_t n) { auto ex = asio::get_associated_executor(h, io->get_executor()); asio::post(*io, [ex, h = std::move(h), ec, n]() mutable { asio::dispatch(ex, asio::append(std::move(h), ec, n)); }); }
};
struct StreamBase {
  mc::Ctx& c; std::unique_ptr<asio::io_context> pio = std::make_unique<asio::io_context>(); asio::io_context& io = *pio; asio::io_context hio; Script s; int kind = 0; const char* token = ""; std::string name; int calls0 = 0;
  explicit StreamBase(mc::Ctx& cc) : c(cc) {}
  std::string what() { return name + " with " + token; }
  bool begun() { return s.calls != calls0; }
  void hold() {} void release() {}
  void pump() { for (int i = 0; i < 100; ++i) { io.restart(); size_t n = io.run(); hio.restart(); n += hio.poll(); if (!n) break; } }
};
struct BufFx : StreamBase {
  using Value = size_t; static constexpr bool LAZY = false;
  std::unique_ptr<buffered_stream<Stream>> b;
  explicit BufFx(mc::Ctx& cc) : StreamBase(cc) { b.reset(new buffered_stream<Stream>(Stream(&io, &s), 256, 256)); s.in = "0123456789"; }
  static int outcomes() { return 5; } static int kinds() { return 2; }
  void prepare(int k, int out, int tok)
  {
    kind = k; s.answer = out; s.calls = 0; calls0 = 0; token = tokens[tok]; name = k ? "async_fill" : "async_flush";
    if (!k) { auto d = dynamic_buffer(b->write_buffer()); auto m = d.prepare(4); memcpy(m.data(), "data", 4); d.commit(4); }
  }
  void drop() {}
  template <typename T> auto start(T&& t) { if (kind) return b->async_fill(std::forward<T>(t)); return b->async_flush(std::forward<T>(t)); }
  std::string ledger() { auto& r = b->read_buffer(); return s.log + s.sent + "|" + std::string((const char*)r.data(), r.size()) + "|" + std::to_string(b->can_flush()); }
  void close_all() { b.reset(); pio.reset(); hio.restart(); hio.poll(); }
};
template <typename V> struct SocksFx : StreamBase { // V: auth_method: greeting; void: the others
  using Value = V; static constexpr bool LAZY = false; static constexpr bool GREET = !std::is_void_v<V>;
  std::unique_ptr<Stream> st; std::deque<linear_buffer> bufs;
  struct Args { std::vector<socks::auth_method> m; std::string user, pass, host; asio::ip::tcp::endpoint ep; }; std::unique_ptr<Args> args;
  explicit SocksFx(mc::Ctx& cc) : StreamBase(cc), st(new Stream(&io, &s)) {}
  static int outcomes() { return 6; } static int kinds() { return GREET ? 1 : 5; }
  void prepare(int k, int out, int tok)
  {
    static const char* names[] = {"async_login", "async_execute (SOCKS5, name)", "async_execute (SOCKS5, endpoint)", "async_execute (SOCKS4a, name)", "async_execute (SOCKS4a, endpoint)"};
    kind = k; s.answer = out; s.calls = 0; calls0 = 0; token = tokens[tok]; name = GREET ? "async_greet" : names[k]; bool bad = out == 5; bufs.emplace_back();
    s.pos = 0; s.in = GREET ? (bad ? std::string("\x05\xff") : std::string("\x05\x02")) : k == 0 ? (bad ? std::string("\x01\x07") : std::string("\x01\x00", 2)) : k <= 2 ? std::string(bad ? "\x05\x05" : "\x05\x00", 2) + std::string("\x00\x01\x01\x02\x03\x04\x05\x06", 8) : std::string(bad ? "\x00\x5b" : "\x00\x5a", 2) + std::string(6, 'x');
    args.reset(new Args{{socks::auth_method::none, socks::auth_method::username_password}, "a user with a long name", "a long password, not short", "a.long.host.name.example.org", {asio::ip::make_address("10.1.2.3"), 99}});
  }
  void drop() { args.reset(); }
  template <typename T> auto start(T&& t)
  {
    auto& lb = bufs.back(); // as an rvalue: the operation owns its view of the buffer
    if constexpr (GREET) return socks::async_greet(*st, args->m.data(), args->m.size(), dynamic_buffer(lb), std::forward<T>(t));
    else {
      if (kind == 0) return socks::async_login(*st, args->user, args->pass, dynamic_buffer(lb), std::forward<T>(t));
      if (kind == 1) return socks::async_execute(*st, socks::command::connect, args->host, 80, dynamic_buffer(lb), std::forward<T>(t));
      if (kind == 2) return socks::async_execute(*st, socks::command::connect, args->ep, dynamic_buffer(lb), std::forward<T>(t));
      if (kind == 3) return socks::async_execute(*st, socks::command::connect, args->host, 80, args->user, dynamic_buffer(lb), std::forward<T>(t));
      return socks::async_execute(*st, socks::command::connect, args->ep, args->user, dynamic_buffer(lb), std::forward<T>(t));
    }
  }
  std::string ledger() { return s.log + s.sent + "|" + std::to_string(s.pos); }
  void close_all() { st.reset(); pio.reset(); hio.restart(); hio.poll(); }
};
#else
// ---- connecting by name ---------------------------------------------------------------------------------------------------------
struct NetFx {
  using Value = asio::ip::tcp::endpoint; static constexpr bool LAZY = true; typedef asio::ip::tcp tcp;
  mc::Ctx& c; World w; std::unique_ptr<asio::io_context> pio = std::make_unique<asio::io_context>(); asio::io_context& io = *pio; asio::io_context hio; std::unique_ptr<tcp::socket> s; std::unique_ptr<tcp::resolver> r; const char* token = "";
  struct Args { std::string host, service; }; std::unique_ptr<Args> args; int resolves0 = 0; bool hold_ = false;
  explicit NetFx(mc::Ctx& cc) : c(cc), w(cc) { W = &w; s.reset(new tcp::socket(io)); r.reset(new tcp::resolver(io)); }
  ~NetFx() { s.reset(); r.reset(); pio.reset(); W = nullptr; }
  static int outcomes() { return 5; } static int kinds() { return 1; }
  std::string what() { return std::string("async_connect with ") + token; }
  bool begun() { return w.resolves != resolves0; }
  void hold() {} void release() {}
  void prepare(int, int out, int tok)
  {
    token = tok == TOKENS ? "deferred" : tokens[tok]; w.plan.clear(); w.next = 0; w.cur = -1; w.gai = out == 4 ? EAI_NONAME : 0; resolves0 = w.resolves; w.pre = w.fds.empty() ? -1 : w.fds.begin()->first;
    static const int outs[5][2] = {{OK_NOW, -1}, {REFUSED_LATER, OK_LATER}, {REFUSED_NOW, TIMEDOUT_LATER}, {-1, -1}, {-1, -1}};
    for (int i = 0; i < 2; ++i) if (outs[out][i] >= 0) { Attempt a; a.outcome = outs[out][i]; sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(1000 + i); x.sin_addr.s_addr = htonl(0x0a000001 + i); a.addr.assign((char*)&x, sizeof x); w.plan.push_back(a); }
    args.reset(new Args{"a.long.host.name.example.org", "a-long-service-name"});
  }
  void drop() { if (args) { std::fill(args->host.begin(), args->host.end(), '?'); std::fill(args->service.begin(), args->service.end(), '?'); } args.reset(); }
  template <typename T> auto start(T&& t) { return asioext::async_connect(*s, *r, std::string_view(args->host), std::string_view(args->service), {}, std::forward<T>(t)); }
  bool finished() { return false; }
  void pump() { for (int i = 0; i < 100; ++i) { io.restart(); size_t n = io.run(); hio.restart(); n += hio.poll(); if (!n) break; } }
  std::string ledger() { std::string l = w.host + ":" + w.service + "/" + std::to_string(w.flags) + "/" + std::to_string(w.resolves) + "/" + std::to_string(w.next) + "/" + std::to_string(s->is_open()) + "/" + std::to_string(w.fds.size()); if (!w.error.empty()) l += w.error; return l; }
  void close_all() { s.reset(); r.reset(); pio.reset(); hio.restart(); hio.poll(); }
};
#endif

struct Step { int kind, outcome, token; };
template <typename Fx> std::vector<std::pair<Out, std::string>> play(mc::Ctx& c, const std::vector<Step>& steps, bool reference)
{
  Fx fx(c); std::vector<std::pair<Out, std::string>> r;
  for (auto& s : steps) {
    Out o;
    int t = reference ? CALLBACK : s.token;
    fx.prepare(s.kind, s.outcome, t);
    if (!reference || s.token != UNUSED_AWAIT) {
      Driver<Fx> d{c, fx, o}; d.launch(t); d.finish(t);
    }
    r.push_back({o, fx.ledger()});
    c.step();
  }
  return r;
}
template <typename Fx> void sequence(mc::Ctx& c)
{
  std::vector<Step> steps; const int nt = TOKENS + Fx::LAZY;
  const int len = 1 + c.choose(c.thorough() ? 3 : 2, "operations - 1");
  for (int i = 0; i < len; ++i) {
    // of three operations the first and last succeed, and the first uses one of four typical tokens
    static const int few[] = {CALLBACK, FUTURE, AWAIT, UNUSED_AWAIT};
    Step s; s.kind = c.choose(Fx::kinds(), "operation"); s.outcome = len == 3 && i != 1 ? 0 : c.choose(Fx::outcomes(), "outcome");
    s.token = len == 3 && !i ? few[c.choose(4, "token")] : c.choose(nt, "token"); steps.push_back(s);
  }
  auto ref = play<Fx>(c, steps, true); auto got = play<Fx>(c, steps, false);
  uint64_t h = mc::hstr(0, __PRETTY_FUNCTION__);
  for (size_t i = 0; i < steps.size(); ++i) {
    const Out &a = ref[i].first, &b = got[i].first; const char* t = steps[i].token == TOKENS ? "deferred" : tokens[steps[i].token];
    if (b.times) {
      if (a.ec != b.ec) c.fail("operation %zu with %s reports '%s', with a callback '%s'", i, t, b.ec.message().c_str(), a.ec.message().c_str());
      if (b.has_value && a.has_value && a.v != b.v) c.fail("operation %zu with %s yields '%s', with a callback '%s'", i, t, b.v.c_str(), a.v.c_str());
      if (!b.ec && a.has_value != b.has_value) c.fail("operation %zu with %s yields %s value", i, t, b.has_value ? "a" : "no");
    }
    if (ref[i].second != got[i].second && steps[i].token != UNUSED_AWAIT) c.fail("operation %zu with %s does\n%s\nwith a callback\n%s", i, t, got[i].second.c_str(), ref[i].second.c_str());
    h = mc::mix(h, b.times * 2 + bool(b.ec)); h = mc::hstr(h, got[i].second); c.cover(t);
    c.note("operation %d, outcome %d, %s: '%s' %s", steps[i].kind, steps[i].outcome, t, b.ec.message().c_str(), b.v.c_str());
  }
  c.state(h); if (steps.size() > 1) c.interesting();
}
// The contexts go away while the operation is outstanding: no result, nothing left behind, futures are told.
template <typename Fx> void abandoned(mc::Ctx& c)
{
  Step s; s.kind = c.choose(Fx::kinds(), "operation"); s.outcome = c.choose(Fx::outcomes(), "outcome"); s.token = c.choose(TOKENS + Fx::LAZY, "token");
  Out o; auto fx = std::make_unique<Fx>(c); fx->hold(); fx->prepare(s.kind, s.outcome, s.token);
  Driver<Fx> d{c, *fx, o};
  struct Unhold { Fx* f; ~Unhold() { f->release(); } } u{fx.get()};
  d.launch(s.token);
  bool coroutine = s.token == AWAIT || s.token == TUPLE_AWAIT || s.token == REDIRECT_AWAIT || s.token == LATE_AWAIT;
  if (coroutine && o.times) return; // a stream answers at once
  auto late = d.late; std::string what = fx->what();
  fx->close_all();
  if (late) { late(); if (!o.broken && !o.times) c.fail("%s: the future is never told when the context is destroyed", what.c_str()); }
  else if (o.times && s.token != BOUND_CALLBACK && s.token != STRAND_CALLBACK) c.fail("%s: delivers a result although its context was destroyed", what.c_str());
  if (d.live) c.fail("%s: %d objects owned by its handler or coroutine are left", what.c_str(), d.live);
  c.state(mc::mix(mc::hstr(1, what), s.outcome)); c.cover("abandoned"); c.step();
}
#if PART == 0
// Something happens to the file between the creation of an awaitable operation and its start.
void late_events(mc::Ctx& c)
{
  FileFx fx(c); Out o; int kind = c.choose(4, "operation"), ev = c.choose(6, "event"), answer = c.choose(4, "outcome");
  static const char* evs[] = {"cancelled", "closed", "closed and the descriptor reused", "closed and reopened", "destroyed", "moved"};
  fx.prepare(kind, answer, LATE_AWAIT); Driver<FileFx> d{c, fx, o};
  auto aw = d.start(asio::use_awaitable); fx.drop();
  std::unique_ptr<asioext::file> g; error_code ec;
  switch (ev) {
    case 0: fx.f->cancel(); break;
    case 1: fx.f->close(); break;
    case 2: fx.f->close(); g.reset(new asioext::file(fx.io, "/sim/b", open_flags::access_read_write | open_flags::open_existing)); break;
    case 3: fx.f->close(); fx.f->open("/sim/b", open_args(open_flags::access_read_write | open_flags::open_existing), ec); break;
    case 4: fx.f.reset(); g.reset(new asioext::file(fx.io, "/sim/b", open_flags::access_read_write | open_flags::open_existing)); break;
    case 5: g.reset(new asioext::file(std::move(*fx.f))); break;
  }
  asio::co_spawn(fx.io, std::move(aw), [&d](std::exception_ptr e, size_t n) { if (e) d.take(e); else d.got(&d.fx.io, error_code(), n); });
  d.finish(LATE_AWAIT);
  const auto hit = [&] { for (auto& k : fx.w.log) if (k.io()) return k.inode_id; return -1; }();
  if (ev && ev != 5 && ev != 3 && fx.begun()) c.fail("%s: accesses file %d although its file was %s before it was awaited", fx.what().c_str(), hit, evs[ev]);
  if (ev && ev != 5 && ev != 3 && !o.ec) c.fail("%s: succeeds although its file was %s before it was awaited", fx.what().c_str(), evs[ev]);
  if (hit < 0 && !o.ec) c.fail("%s: succeeds without an access (file %s before)", fx.what().c_str(), evs[ev]);
  if (o.ec == asio::error::operation_aborted && hit >= 0) c.fail("%s: reported as aborted, but it accessed the file", fx.what().c_str());
  c.state(mc::mix(mc::mix(kind, ev), o.ec.value())); c.cover(evs[ev]); c.step();
}
#endif
void run(mc::Ctx& c)
{
#if PART == 0
  switch (c.choose(3, "scenario")) { case 0: sequence<FileFx>(c); break; case 1: abandoned<FileFx>(c); break; case 2: late_events(c); break; }
#elif PART == 2
  if (c.choose(2, "scenario")) abandoned<BufFx>(c); else sequence<BufFx>(c);
#elif PART == 3
  switch (c.choose(4, "scenario")) {
    case 0: sequence<SocksFx<socks::auth_method>>(c); break;
    case 1: sequence<SocksFx<void>>(c); break;
    case 2: abandoned<SocksFx<socks::auth_method>>(c); break;
    case 3: abandoned<SocksFx<void>>(c); break;
  }
#else
  if (c.choose(2, "scenario")) abandoned<NetFx>(c); else sequence<NetFx>(c);
#endif
}
}
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C25"; return mc::main_explore(argc, argv, cfg, run); }
