// C18/C19/C20: the real SOCKS client over a scripted stream.  PROP selects the property.
#include "asioext/detail/config.hpp"
#include "mc.hpp"
#include "asioext/socks/client.hpp"
#include "asioext/linear_buffer.hpp"
#include <asio/io_context.hpp>
#include <asio/bind_executor.hpp>
#include <asio/append.hpp>
#include <asio/dispatch.hpp>
#include <asio/post.hpp>
#include <optional>
#include <deque>
#ifndef PROP
# define PROP 18
#endif
using namespace asioext;
using asioext::socks::command;
using asioext::socks::auth_method;
namespace {
typedef std::string Bytes;
std::string hex(const Bytes& b) { std::string o; char t[4]; size_t n = 0; for (unsigned char c : b) { snprintf(t, sizeof t, "%02x ", c); o += t; if (++n == 48) { o += "..."; break; } } return o + "(" + std::to_string(b.size()) + " bytes)"; }
const Bytes TAIL = "\x05\x01\x00!"; // first bytes of the proxied connection

// A server that expects requests[i] and then answers replies[i]; afterwards the proxied bytes follow.
struct Script { std::vector<Bytes> requests, replies; };
struct Server {
  mc::Ctx& c; asio::io_context io, hio; // stream's executor, handler's executor
  Script sc; size_t turn = 0; Bytes got;       // request bytes received in this turn
  Bytes readable; size_t consumed = 0; bool writes_seen = false;
  bool chunks = false, faults = false; error_code injected; bool failed = false;
  bool pruned = false, cut = false; int outstanding = 0, calls = 0;
  explicit Server(mc::Ctx& cc) : c(cc) {}
  bool tail_added = false;
  void answer()
  {
    if (turn < sc.requests.size() && got == sc.requests[turn]) {
      readable += sc.replies[turn]; got.clear(); ++turn;
      if (turn == sc.requests.size() && !tail_added) { readable += TAIL; tail_added = true; }
    }
  }
};
struct Stream {
  Server* s;
  typedef asio::io_context::executor_type executor_type;
  executor_type get_executor() { return s->io.get_executor(); }
  template <typename H> void finish(H&& h, error_code ec, size_t n)
  {
    s->outstanding++;
    auto ex = asio::get_associated_executor(h, s->io.get_executor());
    Server* sv = s;
    asio::post(s->io, [sv, ex, h = std::move(h), ec, n]() mutable { // completes later, then on the handler's executor
      sv->outstanding--;
      asio::dispatch(ex, asio::append(std::move(h), ec, n)); });
  }
  size_t amount(size_t avail)
  {
    if (!s->chunks || avail <= 1) return avail;
    if (s->pruned) return 1 + s->c.choose((int)avail, "bytes transferred");
    int k = s->c.choose_dev((int)avail, "bytes transferred (0: all)");
    return k == 0 ? avail : (size_t)k;
  }
  bool fault(bool write, error_code& ec, bool dead_end = false)
  {
    (void)dead_end;
    if (s->failed) s->c.fail("stream used again after it reported an error");
    if (!s->faults) return false;
    int k = s->c.choose(write ? 2 : 3, "stream error");
    if (!k) return false;
    ec = k == 2 ? error_code(asio::error::eof) : write ? error_code(asio::error::broken_pipe) : error_code(asio::error::connection_reset);
    s->failed = true; s->injected = ec;
    s->c.note("%s fails: %s", write ? "write" : "read", ec.message().c_str());
    return true;
  }
  void begin(const char* what)
  {
    if (s->outstanding) s->c.fail("%s started while another operation is outstanding on the stream", what);
    s->c.step(); ++s->calls;
    if (s->calls > 5000) s->c.fail("the operation keeps calling the stream");
  }
  void visit(int kind)
  {
    if (!s->pruned) return;
    uint64_t h = mc::mix(mc::mix(s->turn, s->got.size()), mc::mix(s->consumed, kind));
    h = mc::hstr(h, s->sc.requests.empty() ? "" : s->sc.requests[0] + s->sc.requests.back() + std::to_string(s->sc.requests.size()) + s->sc.replies.back());
    s->c.state(h);
    if (s->c.seen(h)) s->cut = true;
  }
  template <typename B, typename H> auto async_write_some(const B& bufs, H&& token)
  {
    return asio::async_initiate<H, void(error_code, size_t)>([this, bufs](auto h) {
      begin("write"); visit(1); if (s->cut) return;
      error_code ec; size_t n = 0;
      Bytes data;
      for (auto i = asio::buffer_sequence_begin(bufs); i != asio::buffer_sequence_end(bufs); ++i) { asio::const_buffer b(*i); data.append((const char*)b.data(), b.size()); }
      s->writes_seen = true;
      if (!fault(true, ec) && !data.empty()) {
        if (s->consumed != s->readable.size() && s->turn < s->sc.requests.size()) s->c.fail("a request is sent before the previous reply has been read");
        n = amount(data.size());
        s->c.note("write %zu of %zu bytes", n, data.size());
        s->got.append(data, 0, n);
        const Bytes& want = s->turn < s->sc.requests.size() ? s->sc.requests[s->turn] : Bytes();
        if (s->got.size() > want.size() || want.compare(0, s->got.size(), s->got)) s->c.fail("request %zu on the wire is %s, must be %s", s->turn, hex(s->got).c_str(), hex(want).c_str());
        s->answer();
      }
      finish(std::move(h), ec, n);
    }, token);
  }
  template <typename B, typename H> auto async_read_some(const B& bufs, H&& token)
  {
    return asio::async_initiate<H, void(error_code, size_t)>([this, bufs](auto h) {
      begin("read"); visit(2); if (s->cut) return;
      error_code ec; size_t n = 0;
      size_t room = asio::buffer_size(bufs), avail = s->readable.size() - s->consumed;
      if (room && !fault(false, ec)) {
        if (!avail) {
          if (s->turn < s->sc.requests.size()) s->c.fail("the operation waits for a reply although it has only sent %s of %s", hex(s->got).c_str(), hex(s->sc.requests[s->turn]).c_str());
          ec = asio::error::eof; s->failed = true; s->injected = ec;
        } else {
          n = amount(std::min(room, avail));
          size_t left = n;
          for (auto i = asio::buffer_sequence_begin(bufs); i != asio::buffer_sequence_end(bufs) && left; ++i) {
            asio::mutable_buffer b(*i); size_t k = std::min(left, b.size());
            memcpy(b.data(), s->readable.data() + s->consumed, k); s->consumed += k; left -= k;
          }
          s->c.note("read %zu bytes", n);
        }
      }
      finish(std::move(h), ec, n);
    }, token);
  }
};

// ---- independent encoders (RFC 1928, RFC 1929, SOCKS4a) ------------------------------------------------------------
Bytes be16(unsigned v) { return Bytes(1, (char)(v >> 8)) + (char)v; }
Bytes enc_greet(const std::vector<auth_method>& m) { Bytes b = "\x05"; b += (char)m.size(); for (auto x : m) b += (char)x; return b; }
Bytes enc_login(const Bytes& u, const Bytes& p) { Bytes b = "\x01"; b += (char)u.size(); b += u; b += (char)p.size(); return b + p; }
Bytes enc_exec5(command c, const Bytes& addr, bool host, unsigned port)
{
  Bytes b = "\x05"; b += (char)c; b += '\0';
  if (host) { b += '\x03'; b += (char)addr.size(); } else b += addr.size() == 4 ? '\x01' : '\x04';
  return b + addr + be16(port);
}
Bytes enc_exec4(command c, const Bytes& v4, const Bytes& host, unsigned port, const Bytes& user)
{
  Bytes b = "\x04"; b += (char)c; b += be16(port);
  b += host.empty() ? v4 : Bytes("\0\0\0\1", 4);
  b += user; b += '\0';
  if (!host.empty()) { b += host; b += '\0'; }
  return b;
}

struct Outcome { int calls = 0; error_code ec; auth_method m = auth_method::none; bool has_method = false; };
struct Op { // one operation: how to start it
  int kind; // 0 greet 1 login 2 exec5 endpoint 3 exec5 host 4 exec4 endpoint 5 exec4 host
  std::vector<auth_method> methods; Bytes a, b; command cmd = command::connect; asio::ip::tcp::endpoint ep; unsigned port = 0;
  bool may_refuse = false, must_refuse = false;
  Bytes addr() const { if (ep.protocol() == asio::ip::tcp::v4()) { auto x = ep.address().to_v4().to_bytes(); return Bytes((const char*)x.data(), 4); } auto x = ep.address().to_v6().to_bytes(); return Bytes((const char*)x.data(), 16); }
  Bytes request() const
  {
    switch (kind) {
      case 0: return enc_greet(methods);
      case 1: return enc_login(a, b);
      case 2: return enc_exec5(cmd, addr(), false, ep.port());
      case 3: return enc_exec5(cmd, a, true, port);
      case 4: return enc_exec4(cmd, addr(), "", ep.port(), b);
      default: return enc_exec4(cmd, "", a, port, b);
    }
  }
};
struct Session {
  Server& s; Stream st; linear_buffer buf; bool initiating = false, refused = false; size_t limit;
  explicit Session(Server& sv, size_t lim = (std::numeric_limits<size_t>::max)()) : s(sv), st{&sv}, limit(lim) {}
  dynamic_linear_buffer<std::allocator<uint8_t>> dynamic_buffer(linear_buffer& b) { return dynamic_linear_buffer<std::allocator<uint8_t>>(b, limit); }
  void start(Op& op, Outcome& o)
  {
    initiating = true;
    try { launch(op, o); }
    catch (const std::length_error&) { // only a caller whose buffer is limited may see this
      if (limit == (std::numeric_limits<size_t>::max)()) throw;
      refused = true;
    }
    initiating = false;
    if (o.calls) s.c.fail("the handler was called from inside the initiating function");
  }
  // the arguments are only valid until the initiating function returns
  void launch(const Op& given, Outcome& o)
  {
    Op op = given;
    struct Scribble { Op& op; ~Scribble() { for (auto& m : op.methods) m = (auth_method)0xee; for (Bytes* x : {&op.a, &op.b}) for (auto& ch : *x) ch = '#'; op.ep = asio::ip::tcp::endpoint(asio::ip::address_v4(0xeeeeeeee), 0xeeee); op.port = 0xeeee; op.cmd = (command)0xee; } } scribble{op};
    auto h = asio::bind_executor(s.hio, [this, &o](error_code ec) { called(o, ec); });
    switch (op.kind) {
      case 0: socks::async_greet(st, op.methods.data(), op.methods.size(), dynamic_buffer(buf),
                asio::bind_executor(s.hio, [this, &o](error_code ec, auth_method m) { o.m = m; o.has_method = true; called(o, ec); })); break;
      case 1: socks::async_login(st, op.a, op.b, dynamic_buffer(buf), std::move(h)); break;
      case 2: socks::async_execute(st, op.cmd, op.ep, dynamic_buffer(buf), std::move(h)); break;
      case 3: socks::async_execute(st, op.cmd, op.a, (uint16_t)op.port, dynamic_buffer(buf), std::move(h)); break;
      case 4: socks::async_execute(st, op.cmd, op.ep, op.b, dynamic_buffer(buf), std::move(h)); break;
      case 5: socks::async_execute(st, op.cmd, op.a, (uint16_t)op.port, op.b, dynamic_buffer(buf), std::move(h)); break;
    }
  }
  void called(Outcome& o, error_code ec)
  {
    if (initiating) s.c.fail("the handler was called from inside the initiating function");
    if (++o.calls > 1) s.c.fail("the handler was called twice");
    if (!s.hio.get_executor().running_in_this_thread()) s.c.fail("the handler was not called on its executor");
    o.ec = ec;
    s.c.note("handler: %s", ec.message().c_str());
  }
  void pump(Outcome& o)
  {
    for (;;) {
      size_t n = s.io.poll(); s.io.restart();
      if (s.cut) return;
      n += s.hio.poll(); s.hio.restart();
      if (s.cut) return;
      if (!n) break;
    }
    if (o.calls != 1) s.c.fail("the handler was called %d times", o.calls);
  }
};

// A caller may limit its buffer.  Whatever the server answers, nothing may escape from the event loop: either the
// initiating function refuses a buffer that cannot hold the request, or the handler is called.  A buffer with room for
// the longest reply must do.
void limited(mc::Ctx& c, Op& op, const Bytes& reply, size_t limit)
{
  Server s(c); c.step();
  s.sc.requests = {op.request()}; s.sc.replies = {reply};
  Session ses(s, limit); Outcome o;
  ses.start(op, o);
  if (ses.refused) {
    if (limit >= s.sc.requests[0].size()) c.fail("a buffer limited to %zu bytes is refused for a request of %zu", limit, s.sc.requests[0].size());
    while (s.io.poll() + s.hio.poll()) { s.io.restart(); s.hio.restart(); }
    if (o.calls || s.calls) c.fail("the initiating function threw, but the operation goes on");
    return;
  }
  try { ses.pump(o); }
  catch (const std::length_error& e) { c.fail("'%s' escapes from the event loop when the buffer is limited to %zu bytes and the reply is %s; the handler is never called", e.what(), limit, hex(reply).c_str()); }
  if (!o.ec) {
    if (s.turn != 1 || s.consumed != reply.size()) c.fail("success after %zu bytes of a reply of %zu", s.consumed, reply.size());
    if (ses.buf.size()) c.fail("%zu bytes left in the caller's buffer", ses.buf.size());
  } else {
    if (limit >= std::max(s.sc.requests[0].size(), reply.size())) c.fail("'%s' although the buffer has room for %zu bytes and the reply has %zu", o.ec.message().c_str(), limit, reply.size());
    if (s.consumed > reply.size()) c.fail("operation read beyond the reply");
  }
}
// Runs one operation against one reply; returns the outcome after generic checks
Outcome exchange(mc::Ctx& c, Op& op, const Bytes& reply, bool success)
{
  Server s(c); c.step();
  s.sc.requests = {op.request()}; s.sc.replies = {reply};
  Session ses(s); Outcome o;
  ses.start(op, o);
  ses.pump(o);
  c.state(mc::hstr(mc::hstr(o.ec.value(), reply), s.sc.requests[0]));
  if (op.must_refuse || (op.may_refuse && !s.writes_seen)) {
    if (s.writes_seen) c.fail("a request the protocol cannot carry was sent: %s", hex(s.sc.requests[0]).c_str());
    if (!o.ec) c.fail("success reported for a request the protocol cannot carry");
    if (s.consumed) c.fail("refused operation read from the stream");
    return o;
  }
  if (s.turn != 1) c.fail("operation ended with %s, the request was not sent completely", o.ec.message().c_str());
  if (success) {
    if (o.ec) c.fail("reply %s signals success but the operation reports '%s'", hex(reply).c_str(), o.ec.message().c_str());
    if (s.consumed != reply.size()) c.fail("successful operation consumed %zu bytes of a reply of %zu", s.consumed, reply.size());
    if (ses.buf.size()) c.fail("%zu bytes left in the caller's buffer", ses.buf.size());
  } else {
    if (!o.ec) c.fail("reply %s does not signal success but the operation reports success", hex(reply).c_str());
    if (s.consumed > reply.size()) c.fail("operation read %zu bytes beyond the reply", s.consumed - reply.size());
  }
  return o;
}
void expect_error(mc::Ctx& c, const Outcome& o, error_code want, const Bytes& reply)
{
  if (o.ec != want) c.fail("reply %s is reported as '%s' instead of '%s'", hex(reply).c_str(), o.ec.message().c_str(), want.message().c_str());
}
Bytes pattern(size_t n, int seed) { Bytes b; for (size_t i = 0; i < n; ++i) b += (char)((i * 7 + seed) | 1); return b; }
asio::ip::tcp::endpoint v4ep(const char* a, unsigned p) { return asio::ip::tcp::endpoint(asio::ip::make_address(a), (unsigned short)p); }
const unsigned PORTS[] = {0, 1, 80, 255, 256, 1080, 0x1234, 0x8000, 65535};
const char* const V4[] = {"1.2.3.4", "0.0.0.0", "255.255.255.255", "127.0.0.1", "0.0.0.1", "128.0.255.2"};
const char* const V6[] = {"::1", "2001:db8::ff:0:9", "::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::ffff:1.2.3.4"};
const command CMDS[] = {command::connect, command::bind, command::bind_udp};
Bytes ok5(int atyp, int hostlen = 3)
{
  Bytes b("\x05\x00\x00", 3); b += (char)atyp;
  if (atyp == 1) b += Bytes("\x01\x02\x03\x04", 4); else if (atyp == 4) b += pattern(16, 9); else { b += (char)hostlen; b += pattern(hostlen, 5); }
  return b + Bytes("\x10\x20", 2);
}

void run18(mc::Ctx& c)
{
  Op op;
  switch (c.choose(10, "scenario")) {
    case 8: { // limited buffers, operations with short replies
      size_t limit = c.choose(40, "limit");
      op.kind = 0; op.methods = {auth_method::none, auth_method::username_password}; limited(c, op, Bytes("\x05\x02", 2), limit);
      op.methods = {auth_method::none}; limited(c, op, Bytes("\x05\x00", 2), limit);
      op.kind = 1; op.a = ""; op.b = ""; for (const char* u : {"", "u", "a user's name"}) { op.a = op.b = u; if (*u) limited(c, op, Bytes("\x01\x00", 2), limit); }
      op.kind = 2; op.ep = v4ep("1.2.3.4", 80); for (int t : {1, 4}) limited(c, op, ok5(t), limit);
      op.ep = v4ep("::1", 80); for (int t : {1, 4}) limited(c, op, ok5(t), limit);
      op.kind = 3; op.port = 80; for (const char* h : {"h", "host.example"}) for (int t : {1, 4}) { op.a = h; limited(c, op, ok5(t), limit); }
      break; }
    case 9: { // limited buffers, replies with a host name of any length
      size_t limit = c.choose(300, "limit");
      for (int n = 0; n < 256; ++n) {
        op.kind = 3; op.port = 80; op.a = "h"; limited(c, op, ok5(3, n), limit);
        op.kind = 2; op.ep = v4ep("1.2.3.4", 80); limited(c, op, ok5(3, n), limit);
      }
      break; }
    case 0: { // all greeting replies
      op.kind = 0; op.methods = {auth_method::none, auth_method::username_password};
      int ver = c.choose(256, "version");
      for (int m = 0; m < 256; ++m) {
        Bytes r; r += (char)ver; r += (char)m;
        bool ok = ver == 5 && m != 255;
        Outcome o = exchange(c, op, r, ok);
        if (ok && (int)(unsigned char)o.m != m) c.fail("the server chose method %d, the handler was told %d", m, (int)(unsigned char)o.m);
        if (ver != 5) expect_error(c, o, socks::error::invalid_version, r);
        else if (!ok) expect_error(c, o, socks::error::no_acceptable_auth_method, r);
        if (!ok && o.m != auth_method::no_acceptable) c.fail("failed greeting passes method %d to the handler", (int)(unsigned char)o.m);
      }
      break; }
    case 1: { // all login replies
      op.kind = 1; op.a = "user"; op.b = "secret";
      int ver = c.choose(256, "version");
      for (int st = 0; st < 256; ++st) {
        Bytes r; r += (char)ver; r += (char)st;
        Outcome o = exchange(c, op, r, ver == 1 && st == 0);
        if (ver != 1) expect_error(c, o, socks::error::invalid_auth_version, r); else if (st) expect_error(c, o, socks::error::login_failed, r);
      }
      break; }
    case 2: { // all version / status bytes of command replies
      op.kind = 3; op.a = "example.com"; op.port = 443;
      int ver = c.choose(256, "version"); int atyp = c.choose(3, "address type") == 0 ? 1 : c.choose(2, "address type") ? 3 : 4;
      for (int st = 0; st < 256; ++st) {
        Bytes r = ok5(atyp); r[0] = (char)ver; r[1] = (char)st;
        Outcome o = exchange(c, op, r, ver == 5 && st == 0);
        if (ver != 5) { expect_error(c, o, socks::error::invalid_version, r); continue; }
        error_code want;
        switch (st) {
          case 0: continue;
          case 1: want = socks::error::generic; break;
          case 2: want = asio::error::no_permission; break;
          case 3: want = asio::error::network_unreachable; break;
          case 4: want = asio::error::host_unreachable; break;
          case 5: want = asio::error::connection_refused; break;
          case 6: want = asio::error::timed_out; break;
          case 7: want = socks::error::command_not_supported; break;
          case 8: want = asio::error::address_family_not_supported; break;
          default: continue; // any error
        }
        expect_error(c, o, want, r);
      }
      break; }
    case 3: { // all address types and host lengths in successful replies
      op.kind = 2; op.ep = v4ep("10.1.2.3", 8080);
      int atyp = c.choose(256, "address type");
      for (int len = 0; len < 256; ++len) {
        Bytes r; bool ok = true;
        if (atyp == 1 || atyp == 4) { r = ok5(atyp); r[4] = (char)len; }
        else if (atyp == 3) r = ok5(3, len);
        else { ok = false; r = Bytes("\x05\x00\x00", 3); r += (char)atyp; r += (char)len; r += pattern(300, len); }
        r[2] = (char)c.choose(1, "reserved");
        exchange(c, op, r, ok);
        if (ok && len < 8) { r[2] = (char)(1 << len); (void)0; }
      }
      break; }
    case 4: { // greeting requests: every number of methods
      op.kind = 0; int n = c.choose(260, "number of methods");
      for (int i = 0; i < n; ++i) op.methods.push_back((auth_method)((i * 37 + n) & 0xff));
      op.must_refuse = n > 255; op.may_refuse = n == 0;
      exchange(c, op, Bytes("\x05\x00", 2), true);
      break; }
    case 5: { // login requests: every user name length x boundary password lengths
      op.kind = 1; int n = c.choose(260, "user name length");
      for (int m = 0; m < 260; m = m < 3 || m >= 252 ? m + 1 : m < 250 ? m + 13 : m + 1) {
        op.a = pattern(n, 3); op.b = pattern(m, 11); if (n > 2) op.a[1] = '\0'; if (m > 2) op.b[1] = '\0';
        op.must_refuse = n > 255 || m > 255; op.may_refuse = n == 0 || m == 0;
        exchange(c, op, Bytes("\x01\x00", 2), true);
      }
      break; }
    case 6: { // commands with end points
      op.kind = 2; op.cmd = CMDS[c.choose(3, "command")];
      for (unsigned p : PORTS) {
        for (auto a : V4) { op.ep = v4ep(a, p); exchange(c, op, ok5(1), true); }
        for (auto a : V6) { op.ep = v4ep(a, p); exchange(c, op, ok5(4), true); }
      }
      for (int i = 0; i < 256; ++i) for (int pos = 0; pos < 4; ++pos) { asio::ip::address_v4::bytes_type b = {9, 9, 9, 9}; b[pos] = (unsigned char)i; op.ep = asio::ip::tcp::endpoint(asio::ip::address_v4(b), (unsigned short)(i * 257)); exchange(c, op, ok5(1), true); }
      for (int i = 0; i < 256; ++i) for (int pos = 0; pos < 16; ++pos) { asio::ip::address_v6::bytes_type b = {}; b[pos] = (unsigned char)i; op.ep = asio::ip::tcp::endpoint(asio::ip::address_v6(b), (unsigned short)(i << 8)); exchange(c, op, ok5(1), true); }
      break; }
    case 7: { // commands with host names
      op.kind = 3; int n = c.choose(260, "host name length"); op.cmd = CMDS[c.choose(3, "command")];
      op.a = pattern(n, 1);
      op.must_refuse = n > 255 || n == 0;
      for (unsigned p : PORTS) { op.port = p; exchange(c, op, ok5(3), true); }
      break; }
  }
}

void run19(mc::Ctx& c)
{
  Op op; op.kind = 4; op.ep = v4ep("1.2.3.4", 80); op.b = "user";
  Bytes ok("\x00\x5a\x12\x34\x01\x02\x03\x04", 8);
  switch (c.choose(6, "scenario")) {
    case 5: { // limited buffers
      size_t limit = c.choose(40, "limit");
      for (const char* u : {"", "u", "a user's name"}) { op.kind = 4; op.b = u; limited(c, op, ok, limit); op.kind = 5; op.a = "h"; op.port = 7; limited(c, op, ok, limit); }
      break; }
    case 0: { // all replies
      int ver = c.choose(256, "version"); op.kind = 4 + c.choose(2, "target by name"); op.a = "host"; op.port = 8080;
      for (int st = 0; st < 256; ++st) {
        Bytes r = ok; r[0] = (char)ver; r[1] = (char)st;
        Outcome o = exchange(c, op, r, ver == 0 && st == 90);
        if (ver) { expect_error(c, o, socks::error::invalid_version, r); continue; }
        if (st == 0x5b) expect_error(c, o, socks::error::generic, r);
        if (st == 0x5c) expect_error(c, o, socks::error::identd_not_reachable, r);
        if (st == 0x5d) expect_error(c, o, socks::error::login_failed, r);
      }
      break; }
    case 1: { // the rest of the reply does not matter
      int v = c.choose(256, "byte");
      for (int pos = 2; pos < 8; ++pos) { Bytes r = ok; r[pos] = (char)v; exchange(c, op, r, true); }
      break; }
    case 2: { // end points
      op.cmd = CMDS[c.choose(3, "command")];
      static const size_t lens[] = {0, 1, 2, 3, 8, 15, 16, 255, 256, 300};
      for (size_t ul : lens) for (unsigned p : PORTS) for (auto a : V4) { op.b = pattern(ul, 2); op.ep = v4ep(a, p); exchange(c, op, ok, true); }
      for (size_t ul : lens) for (unsigned p : PORTS) for (auto a : V6) { op.b = pattern(ul, 2); op.ep = v4ep(a, p); op.must_refuse = true; exchange(c, op, ok, true); }
      op.must_refuse = false;
      for (int i = 0; i < 256; ++i) for (int pos = 0; pos < 4; ++pos) { asio::ip::address_v4::bytes_type b = {9, 9, 9, 9}; b[pos] = (unsigned char)i; op.ep = asio::ip::tcp::endpoint(asio::ip::address_v4(b), (unsigned short)(i * 257)); exchange(c, op, ok, true); }
      break; }
    case 3: { // host names
      op.kind = 5; op.cmd = CMDS[c.choose(3, "command")];
      int hl = c.choose(300, "host length");
      op.must_refuse = hl == 0;
      for (size_t ul : {0, 1, 7, 255, 256}) for (unsigned p : PORTS) { op.a = pattern(hl, 4); op.b = pattern(ul, 2); op.port = p; exchange(c, op, ok, true); }
      break; }
    case 4: { // strings with an embedded terminator cannot be carried
      int hl = 1 + c.choose(6, "host length"); op.kind = 4 + c.choose(2, "target by name"); op.port = 1;
      for (int at = 0; at < hl; ++at) {
        op.a = "host"; op.b = pattern(hl, 2); op.b[at] = '\0'; op.must_refuse = true; exchange(c, op, ok, true);
        if (op.kind == 5) { op.b = "u"; op.a = pattern(hl, 2); op.a[at] = '\0'; exchange(c, op, ok, true); }
      }
      break; }
  }
}

// Two clients on two streams, their handlers interleaved: neither may notice the other.
void pair20(mc::Ctx& c)
{
  c.set_bound(c.thorough() ? 3 : 2);
  struct Kind { int kind; Bytes reply; bool ok; };
  Bytes refused = ok5(1); refused[1] = 5;
  const Kind kinds[] = {{0, Bytes("\x05\x02", 2), true}, {1, Bytes("\x01\x00", 2), true}, {2, ok5(1), true}, {3, ok5(3, 9), true}, {3, ok5(4), true}, {4, Bytes("\x00\x5a\x12\x34\x01\x02\x03\x04", 8), true}, {2, refused, false}, {0, Bytes("\x05\xff", 2), false}, {3, ok5(3, 2), true}};
  int k[2] = {c.choose(9, "first"), 0}; k[1] = c.choose(9, "second");
  Op op[2]; Outcome o[2]; Server s0(c), s1(c); Server* s[2] = {&s0, &s1};
  for (int i = 0; i < 2; ++i) {
    op[i].kind = kinds[k[i]].kind; op[i].methods = {auth_method::none, auth_method::username_password}; if (i) op[i].methods.push_back(auth_method::gssapi);
    op[i].a = i ? "other.example" : "a.example"; op[i].b = i ? "me" : "user"; op[i].ep = v4ep(i ? "1.2.3.4" : "9.8.7.6", 80 + i); op[i].port = 1080 + i;
    s[i]->sc.requests = {op[i].request()}; s[i]->sc.replies = {kinds[k[i]].reply}; s[i]->chunks = true;
  }
  Session a(s0), b(s1); Session* ses[2] = {&a, &b};
  bool started[2] = {false, false}; int cur = 0;
  auto advance = [&](int i) { // one handler
    if (!started[i]) { started[i] = true; c.note("start %d", i); ses[i]->start(op[i], o[i]); return true; }
    size_t n = s[i]->io.poll_one(); s[i]->io.restart();
    if (!n) { n = s[i]->hio.poll_one(); s[i]->hio.restart(); }
    return n != 0;
  };
  for (;;) {
    c.step();
    if (c.choose_dev(2, "switch to the other client")) { cur ^= 1; c.note("switch to %d", cur); }
    if (!advance(cur)) { cur ^= 1; if (!advance(cur)) break; }
  }
  for (int i = 0; i < 2; ++i) {
    if (o[i].calls != 1) c.fail("the handler of client %d was called %d times", i, o[i].calls);
    if (kinds[k[i]].ok != !o[i].ec) c.fail("client %d reports '%s'", i, o[i].ec.message().c_str());
    if (s[i]->turn != 1) c.fail("the request of client %d was not sent completely", i);
    if (!kinds[k[i]].ok) continue;
    if (op[i].kind == 0 && (int)(unsigned char)o[i].m != (unsigned char)kinds[k[i]].reply[1]) c.fail("client %d was told method %d", i, (int)(unsigned char)o[i].m);
    if (s[i]->consumed != kinds[k[i]].reply.size()) c.fail("client %d consumed %zu bytes of a reply of %zu", i, s[i]->consumed, kinds[k[i]].reply.size());
    if (ses[i]->buf.size()) c.fail("%zu bytes left in the buffer of client %d", ses[i]->buf.size(), i);
  }
  c.cover("two clients");
}
// All chunkings and faults, alone and as a conversation on one stream with one buffer
void run20(mc::Ctx& c)
{
  if (c.flag("two clients")) { pair20(c); return; }
  Server s(c); s.chunks = true;
  s.pruned = c.flag("pruned search (any number of splits)");
  if (!s.pruned) c.set_bound(c.thorough() ? 4 : 3);
  s.faults = true;
  std::vector<Op> ops; std::vector<Bytes> replies; std::vector<bool> good;
  auto add = [&](Op o, Bytes r, bool ok = true) { ops.push_back(o); replies.push_back(r); good.push_back(ok); };
  Op greet; greet.kind = 0; greet.methods = {auth_method::none, auth_method::username_password, auth_method::gssapi};
  Op login; login.kind = 1; login.a = "user"; login.b = "pw";
  Op e4; e4.kind = 2; e4.ep = v4ep("1.2.3.4", 80);
  Op e6 = e4; e6.ep = v4ep("2001:db8::1", 443);
  Op eh; eh.kind = 3; eh.a = "a.example"; eh.port = 8080;
  Op o4; o4.kind = 4; o4.ep = v4ep("9.8.7.6", 99); o4.b = "me";
  Op o4h; o4h.kind = 5; o4h.a = "b.example"; o4h.port = 7; o4h.b = "me";
  Bytes okv4r("\x00\x5a\x12\x34\x01\x02\x03\x04", 8);
  Op bad[5] = {greet, login, eh, o4, eh};
  for (auto& b : bad) b.must_refuse = true;
  bad[0].methods.assign(256, auth_method::none); bad[1].a = pattern(256, 1); bad[2].a = pattern(256, 1); bad[3].ep = e6.ep; bad[4].a = "";
  switch (c.choose(14, "program")) {
    case 13: add(bad[c.choose(5, "argument")], "", false); break;
    case 0: add(greet, Bytes("\x05\x02", 2)); break;
    case 1: add(login, Bytes("\x01\x00", 2)); break;
    case 2: add(e4, ok5(1)); break;
    case 3: add(e6, ok5(4)); break;
    case 4: add(eh, ok5(3, 4)); break;
    case 5: add(eh, ok5(3, 0)); break;
    case 6: add(o4, okv4r); break;
    case 7: add(o4h, okv4r); break;
    case 8: add(greet, Bytes("\x05\x02", 2)); add(login, Bytes("\x01\x00", 2)); add(e4, ok5(4)); break;
    case 9: add(greet, Bytes("\x05\x00", 2)); add(eh, ok5(1)); break;
    case 10: { Bytes r = ok5(1); r[1] = 5; add(e4, r, false); break; }
    case 11: { Bytes r = okv4r; r[1] = 0x5b; add(o4, r, false); break; }
    case 12: add(greet, Bytes("\x05\xff", 2), false); break;
  }
  for (size_t i = 0; i < ops.size(); ++i) { s.sc.requests.push_back(ops[i].request()); s.sc.replies.push_back(replies[i]); }
  Session ses(s);
  size_t total = 0;
  for (size_t i = 0; i < ops.size(); ++i) {
    Outcome o;
    ses.start(ops[i], o);
    if (!s.cut) ses.pump(o);
    if (s.cut) { c.cover("pruned"); while (s.io.poll() + s.hio.poll()) { s.io.restart(); s.hio.restart(); break; } return; }
    total += replies[i].size();
    if (ops[i].must_refuse) {
      if (s.calls || !o.ec) c.fail("an operation whose arguments the protocol cannot carry %s", s.calls ? "used the stream" : "reports success");
      c.cover("refused");
      return;
    }
    if (s.failed) {
      if (o.ec != s.injected) c.fail("the stream failed with '%s' but the handler received '%s'", s.injected.message().c_str(), o.ec.message().c_str());
      if (s.consumed > total) c.fail("%zu bytes beyond the reply were read", s.consumed - total);
      c.cover("failed");
      return;
    }
    if (good[i] != !o.ec) c.fail("operation reports '%s'", o.ec.message().c_str());
    if (s.turn != i + 1) c.fail("request not sent completely");
    if (!good[i]) { if (s.consumed > total) c.fail("%zu bytes beyond the reply were read", s.consumed - total); c.cover("rejected"); return; }
    if (s.consumed != total) c.fail("%zu bytes consumed, the replies have %zu: %s", s.consumed, total, s.consumed > total ? "the proxied connection lost its first bytes" : "the rest of the reply would be taken for proxied data");
    if (ses.buf.size()) c.fail("%zu bytes left in the caller's buffer", ses.buf.size());
  }
  c.cover("completed");
}
void run(mc::Ctx& c)
{
  c.interesting();
#if PROP == 18
  run18(c);
#elif PROP == 19
  run19(c);
#else
  run20(c);
#endif
}
} // namespace
#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C" STR(PROP); return mc::main_explore(argc, argv, cfg, run); }
