// C22: connect()/async_connect() over a simulated resolver and simulated connection attempts.
#include "asioext/detail/config.hpp"
#include "mc.hpp"
#include "sim_net.hpp"
#include "asioext/connect.hpp"
#include <asio/io_context.hpp>
#include <asio/bind_executor.hpp>
#include <asio/any_io_executor.hpp>
#include <asio/use_future.hpp>
#include <dlfcn.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <memory>
#include <optional>
using namespace asioext;
typedef asio::ip::tcp tcp;
namespace {
struct Result { error_code ec; std::optional<tcp::endpoint> ep; bool called = false; };
struct Handler {
  mc::Ctx* c; Result* r; int* initiating; asio::io_context* in; std::unique_ptr<int> moveonly;
  void operator()(error_code ec, tcp::endpoint ep)
  {
    if (*initiating) c->fail("the handler is called within the initiating function");
    if (r->called) c->fail("the handler is called twice");
    if (!in->get_executor().running_in_this_thread()) c->fail("the handler is not called on its executor");
    r->called = true; r->ec = ec; r->ep = ep;
  }
};
template <typename Sock, typename Res>
void one(mc::Ctx& c, World& w, asio::io_context& io, asio::io_context& hio, Sock& s, Res& res, int api, const char* round)
{
  static const int gais[] = {0, EAI_NONAME, EAI_AGAIN, EAI_SERVICE, EAI_FAIL};
  w.plan.clear(); w.next = 0; w.cur = -1; w.resolves = 0; w.error.clear(); w.pre = w.fds.empty() ? -1 : w.fds.begin()->first;
  w.gai = gais[c.choose(5, "resolution")]; w.odd_family = false;
  const int maxn = round[0] == '2' ? 2 : 3;
  if (!w.gai) {
    int n = c.choose(maxn + (round[0] == '1' ? 2 : 1), "endpoints"); // maxn + 1: many
    if (n > maxn) {
      static const int counts[] = {5, 9, 17, 33, 65};
      n = counts[c.choose(5, "number of endpoints")];
      int win = c.choose(4, "the endpoint that works"); win = win == 0 ? n : win == 1 ? 3 : win == 2 ? n / 2 : n - 1;
      int bad = OK_LATER + 1 + c.choose(OUTCOMES - OK_LATER - 1, "how the others fail"), good = c.choose(OK_LATER + 1, "how it works");
      for (int i = 0; i < n; ++i) {
        Attempt a; a.outcome = i == win ? good : bad; if (i > win) a.outcome = OK_NOW;
        if (i % 3 == 1) { a.family = AF_INET6; sockaddr_in6 x{}; x.sin6_family = AF_INET6; x.sin6_port = htons(1000 + i); x.sin6_addr.s6_addr[15] = i + 1; a.addr.assign((char*)&x, sizeof x); }
        else { sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(1000 + i); x.sin_addr.s_addr = htonl(0x0a000001 + i); a.addr.assign((char*)&x, sizeof x); }
        w.plan.push_back(a);
      }
      c.cover("many endpoints"); n = 0;
    }
    // (asio itself cannot handle a list of nothing but unknown families)
    w.odd_family = n && (n <= 2 || c.thorough()) && c.flag("an endpoint of an unknown family first");
    for (int i = 0; i < n; ++i) {
      Attempt a; int k = c.choose(3, "family or repetition");
      if (k == 2 && i) { a.family = w.plan[i - 1].family; a.addr = w.plan[i - 1].addr; }
      else if (k == 1) { a.family = AF_INET6; sockaddr_in6 x{}; x.sin6_family = AF_INET6; x.sin6_port = htons(1000 + i); x.sin6_addr.s6_addr[15] = i + 1; x.sin6_scope_id = 0; a.addr.assign((char*)&x, sizeof x); }
      else if (k == 0) { sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(1000 + i); x.sin_addr.s_addr = htonl(0x0a000001 + i); a.addr.assign((char*)&x, sizeof x); }
      else { sockaddr_in x{}; x.sin_family = AF_INET; a.addr.assign((char*)&x, sizeof x); } // 0.0.0.0:0, the default endpoint
      a.outcome = c.choose(OUTCOMES, "attempt"); w.plan.push_back(a);
      if (a.outcome <= OK_LATER) { if (i + 1 < n && i + 1 < maxn) { for (int k = 1; k <= n - 1 - i; ++k) { Attempt b = a; b.outcome = OK_NOW; b.addr[2] ^= k; w.plan.push_back(b); } } break; } // the rest must not be tried
    }
  }
  static const asio::ip::resolver_base::flags fl[] = {asio::ip::resolver_base::flags(), asio::ip::resolver_base::numeric_service | asio::ip::resolver_base::passive};
  const auto flags = fl[w.plan.size() <= 1 || c.thorough() ? c.choose(2, "flags") : 0]; const bool empty_host = flags != fl[0] && c.flag("empty host");
  // views into a larger text which is overwritten as soon as the call returns
  std::string text = "xhost.example:8080/"; std::string_view host(text.data() + 1, empty_host ? 0 : 12), service(text.data() + 14, 4);
  const std::string whost(host), wservice(service);
  Result r; int initiating = 0; const bool was_open = s.is_open();
  error_code stale = asio::error::address_in_use;
  switch (api) {
    case 0: if constexpr (std::is_same_v<Sock, tcp::socket>) { r.ec = stale; asioext::connect(s, res, host, service, flags, r.ec); } break;
    case 1: if constexpr (std::is_same_v<Sock, tcp::socket>) { try { asioext::connect(s, res, host, service, flags); } catch (MC_SYSTEM_ERROR& e) { r.ec = e.code(); if (!r.ec) c.fail("connect() throws without an error"); } } break;
    case 2: case 3: {
      ++initiating;
      Handler h{&c, &r, &initiating, api == 3 ? &hio : &io, nullptr};
      if (api == 3) asioext::async_connect(s, res, host, service, flags, asio::bind_executor(hio.get_executor(), std::move(h)));
      else asioext::async_connect(s, res, host, service, flags, std::move(h));
      --initiating; std::fill(text.begin(), text.end(), '?');
      if (api == 3) {
        // the context without work is run until the other one has nothing to do either
        for (int i = 0; i < 2000000 && !r.called; ++i) { io.restart(); hio.restart(); io.poll(); hio.poll(); if (!r.called) sched_yield(); }
      } else { io.restart(); io.run(); }
      if (!r.called) c.fail("%s: the handler is never called", round);
      hio.restart(); io.restart(); io.poll(); hio.poll();
      break;
    }
    case 4: {
      auto f = asioext::async_connect(s, res, host, service, flags, asio::use_future); std::fill(text.begin(), text.end(), '?');
      io.restart(); io.run();
      if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) c.fail("%s: the future never becomes ready", round);
      try { r.ep = f.get(); } catch (MC_SYSTEM_ERROR& e) { r.ec = e.code(); }
      break;
    }
  }
  c.step();
  if (!w.error.empty()) c.fail("%s: %s", round, w.error.c_str());
  if (w.resolves != 1) c.fail("%s: the name was resolved %d times", round, w.resolves);
  if (w.host != whost || w.service != wservice) c.fail("%s: '%s' '%s' was resolved instead of '%s' '%s'", round, w.host.c_str(), w.service.c_str(), whost.c_str(), wservice.c_str());
  if (w.flags != (int)flags) c.fail("%s: resolved with flags %x instead of %x", round, w.flags, (int)flags);
  // what must have happened
  size_t tried = 0; int win = -1; error_code want;
  if (w.gai) want = gai_error(w.gai);
  else if (w.plan.empty()) want = asio::error::not_found;
  else for (size_t i = 0; i < w.plan.size(); ++i) { ++tried; want = error_code(outcome_err[w.plan[i].outcome], asio::error::get_system_category()); if (!want) { win = (int)i; break; } }
  // known finding: asio's own asynchronous range connect gives up when a socket cannot be opened
  size_t noopen = 0; while (noopen < w.plan.size() && w.plan[noopen].outcome < NO_FAMILY) ++noopen;
  if (api >= 2 && noopen < tried && w.next == noopen + 1 && r.ec == asio::error::operation_aborted && (api == 4 || *r.ep == tcp::endpoint()) && !s.is_open()) {
    c.known("async-open-fails", "%s: async_connect() reports '%s' when the socket for endpoint %zu of %zu cannot be opened (%s)", round, r.ec.message().c_str(), noopen + 1, w.plan.size(), strerror(outcome_err[w.plan[noopen].outcome]));
    return;
  }
  if (w.next != tried) c.fail("%s: %zu endpoints were tried, must be %zu", round, w.next, tried);
  if (bool(r.ec) != bool(want) || (want && r.ec != want)) c.fail("%s: reports '%s', must be '%s'", round, r.ec.message().c_str(), want.message().c_str());
  if (win >= 0) {
    if (!s.is_open() || w.fds.size() != 1 || s.native_handle() != w.fds.begin()->first || w.cur != win) c.fail("%s: the socket is not the one connected to endpoint %d", round, win);
    if (api >= 2) { const auto& e = *r.ep; if (std::string((const char*)e.data(), e.size()) != w.plan[win].addr) c.fail("%s: another endpoint is reported", round); }
    c.cover(win ? "connected to a later endpoint" : "connected to the first endpoint");
  } else {
    if (api >= 2 && api < 4 && *r.ep != tcp::endpoint()) c.fail("%s: an endpoint is reported on failure", round);
    if (!tried && (s.is_open() != was_open)) {} // unspecified
    c.cover(w.gai ? "resolution failed" : w.plan.empty() ? "no endpoint" : "all endpoints failed");
  }
  uint64_t h = mc::mix(api, w.gai); for (auto& a : w.plan) h = mc::mix(h, a.outcome * 4 + (a.family == AF_INET6)); c.state(mc::mix(h, was_open));
}
template <typename Sock, typename Res> void go(mc::Ctx& c, int api)
{
  World w(c); W = &w;
  {
    asio::io_context io, hio; Sock s(io.get_executor()); Res res(io.get_executor());
    int pre = c.choose(2, "socket was open");
    if (pre) { int fd = sim_socket(AF_INET6); error_code ec; s.assign(tcp::v6(), fd, ec); if (ec) c.internal("assign: %s", ec.message().c_str()); }
    one(c, w, io, hio, s, res, api, "1st call");
    if (!pre && c.thorough() ? c.flag("call again") : (!pre && w.plan.size() <= 1 && c.flag("call again"))) one(c, w, io, hio, s, res, api, "2nd call");
    error_code ec; s.close(ec);
  }
  if (!w.fds.empty()) c.fail("a socket is never closed");
  W = nullptr; c.interesting();
}
void run(mc::Ctx& c)
{
  int api = c.choose(6, "api");
  if (api < 5) go<tcp::socket, tcp::resolver>(c, api);
  else go<asio::basic_stream_socket<tcp, asio::io_context::executor_type>, tcp::resolver>(c, 2);
}
}
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C22"; return mc::main_explore(argc, argv, cfg, run); }
