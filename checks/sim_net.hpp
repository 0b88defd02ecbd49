// A simulated resolver and simulated connection attempts: getaddrinfo/socket/connect/getsockopt/close are replaced; sockets
// are ends of real socket pairs, so that asio's reactor can wait for them.
#pragma once
#include "mc.hpp"
#include <asio/error.hpp>
#include <dlfcn.h>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <string>
#include <sys/socket.h>
#include <unistd.h>
#include <vector>
extern "C" void mc_quiet(int) __attribute__((weak)); // the simulation's own allocations aren't the program's
namespace sim_net {
struct Guard { Guard() { if (mc_quiet) mc_quiet(1); } ~Guard() { if (mc_quiet) mc_quiet(-1); } };
struct Attempt { int family = AF_INET, outcome = 0; bool done = false; std::string addr; };
enum { OK_NOW, OK_LATER, REFUSED_NOW, REFUSED_LATER, UNREACH_NOW, TIMEDOUT_LATER, NO_FAMILY, NO_FD, OUTCOMES };
const int outcome_err[] = {0, 0, ECONNREFUSED, ECONNREFUSED, EHOSTUNREACH, ETIMEDOUT, EAFNOSUPPORT, EMFILE};
struct World {
  mc::Ctx& c; std::vector<Attempt> plan; int gai = 0; bool odd_family = false;
  std::string host, service; int flags = 0; bool host_null = false, service_null = false; int resolves = 0;
  size_t next = 0; int cur = -1;            // attempt the socket in cur is for
  std::map<int, int> fds;                   // simulated socket -> peer
  int pre = -1;                             // the socket the caller's object had before
  std::string error;                        // protocol violations are reported after the operation
  explicit World(mc::Ctx& cc) : c(cc) {}
};
inline World* W;
template <typename F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
inline int sim_socket(int family)
{
  int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) W->c.internal("socketpair: %s", strerror(errno));
  W->fds[p[0]] = p[1]; (void)family; return p[0];
}
inline void bad(const std::string& m) { if (W->error.empty()) W->error = m; }
}
using namespace sim_net;
extern "C" {
int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res)
{
  Guard g; World& w = *W; w.resolves++;
  w.host_null = !node; w.host = node ? node : ""; w.service_null = !service; w.service = service ? service : ""; w.flags = hints ? hints->ai_flags : -1;
  if (hints && (hints->ai_socktype != SOCK_STREAM || hints->ai_protocol != IPPROTO_TCP)) bad("asked for another protocol");
  *res = nullptr;
  if (w.gai) { errno = 0; return w.gai; }
  addrinfo** tail = res;
  auto add = [&](int family, const std::string& addr) {
    addrinfo* a = (addrinfo*)calloc(1, sizeof(addrinfo)); a->ai_family = family; a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP;
    a->ai_addrlen = addr.size(); a->ai_addr = (sockaddr*)malloc(addr.size()); memcpy(a->ai_addr, addr.data(), addr.size()); *tail = a; tail = &a->ai_next; };
  if (w.odd_family) { sockaddr_storage s{}; s.ss_family = AF_UNIX; add(AF_UNIX, std::string((char*)&s, 16)); }
  for (auto& a : w.plan) add(a.family, a.addr);
  return 0;
}
void freeaddrinfo(addrinfo* a) { while (a) { addrinfo* n = a->ai_next; free(a->ai_addr); free(a); a = n; } }
int socket(int family, int type, int protocol) noexcept
{
  Guard g;
  if (!W || (family != AF_INET && family != AF_INET6)) return real<int (*)(int, int, int)>("socket")(family, type, protocol);
  World& w = *W;
  if (!w.fds.empty()) bad("a socket is opened while the previous one is still open");
  if (w.next >= w.plan.size()) { bad("a socket is opened although all endpoints have been tried"); errno = EMFILE; return -1; }
  Attempt& a = w.plan[w.next++];
  if (w.next >= 2 && (w.plan[w.next - 2].outcome <= OK_LATER)) bad("another endpoint is tried after a successful one");
  if ((type & 0xff) != SOCK_STREAM) bad("wrong socket type");
  if (family != a.family) bad("endpoint " + std::to_string(w.next - 1) + " was skipped or tried out of order");
  a.done = true;
  if (a.outcome >= NO_FAMILY) { w.cur = -1; errno = outcome_err[a.outcome]; return -1; }
  w.cur = w.next - 1; return sim_socket(family);
}
int connect(int fd, const sockaddr* sa, socklen_t len)
{
  Guard g;
  if (!W) return real<int (*)(int, const sockaddr*, socklen_t)>("connect")(fd, sa, len);
  World& w = *W;
  if (w.cur < 0 || !w.fds.count(fd) || fd == w.pre) { bad("connect() on a socket that was not freshly opened for this endpoint"); errno = EBADF; return -1; }
  Attempt& a = w.plan[w.cur];
  if (a.addr != std::string((const char*)sa, len)) bad("connect() to another endpoint than number " + std::to_string(w.cur));
  if (a.outcome == OK_NOW) return 0;
  errno = a.outcome == OK_LATER || a.outcome == REFUSED_LATER || a.outcome == TIMEDOUT_LATER ? EINPROGRESS : outcome_err[a.outcome];
  return -1;
}
int getsockopt(int fd, int level, int name, void* v, socklen_t* l) noexcept
{
  if (W && W->fds.count(fd) && level == SOL_SOCKET && name == SO_ERROR) { *(int*)v = W->cur >= 0 && fd != W->pre ? outcome_err[W->plan[W->cur].outcome] : 0; *l = sizeof(int); return 0; }
  return real<int (*)(int, int, int, void*, socklen_t*)>("getsockopt")(fd, level, name, v, l);
}
int close(int fd)
{
  Guard g;
  static auto f = real<int (*)(int)>("close");
  if (W) { auto it = W->fds.find(fd); if (it != W->fds.end()) { f(it->second); W->fds.erase(it); if (fd == W->pre) W->pre = -1; } }
  return f(fd);
}
}
namespace sim_net {
inline decltype(asio::error::make_error_code(asio::error::host_not_found)) gai_error(int e)
{
  switch (e) {
    case EAI_NONAME: return asio::error::host_not_found; case EAI_AGAIN: return asio::error::host_not_found_try_again;
    case EAI_SERVICE: return asio::error::service_not_found; case EAI_FAIL: return asio::error::no_recovery;
  }
  return {};
}
}
