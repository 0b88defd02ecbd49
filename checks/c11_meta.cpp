// C11: sequences of position, size, content and metadata operations against a reference file.
#include "mc.hpp"
#include "simfs.hpp"
#include <asioext/file_handle.hpp>
#include <asioext/unique_file_handle.hpp>
#include <asioext/thread_pool_file_service.hpp>
#include <asioext/basic_file.hpp>
#include <asioext/file.hpp>
#include <asioext/open.hpp>
#include <asio/io_context.hpp>
#include <memory>
#include <sys/stat.h>

namespace {
using asioext::error_code; using asioext::file_perms; using asioext::file_perm_options; using asioext::seek_origin;
asio::io_context* ioc() { static asio::io_context* c = new asio::io_context; return c; }
#ifdef ASIOEXT_DISABLE_FUTIMENS
const int64_t RES = 1000; // times are set in microseconds
#else
const int64_t RES = 1;
#endif
bool near(int64_t a, int64_t b) { __int128 d = (__int128)a - b; return d < RES && -d < RES; }
const char* types[] = {"file_handle", "unique_file_handle", "basic_file"};
struct Any { int t; asioext::file_handle fh; std::unique_ptr<asioext::unique_file_handle> uf; std::unique_ptr<asioext::file> bf; bool thr = false;
  void set(int ty, int fd) { t = ty; if (t == 0) fh = fd; else if (t == 1) uf = std::make_unique<asioext::unique_file_handle>(fd); else bf = std::make_unique<asioext::file>(*ioc(), asioext::file_handle(fd)); }
  template <typename F> auto on(F f) { return t == 0 ? f(fh) : t == 1 ? f(*uf) : f(*bf); }
  // run the throwing or the error code form
  template <typename R, typename F, typename G> R call(error_code& ec, F f, G g)
  {
    if (!thr) { ec = error_code(asio::error::address_in_use); return on([&](auto& h) -> R { return f(h); }); }
    try { ec = error_code(); return on([&](auto& h) -> R { return g(h); }); } catch (MC_SYSTEM_ERROR& e) { ec = e.code(); if (!ec) ec = error_code(asio::error::address_in_use); if constexpr (!std::is_void<R>::value) return R(); }
  }
  uint64_t position(error_code& ec) { return call<uint64_t>(ec, [&](auto& h) { return h.position(ec); }, [&](auto& h) { return h.position(); }); }
  uint64_t size(error_code& ec) { return call<uint64_t>(ec, [&](auto& h) { return h.size(ec); }, [&](auto& h) { return h.size(); }); }
  uint64_t seek(seek_origin o, int64_t n, error_code& ec) { return call<uint64_t>(ec, [&](auto& h) { return h.seek(o, n, ec); }, [&](auto& h) { return h.seek(o, n); }); }
  void truncate(uint64_t n, error_code& ec) { call<void>(ec, [&](auto& h) { h.truncate(n, ec); }, [&](auto& h) { h.truncate(n); }); }
  std::size_t read(void* p, std::size_t n, error_code& ec) { return call<std::size_t>(ec, [&](auto& h) { return h.read_some(asio::buffer(p, n), ec); }, [&](auto& h) { return h.read_some(asio::buffer(p, n)); }); }
  std::size_t write(const void* p, std::size_t n, error_code& ec) { return call<std::size_t>(ec, [&](auto& h) { return h.write_some(asio::buffer(p, n), ec); }, [&](auto& h) { return h.write_some(asio::buffer(p, n)); }); }
  std::size_t read_at(uint64_t o, void* p, std::size_t n, error_code& ec) { return call<std::size_t>(ec, [&](auto& h) { return h.read_some_at(o, asio::buffer(p, n), ec); }, [&](auto& h) { return h.read_some_at(o, asio::buffer(p, n)); }); }
  std::size_t write_at(uint64_t o, const void* p, std::size_t n, error_code& ec) { return call<std::size_t>(ec, [&](auto& h) { return h.write_some_at(o, asio::buffer(p, n), ec); }, [&](auto& h) { return h.write_some_at(o, asio::buffer(p, n)); }); }
  file_perms perms(error_code& ec) { return call<file_perms>(ec, [&](auto& h) { return h.permissions(ec); }, [&](auto& h) { return h.permissions(); }); }
  void perms(file_perms p, int opt, error_code& ec) // opt 0: default argument
  {
    if (!opt) call<void>(ec, [&](auto& h) { h.permissions(p, ec); }, [&](auto& h) { h.permissions(p); });
    else call<void>(ec, [&](auto& h) { h.permissions(p, (file_perm_options)opt, ec); }, [&](auto& h) { h.permissions(p, (file_perm_options)opt); });
  }
  asioext::file_times times(error_code& ec) { return call<asioext::file_times>(ec, [&](auto& h) { return h.times(ec); }, [&](auto& h) { return h.times(); }); }
  void times(const asioext::file_times& t, error_code& ec) { call<void>(ec, [&](auto& h) { h.times(t, ec); }, [&](auto& h) { h.times(t); }); }
  asioext::file_attrs attrs(error_code& ec) { return call<asioext::file_attrs>(ec, [&](auto& h) { return h.attributes(ec); }, [&](auto& h) { return h.attributes(); }); }
  void attrs(asioext::file_attrs a, error_code& ec) { call<void>(ec, [&](auto& h) { h.attributes(a, asioext::file_attr_options::add, ec); }, [&](auto& h) { h.attributes(a, asioext::file_attr_options::add); }); }
  void close() { uf.reset(); bf.reset(); }
};

// ---- position, size, content ----
struct Op { int k; int64_t a; int64_t b; };
const std::vector<Op>& ops()
{
  static const std::vector<Op> v = [] {
    std::vector<Op> v;
    for (int n : {1, 3}) v.push_back({0, n, 0}), v.push_back({1, n, 0});          // read, write
    for (int o : {0, 2, 5}) v.push_back({2, 2, o}), v.push_back({3, 2, o});        // read_at, write_at
    v.push_back({2, 1, -1}); v.push_back({3, 1, -1});                              // beyond the largest offset
    for (int64_t o : {(int64_t)0, (int64_t)4, (int64_t)-1, INT64_MAX}) v.push_back({4, 0, o});
    for (int64_t o : {(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)-3, INT64_MIN}) v.push_back({4, 1, o});
    for (int64_t o : {(int64_t)0, (int64_t)2, (int64_t)-1, (int64_t)-9}) v.push_back({4, 2, o});
    for (int64_t n : {(int64_t)0, (int64_t)2, (int64_t)6, (int64_t)-1}) v.push_back({5, n, 0});
    v.push_back({6, 0, 0}); v.push_back({7, 0, 0});
    return v;
  }();
  return v;
}
std::string text_of(const Op& o)
{
  static const char* n[] = {"read_some", "write_some", "read_some_at", "write_some_at", "seek", "truncate", "size", "position"};
  return std::string(n[o.k]) + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ")";
}
struct Ref { std::string d; int64_t pos = 0; int k = 0; };
struct Got { int64_t v = 0; int e = 0; std::string data; bool sys = true; };
Got apply(Any& h, const Op& o, int seq)
{
  Got g; error_code ec; char b[8]; memset(b, 0x55, sizeof b);
  char src[4] = {(char)('A' + seq), (char)('a' + seq), (char)('0' + seq), 0};
  switch (o.k) {
    case 0: g.v = h.read(b, o.a, ec); g.data.assign(b, std::min<size_t>(g.v, 8)); break;
    case 1: g.v = h.write(src, o.a, ec); break;
    case 2: g.v = h.read_at((uint64_t)o.b, b, o.a, ec); g.data.assign(b, std::min<size_t>(g.v, 8)); break;
    case 3: g.v = h.write_at((uint64_t)o.b, src, o.a, ec); break;
    case 4: g.v = (int64_t)h.seek((seek_origin)o.a, o.b, ec); break;
    case 5: h.truncate((uint64_t)o.a, ec); break;
    case 6: g.v = (int64_t)h.size(ec); break;
    case 7: g.v = (int64_t)h.position(ec); break;
  }
  g.e = ec == asio::error::eof ? -2 : ec.value(); g.sys = !ec || ec == asio::error::eof || ec.category() == asio::error::get_system_category();
  return g;
}
Got model(Ref& r, const Op& o, int seq)
{
  Got g; char src[4] = {(char)('A' + seq), (char)('a' + seq), (char)('0' + seq), 0};
  int64_t n = (int64_t)r.d.size();
  auto rd = [&](int64_t at) { if (at >= n) { g.e = -2; return; } g.data = r.d.substr(at, o.a); g.v = g.data.size(); };
  auto wr = [&](int64_t at) { if (at + o.a > n) r.d.resize(at + o.a, 0); r.d.replace(at, o.a, src, o.a); g.v = o.a; };
  switch (o.k) {
    case 0: rd(r.pos); r.pos += g.v; break;
    case 1: wr(r.pos); r.pos += g.v; break;
    case 2: if (o.b < 0) g.e = EINVAL; else rd(o.b); break;
    case 3: if (o.b < 0) g.e = EINVAL; else wr(o.b); break;
    case 4: { __int128 t = (__int128)(o.a == 0 ? 0 : o.a == 1 ? r.pos : n) + o.b; if (t < 0) g.e = EINVAL; else if (t > INT64_MAX) g.e = EOVERFLOW; else { r.pos = (int64_t)t; g.v = r.pos; } break; }
    case 5: if (o.a < 0) g.e = EINVAL; else r.d.resize(o.a, 0); break;
    case 6: g.v = n; break;
    case 7: g.v = r.pos; break;
  }
  return g;
}
bool doable(const Ref& r, const Op& o) { return !(r.pos > 100 && o.k <= 1 && !(o.k == 0)); } // no writes at astronomic positions

void sequence(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w; auto* ino = w.create("/sim/a", "xyz");
  Any h; int ty = c.choose(3, "type"); h.thr = c.flag("throwing");
  int fd = asioext::open("/sim/a", asioext::open_flags::access_read_write | asioext::open_flags::open_existing).release().native_handle();
  h.set(ty, fd);
  bool prune = c.flag("pruned");
  int depth = prune ? (c.thorough() ? 8 : 6) : (c.thorough() ? 4 : 3);
  Ref r; r.d = "xyz"; std::string hist;
  for (int i = 0; i < depth; ++i) {
    const Op& o = ops()[c.choose((int)ops().size(), "operation")];
    if (!doable(r, o)) continue;
    Ref before = r; hist += " " + text_of(o); w.log.clear();
    Got e = model(r, o, i), g = apply(h, o, i); c.step();
    if (g.e != e.e || !g.sys) c.fail("%s:%s reported error %d (%s), expected %d", types[ty], hist.c_str(), g.e, g.e > 0 ? strerrorname_np(g.e) : "", e.e);
    if (g.e && g.v) c.fail("%s:%s failed but returned %lld", types[ty], hist.c_str(), (long long)g.v);
    if (!e.e && g.v != e.v) c.fail("%s:%s returned %lld, expected %lld", types[ty], hist.c_str(), (long long)g.v, (long long)e.v);
    if (g.data != e.data) c.fail("%s:%s read '%s', expected '%s'", types[ty], hist.c_str(), g.data.c_str(), e.data.c_str());
    auto* ofd = w.fds[fd - simfs::BASE];
    if (!ofd) c.fail("%s:%s closed the file", types[ty], hist.c_str());
    if (ofd->pos != r.pos) c.fail("%s:%s left the position at %lld, expected %lld", types[ty], hist.c_str(), (long long)ofd->pos, (long long)r.pos);
    if (ino->size < 1000 ? ino->text() != r.d : true) c.fail("%s:%s left '%s', expected '%s'", types[ty], hist.c_str(), ino->size < 1000 ? ino->text().c_str() : "?", r.d.c_str());
    uint64_t s = mc::hstr(mc::mix(depth - i, r.pos), r.d); s = mc::mix(s, ty * 2 + h.thr); s = mc::mix(s, i);
    c.state(mc::hstr(mc::mix(5, r.pos), r.d));
    if (prune && c.seen(s)) break;
    (void)before;
  }
  c.cover("sequences");
  h.close(); simfs::world = nullptr;
}

// ---- the same on the kernel ----
void conformance(mc::Ctx& c)
{
  static std::string dir = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp";
  std::string path = dir + "/c11-" + std::to_string(getpid());
  simfs::world = nullptr;
  { FILE* f = fopen(path.c_str(), "w"); fputs("xyz", f); fclose(f); }
  asioext::unique_file_handle u = asioext::open(path.c_str(), asioext::open_flags::access_read_write | asioext::open_flags::open_existing);
  unlink(path.c_str());
  Any h; h.set(0, u.get().native_handle());
  Ref r; r.d = "xyz"; std::string hist; bool huge = false;
  for (int i = 0; i < (c.thorough() ? 3 : 2); ++i) {
    const Op& o = ops()[c.choose((int)ops().size(), "operation")];
    if (!doable(r, o)) continue;
    if (o.k == 4 && o.b == INT64_MAX) { huge = true; continue; } // the largest position depends on the file system
    hist += " " + text_of(o);
    Got e = model(r, o, i), g = apply(h, o, i);
    if (o.k == 4 && e.e == EOVERFLOW) continue;
    if (g.e != e.e || (!e.e && g.v != e.v) || g.data != e.data) c.fail("on a real file:%s gives %lld/%d/'%s', expected %lld/%d/'%s'", hist.c_str(), (long long)g.v, g.e, g.data.c_str(), (long long)e.v, e.e, e.data.c_str());
  }
  error_code ec; std::string s(32, 0); size_t n = h.read_at(0, s.data(), s.size(), ec); s.resize(n);
  if (s != r.d) c.fail("on a real file:%s left '%s', expected '%s'", hist.c_str(), s.c_str(), r.d.c_str());
  // metadata
  for (int m : {0644, 0400, 0777, 0}) { h.perms((file_perms)m, 0, ec); if (ec || h.perms(ec) != (file_perms)m || ec) c.fail("on a real file: permissions %o", m); }
  for (int64_t t : {(int64_t)1, (int64_t)-1, (int64_t)-1500000000, (int64_t)1234567890123456789, (int64_t)-999999999999}) {
    asioext::file_times ft; ft.atime = asioext::file_time_type(std::chrono::nanoseconds(t)); ft.mtime = asioext::file_time_type(std::chrono::nanoseconds(t + 1000000000)); h.times(ft, ec);
    asioext::file_times g = h.times(ec); if (ec || !near(g.atime.time_since_epoch().count(), ft.atime.time_since_epoch().count()) || !near(g.mtime.time_since_epoch().count(), ft.mtime.time_since_epoch().count())) c.fail("on a real file: time %lld read back as %lld (%s)", (long long)t, (long long)g.atime.time_since_epoch().count(), ec.message().c_str());
  }
  c.cover("replayed on the kernel"); (void)huge;
}

// ---- permissions ----
void permissions(mc::Ctx& c)
{
  static const int init[] = {0, 07777, 0644, 0600, 0777, 0111, 04755, 02755, 01777, 06000, 04000, 02000, 01000, 0400, 0200, 0100, 040, 020, 010, 04, 02, 01, 05252, 02525};
  simfs::World w; simfs::world = &w; auto* ino = w.create("/sim/a", "xyz");
  int im = init[c.choose(sizeof init / sizeof *init, "initial")], p = c.choose(4096, "permissions"), opt = c.choose(4, "option");
  bool small = (p & (p - 1)) == 0 || p == 07777; // forms and handle types only for a few values
  int ty = c.choose(small ? 3 : 1, "type"); Any h; h.thr = small && c.flag("throwing");
  static const int ov[] = {0, (int)file_perm_options::replace, (int)file_perm_options::add, (int)file_perm_options::remove};
  int fd = asioext::open("/sim/a", asioext::open_flags::access_read | asioext::open_flags::open_existing).release().native_handle();
  h.set(ty, fd); ino->mode = S_IFREG | im;
  error_code ec; file_perms g = h.perms(ec);
  if (ec || (int)g != im) c.fail("%s: permissions are read as %o, they are %o", types[ty], (int)g, im);
  h.perms((file_perms)p, ov[opt], ec);
  int want = opt < 2 ? p : opt == 2 ? im | p : im & ~p, got = ino->mode & 07777;
  if (ec) c.fail("%s: permissions: %s", types[ty], ec.message().c_str());
  if (got != want) c.fail("%s: %s permissions %o of a file with %o gives %o, expected %o", types[ty], opt < 2 ? "replacing by" : opt == 2 ? "adding" : "removing", p, im, got, want);
  g = h.perms(ec); if (ec || (int)g != want) c.fail("%s: permissions are read back as %o, they are %o", types[ty], (int)g, want);
  if (ino->text() != "xyz" || ino->at.tv_sec != 1000 || ino->mt.tv_sec != 2000) c.fail("permissions() changed something else");
  c.cover("permissions"); c.state(mc::mix(im, got));
  h.close(); simfs::world = nullptr;
}

// ---- times ----
const int64_t SEC = 1000000000;
const int64_t TV[] = {0, 1, -1, SEC, -SEC, SEC - 1, -SEC + 1, SEC + 1, -SEC - 1, -SEC / 2, 3 * SEC / 2, -3 * SEC / 2, 2000000000LL * SEC + 7, -2000000000LL * SEC - 7, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1,
                      INT64_MAX / SEC * SEC, INT64_MIN / SEC * SEC, INT64_MIN / SEC * SEC - 1 + 1, INT64_MAX / SEC * SEC - 1};
int64_t ns(const timespec& t) { return (int64_t)((__int128)t.tv_sec * SEC + t.tv_nsec); }
void times(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w; auto* ino = w.create("/sim/a", "xyz");
  Any h; int ty = c.choose(3, "type"); h.thr = c.flag("throwing");
  int fd = asioext::open("/sim/a", asioext::open_flags::access_read_write | asioext::open_flags::open_existing).release().native_handle();
  h.set(ty, fd);
  const int n = sizeof TV / sizeof *TV;
  int64_t cur[2] = {1000 * SEC + 5, 2000 * SEC + 6};
  auto verify = [&](const char* when) {
    if (!near(ns(ino->at), cur[0]) || !near(ns(ino->mt), cur[1])) c.fail("%s: %s the file's times are %lld and %lld, expected %lld and %lld", types[ty], when, (long long)ns(ino->at), (long long)ns(ino->mt), (long long)cur[0], (long long)cur[1]);
    cur[0] = ns(ino->at); cur[1] = ns(ino->mt);
    error_code ec; asioext::file_times t = h.times(ec);
    if (ec) c.fail("%s: reading the times %lld, %lld: %s", types[ty], (long long)cur[0], (long long)cur[1], ec.message().c_str());
    if (t.atime.time_since_epoch().count() != cur[0] || t.mtime.time_since_epoch().count() != cur[1]) c.fail("%s: the times are read as %lld and %lld, they are %lld and %lld", types[ty], (long long)t.atime.time_since_epoch().count(), (long long)t.mtime.time_since_epoch().count(), (long long)cur[0], (long long)cur[1]);
    if (t.ctime.time_since_epoch().count() != 0) c.fail("%s: a creation time that isn't available is reported as %lld", types[ty], (long long)t.ctime.time_since_epoch().count());
  };
  verify("initially");
  for (int i = 0; i < 2; ++i) {
    int a = c.choose(n, "atime"), m = c.choose(i ? 3 : n, "mtime"); if (i) a = a % 4;
    asioext::file_times t; t.atime = asioext::file_time_type(std::chrono::nanoseconds(TV[a])); t.mtime = asioext::file_time_type(std::chrono::nanoseconds(TV[m]));
    t.ctime = asioext::file_time_type(std::chrono::nanoseconds(c.choose(i ? 1 : 2, "ctime") * 77 * SEC));
    error_code ec; h.times(t, ec);
    if (ec) c.fail("%s: setting the times %lld, %lld: %s", types[ty], (long long)TV[a], (long long)TV[m], ec.message().c_str());
    if (TV[a]) cur[0] = TV[a];
    if (TV[m]) cur[1] = TV[m]; // zero: not to be changed
    verify("after setting them");
    if (i == 0 && !c.flag("again")) break;
  }
  if (ino->text() != "xyz" || (ino->mode & 07777) != 0644) c.fail("times() changed something else");
  c.cover("times"); c.state(mc::mix(cur[0], cur[1]));
  h.close(); simfs::world = nullptr;
}
// reading times the system may report
void read_times(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w; auto* ino = w.create("/sim/a", "xyz");
  static const int64_t S[] = {0, 1, -1, -2, 1000, INT64_MAX / SEC, INT64_MAX / SEC + 1, INT64_MIN / SEC, INT64_MIN / SEC - 1, INT64_MIN / SEC - 2, INT64_MAX, INT64_MIN, 1LL << 40, -(1LL << 40)};
  static const long N[] = {0, 1, 500000000, 999999999, INT64_MAX % SEC, INT64_MAX % SEC + 1, SEC + INT64_MIN % SEC, SEC + INT64_MIN % SEC - 1};
  Any h; int ty = c.choose(3, "type"); h.thr = c.flag("throwing");
  int fd = asioext::open("/sim/a", asioext::open_flags::access_read | asioext::open_flags::open_existing).release().native_handle(); h.set(ty, fd);
  int which = c.choose(2, "which"); timespec t{S[c.choose(sizeof S / sizeof *S, "seconds")], N[c.choose(sizeof N / sizeof *N, "nanoseconds")]};
  (which ? ino->mt : ino->at) = t;
  __int128 v = (__int128)t.tv_sec * SEC + t.tv_nsec; bool fits = v >= INT64_MIN && v <= INT64_MAX;
  error_code ec; asioext::file_times g = h.times(ec);
  int64_t got = (which ? g.mtime : g.atime).time_since_epoch().count(), other = (which ? g.atime : g.mtime).time_since_epoch().count();
  if (fits) { if (ec || got != (int64_t)v || other != (which ? 1000 * SEC + 5 : 2000 * SEC + 6)) c.fail("%s: the time %lld s + %ld ns is read as %lld (%s)", types[ty], (long long)t.tv_sec, t.tv_nsec, (long long)got, ec.message().c_str()); }
  else if (!ec) c.fail("%s: the time %lld s + %ld ns cannot be represented but is read as %lld", types[ty], (long long)t.tv_sec, t.tv_nsec, (long long)got);
  c.cover("read times"); c.state(mc::mix(t.tv_sec, t.tv_nsec));
  h.close(); simfs::world = nullptr;
}

// ---- failures are reported and have no effect ----
void faults(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w; auto* ino = w.create("/sim/a", "xyz");
  Any h; int ty = c.choose(3, "type"); h.thr = c.flag("throwing"); bool ro = c.flag("read-only");
  int fd = asioext::open("/sim/a", (ro ? asioext::open_flags::access_read : asioext::open_flags::access_read_write) | asioext::open_flags::open_existing).release().native_handle(); h.set(ty, fd);
  h.fh = h.t == 0 ? h.fh : asioext::file_handle();
  int op = c.choose(13, "operation"), ncall = 0, ferr = 0;
  static const int E[] = {EIO, EPERM, EBADF, ENOSPC};
  auto before_t = ino->text(); timespec a0 = ino->at, m0 = ino->mt; mode_t md = ino->mode;
  w.policy = [&](simfs::Call& cl) { if (cl.op == simfs::Op::close) return; ++ncall; if (ferr) c.fail("another call after a failure: %s", simfs::describe(cl).c_str()); int k = c.choose(5, "fault"); if (k) cl.force_errno = ferr = E[k - 1]; };
  error_code ec; uint64_t v = 0; asioext::file_times ft; ft.mtime = asioext::file_time_type(std::chrono::nanoseconds(5)); file_perms p{}; const char* n = "";
  switch (op) {
    case 0: n = "position"; v = h.position(ec); break;
    case 1: n = "size"; v = h.size(ec); break;
    case 2: n = "seek"; v = h.seek(seek_origin::from_begin, 2, ec); break;
    case 3: n = "seek from end"; v = h.seek(seek_origin::from_end, -1, ec); break;
    case 4: n = "truncate"; h.truncate(1, ec); break;
    case 5: n = "permissions"; p = h.perms(ec); v = ec ? (uint64_t)p : 0; break;
    case 6: n = "permissions(p)"; h.perms(file_perms::owner_read, 0, ec); break;
    case 7: n = "permissions(add)"; h.perms(file_perms::owner_exec, 2, ec); break;
    case 8: n = "permissions(remove)"; h.perms(file_perms::owner_read, 4, ec); break;
    case 9: n = "times"; { auto t = h.times(ec); if (ec) v = t.atime.time_since_epoch().count() || t.mtime.time_since_epoch().count(); } break;
    case 10: n = "times(t)"; h.times(ft, ec); break;
    case 11: n = "attributes"; if (h.attrs(ec) != asioext::file_attrs::none) c.fail("attributes"); break;
    case 12: n = "attributes(a)"; h.attrs(asioext::file_attrs::hidden, ec); break;
  }
  w.policy = nullptr;
  int want = ferr ? ferr : op == 4 && ro ? EINVAL : 0;
  if (want ? ec.value() != want || ec.category() != asio::error::get_system_category() : bool(ec)) c.fail("%s::%s reported '%s', the system %s", types[ty], n, ec.message().c_str(), want ? strerrorname_np(want) : "succeeded");
  if (want) {
    if (v) c.fail("%s::%s failed but returned %llu", types[ty], n, (unsigned long long)v);
    if (ino->text() != before_t || ns(ino->at) != ns(a0) || ns(ino->mt) != ns(m0) || ino->mode != md || w.fds[fd - simfs::BASE]->pos) c.fail("%s::%s failed but had an effect", types[ty], n);
    c.cover("failure");
  } else {
    int em = op == 6 ? 0400 : op == 7 ? 0744 : op == 8 ? 0244 : 0644;
    if ((int)(ino->mode & 07777) != em) c.fail("%s::%s left the permissions at %o", types[ty], n, ino->mode & 07777);
    c.cover("no failure");
  }
  h.close(); simfs::world = nullptr;
}
void run(mc::Ctx& c)
{
#ifdef ASIOEXT_DISABLE_FUTIMENS
  const int part = 1 + 2 * c.choose(3, "part"); // those with something to see
#else
  const int part = c.choose(6, "part");
#endif
  switch (part) {
    case 0: sequence(c); break; case 1: conformance(c); break; case 2: permissions(c); break;
    case 3: times(c); break; case 4: read_times(c); break; case 5: faults(c); break;
  }
}
}
int main(int argc, char** argv)
{
  mc::Config cfg; cfg.property = "C11";
  return mc::main_explore(argc, argv, cfg, run);
}
