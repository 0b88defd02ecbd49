// C07: every buffer layout x operation x sequence of system answers on the real file handle types.
#include "mc.hpp"
#include "simfs.hpp"
#include <asioext/file_handle.hpp>
#include <asioext/unique_file_handle.hpp>
#include <asioext/thread_pool_file_service.hpp>
#include <asioext/basic_file.hpp>
#include <asioext/file.hpp>
#include <asioext/open.hpp>
#include <asio/io_context.hpp>
#include <array>
#include <memory>

namespace {
using asioext::error_code;
#if defined(ASIOEXT_HAS_PVEC_IO_FUNCTIONS)
const bool pvec = true;
#else
const bool pvec = false; // positioned operations use the first buffer that is not empty
#endif
enum Kind { READ, WRITE, READ_AT, WRITE_AT };
const char* kinds[] = {"read_some", "write_some", "read_some_at", "write_some_at"};
enum Type { FH, UFH, BF };
const char* types[] = {"file_handle", "unique_file_handle", "basic_file"};

struct Res { std::size_t n = 0; error_code ec; bool threw = false; };
// fills ec / n as the given form reports it
template <typename H, typename B>
Res do_op(H& h, Kind k, uint64_t off, const B& bufs, bool throwing, error_code start)
{
  Res r; r.ec = start;
  auto go = [&](auto&& f, auto&& g) {
    if (!throwing) r.n = f(r.ec);
    else try { r.n = g(); r.ec = error_code(); } catch (MC_SYSTEM_ERROR& e) { r.ec = e.code(); r.threw = true; r.n = 0; }
  };
  switch (k) {
    case READ: if constexpr (asio::is_mutable_buffer_sequence<B>::value) go([&](error_code& e) { return h.read_some(bufs, e); }, [&] { return h.read_some(bufs); }); break;
    case WRITE: go([&](error_code& e) { return h.write_some(bufs, e); }, [&] { return h.write_some(bufs); }); break;
    case READ_AT: if constexpr (asio::is_mutable_buffer_sequence<B>::value) go([&](error_code& e) { return h.read_some_at(off, bufs, e); }, [&] { return h.read_some_at(off, bufs); }); break;
    case WRITE_AT: go([&](error_code& e) { return h.write_some_at(off, bufs, e); }, [&] { return h.write_some_at(off, bufs); }); break;
  }
  return r;
}

struct Layout { std::vector<int> sizes; };
std::vector<Layout> layouts()
{
  std::vector<Layout> l;
  for (int n = 0; n <= 3; ++n) {
    int tot = 1; for (int i = 0; i < n; ++i) tot *= 4;
    for (int v = 0; v < tot; ++v) { Layout x; int w = v; for (int i = 0; i < n; ++i) { x.sizes.push_back(w % 4); w /= 4; } l.push_back(x); }
  }
  return l;
}
const std::vector<Layout> L = layouts();

struct Bufs {
  std::vector<unsigned char> mem; std::vector<size_t> start; const Layout& l; size_t total = 0;
  explicit Bufs(const Layout& l, bool write) : l(l)
  {
    size_t n = 8; for (int s : l.sizes) n += s + 8;
    mem.assign(n, 0xEE);
    size_t p = 8; int k = 0;
    for (int s : l.sizes) { start.push_back(p); if (write) for (int i = 0; i < s; ++i) mem[p + i] = (unsigned char)('A' + k++); p += s + 8; total += s; }
  }
  std::string gathered(size_t n) const { std::string r; for (size_t i = 0; i < l.sizes.size(); ++i) for (int k = 0; k < l.sizes[i] && r.size() < n; ++k) r += (char)mem[start[i] + k]; return r; }
  // every byte that does not belong to the first n buffer bytes still has its initial value
  bool rest_untouched(size_t n) const
  {
    std::vector<unsigned char> m = mem; size_t d = 0;
    for (size_t i = 0; i < l.sizes.size(); ++i) for (int k = 0; k < l.sizes[i] && d < n; ++k, ++d) m[start[i] + k] = 0xEE;
    for (auto b : m) if (b != 0xEE) return false;
    return true;
  }
  std::vector<asio::mutable_buffer> mb() { std::vector<asio::mutable_buffer> v; for (size_t i = 0; i < l.sizes.size(); ++i) v.emplace_back(mem.data() + start[i], l.sizes[i]); return v; }
  std::vector<asio::const_buffer> cb() { std::vector<asio::const_buffer> v; for (size_t i = 0; i < l.sizes.size(); ++i) v.emplace_back(mem.data() + start[i], l.sizes[i]); return v; }
};

struct Files { // the handle under test, of any of the types
  asioext::file_handle fh; std::unique_ptr<asioext::unique_file_handle> ufh; std::unique_ptr<asioext::file> bf;
};
asio::io_context* ioc() { static asio::io_context* c = new asio::io_context; return c; }

template <typename B>
Res op_on(Files& f, Type t, Kind k, uint64_t off, const B& b, bool thr, error_code start)
{
  return t == FH ? do_op(f.fh, k, off, b, thr, start) : t == UFH ? do_op(*f.ufh, k, off, b, thr, start) : do_op(*f.bf, k, off, b, thr, start);
}

// how the buffers are handed over
Res run_op(Files& f, Type t, Kind k, uint64_t off, Bufs& b, int form, bool thr, error_code start)
{
  bool rd = k == READ || k == READ_AT;
  if (form == 1) { // a single buffer object
    size_t s = b.start.empty() ? 8 : b.start[0], n = b.l.sizes.empty() ? 0 : b.l.sizes[0];
    if (rd) return op_on(f, t, k, off, asio::mutable_buffer(b.mem.data() + s, n), thr, start);
    return op_on(f, t, k, off, asio::const_buffer(b.mem.data() + s, n), thr, start);
  }
  if (form == 2) { // fixed array of two
    if (rd) { auto v = b.mb(); return op_on(f, t, k, off, std::array<asio::mutable_buffer, 2>{v[0], v[1]}, thr, start); }
    auto v = b.cb(); return op_on(f, t, k, off, std::array<asio::const_buffer, 2>{v[0], v[1]}, thr, start);
  }
  if (form == 3) return op_on(f, t, k, off, b.mb(), thr, start); // mutable buffers, also for writing
  if (rd) return op_on(f, t, k, off, b.mb(), thr, start);
  return op_on(f, t, k, off, b.cb(), thr, start);
}

const int ERRS[] = {EIO, EAGAIN, ENOSPC, EFBIG, EBADF, EINVAL};

void io_case(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w;
  const std::string text = "abcde";
  auto* ino = w.create("/sim/a", text);
  Kind k = (Kind)c.choose(4, "operation");
  Type t = (Type)c.choose(3, "handle type");
  bool many = c.choose(2, "many buffers");
  static const std::vector<Layout> M = [] {
    std::vector<Layout> m;
    for (int n : {63, 64, 65, 70}) { m.push_back({std::vector<int>(n, 1)}); m.push_back({std::vector<int>(n, 0)}); m.back().sizes.back() = 1; m.push_back({std::vector<int>(n, 0)}); }
    return m;
  }();
  const Layout& l = many ? M[c.choose((int)M.size(), "layout")] : L[c.choose((int)L.size(), "layout")];
  int forms[4] = {0, 3}, nf = 2;
  if (l.sizes.size() == 1) forms[nf++] = 1;
  if (l.sizes.size() == 2) forms[nf++] = 2;
  int form = many ? 0 : forms[c.choose(nf, "buffer sequence kind")];
  bool rd = k == READ || k == READ_AT, positioned = k == READ_AT || k == WRITE_AT;
  static const int64_t offs[] = {0, 2, 5, 7, 0x123456789aLL, INT64_MAX - 100};
  int64_t off = positioned ? offs[c.choose(many ? 2 : 6, "offset")] : 0;
  bool thr = c.flag("throwing form");
  bool stale = thr ? false : c.flag("stale error");
  int64_t pos = positioned ? 3 : (int64_t)c.choose(2, "position") * 3;
  bool rdonly = c.flag("opened with the needed access only");
  if (positioned && off > 100 && rd) for (int i = 0; i < 6; ++i) { ino->bytes[off + i] = (unsigned char)('P' + i); ino->size = off + 6; }

  int fd;
  { asioext::unique_file_handle o = asioext::open("/sim/a", (rdonly ? rd ? asioext::open_flags::access_read : asioext::open_flags::access_write : asioext::open_flags::access_read_write) | asioext::open_flags::open_existing);
    fd = o.release().native_handle(); }
  if (fd < simfs::BASE) c.internal("not simulated");
  Files f;
  if (t == FH) f.fh = fd; else if (t == UFH) f.ufh = std::make_unique<asioext::unique_file_handle>(asioext::file_handle(fd));
  else { f.bf = std::make_unique<asioext::file>(*ioc(), asioext::file_handle(fd)); }
  simfs::Ofd* ofd = w.fds[fd - simfs::BASE];
  ofd->pos = pos;
  auto before_bytes = ino->bytes; int64_t before_size = ino->size;
  Bufs b(l, !rd);
  w.log.clear();
  int eintr = 0; bool done_err = false, moved = false;
  w.policy = [&](simfs::Call& cl) {
    if (positioned && ofd->pos != pos) moved = true;
    if (!cl.io()) return;
    if (done_err) c.fail("%s: another %s after the system reported an error", kinds[k], simfs::name(cl.op));
    int nlim = (int)std::min<int64_t>(cl.total, 4); // limits 0..total-1
    int r = c.choose(1 + (eintr < 2 ? 1 : 0) + (int)(sizeof ERRS / sizeof *ERRS) + nlim, "answer");
    if (r == 0) return;
    --r;
    if (eintr < 2) { if (r == 0) { cl.force_errno = EINTR; ++eintr; return; } --r; }
    if (r < (int)(sizeof ERRS / sizeof *ERRS)) { cl.force_errno = ERRS[r]; done_err = true; return; }
    r -= (int)(sizeof ERRS / sizeof *ERRS);
    cl.limit = r;
    if (cl.write_like() && r == 0) cl.limit = 1; // a write of a non-empty buffer never returns 0 for a regular file
  };
  error_code start = stale ? error_code(asio::error::address_in_use) : error_code();
  Res res = run_op(f, t, k, (uint64_t)off, b, form, thr, start);
  w.policy = nullptr;
  std::string what = std::string(types[t]) + "::" + kinds[k];

  // what the system did
  int64_t sum = 0; int err = 0; bool zero_read = false; int64_t at = positioned ? off : pos;
  int ncalls = 0;
  for (auto& cl : w.log) {
    if (cl.op == simfs::Op::close || cl.op == simfs::Op::dup || cl.op == simfs::Op::open) c.fail("%s issued %s", what.c_str(), simfs::describe(cl).c_str());
    if (!cl.io()) continue;
    ++ncalls;
    if (cl.write_like() == rd) c.fail("%s issued %s", what.c_str(), simfs::describe(cl).c_str());
    if (cl.fd != fd) c.fail("%s used another handle: %s", what.c_str(), simfs::describe(cl).c_str());
    if (cl.result > 0) sum += cl.result;
    err = cl.result < 0 ? cl.err : 0;
    zero_read = rd && cl.result == 0 && cl.total > 0;
  }
  if (err == EINTR) c.fail("%s: an interrupted call was not retried (result %zu, %s)", what.c_str(), res.n, res.ec.message().c_str());
  if (b.total && !many && ncalls == 0) c.fail("%s: no system call for a non-empty buffer", what.c_str());
  int64_t want = 0; for (size_t i = 0; i < l.sizes.size() && i < 64; ++i) { want += l.sizes[i]; if (want && positioned && !pvec) break; }
  for (auto& cl : w.log) if (cl.io()) { if (cl.total < want) c.fail("%s: the buffers hold %lld bytes, the system was asked for %lld", what.c_str(), (long long)want, (long long)cl.total); break; }
  if (moved) c.fail("%s changed the file position while working", what.c_str());
  if (thr && res.threw != bool(res.ec)) c.internal("threw");
  if (err && sum == 0) {
    if (!res.ec || res.ec.value() != err || res.ec.category() != asio::error::get_system_category()) c.fail("%s: the system failed with %s but the operation reported '%s'", what.c_str(), strerrorname_np(err), res.ec.message().c_str());
    if (res.n) c.fail("%s: %zu bytes reported although the call failed", what.c_str(), res.n);
    c.cover("error reported");
  } else if (zero_read && sum == 0) {
    if (res.ec != asio::error::eof) c.fail("%s: the system reported the end of the file, the operation '%s' with %zu bytes", what.c_str(), res.ec.message().c_str(), res.n);
    if (res.n) c.fail("%s: %zu bytes at the end of the file", what.c_str(), res.n);
    c.cover("end of file");
  } else {
    if (res.ec) c.fail("%s: the system transferred %lld bytes, the operation reported '%s'", what.c_str(), (long long)sum, res.ec.message().c_str());
    if ((int64_t)res.n != sum) c.fail("%s: the system transferred %lld bytes, the operation reported %zu", what.c_str(), (long long)sum, res.n);
    c.cover(sum == (int64_t)b.total ? "complete transfer" : "short transfer");
  }
  // where the bytes went
  int64_t lim = 0;
  if (rd) {
    std::string exp;
    for (int64_t i = 0; i < sum; ++i) { auto it = before_bytes.find(at + i); exp += it == before_bytes.end() ? '\0' : (char)it->second; }
    if (b.gathered((size_t)sum) != exp) c.fail("%s: the buffers do not hold the file's bytes in order", what.c_str());
    if (!b.rest_untouched((size_t)sum)) c.fail("%s: bytes outside the transferred part of the buffers were changed", what.c_str());
    if (ino->bytes != before_bytes || ino->size != before_size) c.fail("%s changed the file", what.c_str());
  } else {
    std::string data = b.gathered((size_t)sum);
    auto exp = before_bytes; int64_t es = before_size;
    for (int64_t i = 0; i < sum; ++i) { exp[at + i] = (unsigned char)data[i]; lim = at + i + 1; }
    if (lim > es) es = lim;
    if (ino->size != es || ino->bytes != exp) c.fail("%s: the file does not hold the buffers' bytes at offset %lld", what.c_str(), (long long)at);
    Bufs fresh(l, true);
    if (fresh.mem != b.mem) c.fail("%s changed its source buffers", what.c_str());
  }
  int64_t epos = positioned ? pos : pos + sum;
  if (ofd->pos != epos) c.fail("%s left the file position at %lld, expected %lld", what.c_str(), (long long)ofd->pos, (long long)epos);
  if (w.fds[fd - simfs::BASE] != ofd) c.fail("%s closed the handle", what.c_str());
  if (eintr && sum) c.interesting();
  c.state(mc::hstr(mc::mix(mc::mix(k, t), res.n * 7 + res.ec.value()), ino->size < 100 ? ino->text() : "big"));
  f.ufh.reset(); f.bf.reset();
  simfs::world = nullptr;
}

// Huge buffers (no transfer is bigger than a few bytes, so the memory need not exist) and long runs of interruptions.
void extreme_case(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w;
  auto* ino = w.create("/sim/a", "abcde");
  Kind k = (Kind)c.choose(4, "operation");
  Type t = (Type)c.choose(3, "handle type");
  bool rd = k == READ || k == READ_AT, positioned = k == READ_AT || k == WRITE_AT;
  static const uint64_t huge[] = {0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0x80000001ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x180000002ull, 0x300000000ull, uint64_t(1) << 62};
  static const int runs[] = {0, 1, 3, 4, 5, 8, 10, 16, 17, 100, 1000};
  bool many = c.choose(2, "long run of interruptions");
  uint64_t size = many ? 5 : huge[c.choose(sizeof huge / sizeof *huge, "size")];
  int shape = many ? 0 : c.choose(5, "layout");
  int intr = many ? runs[c.choose(sizeof runs / sizeof *runs, "interruptions")] : c.choose(2, "interruptions");
  int ans = c.choose(3, "answer"); // all that's there, 2 bytes, an error
  bool thr = c.flag("throwing form");
  unsigned char mem[2][16]; memset(mem, 0xEE, sizeof mem);
  if (!rd) for (int i = 0; i < 16; ++i) { mem[0][i] = 'A' + i; mem[1][i] = 'P' + i; }
  std::vector<asio::mutable_buffer> v;
  auto bigb = asio::mutable_buffer(mem[1], size);
  if (shape == 0 || shape == 4) v = {bigb};
  else if (shape == 1) v = {asio::mutable_buffer(mem[0], 3), bigb};
  else if (shape == 2) v = {asio::mutable_buffer(mem[0], 0), bigb};
  else v = {bigb, asio::mutable_buffer(mem[0], 3)};
  std::string data = shape == 1 ? std::string((char*)mem[0], 3) + std::string((char*)mem[1], 5) : std::string((char*)mem[1], 8);
  int fd = asioext::open("/sim/a", asioext::open_flags::access_read_write | asioext::open_flags::open_existing).release().native_handle();
  Files f;
  if (t == FH) f.fh = fd; else if (t == UFH) f.ufh = std::make_unique<asioext::unique_file_handle>(asioext::file_handle(fd));
  else f.bf = std::make_unique<asioext::file>(*ioc(), asioext::file_handle(fd));
  w.log.clear();
  int seen = 0, other = 0; uint64_t asked = 0;
  w.policy = [&](simfs::Call& cl) {
    if (!cl.io()) return;
    if (seen < intr) { ++seen; cl.force_errno = EINTR; return; }
    if (other++) { c.fail("a second %s after a complete one", simfs::name(cl.op)); return; }
    asked = (uint64_t)cl.total;
    if (ans == 2) cl.force_errno = EIO;
    else if (ans == 1) cl.limit = 2;
    else cl.limit = 5; // writes; files are that long anyway
  };
  Res res = shape == 4 ? (rd ? op_on(f, t, k, 0, v[0], thr, error_code()) : op_on(f, t, k, 0, asio::const_buffer(v[0]), thr, error_code()))
                       : op_on(f, t, k, 0, v, thr, error_code());
  w.policy = nullptr;
  std::string what = std::string(types[t]) + "::" + kinds[k];
  bool first = positioned && !pvec;
  uint64_t want = first ? (shape == 1 ? 3 : size) : size + (shape == 1 || shape == 3 ? 3 : 0);
  if (!other) c.fail("%s: a call interrupted %d times in a row was given up: '%s', %zu bytes", what.c_str(), intr, res.ec.message().c_str(), res.n);
  if (asked < std::min<uint64_t>(want, 0x7ffff000)) c.fail("%s: the buffers hold %llu bytes, the system was asked for %llu", what.c_str(), (unsigned long long)want, (unsigned long long)asked);
  size_t n = ans == 2 ? 0 : ans == 1 ? 2 : first && shape == 1 ? 3 : 5;
  if (ans == 2 ? res.ec.value() != EIO || res.ec.category() != asio::error::get_system_category() : bool(res.ec)) c.fail("%s: reported '%s'", what.c_str(), res.ec.message().c_str());
  if (res.n != n) c.fail("%s: transferred %zu bytes, reported %zu", what.c_str(), n, res.n);
  std::string m = shape == 1 ? std::string((char*)mem[0], std::min<size_t>(n, 3)) + std::string((char*)mem[1], n > 3 ? n - 3 : 0) : std::string((char*)mem[1], n);
  if (rd ? m != std::string("abcde").substr(0, n) : ino->text() != data.substr(0, n) + std::string("abcde").substr(n)) c.fail("%s: wrong bytes", what.c_str());
  c.cover(many ? "interrupted often" : "huge buffers");
  c.state(mc::mix(mc::mix(k, size), intr * 8 + ans));
  f.ufh.reset(); f.bf.reset();
  simfs::world = nullptr;
}

void close_case(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w;
  w.create("/sim/a", "abc");
  Type t = (Type)c.choose(3, "handle type");
  int how = c.choose(t == FH ? 2 : 3, "how"); // close(ec), close(), destructor
  bool stale = how == 0 && c.flag("stale error");
  static const int ans[] = {0, EINTR, EIO, ENOSPC};
  int a = ans[c.choose(4, "answer")];
  int fd = asioext::open("/sim/a", asioext::open_flags::access_read_write | asioext::open_flags::open_existing).release().native_handle();
  Files f;
  if (t == FH) f.fh = fd; else if (t == UFH) f.ufh = std::make_unique<asioext::unique_file_handle>(asioext::file_handle(fd));
  else { f.bf = std::make_unique<asioext::file>(*ioc(), asioext::file_handle(fd)); }
  w.log.clear();
  w.policy = [&](simfs::Call& cl) { if (cl.op == simfs::Op::close) cl.force_errno = a; };
  error_code ec = stale ? error_code(asio::error::address_in_use) : error_code();
  auto closer = [&](error_code& e) {
    if (how == 0) { if (t == FH) f.fh.close(e); else if (t == UFH) f.ufh->close(e); else f.bf->close(e); }
    else try { e = error_code(); if (t == FH) f.fh.close(); else if (t == UFH) f.ufh->close(); else f.bf->close(); } catch (MC_SYSTEM_ERROR& x) { e = x.code(); }
  };
  std::string what = types[t];
  if (how == 2) { f.ufh.reset(); f.bf.reset(); }
  else {
    closer(ec);
    if (a ? ec.value() != a || ec.category() != asio::error::get_system_category() : bool(ec)) c.fail("%s::close reported '%s' for %s", what.c_str(), ec.message().c_str(), a ? strerrorname_np(a) : "success");
    bool open = t == FH ? f.fh.is_open() : t == UFH ? f.ufh->is_open() : f.bf->is_open();
    if (open) c.fail("%s is still open after close", what.c_str());
  }
  if (w.calls(simfs::Op::close) != 1 || w.log.back().fd != fd) c.fail("%s: the handle was closed %d times%s", what.c_str(), w.calls(simfs::Op::close), a ? " when the close failed" : "");
  if (how != 2) {
    ec = error_code(asio::error::address_in_use);
    closer(ec);
    if (ec) c.fail("closing a closed %s reports '%s'", what.c_str(), ec.message().c_str());
    f.ufh.reset(); f.bf.reset();
    if (w.calls(simfs::Op::close) != 1) c.fail("%s: closed again after a close", what.c_str());
  }
  c.cover("close");
  c.state(mc::mix(t * 100 + how, a));
  simfs::world = nullptr;
}

// The simulated files against the kernel: the same operations on both have the same results.
void conformance(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w;
  auto* ino = w.create("/sim/a", "abcde");
  static std::string dir = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp";
  std::string path = dir + "/c07-" + std::to_string(getpid());
  { FILE* f = fopen(path.c_str(), "w"); fputs("abcde", f); fclose(f); }
  int mode = c.choose(3, "access");
  auto fl = (mode == 0 ? asioext::open_flags::access_read : mode == 1 ? asioext::open_flags::access_write : asioext::open_flags::access_read_write) | asioext::open_flags::open_existing;
  asioext::unique_file_handle sh = asioext::open("/sim/a", fl), rh = asioext::open(path.c_str(), fl);
  unlink(path.c_str());
  int depth = c.thorough() ? 2 : 1;
  static const int64_t offs[] = {0, 2, 5, 7, 100};
  for (int d = 0; d < depth; ++d) {
    Kind k = (Kind)c.choose(4, "operation");
    const Layout& l = L[c.choose((int)(d ? 21 : L.size()), "layout")];
    int64_t off = (k == READ_AT || k == WRITE_AT) ? offs[c.choose(d ? 3 : 5, "offset")] : 0;
    int64_t pos = offs[c.choose(d ? 2 : 5, "position")];
    lseek(sh.get().native_handle(), pos, SEEK_SET); lseek(rh.get().native_handle(), pos, SEEK_SET);
    bool rd = k == READ || k == READ_AT;
    Bufs sb(l, !rd), rb(l, !rd);
    Files sf, rf; sf.fh = sh.get(); rf.fh = rh.get();
    Res a = run_op(sf, FH, k, off, sb, 0, false, error_code()), b = run_op(rf, FH, k, off, rb, 0, false, error_code());
    if (a.n != b.n || a.ec != b.ec) c.internal("simulation differs from the kernel: %s %zu/%s versus %zu/%s", kinds[k], a.n, a.ec.message().c_str(), b.n, b.ec.message().c_str());
    if (sb.mem != rb.mem) c.internal("simulation differs from the kernel: buffers");
    if (lseek(sh.get().native_handle(), 0, SEEK_CUR) != lseek(rh.get().native_handle(), 0, SEEK_CUR)) c.internal("simulation differs from the kernel: position");
  }
  if (mode == 2) {
    std::string s(200, 0); ssize_t n = syscall(SYS_pread64, rh.get().native_handle(), s.data(), s.size(), 0);
    s.resize(n < 0 ? 0 : n);
    if (s != ino->text()) c.internal("simulation differs from the kernel: content");
  }
  c.cover("replayed on the kernel");
  sh.close(); rh.close();
  simfs::world = nullptr;
}

void run(mc::Ctx& c)
{
  switch (c.choose(4, "part")) {
    case 0: io_case(c); break;
    case 1: close_case(c); break;
    case 2: conformance(c); break;
    case 3: extreme_case(c); break;
  }
}
}

int main(int argc, char** argv)
{
  mc::Config cfg; cfg.property = "C07";
  return mc::main_explore(argc, argv, cfg, run);
}
