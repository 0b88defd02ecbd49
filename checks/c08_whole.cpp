// C08: read_file() and write_file() over every pattern of answers of the operating system.
#include "mc.hpp"
#include "simfs.hpp"
#include <asioext/file_handle.hpp>
#include <asioext/unique_file_handle.hpp>
#include <asioext/read_file.hpp>
#include <asioext/write_file.hpp>
#include <asioext/linear_buffer.hpp>
#include <array>
#include <new>

namespace {
using asioext::error_code;

// a container whose memory runs out beyond a limit, or whose max_size is small
int g_alloc_limit = 1 << 30;
template <typename T> struct LimAlloc {
  using value_type = T;
  LimAlloc() = default;
  template <typename U> LimAlloc(const LimAlloc<U>&) {}
  T* allocate(std::size_t n) { if (n > (std::size_t)g_alloc_limit) throw std::bad_alloc(); return static_cast<T*>(::operator new(n)); }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
  bool operator==(const LimAlloc&) const { return true; }
};
struct Small { // at most 3 bytes
  using value_type = char; using size_type = unsigned char; using iterator = char*; using const_iterator = const char*;
  char d[8]; size_type n = 0;
  char* data() { return d; } const char* data() const { return d; }
  std::size_t size() const { return n; } std::size_t max_size() const { return 3; }
  void resize(std::size_t k) { if (k > 3) std::abort(); n = (size_type)k; }
  void clear() { n = 0; } char& operator[](std::size_t i) { return d[i]; } const char& operator[](std::size_t i) const { return d[i]; }
  bool empty() const { return !n; } char* begin() { return d; } char* end() { return d + n; } void assign(std::size_t k, char c) { n = (size_type)k; memset(d, c, k); }
};
template <typename C> std::string str(const C& c) { std::string s; for (std::size_t i = 0; i < c.size(); ++i) s += (char)c.data()[i]; return s; }
template <typename C> void preset(C& c, int how) { if (how) { c.resize(how == 1 ? 3 : 2); for (std::size_t i = 0; i < c.size(); ++i) const_cast<char*>((const char*)c.data())[i] = 'z'; } }

const int ERRS[] = {EIO, EAGAIN};

struct Answers {
  mc::Ctx& c; simfs::World& w; simfs::Inode* ino; int eintr = 0, shrt = 0, faults = 0, changes = 0; int budget; std::vector<std::string> contents; bool change_ok; std::string full;
  bool grow = false, close_failed = false, failed = false; std::string failwhat; int fail_errno = 0; bool open_intr = false; // an interrupted open may be retried or reported
  void snapshot() { if (ino) contents.push_back(ino->text()); }
  void fault(simfs::Call& cl, int e) { cl.force_errno = e; ++faults; failed = true; fail_errno = e; failwhat = simfs::name(cl.op); }
  void operator()(simfs::Call& cl)
  {
    using simfs::Op;
    if (change_ok && changes < 1 && (cl.read_like() || cl.op == Op::fstat)) {
      int k = c.choose(4, "the file changes");
      if (k) {
        ++changes; std::string t = ino->text();
        if (k == 1) t = t.substr(0, t.size() / 2); else if (k == 2) t += "XY"; else t = "";
        ino->set(t); snapshot();
      }
    }
    switch (cl.op) {
      case Op::open: { static const int e[] = {0, ENOENT, EACCES, EMFILE, EINTR}; int k = c.choose(5, "open"); if (k == 4) { if (!open_intr) { open_intr = true; cl.force_errno = EINTR; } } else if (k) fault(cl, e[k]); break; }
      case Op::fstat: { int k = c.choose(2, "fstat"); if (k) fault(cl, EIO); break; }
      case Op::lseek: { int k = c.choose(2, "lseek"); if (k) fault(cl, EIO); break; }
      case Op::close: { static const int e[] = {0, EIO, EINTR, ENOSPC}; int k = c.choose(4, "close"); if (k) { cl.force_errno = e[k]; close_failed = true; if (!failed) fail_errno = e[k]; } break; }
      case Op::read: case Op::pread: case Op::write: case Op::pwrite: {
        if (faults) c.fail("%s after %s had failed", simfs::describe(cl).c_str(), failwhat.c_str());
        int64_t av = cl.total;
        if (cl.read_like()) { int64_t l = std::max<int64_t>(0, ino->size - (cl.op == Op::read ? cl.ofd->pos : cl.offset)); av = std::min(av, l); }
        if (cl.total == 0) return;
        int nshort = (int)std::max<int64_t>(0, std::min<int64_t>(av, 8) - 1); // 1..av-1
        int k = c.choose(1 + 2 + 1 + nshort, "answer");
        if (k == 0) return;
        if (k <= 2) { fault(cl, cl.write_like() && k == 2 ? ENOSPC : ERRS[k - 1]); return; }
        if (k == 3) { if (eintr < budget) { ++eintr; cl.force_errno = EINTR; } return; }
        cl.limit = k - 3; ++shrt; break;
      }
      default: c.fail("unexpected call %s", simfs::describe(cl).c_str());
    }
  }
};

struct Out { error_code ec; bool threw = false, oom = false; };
template <typename F, typename G> Out call(bool thr, bool stale, F f, G g)
{
  Out o; o.ec = stale ? error_code(asio::error::address_in_use) : error_code();
  try {
    if (!thr) f(o.ec);
    else { o.ec = error_code(); g(); }
  } catch (MC_SYSTEM_ERROR& e) { o.ec = e.code(); o.threw = true; }
  catch (std::bad_alloc&) { o.oom = true; }
  return o;
}

void check_error(mc::Ctx& c, const Answers& a, const Out& o, const char* what)
{
  if (!a.faults) return;
  if (!o.ec) c.fail("%s: %s failed but success was reported", what, a.failwhat.c_str());
  if (o.ec.value() != a.fail_errno || o.ec.category() != asio::error::get_system_category()) c.fail("%s: %s failed with %s, reported was '%s'", what, a.failwhat.c_str(), strerrorname_np(a.fail_errno), o.ec.message().c_str());
}

template <typename Cont> void read_container(mc::Ctx& c, const char* cname, int maxsize)
{
  simfs::World w; simfs::world = &w;
  g_alloc_limit = 1 << 30;
  static const char* texts[] = {"", "a", "ab", "abc", "abcde"};
  bool missing = c.choose(5, "file") == 4;
  std::string text = missing ? "" : texts[c.choose(c.thorough() || std::is_same<Cont, Small>::value ? 5 : 4, "content")];
  simfs::Inode* ino = missing ? nullptr : w.create("/sim/a", text);
  bool by_name = c.flag("by name"), thr = c.flag("throwing"), stale = thr ? false : c.flag("stale error");
  if (missing && !by_name) { simfs::world = nullptr; return; }
  Cont cont; preset(cont, c.choose(c.thorough() ? 3 : 2, "old content"));
  bool oom = maxsize == 1000 && c.flag("no memory");
  if (oom) g_alloc_limit = 2;
  Answers a{c, w, ino}; a.budget = c.thorough() ? 2 : 1; a.change_ok = ino != nullptr; a.snapshot();
  asioext::unique_file_handle h; int fd = -1;
  if (!by_name) { h = asioext::open("/sim/a", asioext::open_flags::access_read | asioext::open_flags::open_existing); fd = h.get().native_handle(); w.log.clear(); }
  w.policy = std::ref(a);
  Out o = by_name ? call(thr, stale, [&](error_code& e) { asioext::read_file("/sim/a", cont, e); }, [&] { asioext::read_file("/sim/a", cont); })
                  : call(thr, stale, [&](error_code& e) { asioext::read_file(h.get(), cont, e); }, [&] { asioext::read_file(h.get(), cont); });
  w.policy = nullptr;
  std::string got = str(cont);
  if (o.oom && !oom) c.fail("bad_alloc");
  if (!o.oom) check_error(c, a, o, "read_file");
  if (!o.ec && !o.oom) {
    if (missing) c.fail("read_file of a missing file succeeded");
    bool ok = false; for (auto& t : a.contents) ok |= t == got;
    if (!ok) c.fail("read_file into %s reported success with '%s', the file held '%s'%s", cname, got.c_str(), a.contents[0].c_str(), a.contents.size() > 1 ? (" and then '" + a.contents[1] + "'").c_str() : "");
    c.cover("container: success");
    if (a.eintr && a.shrt) c.interesting();
    if (!by_name && !a.changes && w.fds[fd - simfs::BASE]->pos != (int64_t)text.size()) c.fail("the position is not at the end of the file");
  } else {
    c.cover("container: failure");
    if (!missing && !a.faults && !a.changes && !(a.open_intr && o.ec.value() == EINTR) && (int)text.size() <= maxsize && !o.oom) c.fail("read_file reported '%s' though nothing failed", o.ec.message().c_str());
  }
  if (by_name ? w.count_open() != 0 : (w.count_open() != 1 || !w.fds[fd - simfs::BASE])) c.fail("%d handles open after read_file", w.count_open());
  if (by_name && w.calls(simfs::Op::close) > 1) c.fail("closed twice");
  if (ino && ino->text() != a.contents.back()) c.fail("read_file changed the file");
  c.state(mc::hstr(mc::mix(o.ec.value(), a.eintr * 8 + a.changes), got));
  h.close(); simfs::world = nullptr;
}

const std::vector<std::vector<int>>& layouts()
{
  static const std::vector<std::vector<int>> l = [] {
    std::vector<std::vector<int>> l{{}, {0}, {1}, {2}, {3}, {0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 2}, {2, 3}, {1, 0, 2}, {0, 1, 0}, {1, 1, 1}, {3, 0, 3}, {6}};
    l.push_back(std::vector<int>(66, 1));
    std::vector<int> x(65, 0); x.back() = 1; l.push_back(x); x[0] = 1; l.push_back(x);
    return l;
  }();
  return l;
}
struct Mem {
  std::vector<unsigned char> m; std::vector<std::size_t> at; const std::vector<int>& l; std::size_t total = 0;
  explicit Mem(const std::vector<int>& l, bool fill) : l(l) { std::size_t n = 4; for (int s : l) n += s + 4; m.assign(n, 0xEE); std::size_t p = 4; for (int s : l) { at.push_back(p); if (fill) for (int i = 0; i < s; ++i) m[p + i] = (unsigned char)('A' + total + i); p += s + 4; total += s; } }
  template <typename B> std::vector<B> bufs() { std::vector<B> v; for (std::size_t i = 0; i < l.size(); ++i) v.emplace_back(m.data() + at[i], l[i]); return v; }
  std::string text() const { std::string s; for (std::size_t i = 0; i < l.size(); ++i) s.append((const char*)m.data() + at[i], l[i]); return s; }
  bool outside_untouched() const { auto x = m; for (std::size_t i = 0; i < l.size(); ++i) for (int k = 0; k < l[i]; ++k) x[at[i] + k] = 0xEE; for (auto b : x) if (b != 0xEE) return false; return true; }
};

void read_buffers(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w;
  const auto& l = layouts()[c.choose((int)layouts().size(), "layout")];
  bool big = l.size() > 10;
  Mem m(l, false);
  std::string text; int sz = c.choose(big ? 3 : 7, "file size");
  if (big) sz = (int)m.total - 1 + sz;
  for (int i = 0; i < sz; ++i) text += (char)('a' + i % 26);
  simfs::Inode* ino = w.create("/sim/a", text);
  bool by_name = c.flag("by name"), thr = c.flag("throwing"), stale = thr ? false : c.flag("stale error");
  int pos = by_name ? 0 : c.choose(2, "position") * 2, form = (l.size() == 1 || l.size() == 2) ? c.choose(2, "kind") : 0;
  Answers a{c, w, ino}; a.budget = big ? 1 : 2; a.change_ok = false; a.snapshot();
  asioext::unique_file_handle h; int fd = -1;
  if (!by_name) { h = asioext::open("/sim/a", asioext::open_flags::access_read | asioext::open_flags::open_existing); fd = h.get().native_handle(); w.fds[fd - simfs::BASE]->pos = pos; }
  int shorts = 0;
  w.policy = [&](simfs::Call& cl) { if (big && cl.read_like()) { if (a.faults) c.fail("read after a failure"); if (shorts < 2) { int k = c.choose(5, "answer"); if (k == 1) { cl.limit = 1; ++shorts; } if (k == 2 && cl.total > 3) { cl.limit = 3; ++shorts; } if (k == 3) { cl.force_errno = EINTR; ++shorts; } if (k == 4) a.fault(cl, EIO); } } else a(cl); };
  auto v = m.bufs<asio::mutable_buffer>();
  auto go = [&](const auto& b) {
    return by_name ? call(thr, stale, [&](error_code& e) { asioext::read_file("/sim/a", b, e); }, [&] { asioext::read_file("/sim/a", b); })
                   : call(thr, stale, [&](error_code& e) { asioext::read_file(h.get(), b, e); }, [&] { asioext::read_file(h.get(), b); });
  };
  Out o;
  if (form == 0) o = go(v);
  else if (l.size() == 1) o = go(v[0]);
  else o = go(std::array<asio::mutable_buffer, 2>{v[0], v[1]});
  w.policy = nullptr;
  check_error(c, a, o, "read_file");
  std::string avail = pos < (int)text.size() ? text.substr(pos) : "";
  if (!o.ec) {
    if (avail.size() < m.total) c.fail("read_file filled %zu bytes from a file of %zu", m.total, avail.size());
    if (m.text() != avail.substr(0, m.total)) c.fail("read_file did not fill the buffers with the file's bytes: '%s'", m.text().c_str());
    c.cover("buffers: filled");
  } else {
    bool intr = a.open_intr && o.ec.value() == EINTR;
    if (!intr && !a.faults && avail.size() >= m.total) c.fail("read_file reported '%s' though nothing failed", o.ec.message().c_str());
    if (!intr && !a.faults && o.ec != asio::error::eof) c.fail("read_file reported '%s' at the end of the file", o.ec.message().c_str());
    c.cover("buffers: failed");
  }
  if (!m.outside_untouched()) c.fail("read_file wrote outside its buffers");
  if (by_name ? w.count_open() != 0 : w.count_open() != 1) c.fail("%d handles open after read_file", w.count_open());
  if (ino->text() != text) c.fail("read_file changed the file");
  c.state(mc::hstr(mc::mix(o.ec.value(), a.eintr), m.text()));
  h.close(); simfs::world = nullptr;
}

void write_case(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w;
  const auto& l = layouts()[c.choose((int)layouts().size(), "layout")];
  bool big = l.size() > 10;
  Mem m(l, true);
  int old = c.choose(4, "old content");
  if (old) w.create("/sim/a", old == 1 ? "" : old == 2 ? "x" : std::string(80, 'x'));
  w.create("/sim/b", "other");
  bool thr = c.flag("throwing"), stale = thr ? false : c.flag("stale error");
  int form = (l.size() == 1 || l.size() == 2) ? c.choose(3, "kind") : 0;
  Answers a{c, w, nullptr}; a.budget = big ? 1 : 2; a.change_ok = false;
  int shorts = 0;
  w.policy = [&](simfs::Call& cl) { if (big && cl.write_like()) { if (a.faults) c.fail("write after a failure"); if (shorts < 2) { int k = c.choose(5, "answer"); if (k == 1) { cl.limit = 1; ++shorts; } if (k == 2 && cl.total > 3) { cl.limit = 3; ++shorts; } if (k == 3) { cl.force_errno = EINTR; ++shorts; } if (k == 4) a.fault(cl, ENOSPC); } } else a(cl); };
  auto v = m.bufs<asio::const_buffer>();
  auto go = [&](const auto& b) { return call(thr, stale, [&](error_code& e) { asioext::write_file("/sim/a", b, e); }, [&] { asioext::write_file("/sim/a", b); }); };
  Out o;
  if (form == 0) o = go(v);
  else if (form == 2) o = go(m.bufs<asio::mutable_buffer>());
  else if (l.size() == 1) o = go(v[0]);
  else o = go(std::array<asio::const_buffer, 2>{v[0], v[1]});
  w.policy = nullptr;
  check_error(c, a, o, "write_file");
  auto it = w.names.find("/sim/a");
  if (!o.ec) {
    if (a.close_failed) c.fail("write_file reported success though closing the file failed with %s", strerrorname_np(a.fail_errno));
    if (it == w.names.end() || it->second->text() != m.text()) c.fail("write_file reported success but the file holds '%s' instead of '%s'", it == w.names.end() ? "(missing)" : it->second->text().c_str(), m.text().c_str());
    c.cover("written");
    if (a.eintr && a.shrt) c.interesting();
  } else {
    if (!a.faults && !a.close_failed && !(a.open_intr && o.ec.value() == EINTR)) c.fail("write_file reported '%s' though nothing failed", o.ec.message().c_str());
    c.cover("write failed");
  }
  Mem fresh(l, true); if (fresh.m != m.m) c.fail("write_file changed its source");
  if (w.names["/sim/b"]->text() != "other") c.fail("another file was written");
  if (w.count_open() != 0) c.fail("%d handles open after write_file", w.count_open());
  if (w.calls(simfs::Op::close) > 1) c.fail("closed twice");
  c.state(mc::hstr(mc::mix(o.ec.value(), a.eintr), it == w.names.end() ? "" : it->second->text()));
  simfs::world = nullptr;
}

// Contents longer than any internal block size, sparse files longer than 32 bits, long runs of interruptions.
std::string pattern(std::size_t n) { std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = (char)(i * 131 + (i >> 8) * 7 + (i >> 16)); return s; }
struct Special { // the given call answers differently
  mc::Ctx& c; int at, kind, n = 0, intr = 0;
  void operator()(simfs::Call& cl)
  {
    if (!cl.io() || !cl.total || kind == 0) return;
    if (n++ != at) return;
    if (kind == 1) cl.limit = 1;
    else if (kind == 2) { cl.force_errno = EIO; }
    else if (intr++ < (kind == 3 ? 5 : 120)) { cl.force_errno = EINTR; --n; }
  }
};
template <typename Cont> void read_long(mc::Ctx& c, const char* cname)
{
  simfs::World w; simfs::world = &w;
  g_alloc_limit = 1 << 30;
  static const std::size_t sizes[] = {255, 256, 65535, 65536, 65537, 131073};
  std::size_t n = sizes[c.choose(6, "size")];
  std::string text = pattern(n);
  w.create("/sim/a", text);
  bool by_name = c.flag("by name"), thr = c.flag("throwing");
  Special sp{c, c.choose(2, "which call"), c.choose(5, "how")};
  Cont cont; preset(cont, 1);
  asioext::unique_file_handle h;
  if (!by_name) h = asioext::open("/sim/a", asioext::open_flags::access_read | asioext::open_flags::open_existing);
  w.policy = std::ref(sp);
  Out o = by_name ? call(thr, false, [&](error_code& e) { asioext::read_file("/sim/a", cont, e); }, [&] { asioext::read_file("/sim/a", cont); })
                  : call(thr, false, [&](error_code& e) { asioext::read_file(h.get(), cont, e); }, [&] { asioext::read_file(h.get(), cont); });
  w.policy = nullptr;
  bool failed = sp.kind == 2 && sp.n > sp.at;
  if (failed ? o.ec.value() != EIO : bool(o.ec)) c.fail("read_file of %zu bytes reported '%s'", n, o.ec.message().c_str());
  if (!failed && str(cont) != text) c.fail("read_file of %zu bytes into %s: wrong content (%zu bytes)", n, cname, (std::size_t)cont.size());
  c.cover("long content"); c.state(mc::mix(n, sp.kind * 2 + sp.at));
  h.close(); simfs::world = nullptr;
}
template <typename Cont> void read_sparse(mc::Ctx& c, const char* cname)
{
  simfs::World w; simfs::world = &w;
  g_alloc_limit = 1 << 16;
  static const int64_t sizes[] = {int64_t(1) << 31, (int64_t(1) << 31) + 2, int64_t(1) << 32, (int64_t(1) << 32) + 3, (int64_t(5) << 32) + 1, int64_t(1) << 62, INT64_MAX};
  int64_t n = sizes[c.choose(7, "size")];
  auto* ino = w.create("/sim/a", "abc"); ino->size = n;
  bool by_name = c.flag("by name"), thr = c.flag("throwing");
  Cont cont; preset(cont, 1);
  asioext::unique_file_handle h;
  if (!by_name) h = asioext::open("/sim/a", asioext::open_flags::access_read | asioext::open_flags::open_existing);
  Out o; bool refused = false;
  try {
    o = by_name ? call(thr, false, [&](error_code& e) { asioext::read_file("/sim/a", cont, e); }, [&] { asioext::read_file("/sim/a", cont); })
                : call(thr, false, [&](error_code& e) { asioext::read_file(h.get(), cont, e); }, [&] { asioext::read_file(h.get(), cont); });
  } catch (std::length_error&) { refused = true; }
  if (!o.oom && !o.ec && !refused) c.fail("read_file into %s that can't hold more than %d bytes reported success with %zu bytes of a file of %lld", cname, g_alloc_limit, (std::size_t)cont.size(), (long long)n);
  g_alloc_limit = 1 << 30;
  c.cover("sparse file"); c.state(mc::mix(n, o.ec.value()));
  h.close(); simfs::world = nullptr;
}
void write_long(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w;
  static const std::size_t sizes[] = {255, 256, 65535, 65536, 65537, 131073};
  std::string text = pattern(sizes[c.choose(6, "size")]);
  if (c.flag("old content")) w.create("/sim/a", pattern(140000));
  int split = c.choose(3, "buffers"); // one, two, 1000 bytes each
  bool thr = c.flag("throwing");
  Special sp{c, c.choose(2, "which call"), c.choose(5, "how")};
  std::vector<asio::const_buffer> v;
  std::size_t step = split == 0 ? text.size() : split == 1 ? text.size() / 2 + 1 : 1000;
  for (std::size_t i = 0; i < text.size(); i += step) v.emplace_back(text.data() + i, std::min(step, text.size() - i));
  w.policy = std::ref(sp);
  Out o = call(thr, false, [&](error_code& e) { asioext::write_file("/sim/a", v, e); }, [&] { asioext::write_file("/sim/a", v); });
  w.policy = nullptr;
  bool failed = sp.kind == 2 && sp.n > sp.at;
  if (failed ? o.ec.value() != EIO : bool(o.ec)) c.fail("write_file of %zu bytes reported '%s'", text.size(), o.ec.message().c_str());
  if (!failed && w.names["/sim/a"]->text() != text) c.fail("write_file of %zu bytes in %zu buffers: wrong content", text.size(), v.size());
  c.cover("long content"); c.state(mc::mix(text.size(), sp.kind * 8 + sp.at * 4 + split));
  simfs::world = nullptr;
}

// On real files: what the simulation answered must be what the kernel does, and round trips.
void conformance(mc::Ctx& c)
{
  static std::string dir = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp";
  std::string path = dir + "/c08-" + std::to_string(getpid());
  simfs::world = nullptr; unlink(path.c_str());
  const auto& l = layouts()[c.choose((int)layouts().size(), "layout")];
  Mem m(l, true);
  int old = c.choose(4, "old content");
  simfs::World w; simfs::world = &w;
  if (old) {
    std::string t = old == 1 ? "" : old == 2 ? "x" : std::string(80, 'x');
    w.create("/sim/a", t); FILE* f = fopen(path.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f);
  }
  for (const char* p : {"/sim/a", path.c_str()}) {
    if (c.flag("write first")) { error_code ec; asioext::write_file(p, m.bufs<asio::const_buffer>(), ec); if (ec) c.fail("%s", ec.message().c_str());
      std::string s; asioext::read_file(p, s, ec); if (ec || s != m.text()) c.fail("read back '%s' %s", s.c_str(), ec.message().c_str()); }
    else { error_code ec; Mem r(l, false); asioext::read_file(p, r.bufs<asio::mutable_buffer>(), ec);
      std::string t = !old ? "" : old == 1 ? "" : old == 2 ? "x" : std::string(80, 'x');
      if (!old ? ec != asio::error::make_error_code((asio::error::basic_errors)ENOENT) && ec.value() != ENOENT : t.size() < r.total ? ec != asio::error::eof : bool(ec)) c.fail("%s: '%s'", p, ec.message().c_str());
      if (!ec && r.text() != t.substr(0, r.total)) c.fail("%s: content", p); }
  }
  c.cover("also on real files");
  simfs::world = nullptr;
  unlink(path.c_str());
}

using VecL = std::vector<char, LimAlloc<char>>;
using LB = asioext::linear_buffer;
void run(mc::Ctx& c)
{
  switch (c.choose(10, "part")) {
    case 0: read_container<std::string>(c, "std::string", 1 << 20); break;
    case 1: read_container<std::vector<unsigned char>>(c, "std::vector", 1 << 20); break;
    case 2: read_container<VecL>(c, "a vector without memory", 1000); break;
    case 3: read_container<LB>(c, "linear_buffer", 1 << 20); break;
    case 4: read_container<Small>(c, "a small container", 3); break;
    case 5: read_buffers(c); break;
    case 6: write_case(c); break;
    case 7: conformance(c); break;
    case 8: switch (c.choose(4, "container")) { case 0: read_long<std::string>(c, "std::string"); break; case 1: read_long<VecL>(c, "std::vector"); break; case 2: read_long<LB>(c, "linear_buffer"); break; case 3: write_long(c); break; } break;
    case 9: switch (c.choose(3, "container")) { case 0: read_sparse<std::basic_string<char, std::char_traits<char>, LimAlloc<char>>>(c, "a string"); break; case 1: read_sparse<VecL>(c, "a vector"); break; case 2: read_sparse<asioext::basic_linear_buffer<LimAlloc<uint8_t>>>(c, "a linear_buffer"); break; } break;
  }
}
}

int main(int argc, char** argv)
{
  mc::Config cfg; cfg.property = "C08";
  return mc::main_explore(argc, argv, cfg, run);
}
