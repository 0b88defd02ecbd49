// C10: every open flag combination against the documented behaviour, on simulated and on real files.
#include "mc.hpp"
#include "simfs.hpp"
#include <asioext/file_handle.hpp>
#include <asioext/unique_file_handle.hpp>
#include <asioext/thread_pool_file_service.hpp>
#include <asioext/basic_file.hpp>
#include <asioext/file.hpp>
#include <asioext/open.hpp>
#include <asio/io_context.hpp>
#include <memory>
#include <optional>
#include <sys/stat.h>
#include <fcntl.h>

namespace {
using asioext::error_code; using asioext::open_flags; using asioext::file_perms; using asioext::unique_file_handle;
constexpr int R = 1, W = 2, NEW = 4, ALWAYS = 8, EXISTING = 16, OALWAYS = 32, TRUNC = 64, DISP = 124;
asio::io_context* ioc() { static asio::io_context* c = new asio::io_context; return c; }

bool doc_invalid(int f) { return __builtin_popcount(f & DISP) > 1 || ((f & TRUNC) && !(f & W)); }
bool doc_full(int f) { return !doc_invalid(f) && (f & DISP) && (f & (R | W)); }
std::string fname(int f)
{
  static const char* n[] = {"access_read", "access_write", "create_new", "create_always", "open_existing", "open_always", "truncate_existing", "exclusive_read", "exclusive_write", "internal_async"};
  std::string s; for (int i = 0; i < 10; ++i) if (f >> i & 1) s += (s.empty() ? "" : "|") + std::string(n[i]); return s.empty() ? "none" : s;
}
struct Opened { error_code ec; bool threw = false; unique_file_handle h; std::unique_ptr<asioext::file> f; bool open() const { return f ? f->is_open() : h.is_open(); }
  int fd() { return f ? f->native_handle() : h.get().native_handle(); }
  std::size_t read(void* p, std::size_t n, error_code& e) { return f ? f->read_some(asio::buffer(p, n), e) : h.read_some(asio::buffer(p, n), e); }
  std::size_t write(const void* p, std::size_t n, error_code& e) { return f ? f->write_some(asio::buffer(p, n), e) : h.write_some(asio::buffer(p, n), e); }
  void close() { if (f) f->close(); else h.close(); } };
// the ways to open a file
void do_open(Opened& o, int api, const char* path, const asioext::open_args& a)
{
  o.ec = error_code(asio::error::address_in_use);
  try {
    switch (api) {
      case 0: o.h = asioext::open(path, a, o.ec); break;
      case 1: o.ec = error_code(); o.h = asioext::open(path, a); break;
      case 2: o.f = std::make_unique<asioext::file>(*ioc()); o.f->open(path, a, o.ec); break;
      case 3: o.ec = error_code(); o.f = std::make_unique<asioext::file>(*ioc()); o.f->open(path, a); break;
      case 4: o.f = std::make_unique<asioext::file>(*ioc(), path, a, o.ec); break;
      case 5: o.ec = error_code(); o.f = std::make_unique<asioext::file>(*ioc(), path, a); break;
    }
  } catch (MC_SYSTEM_ERROR& e) { o.ec = e.code(); o.threw = true; }
}
const char* apis[] = {"open(ec)", "open", "file::open(ec)", "file::open", "file(ec)", "file()"};

struct Before { bool exists = false; std::string text; };
// what the flags promise; ct: content afterwards, exists afterwards
struct Expect { bool ok; bool exists; std::string text; int err = 0; };
Expect expect(int f, const Before& b)
{
  Expect e{true, b.exists, b.text};
  if (f & NEW) { if (b.exists) e.ok = false, e.err = EEXIST; else e.exists = true, e.text = ""; }
  else if (f & ALWAYS) e.exists = true, e.text = "";
  else if (f & OALWAYS) { if (!b.exists) e.exists = true, e.text = ""; }
  else if (f & TRUNC) { if (!b.exists) e.ok = false, e.err = ENOENT; else e.text = ""; }
  else if (!b.exists) e.ok = false, e.err = ENOENT; // open_existing
  return e;
}
void check_access(mc::Ctx& c, const char* what, int f, Opened& o, const std::string& text)
{
  char b[16]; error_code e; std::size_t n = o.read(b, sizeof b, e);
  if (f & R) { if (text.empty() ? e != asio::error::eof : bool(e) || std::string(b, n) != text) c.fail("%s: reading gives %zu bytes, '%s'", what, n, e.message().c_str()); }
  else if ((f & W) && e.value() != EBADF) c.fail("%s: reading is possible without read access (%zu bytes, '%s')", what, n, e.message().c_str());
  n = o.write("Z", 1, e);
  if (f & W) { if (e || n != 1) c.fail("%s: writing fails: %s", what, e.message().c_str()); }
  else if (e.value() != EBADF) c.fail("%s: writing is possible without write access (%zu bytes, '%s')", what, n, e.message().c_str());
}
const int PERMS[] = {0666, 0, 0777, 0644, 0400, 04755, 02755, 01644, 07777, 0640, 0111};
const int UMASKS[] = {0, 022, 077, 0777};

void sim_case(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w;
  int f = c.choose(1024, "flags"), state = c.choose(3, "path"), api = c.choose(6, "api");
  bool odd = doc_invalid(f) || !doc_full(f);
  int dflt = c.choose(odd ? 1 : 2, "permissions given");
  int perm = 0666, um = 022;
  if (dflt && api < 2) { perm = PERMS[c.choose(sizeof PERMS / sizeof *PERMS, "permissions")]; um = UMASKS[c.choose(4, "umask")]; }
  Before b; if (state) { b.exists = true; b.text = state == 1 ? "" : "abc"; w.create("/sim/a", b.text)->mode = S_IFREG | 0604; }
  w.create("/sim/b", "other");
  std::string what = std::string(apis[api]) + " with " + fname(f) + " on " + (state == 0 ? "a missing file" : state == 1 ? "an empty file" : "a file");
  bool valid = asioext::is_valid((open_flags)f);
  if (doc_invalid(f) && valid) c.fail("is_valid(%s)", fname(f).c_str());
  if (!valid && doc_full(f)) c.fail("%s is reported invalid", fname(f).c_str());
  asioext::open_args args = dflt ? asioext::open_args((open_flags)f, (file_perms)perm) : asioext::open_args((open_flags)f);
  if (args.is_valid() != valid) c.fail("open_args::is_valid() disagrees for %s", fname(f).c_str());
  int faults = 0, err = 0, eintr = 0, burst = 0;
  w.policy = [&](simfs::Call& cl) {
    if (cl.op != simfs::Op::open) return;
    static const int e[] = {0, EINTR, EACCES, EMFILE, ENOSPC};
    if (odd) return;
    if (burst) { --burst; cl.force_errno = EINTR; return; }
    int k = c.choose_dev(dflt ? 5 : 6, "answer");
    if (k == 5) { if (!eintr) { ++eintr; burst = 120; cl.force_errno = EINTR; } }
    else if (k == 1) { if (eintr < 2) { ++eintr; cl.force_errno = EINTR; } }
    else if (k) { cl.force_errno = err = e[k]; ++faults; }
  };
  c.set_bound(2);
  mode_t oldmask = umask(um);
  Opened o; do_open(o, api, "/sim/a", args);
  umask(oldmask); w.policy = nullptr;
  auto it = w.names.find("/sim/a"); bool ex = it != w.names.end(); std::string text = ex ? it->second->text() : "";
  if (api % 2 == 1 && o.threw != bool(o.ec)) c.internal("threw");
  if (o.open() == bool(o.ec)) c.fail("%s: reported '%s' and the handle is %s", what.c_str(), o.ec.message().c_str(), o.open() ? "open" : "not open");
  if (w.count_open() != (o.open() ? 1 : 0)) c.fail("%s: %d descriptors open", what.c_str(), w.count_open());
  if (w.names.size() != 2u + (ex && !b.exists) - !b.exists || w.names["/sim/b"]->text() != "other") c.fail("%s: touched another path", what.c_str());
  if (!valid) {
    if (!o.ec) c.fail("%s: the flags are invalid but opening succeeded", what.c_str());
    if (ex != b.exists || text != b.text) c.fail("%s: the flags are invalid but the file changed", what.c_str());
    if (args.is_valid()) c.fail("%s: args valid", what.c_str());
    c.cover("invalid");
  } else if (faults) {
    if (o.ec.value() != err || o.ec.category() != asio::error::get_system_category()) c.fail("%s: failed with %s, reported '%s'", what.c_str(), strerrorname_np(err), o.ec.message().c_str());
    c.cover("system error");
  } else if (doc_full(f)) {
    Expect e = expect(f, b);
    if (eintr) c.cover("interrupted");
    {
      if (e.ok ? bool(o.ec) : o.ec.value() != e.err) c.fail("%s: reported '%s', expected %s", what.c_str(), o.ec.message().c_str(), e.ok ? "success" : strerrorname_np(e.err));
      if (ex != e.exists || text != e.text) c.fail("%s: afterwards the file %s with '%s', expected %s '%s'", what.c_str(), ex ? "exists" : "is missing", text.c_str(), e.exists ? "exists" : "missing", e.text.c_str());
      if (e.ok) {
        int fd = o.fd(); if (!w.cloexec[fd - simfs::BASE]) c.fail("%s: the handle would be inherited", what.c_str());
        auto* ofd = w.fds[fd - simfs::BASE]; if (ofd->inode != it->second || ofd->pos != 0) c.fail("%s: position %lld", what.c_str(), (long long)ofd->pos);
        int m = it->second->mode & 07777, em = b.exists ? 0604 : (dflt && api < 2 ? perm & ~um : 0666 & ~um & 07777);
        if (dflt && api >= 2) em = b.exists ? 0604 : perm & ~um;
        if (m != em) c.fail("%s: the file's permissions are %o, expected %o (requested %o, umask %o)", what.c_str(), m, em, perm, um);
        check_access(c, what.c_str(), f, o, text);
      }
      c.cover(e.ok ? "opened" : "refused");
    }
    if (eintr) c.interesting();
  } else { // no access mode or no disposition: not documented, but nothing that wasn't asked for may happen
    if (!(f & DISP) && ex != b.exists) c.fail("%s: created a file", what.c_str());
    if (!(f & (ALWAYS | TRUNC)) && text != b.text) c.fail("%s: changed the content", what.c_str());
    if (!o.ec) { if (!w.cloexec[o.fd() - simfs::BASE]) c.fail("%s: the handle would be inherited", what.c_str()); char z = 'Z'; error_code e; o.write(&z, 1, e); if (!(f & W) && !e) c.fail("%s: writing is possible without write access", what.c_str()); }
    c.cover("incomplete flags");
  }
  c.state(mc::hstr(mc::mix(f, o.ec.value() * 64 + api * 4 + state), text));
  if (o.open()) o.close();
  simfs::world = nullptr;
}

// the same on real files (also directories, links and missing directories)
std::string slurp(const std::string& p) { std::string s; int fd = ::open(p.c_str(), O_RDONLY); if (fd < 0) return "?"; char b[64]; ssize_t n = syscall(SYS_read, fd, b, sizeof b); if (n > 0) s.assign(b, n); syscall(SYS_close, fd); return s; }
void spit(const std::string& p, const std::string& t) { int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0604); ssize_t r = syscall(SYS_write, fd, t.data(), t.size()); (void)r; syscall(SYS_close, fd); }
bool exists(const std::string& p) { struct stat st; return ::stat(p.c_str(), &st) == 0; }
void real_case(mc::Ctx& c)
{
  static const std::string dir = [] { std::string d = std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/c10-XXXXXX"; return std::string(mkdtemp(d.data())); }();
  simfs::world = nullptr;
  static const std::string mine = dir + "/" + std::to_string(getpid()); mkdir(mine.c_str(), 0700);
  int f = c.choose(128, "flags"), state = c.choose(7, "path"), api = c.choose(2, "api");
  std::string p = mine + "/a", t = mine + "/t", sub = mine + "/d";
  unlink(p.c_str()); unlink(t.c_str()); rmdir(sub.c_str()); mkdir(sub.c_str(), 0700);
  Before b; std::string target = p; const char* sn[] = {"missing", "empty", "content", "symlink", "dangling symlink", "directory", "missing directory"};
  switch (state) {
    case 1: spit(p, ""); b.exists = true; break;
    case 2: spit(p, "abc"); b.exists = true; b.text = "abc"; break;
    case 3: spit(t, "abc"); b.exists = true; b.text = "abc"; target = t; if (symlink(t.c_str(), p.c_str())) c.internal("symlink"); break;
    case 4: target = t; if (symlink(t.c_str(), p.c_str())) c.internal("symlink"); break;
    case 5: p = target = sub; break;
    case 6: p = target = mine + "/none/a"; break;
  }
  std::string what = std::string(apis[api]) + " with " + fname(f) + " on " + sn[state];
  mode_t om = umask(022);
  Opened o; do_open(o, api, p.c_str(), asioext::open_args((open_flags)f));
  umask(om);
  bool ex = exists(target);
  if (o.open() == bool(o.ec)) c.fail("%s: reported '%s' and the handle is %s", what.c_str(), o.ec.message().c_str(), o.open() ? "open" : "not open");
  if (state == 5) {
    if ((f & W) && doc_full(f) && !o.ec) c.fail("%s: opened a directory for writing", what.c_str());
    if (!ex) c.fail("%s: the directory is gone", what.c_str());
  } else if (state == 6) { if (!o.ec) c.fail("%s: success", what.c_str()); if (ex) c.fail("%s: created", what.c_str()); }
  else if (!asioext::is_valid((open_flags)f)) {
    if (!o.ec) c.fail("%s: the flags are invalid but opening succeeded", what.c_str());
    if (ex != b.exists || (ex && slurp(target) != b.text)) c.fail("%s: the flags are invalid but the file changed", what.c_str());
  } else if (doc_full(f)) {
    Expect e = expect(f, b);
    if (state == 4 && (f & NEW)) e = {false, false, "", EEXIST}; // the link itself exists
    if (e.ok ? bool(o.ec) : o.ec.value() != e.err) c.fail("%s: reported '%s', expected %s", what.c_str(), o.ec.message().c_str(), e.ok ? "success" : strerrorname_np(e.err));
    std::string text = ex ? slurp(target) : "";
    if (ex != e.exists || text != e.text) c.fail("%s: afterwards the file %s with '%s'", what.c_str(), ex ? "exists" : "is missing", text.c_str());
    if (e.ok) {
      if (!(fcntl(o.fd(), F_GETFD) & FD_CLOEXEC)) c.fail("%s: the handle would be inherited", what.c_str());
      struct stat st; fstat(o.fd(), &st); int em = b.exists ? 0604 : 0644; if (b.exists ? false : (st.st_mode & 07777) != em) c.fail("%s: permissions %o", what.c_str(), st.st_mode & 07777);
      check_access(c, what.c_str(), f, o, text);
    }
    c.cover("on real files");
  } else {
    if (!(f & DISP) && ex != b.exists) c.fail("%s: created a file", what.c_str());
    if (!(f & (ALWAYS | TRUNC)) && ex && slurp(target) != b.text) c.fail("%s: changed the content", what.c_str());
    if (!o.ec && !(f & W)) { char z = 'Z'; error_code e; o.write(&z, 1, e); if (!e) c.fail("%s: writing is possible without write access", what.c_str()); }
  }
  if (o.open()) o.close();
  unlink((mine + "/a").c_str()); unlink(t.c_str()); rmdir(sub.c_str());
}

// default-constructed arguments, opening an open file, paths
void misc_case(mc::Ctx& c)
{
  simfs::World w; simfs::world = &w; auto* ino = w.create("/sim/a", "abc");
  int api = c.choose(6, "api");
  switch (c.choose(3, "what")) {
    case 0: { asioext::open_args a; if (a.is_valid()) c.fail("default-constructed open_args are valid"); Opened o; do_open(o, api, "/sim/a", a); if (!o.ec || o.open()) c.fail("default-constructed open_args could be used"); if (ino->text() != "abc" || w.names.size() != 1) c.fail("the file changed"); break; }
    case 1: { int p = c.choose(4096, "permissions"); asioext::open_args a(open_flags::access_write | open_flags::create_always, (file_perms)p); w.names.erase("/sim/a"); int um = UMASKS[c.choose(4, "umask")]; mode_t om = umask(um); Opened o; do_open(o, api, "/sim/a", a); umask(om);
      if (o.ec) c.fail("%s", o.ec.message().c_str()); int m = w.names["/sim/a"]->mode & 07777; if (m != (p & ~um)) c.fail("created with permissions %o, requested were %o with umask %o", m, p, um); o.close(); break; }
    case 2: { // opening an open file object fails and leaves it alone
      asioext::file f(*ioc()); f.open("/sim/a", open_flags::access_read | open_flags::open_existing); int fd = f.native_handle();
      int fl = c.choose(128, "flags"); error_code ec(asio::error::address_in_use);
      if (api % 2) try { ec = error_code(); f.open("/sim/b", asioext::open_args((open_flags)fl)); } catch (MC_SYSTEM_ERROR& e) { ec = e.code(); } else f.open("/sim/b", asioext::open_args((open_flags)fl), ec);
      if (!ec) c.fail("opening an open file succeeded");
      if (w.names.size() != 1 || ino->text() != "abc" || f.native_handle() != fd || !f.is_open() || w.count_open() != 1) c.fail("opening an open file had an effect (%s)", fname(fl).c_str());
      f.close(); break; }
  }
  c.cover("misc");
  simfs::world = nullptr;
}
void run(mc::Ctx& c) { switch (c.choose(3, "part")) { case 0: sim_case(c); break; case 1: real_case(c); break; case 2: misc_case(c); break; } }
}
int main(int argc, char** argv)
{
  mc::Config cfg; cfg.property = "C10";
  return mc::main_explore(argc, argv, cfg, run);
}
