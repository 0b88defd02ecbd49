// C11, file attributes: the code for systems with file flags (BSD, macOS), compiled with stand-ins for fchflags() and
// stat::st_flags. All attribute sets x all current flag sets x options x handle kinds x a failing call.
#define ASIOEXT_HAS_FILE_FLAGS 1
#define UF_NODUMP 0x1u
#define UF_IMMUTABLE 0x2u
#define UF_NOUNLINK 0x10u
#define UF_SYSTEM 0x80u
#define UF_ARCHIVE 0x800u
#define UF_HIDDEN 0x8000u
#define SF_IMMUTABLE 0x20000u
#define SF_NOUNLINK 0x100000u
#include "mc.hpp"
#include <sys/stat.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#define st_flags __glibc_reserved[0]
extern "C" int fchflags(int, unsigned long);
#include "asioext/basic_file.hpp"
#include "asioext/file.hpp"
#include "asioext/open.hpp"
#include "asioext/unique_file_handle.hpp"
#include <asio/io_context.hpp>
using namespace asioext;
namespace {
const int FD = 7777;
const unsigned UNNAMED = 0x4u | 0x40000u | 0x80000000u; // flags the library has no name for
struct World {
  bool exists = true; unsigned flags = 0; int opens = 0, closes = 0, sets = 0, fail = 0, calls = 0; // fail: number of the failing call
  bool created = false; int intr = 0;
  bool bad() { return ++calls == fail; }
} W;
bool sim = false;
struct Name { file_attrs a; unsigned f; };
const Name names[] = {{file_attrs::hidden, UF_HIDDEN}, {file_attrs::system, UF_SYSTEM}, {file_attrs::archive, UF_ARCHIVE}, {file_attrs::no_dump, UF_NODUMP}, {file_attrs::not_indexed, 0},
  {file_attrs::user_immutable, UF_IMMUTABLE}, {file_attrs::system_immutable, SF_IMMUTABLE}, {file_attrs::user_no_unlink, UF_NOUNLINK}, {file_attrs::system_no_unlink, SF_NOUNLINK}};
unsigned native(unsigned attrs) { unsigned f = 0; for (auto& n : names) if (attrs & (unsigned)n.a) f |= n.f; return f; }
unsigned named(unsigned f) { unsigned a = 0; for (auto& n : names) if (f & n.f) a |= (unsigned)n.a; return a; }
// nothing, everything, one attribute, all but one
unsigned some(int k) { return k == 0 ? 0 : k == 1 ? 0x1ff : k < 11 ? 1u << (k - 2) : 0x1ff & ~(1u << (k - 11)); }
const unsigned SUPPORTED = 0x1ff & ~(unsigned)file_attrs::not_indexed;
} // namespace
extern "C" {
int fchflags(int fd, unsigned long f)
{
  if (fd != FD || W.opens <= W.closes) { errno = EBADF; return -1; }
  if (W.bad()) { errno = EPERM; return -1; }
  W.flags = (unsigned)f; ++W.sets; return 0;
}
int fstat(int fd, struct stat* st)
{
  if (fd != FD) return (int)syscall(SYS_newfstatat, fd, "", st, 0x1000);
  if (W.bad()) { errno = EIO; return -1; }
  memset(st, 0, sizeof *st); st->st_flags = (long)(unsigned long)W.flags; return 0;
}
int open(const char* p, int fl, ...)
{
  mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
  if (!sim || strcmp(p, "sim")) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
  if (W.intr && W.intr--) { errno = EINTR; return -1; }
  if (W.bad()) { errno = EIO; return -1; }
  if (W.exists && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
  if (!W.exists) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } W.exists = W.created = true; }
  ++W.opens; return FD;
}
int close(int fd)
{
  if (fd != FD) return (int)syscall(SYS_close, fd);
  ++W.closes; return 0;
}
}
namespace {
template <typename R, typename F, typename G> R both(int form, error_code& ec, F&& with, G&& without)
{
  if (form == 0) { ec = error_code(); return with(ec); }
  if (form == 1) { ec = make_error_code(std::errc::bad_message); return with(ec); }
  try { ec = error_code(); return without(); } catch (const MC_SYSTEM_ERROR& e) { ec = e.code(); }
  return R();
}
// op 0: query; 1: set (no options); 2..4: replace, add, remove
template <typename H> unsigned apply(H& h, int op, unsigned a, int form, error_code& ec)
{
  if (op == 0) return both<unsigned>(form, ec, [&](error_code& e) { return (unsigned)h.attributes(e); }, [&] { return (unsigned)h.attributes(); });
  const file_attrs x = (file_attrs)a;
  const file_attr_options o = op == 3 ? file_attr_options::add : op == 4 ? file_attr_options::remove : file_attr_options::replace;
  if (op == 1) return both<unsigned>(form, ec, [&](error_code& e) { h.attributes(x, e); return 0; }, [&] { h.attributes(x); return 0; });
  return both<unsigned>(form, ec, [&](error_code& e) { h.attributes(x, o, e); return 0; }, [&] { h.attributes(x, o); return 0; });
}
void change(mc::Ctx& c)
{
  const int kind = c.choose(3, "handle"), op = c.choose(5, "operation"), form = c.choose(3, "form");
  const unsigned cur = (c.flag("flags without a name") ? UNNAMED : 0) | native(some(c.choose(20, "current")));
  asio::io_context ctx;
  for (unsigned a = 0; a < (op ? 512u : 1u); ++a)
    for (int fail = 0; fail <= 2; ++fail) {
      W = World(); W.flags = cur; W.opens = 1; W.fail = fail;
      error_code ec; unsigned r = 0;
      { if (kind == 0) { asioext::file_handle h(FD); r = apply(h, op, a, form, ec); W.closes = 1; }
        else if (kind == 1) { unique_file_handle h((asioext::file_handle(FD))); r = apply(h, op, a, form, ec); }
        else { asioext::file h(ctx, FD); r = apply(h, op, a, form, ec); } }
      if (W.closes != 1) c.fail("closed %d times", W.closes);
      const bool failed = fail && W.calls >= fail;
      if (bool(ec) != failed) c.fail("operation %d with attributes %#x on flags %#x %s", op, a, cur, failed ? "hides an error" : "reports an error");
      unsigned want = cur;
      if (!failed) want = op == 0 ? cur : op == 3 ? cur | native(a) : op == 4 ? cur & ~native(a) : native(a);
      if (W.flags != want) c.fail("operation %d with attributes %#x on flags %#x gives %#x, expected %#x", op, a, cur, W.flags, want);
      if (op == 0 && !failed && r != named(cur)) c.fail("flags %#x are read as attributes %#x, expected %#x", cur, r, named(cur));
      if (op == 0 && failed && r) c.fail("a failed query returns attributes");
      if (op && !failed) { // reading them back
        W.fail = 0; W.closes = 0; asioext::file_handle h(FD);
        if ((unsigned)h.attributes(ec) != named(want) || ec) c.fail("attributes %#x are read back as something else", a);
        if (op <= 2 && (unsigned)h.attributes(ec) != (a & SUPPORTED)) c.fail("attributes %#x don't survive", a);
      }
      c.state(mc::mix(mc::mix(op, want), ec.value())); c.step();
    }
}
// opening: attributes are for files that are created ("unused if an existing file is opened")
void opening(mc::Ctx& c)
{
  static const open_flags modes[] = {open_flags::create_new, open_flags::create_always, open_flags::open_existing, open_flags::open_always, open_flags::truncate_existing};
  const int m = c.choose(5, "mode"), how = c.choose(3, "how"), form = c.choose(2, "form"), fail = c.choose(4, "failing call"), intr = c.choose(3, "interruptions");
  const bool exists = c.flag("exists");
  asio::io_context ctx;
  sim = true;
  for (unsigned a = 0; a < 512; ++a) {
    W = World(); W.exists = exists; W.fail = fail; W.intr = intr;
    const unsigned before = exists ? UF_ARCHIVE | UNNAMED : 0; W.flags = before;
    error_code ec = make_error_code(std::errc::bad_message); bool open = false;
    const open_flags fl = modes[m] | open_flags::access_read_write;
    try {
      const open_args args(fl, file_perms::create_default, (file_attrs)a);
      if (how == 0) { unique_file_handle h = form ? asioext::open("sim", args) : asioext::open("sim", args, ec); open = h.is_open(); }
      else if (how == 1) { asioext::file f(ctx); if (form) f.open("sim", args); else f.open("sim", args, ec); open = f.is_open(); }
      else { std::unique_ptr<asioext::file> f(form ? new asioext::file(ctx, "sim", args) : new asioext::file(ctx)); if (!form) f->open(std::string("sim").c_str(), args, ec); open = f->is_open(); }
      if (form) ec = error_code();
    } catch (const MC_SYSTEM_ERROR& e) { ec = e.code(); if (!form) c.fail("threw"); }
    sim = true;
    const bool possible = exists ? m != 0 : m == 0 || m == 1 || m == 3;
    const bool failed = !possible || (fail && W.calls >= fail);
    if (bool(ec) != failed) c.fail("opening (mode %d, %s file, attributes %#x): %s", m, exists ? "existing" : "no", a, failed ? "hides an error" : "reports an error");
    if (open == failed) c.fail("a failed open leaves a handle");
    if (W.opens != W.closes) c.fail("opening (mode %d, attributes %#x): %d files opened, %d closed", m, a, W.opens, W.closes);
    if (!failed && W.created && W.flags != native(a)) c.fail("a new file with attributes %#x gets flags %#x", a, W.flags);
    if (exists && (m == 2 || m == 4) && W.flags != before) c.fail("opening an existing file with attributes %#x changes its flags from %#x to %#x", a, before, W.flags);
    if (exists && m == 3 && W.flags != before && W.flags == native(a)) // known: whether open() created the file cannot be told
      c.known("open-always-attributes", "open_always with attributes %#x changes the flags of an existing file from %#x to %#x", a, before, W.flags);
    if (exists && W.flags != before && W.flags != native(a)) c.fail("opening a file with attributes %#x gives it flags %#x", a, W.flags);
    c.state(mc::mix(mc::mix(m * 2 + exists, W.flags), ec.value())); c.step();
  }
  sim = false;
}
void run(mc::Ctx& c) { c.interesting(); if (c.flag("open")) opening(c); else change(c); }
} // namespace
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C11"; return mc::main_explore(argc, argv, cfg, run); }
