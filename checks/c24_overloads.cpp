// C24: error-code and throwing overloads of every synchronous operation, run on identical simulated worlds with identical
// answers of the operating system: same calls, same results, same final state, same error; stale error objects are reset.
#include "asioext/detail/config.hpp"
#include "mc.hpp"
#include "simfs.hpp"
#include "asioext/file.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include "asioext/unique_file_handle.hpp"
#include "asioext/file_handle.hpp"
#include "asioext/duplicate.hpp"
#include "asioext/open.hpp"
#include "asioext/read_file.hpp"
#include "asioext/write_file.hpp"
#include "asioext/standard_streams.hpp"
#include "asioext/linear_buffer.hpp"
#include "asioext/url_view.hpp"
#include <asio/io_context.hpp>
#include <memory>
#include <functional>
using namespace asioext;
namespace {
typedef asioext::file_handle file_handle; // (the C library declares a struct of that name)
typedef std::vector<uint8_t> Vec;
struct LimVec : std::vector<char> { size_t max_size() const { return 3; } };
enum Mode { CLEAN, STALE, THROWING };
bool name_form; // pass file names as C strings (otherwise as paths, where there is such an overload)
const error_code stale_ec = asio::error::address_in_use;
asio::io_context& io() { static asio::io_context* p = new asio::io_context; return *p; }

struct Env { // one run
  Mode mode; error_code ec; bool threw = false, noexcept_form = false; std::string out; // rendered result
};
std::string str(uint64_t v) { return std::to_string(v); }
std::string str(const file_times& t) { return str(t.ctime.time_since_epoch().count()) + "," + std::to_string(t.atime.time_since_epoch().count()) + "," + std::to_string(t.mtime.time_since_epoch().count()); }
// run the form the mode selects; e: error-code form, t: throwing form
template <typename E, typename T> void both(Env& v, E&& e, T&& t)
{
  v.ec = v.mode == STALE ? stale_ec : error_code();
  if (v.mode != THROWING) { v.out = e(v.ec); return; }
  try { v.out = t(); }
  catch (MC_SYSTEM_ERROR& x) { v.threw = true; v.ec = x.code(); v.out = "-"; }
}
#define BOTH_R(x, y) both(v, [&](error_code& ec) { return str(x); }, [&] { return str(y); })
#define BOTH_V(x, y) both(v, [&](error_code& ec) { x; return std::string(); }, [&] { y; return std::string(); })
struct Args { int a, b; };
// operations common to file_handle, unique_file_handle and basic_file
const int COMMON = 19;
template <typename F> const char* common(Env& v, F& f, int op, const Args& g)
{
  static const int64_t offs[] = {0, 2, -1, int64_t(1) << 40};
  static const seek_origin orgs[] = {seek_origin::from_begin, seek_origin::from_current, seek_origin::from_end};
  static const file_perms perms[] = {file_perms::none, file_perms(0600), file_perms(0126), file_perms(07777)};
  char buf[4] = {'?', '?', '?', '?'}, buf2[2] = {'?', '?'};
  std::array<asio::mutable_buffer, 2> mb{asio::buffer(buf, 1 + g.a), asio::buffer(buf2)}; std::array<asio::const_buffer, 2> cb{asio::buffer(buf, g.a), asio::buffer(buf2)};
  switch (op) {
    case 0: BOTH_R(f.position(ec), f.position()); return "position";
    case 1: BOTH_R(f.seek(orgs[g.a % 3], offs[g.b], ec), f.seek(orgs[g.a % 3], offs[g.b])); return "seek";
    case 2: BOTH_R(f.size(ec), f.size()); return "size";
    case 3: BOTH_V(f.truncate(offs[g.b], ec), f.truncate(offs[g.b])); return "truncate";
    case 4: BOTH_R((uint64_t)f.permissions(ec), (uint64_t)f.permissions()); return "get permissions";
    case 5: BOTH_V(f.permissions(perms[g.a], ec), f.permissions(perms[g.a])); return "permissions";
    case 6: { auto o = (file_perm_options)(g.b == 1 ? file_perm_options::add : g.b == 2 ? file_perm_options::remove : file_perm_options::replace); BOTH_V(f.permissions(perms[g.a], o, ec), f.permissions(perms[g.a], o)); return "permissions with options"; }
    case 7: BOTH_R((uint64_t)f.attributes(ec), (uint64_t)f.attributes()); return "get attributes";
    case 8: BOTH_V(f.attributes(file_attrs::hidden, ec), f.attributes(file_attrs::hidden)); return "attributes";
    case 9: BOTH_V(f.attributes(file_attrs::hidden, file_attr_options::add, ec), f.attributes(file_attrs::hidden, file_attr_options::add)); return "attributes with options";
    case 10: BOTH_R(f.times(ec), f.times()); return "get times";
    case 11: { file_times t; if (g.a & 1) t.atime = file_time_type(file_time_type::duration(10000000 + g.b)); if (g.a & 2) t.mtime = file_time_type(g.b == 3 ? file_time_type::duration::min() : file_time_type::duration(-5)); BOTH_V(f.times(t, ec), f.times(t)); return "times"; }
    case 12: BOTH_R(f.read_some(asio::buffer(buf, g.a), ec), f.read_some(asio::buffer(buf, g.a))); v.out += std::string(buf, 4); return "read_some";
    case 13: BOTH_R(f.read_some(mb, ec), f.read_some(mb)); v.out += std::string(buf, 4) + std::string(buf2, 2); return "read_some of two buffers";
    case 14: BOTH_R(f.write_some(asio::buffer(buf, g.a), ec), f.write_some(asio::buffer(buf, g.a))); return "write_some";
    case 15: BOTH_R(f.write_some(cb, ec), f.write_some(cb)); return "write_some of two buffers";
    case 16: BOTH_R(f.read_some_at(offs[g.b], mb, ec), f.read_some_at(offs[g.b], mb)); v.out += std::string(buf, 4) + std::string(buf2, 2); return "read_some_at";
    case 17: BOTH_R(f.write_some_at(offs[g.b], cb, ec), f.write_some_at(offs[g.b], cb)); return "write_some_at";
    case 18: BOTH_V(f.close(ec), f.close()); return "close";
  }
  return nullptr;
}
const open_flags of[] = {open_flags::access_read | open_flags::open_existing, open_flags::access_read_write | open_flags::create_always, open_flags::access_write | open_flags::create_new, open_flags::access_read | open_flags::truncate_existing, open_flags::access_read_write | open_flags::open_always};
const char* paths[] = {"/sim/f", "/sim/none", "/sim/none/x", ""};
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
typedef boost::filesystem::path Path;
#else
typedef const char* Path;
#endif
template <typename F> void with_path(int i, F&& f) { if (name_form) { const char* p = paths[i]; f(p); } else { Path p(paths[i]); f(p); } }

struct Outcome { std::string what, out, calls, world; bool threw; error_code ec; int leaked; bool noneopen; };
std::string world_state(simfs::World& w)
{
  std::string s;
  for (auto& [n, i] : w.names) { s += n + "=" + (i->size < 100 ? i->text() : "") + "(" + std::to_string(i->size) + ") mode " + std::to_string(i->mode) + " at " + std::to_string(i->at.tv_sec) + "." + std::to_string(i->at.tv_nsec) + " mt " + std::to_string(i->mt.tv_sec) + "." + std::to_string(i->mt.tv_nsec) + ";"; }
  for (int i = 0; i < simfs::MAXFD; ++i) if (w.fds[i]) s += " fd" + std::to_string(i) + "->" + std::to_string(w.fds[i]->id) + "@" + std::to_string(w.fds[i]->pos);
  return s;
}
struct Plan { int at = -1, kind = 0, err = 0; int at2 = -1, err2 = 0; };
struct Test {
  mc::Ctx& c; int family, op, state; Args g; Plan plan;
  Outcome run(Mode mode)
  {
    Outcome o; simfs::World w; simfs::world = &w; simfs::simulate_paths = true;
    simfs::Inode* ino = w.create("/sim/f", "abcde"); int n = 0; bool armed = false; std::string calls;
    w.policy = [&](simfs::Call& x) {
      if (!armed) return;
      int k = n++;
      if (k == plan.at) { if (plan.kind == 1) x.force_errno = plan.err; else if (plan.kind == 2 && x.io()) x.limit = 1; else if (plan.kind == 3 && x.io()) x.limit = 0; }
      if (k == plan.at2) x.force_errno = plan.err2;
    };
    w.after = [&](const simfs::Call& x) { if (armed) calls += simfs::describe(x) + "\n"; };
    Env v; v.mode = mode; int open0 = 0; bool closed_obj = false;
    auto arm = [&] { armed = true; open0 = w.count_open(); };
    auto prep = [&]() -> int { static const int fl[] = {O_RDWR, O_RDONLY, O_WRONLY, -1}; return fl[state] == -1 ? -1 : ::open("/sim/f", fl[state] | O_CLOEXEC); };
    (void)ino;
    switch (family) {
      case 0: { file_handle h(prep()); arm(); o.what = std::string("file_handle: ") + common(v, h, op, g); armed = false; v.out += h.is_open() ? " open" : " closed"; closed_obj = !h.is_open(); error_code e; if (h.is_open()) h.close(e); break; }
      case 1: {
        unique_file_handle h; if (state != 3) h.reset(file_handle(prep())); arm();
        if (op < COMMON) o.what = std::string("unique_file_handle: ") + common(v, h, op, g);
        else { file_handle nh; if (g.a & 1) { armed = false; nh = file_handle(::open("/sim/f", O_RDONLY | O_CLOEXEC)); arm(); } o.what = "unique_file_handle: reset"; if (nh.is_open()) BOTH_V(h.reset(nh, ec), h.reset(nh)); else BOTH_V(h.reset(file_handle(), ec), h.reset(file_handle())); }
        armed = false; v.out += h.is_open() ? " open" : " closed"; break; }
      case 2: {
        asioext::file f(io()); if (state != 3) { error_code e; f.open("/sim/f", open_args(state == 0 ? open_flags::access_read_write | open_flags::open_existing : state == 1 ? open_flags::access_read | open_flags::open_existing : open_flags::access_write | open_flags::open_existing), e); if (e) c.internal("open: %s", e.message().c_str()); }
        arm();
        if (op < COMMON) o.what = std::string("file: ") + common(v, f, op, g);
        else if (op == COMMON) { open_args a(of[g.a]); o.what = "file: open"; with_path(g.b, [&](auto& p) { BOTH_V(f.open(p, a, ec), f.open(p, a)); }); }
        else if (op == COMMON + 1) { o.what = "file: cancel"; BOTH_V(f.cancel(ec), f.cancel()); }
        armed = false; v.out += f.is_open() ? " open" : " closed"; error_code e; f.close(e); break; }
      case 9: { // assigning a handle through the service (no throwing form)
        auto& svc = asio::use_service<asioext::thread_pool_file_service>(io()); asioext::thread_pool_file_service::implementation_type impl; svc.construct(impl);
        error_code e; if (g.a & 1) svc.open(impl, "/sim/f", open_args(open_flags::access_read | open_flags::open_existing), e);
        int fd = g.b & 1 ? ::open("/sim/f", O_RDWR | O_CLOEXEC) : -1; arm(); o.what = "thread_pool_file_service::assign";
        v.ec = mode == STALE ? stale_ec : error_code(); svc.assign(impl, fd, v.ec); bool took = !v.ec && fd != -1; armed = false;
        if (bool(v.ec) != bool(g.a & 1)) c.fail("%s: %s although the object %s a file", o.what.c_str(), v.ec ? ("reports " + v.ec.message()).c_str() : "succeeds", g.a & 1 ? "already has" : "has no");
        v.out = std::string(svc.is_open(impl) ? "open" : "closed") + (took ? " taken" : ""); if (mode == THROWING && v.ec) v.threw = true; error_code e2; svc.close(impl, e2); if (fd != -1 && !took) { if (!w.fds[fd - simfs::BASE]) c.fail("%s: fails but closes the handle", o.what.c_str()); ::close(fd); }
        svc.destroy(impl); if (w.count_open()) c.fail("%s leaks a handle", o.what.c_str()); break; }
      case 3: {
        open_args a(of[g.a]); arm(); bool got = false;
        if (op == 0) { o.what = "open()"; with_path(g.b, [&](auto& p) { both(v, [&](error_code& ec) { unique_file_handle h = asioext::open(p, a, ec); armed = false; return std::string(h.is_open() ? "open" : "closed"); }, [&] { unique_file_handle h = asioext::open(p, a); armed = false; return std::string(h.is_open() ? "open" : "closed"); }); }); }
        else if (op == 1) { o.what = "file constructor"; with_path(g.b, [&](auto& p) { both(v, [&](error_code& ec) { asioext::file h(io(), p, a, ec); armed = false; return std::string(h.is_open() ? "open" : "closed"); }, [&] { asioext::file h(io(), p, a); armed = false; return std::string(h.is_open() ? "open" : "closed"); }); }); }
        else { file_handle src(-1); armed = false; if (g.b < 3) src = file_handle(::open("/sim/f", O_RDWR)); w.nofile = g.b == 2 ? w.count_open() : simfs::MAXFD; arm(); o.what = "duplicate()"; both(v, [&](error_code& ec) { unique_file_handle h = duplicate(src, ec); armed = false; return std::string(h.is_open() ? "open" : "closed"); }, [&] { unique_file_handle h = duplicate(src); armed = false; return std::string(h.is_open() ? "open" : "closed"); });
               armed = false; o.leaked = w.count_open() - open0; error_code e; if (src.is_open()) src.close(e); got = true; }
        armed = false; if (!got) o.leaked = w.count_open() - open0; if (o.leaked) c.fail("%s leaks a handle", o.what.c_str());
        break; }
      case 4: { // read_file
        std::string s = "old"; Vec vec{1, 2}; LimVec lv; char buf[6] = "?????"; std::array<asio::mutable_buffer, 2> mb{asio::buffer(buf, g.a), asio::buffer(buf + g.a, 5 - g.a)};
        file_handle h(-1); bool byh = op & 1; if (byh) { if (g.b < 3) h = file_handle(::open("/sim/f", g.b == 1 ? O_WRONLY : O_RDONLY)); if (g.b == 2) ::lseek(h.native_handle(), 3, SEEK_SET); }
        arm();
        switch (op) {
          case 0: o.what = "read_file(name, string)"; with_path(g.b, [&](auto& p) { BOTH_V(read_file(p, s, ec), read_file(p, s)); }); break;
          case 1: o.what = "read_file(handle, string)"; BOTH_V(read_file(h, s, ec), read_file(h, s)); break;
          case 2: o.what = "read_file(name, vector)"; with_path(g.b, [&](auto& p) { BOTH_V(read_file(p, vec, ec), read_file(p, vec)); }); break;
          case 3: o.what = "read_file(handle, vector)"; BOTH_V(read_file(h, vec, ec), read_file(h, vec)); break;
          case 4: o.what = "read_file(name, limited container)"; with_path(g.b, [&](auto& p) { BOTH_V(read_file(p, lv, ec), read_file(p, lv)); }); break;
          case 5: o.what = "read_file(handle, limited container)"; BOTH_V(read_file(h, lv, ec), read_file(h, lv)); break;
          case 6: o.what = "read_file(name, buffers)"; with_path(g.b, [&](auto& p) { BOTH_V(read_file(p, mb, ec), read_file(p, mb)); }); break;
          case 7: o.what = "read_file(handle, buffers)"; BOTH_V(read_file(h, mb, ec), read_file(h, mb)); break;
        }
        armed = false; o.leaked = w.count_open() - open0; if (o.leaked) c.fail("%s leaves %d handles", o.what.c_str(), o.leaked);
        v.out += " " + s + "/" + std::string(vec.begin(), vec.end()) + "/" + std::string(lv.begin(), lv.end()) + "/" + buf; // partial contents must agree too
        error_code e; if (h.is_open()) h.close(e); break; }
      case 5: { // write_file
        std::array<asio::const_buffer, 2> cb{asio::buffer("xyz", g.a), asio::buffer("12345", 2)}; arm();
        o.what = "write_file"; with_path(g.b, [&](auto& p) { BOTH_V(write_file(p, cb, ec), write_file(p, cb)); });
        armed = false; o.leaked = w.count_open() - open0; if (o.leaked) c.fail("%s leaves %d handles", o.what.c_str(), o.leaked); break; }
      case 6: { arm();
        auto hs = [](file_handle h) { return std::to_string(h.native_handle()); };
        if (op == 0) { o.what = "get_stdin"; both(v, [&](error_code& ec) { return hs(get_stdin(ec)); }, [&] { return hs(get_stdin()); }); if (v.out != "0") c.fail("get_stdin() yields %s", v.out.c_str()); }
        if (op == 1) { o.what = "get_stdout"; both(v, [&](error_code& ec) { return hs(get_stdout(ec)); }, [&] { return hs(get_stdout()); }); if (v.out != "1") c.fail("get_stdout() yields %s", v.out.c_str()); }
        if (op == 2) { o.what = "get_stderr"; both(v, [&](error_code& ec) { return hs(get_stderr(ec)); }, [&] { return hs(get_stderr()); }); if (v.out != "2") c.fail("get_stderr() yields %s", v.out.c_str()); }
        if (v.ec) c.fail("%s %s '%s' although it found the stream", o.what.c_str(), v.mode == STALE ? "leaves" : "reports", v.ec.message().c_str());
        armed = false; break; }
      case 7: { arm();
        static const char* urls[] = {"http://h/p?q#f", "http://h:99999/", "http:", "", "http://u:p@h:80", "://", "http://[::1]:1/x"};
        std::string text = urls[g.a]; o.what = "url_view";
        auto r = [](const url_view& u) { std::string s; for (auto x : {u.scheme(), u.host(), u.port(), u.path(), u.query(), u.fragment()}) s += std::string(x) + "|"; return s; };
        both(v, [&](error_code& ec) { url_view u(text, ec); return r(u); }, [&] { url_view u(text); return r(u); }); armed = false; break; }
      case 8: { arm();
        linear_buffer b(2, 6); auto d = dynamic_buffer(b); o.what = "prepare"; // the throwing form throws length_error
        v.ec = mode == STALE ? stale_ec : error_code();
        if (mode != THROWING) v.out = str(d.prepare(g.a, v.ec).size()); else try { v.out = str(d.prepare(g.a).size()); } catch (std::length_error&) { v.threw = true; v.out = "-"; }
        v.out += ":" + str(v.threw || v.ec ? 0 : 1); armed = false; break; }
    }
    o.out = v.out; o.threw = v.threw; o.ec = v.ec; o.calls = calls; o.world = world_state(w);
    (void)closed_obj;
    w.policy = nullptr; w.after = nullptr; simfs::world = nullptr; n_calls = n;
    return o;
  }
  int n_calls = 0;
  std::string where() { return " (arguments " + std::to_string(g.a) + "," + std::to_string(g.b) + ", object state " + std::to_string(state) + ")"; }
  void compare(const Outcome& a, const Outcome& b, const char* form)
  {
    c.step();
    const bool lenerr = family == 8;
    if (bool(a.ec) != (b.threw ? true : bool(b.ec))) c.fail("%s%s: %s %s '%s', the error-code form with a clean error object reports '%s'\ncalls:\n%s", a.what.c_str(), where().c_str(), form, b.threw ? "throws" : "reports", b.ec.message().c_str(), a.ec.message().c_str(), a.calls.c_str());
    if (!lenerr && a.ec != b.ec && (a.ec || b.ec)) c.fail("%s%s: %s gives '%s' instead of '%s'", a.what.c_str(), where().c_str(), form, b.ec.message().c_str(), a.ec.message().c_str());
    if (b.threw && !b.ec && !lenerr) c.fail("%s%s: %s throws without an error", a.what.c_str(), where().c_str(), form);
    std::string bo = b.out;
    if (b.threw && !bo.empty() && bo[0] == '-') { size_t k = a.out.find(' '); bo = k == std::string::npos ? a.out : bo.substr(1); std::string ao = k == std::string::npos ? a.out : a.out.substr(k); if (k != std::string::npos && bo != ao && family != 0 && family != 1 && family != 2) c.fail("%s%s: %s leaves '%s', the error-code form '%s'", a.what.c_str(), where().c_str(), form, bo.c_str(), ao.c_str()); if (k != std::string::npos && family <= 2 && bo.substr(bo.rfind(' ')) != ao.substr(ao.rfind(' '))) c.fail("%s%s: after %s the object is%s, after the error-code form%s", a.what.c_str(), where().c_str(), form, bo.substr(bo.rfind(' ')).c_str(), ao.substr(ao.rfind(' ')).c_str()); }
    else if (bo != a.out) c.fail("%s%s: %s yields '%s' instead of '%s'", a.what.c_str(), where().c_str(), form, bo.c_str(), a.out.c_str());
    if (a.calls != b.calls) c.fail("%s%s: %s makes other system calls:\n%sinstead of\n%s", a.what.c_str(), where().c_str(), form, b.calls.c_str(), a.calls.c_str());
    if (a.world != b.world) c.fail("%s%s: %s leaves '%s' instead of '%s'", a.what.c_str(), where().c_str(), form, b.world.c_str(), a.world.c_str());
  }
  // a failing operation fabricates nothing
  void no_output(const Outcome& a)
  {
    if (!a.ec) return;
    if (family <= 2 && op < COMMON) {
      static const bool value[] = {1, 1, 1, 0, 1, 0, 0, 1, 0, 0, 1, 0, 1, 1, 1, 1, 1, 1, 0};
      std::string first = a.out.substr(0, a.out.find(' '));
      if (value[op]) {
        bool zero = op == 10 ? first == str(file_times()) : first[0] == '0' && (first.size() == 1 || !isdigit((unsigned char)first[1]));
        if (!zero) c.fail("%s%s: fails with '%s' but returns '%s'", a.what.c_str(), where().c_str(), a.ec.message().c_str(), first.c_str());
      }
    }
    if (family == 3 && a.out != "closed") c.fail("%s%s: fails with '%s' but returns a handle", a.what.c_str(), where().c_str(), a.ec.message().c_str());
  }
};
void run(mc::Ctx& c)
{
  Test t{c}; static const int ops[] = {COMMON, COMMON + 1, COMMON + 2, 3, 8, 1, 3, 1, 1, 1};
  t.family = c.choose(10, "family"); t.op = c.choose(ops[t.family], "operation"); t.state = t.family <= 2 ? c.choose(4, "object state") : 0;
  int na = 4, nb = 4; if (t.family == 3 || (t.family == 2 && t.op == COMMON)) na = 5; if (t.family == 7) na = 7, nb = 1; if (t.family == 8) na = 7, nb = 1; if (t.family == 9) na = nb = 2; if (t.family == 6) na = nb = 1;
  if (t.family == 4) na = t.op >= 6 ? 4 : 1;
  t.g.a = c.choose(na, "a"); t.g.b = c.choose(nb, "b");
  if (c.flag("a system call misbehaves")) {
    t.plan.at = c.choose(c.thorough() ? 12 : 8, "call");
    t.plan.kind = 1 + c.choose(3, "how");
    static const int es[] = {EIO, EINTR, EACCES, ENOSPC, EBADF, EMFILE, EINVAL};
    if (t.plan.kind == 1) { t.plan.err = es[c.choose(7, "errno")]; if (t.plan.err == EINTR || c.thorough() || t.family >= 3) { if (c.flag("another one fails too")) { t.plan.at2 = t.plan.at + 1 + c.choose(3, "which"); t.plan.err2 = es[c.choose(3, "errno")]; } } }
  }
  name_form = false;
  Outcome a = t.run(CLEAN);
  c.note("%s%s -> %s '%s' calls:\n%s", a.what.c_str(), t.where().c_str(), a.ec.message().c_str(), a.out.c_str(), a.calls.c_str());
  t.no_output(a);
  Outcome b = t.run(STALE); t.compare(a, b, "the form with a stale error object");
  Outcome d = t.run(THROWING); t.compare(a, d, "the throwing form");
  name_form = true;
  Outcome n = t.run(CLEAN); t.compare(a, n, "the form taking the name as a C string");
  name_form = false;
  c.cover(a.ec ? "failure" : "success"); if (a.ec == stale_ec) c.internal("stale");
  uint64_t h = mc::mix(t.family * 100 + t.op, t.state); h = mc::hstr(h, a.calls); h = mc::hstr(h, a.out); c.state(mc::mix(h, a.ec.value()));
  c.interesting();
}
}
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C24"; return mc::main_explore(argc, argv, cfg, run); }
