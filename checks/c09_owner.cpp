// C09: histories of owning file handles, with failing closes and duplications, against an ownership model.
#include "mc.hpp"
#include "simfs.hpp"
#include <asioext/file_handle.hpp>
#include <asioext/unique_file_handle.hpp>
#include <asioext/duplicate.hpp>
#include <asioext/open.hpp>
#include <memory>
#include <new>

namespace {
using asioext::error_code;
using asioext::unique_file_handle;
using asioext::file_handle;
#ifndef SLOTS
#define SLOTS 2
#endif

enum OpK { OPEN, OPEN_EC, RESET, RESET_EC, CLOSE, CLOSE_EC, RELEASE, MOVE_CTOR, MOVE_ASSIGN, SWAP, DESTROY, DUP, DUP_EC, FROM_NATIVE, ASSIGN_TEMP, VIA_COPY, NOPS };
const char* opn[] = {"assign opened", "assign opened (ec)", "reset", "reset(ec)", "close", "close(ec)", "release", "move-construct", "move-assign", "swap", "destroy", "duplicate", "duplicate(ec)", "construct from native", "assign empty", "query"};

struct H { int ofd = -1; int fd = -1; };  // an owned handle: identity of the open file + descriptor
struct Slot { alignas(unique_file_handle) unsigned char mem[sizeof(unique_file_handle)]; unique_file_handle* p = nullptr; H own; };

struct Run {
  mc::Ctx& c; simfs::World w; Slot s[SLOTS]; std::vector<H> released; std::string hist; int failing = -1; // errno chosen for the close of this step
  std::vector<std::pair<int,int>> closes; // (fd, open file id) of this step
  explicit Run(mc::Ctx& c) : c(c)
  {
    simfs::world = &w; w.create("/sim/a", "abc");
    w.policy = [this](simfs::Call& cl) {
      if (cl.op == simfs::Op::close) {
        if (!cl.ofd) this->c.fail("%s: close of descriptor %d, which is not open", hist.c_str(), cl.fd);
        closes.push_back({cl.fd, cl.ofd->id * 100 + cl.fd});
        static const int e[] = {0, EIO, EINTR};
        int k = this->c.choose_dev(3, "close");
        cl.force_errno = e[k]; if (k && failing <= 0) failing = e[k];
      }
      if (cl.op == simfs::Op::dup) { static const int e[] = {0, EMFILE}; int k = this->c.choose(2, "dup"); cl.force_errno = e[k]; dupfail = k; }
      if (cl.op == simfs::Op::open) { static const int e[] = {0, EACCES}; int k = this->c.choose(2, "open"); cl.force_errno = e[k]; openfail = k; }
    };
  }
  bool dupfail = false, openfail = false;
  H raw_open()
  {
    auto p = w.policy; w.policy = nullptr;
    int fd = ::open("/sim/a", O_RDWR);
    w.policy = p;
    if (fd < 0) c.internal("open");
    return {w.fds[fd - simfs::BASE]->id * 100 + fd, fd};
  }
  static H none() { return {}; }
  template <typename F> error_code thr(F f) { try { f(); return error_code(); } catch (MC_SYSTEM_ERROR& e) { return e.code(); } }
  void expect_closes(const char* what, std::vector<H> e)
  {
    if (e.size() != closes.size()) c.fail("%s: %s closed %zu handles, expected %zu", hist.c_str(), what, closes.size(), e.size());
    for (size_t i = 0; i < e.size(); ++i) if (closes[i].second != e[i].ofd) c.fail("%s: %s closed descriptor %d, expected %d", hist.c_str(), what, closes[i].first, e[i].fd);
  }
  void expect_ec(const char* what, const error_code& ec)
  {
    int e = failing > 0 ? failing : 0;
    if (e ? ec.value() != e || ec.category() != asio::error::get_system_category() : bool(ec)) c.fail("%s: %s reported '%s', the close %s", hist.c_str(), what, ec.message().c_str(), e ? strerrorname_np(e) : "succeeded");
  }
  void verify()
  {
    int owned = 0;
    for (int i = 0; i < SLOTS; ++i) {
      Slot& x = s[i];
      if (!x.p) continue;
      int fd = x.p->get().native_handle();
      if (fd != x.own.fd) c.fail("%s: object %d holds descriptor %d, expected %d", hist.c_str(), i, fd, x.own.fd);
      if (x.p->is_open() != (x.own.fd != -1)) c.fail("%s: object %d is_open() is wrong", hist.c_str(), i);
      if (x.own.fd != -1) {
        ++owned;
        if (!w.fds[fd - simfs::BASE] || w.fds[fd - simfs::BASE]->id * 100 + fd != x.own.ofd) c.fail("%s: the handle of object %d was closed behind its back", hist.c_str(), i);
      }
    }
    for (auto& h : released) { if (!w.fds[h.fd - simfs::BASE] || w.fds[h.fd - simfs::BASE]->id * 100 + h.fd != h.ofd) c.fail("%s: a released handle was closed", hist.c_str()); }
    if (w.count_open() != owned + (int)released.size()) c.fail("%s: %d descriptors are open, %d are owned: a handle leaked", hist.c_str(), w.count_open(), owned + (int)released.size());
  }
  void step()
  {
    failing = -1; closes.clear(); dupfail = openfail = false;
    int i = c.choose(SLOTS, "object");
    if (!s[i].p) {
      int k = c.choose(3, "construct"); hist += " | " + std::string(1, 'a' + i) + ": ";
      if (k == 0) { hist += "default"; s[i].p = new (s[i].mem) unique_file_handle; s[i].own = none(); }
      else if (k == 1) { hist += "from file_handle"; H h = raw_open(); s[i].p = new (s[i].mem) unique_file_handle(file_handle(h.fd)); s[i].own = h; }
      else { hist += "from native"; H h = raw_open(); s[i].p = new (s[i].mem) unique_file_handle(h.fd); s[i].own = h; }
      expect_closes("construction", {});
      return;
    }
    Slot& x = s[i]; int op = c.choose(NOPS, "operation");
    hist += " | " + std::string(1, 'a' + i) + ": " + opn[op];
    H old = x.own; std::vector<H> oldv; if (old.fd != -1) oldv.push_back(old);
    auto sec = [&] { return error_code(asio::error::address_in_use); };
    switch (op) {
      case OPEN: case OPEN_EC: {
        error_code oec = sec(); int before = (int)w.ofds.size();
        error_code ec;
        if (op == OPEN) ec = thr([&] { *x.p = asioext::open("/sim/a", asioext::open_flags::access_read | asioext::open_flags::open_existing); });
        else { unique_file_handle n = asioext::open("/sim/a", asioext::open_flags::access_read | asioext::open_flags::open_existing, oec);
          if (openfail ? oec.value() != EACCES || n.is_open() : bool(oec) || !n.is_open()) c.fail("%s: open(ec): %s", hist.c_str(), oec.message().c_str());
          ec = thr([&] { *x.p = std::move(n); }); 
          if (!failing_seen() && n.is_open()) c.fail("%s: the source of a move assignment is still open", hist.c_str()); }
        if (op == OPEN && openfail) { if (ec.value() != EACCES) c.fail("%s: open: %s", hist.c_str(), ec.message().c_str()); expect_closes(opn[op], {}); break; }
        // the new handle: the last open file that was created
        H nh = none(); if ((int)w.ofds.size() > before) for (auto& cl : w.log) if (cl.op == simfs::Op::open && cl.result >= 0) nh = {cl.ofd_id * 100 + (int)cl.result, (int)cl.result};
        finish_assign(x, oldv, ec, nh, opn[op]);
        break;
      }
      case RESET: case RESET_EC: {
        bool with = c.flag("with a handle"); H n = with ? raw_open() : none();
        error_code ec = sec();
        if (op == RESET) ec = thr([&] { x.p->reset(with ? file_handle(n.fd) : file_handle()); }); else x.p->reset(with ? file_handle(n.fd) : file_handle(), ec);
        expect_closes(opn[op], oldv); expect_ec(opn[op], ec);
        x.own = n; // ownership is transferred, also if the old handle could not be closed cleanly
        break;
      }
      case CLOSE: { error_code ec = thr([&] { x.p->close(); }); expect_closes("close", oldv); expect_ec("close", ec); x.own = none(); break; }
      case CLOSE_EC: { error_code ec = sec(); x.p->close(ec); expect_closes("close", oldv); expect_ec("close", ec); x.own = none(); break; }
      case RELEASE: { file_handle h = x.p->release(); expect_closes("release", {}); if (h.native_handle() != old.fd) c.fail("%s: release returned %d instead of %d", hist.c_str(), h.native_handle(), old.fd); if (old.fd != -1) released.push_back(old); x.own = none(); break; }
      case MOVE_CTOR: {
        int j = c.choose(SLOTS, "to"); if (j == i) { unique_file_handle t(std::move(*x.p)); if (x.p->is_open()) c.fail("%s: a moved-from object is open", hist.c_str()); unique_file_handle u(std::move(t)); x.p->~unique_file_handle(); expect_closes("moving", {}); x.p = new (x.mem) unique_file_handle(std::move(u)); expect_closes("moving", {}); break; }
        if (s[j].p) { H jo = s[j].own; s[j].p->~unique_file_handle(); s[j].p = nullptr; std::vector<H> e; if (jo.fd != -1) e.push_back(jo); expect_closes("destruction", e); }
        closes.clear();
        s[j].p = new (s[j].mem) unique_file_handle(std::move(*x.p)); s[j].own = old; x.own = none(); expect_closes("move construction", {});
        break;
      }
      case MOVE_ASSIGN: {
        int j = c.choose(SLOTS, "from"); if (!s[j].p) { s[j].p = new (s[j].mem) unique_file_handle; s[j].own = none(); }
        error_code ec = thr([&] { *x.p = std::move(*s[j].p); });
        if (i == j) { // self: kept, or closed once
          if (closes.empty()) { if (ec) c.fail("%s: %s", hist.c_str(), ec.message().c_str()); break; }
          expect_closes("self move assignment", oldv); expect_ec("self move assignment", ec); x.own = none(); break;
        }
        expect_closes("move assignment", oldv); expect_ec("move assignment", ec);
        if (!ec || x.p->get().native_handle() != -1) { x.own = s[j].own; s[j].own = none(); } else x.own = none(); // after a failure either side owns it
        break;
      }
      case SWAP: {
        int j = (i + 1) % SLOTS; if (!s[j].p || j == i) break;
        error_code ec = thr([&] { std::swap(*x.p, *s[j].p); }); if (ec) c.fail("%s: swap threw %s", hist.c_str(), ec.message().c_str());
        expect_closes("swap", {}); std::swap(x.own, s[j].own);
        break;
      }
      case DESTROY: { x.p->~unique_file_handle(); x.p = nullptr; expect_closes("destruction", oldv); x.own = none(); break; }
      case DUP: case DUP_EC: {
        int before = w.count_open();
        error_code ec = sec(); error_code aec;
        file_handle g = x.p->get();
        unique_file_handle* d = nullptr; alignas(unique_file_handle) unsigned char dm[sizeof(unique_file_handle)];
        if (op == DUP) ec = thr([&] { d = new (dm) unique_file_handle(asioext::duplicate(g)); }); else d = new (dm) unique_file_handle(asioext::duplicate(g, ec));
        expect_closes(opn[op], {});
        bool fails = old.fd == -1 || dupfail; int fe = old.fd == -1 ? EBADF : EMFILE;
        if (fails ? ec.value() != fe : bool(ec)) c.fail("%s: duplicate reported '%s', expected %s", hist.c_str(), ec.message().c_str(), fails ? strerrorname_np(fe) : "success");
        if (fails && d && d->is_open()) c.fail("%s: duplicate failed but returned an open handle", hist.c_str());
        if (w.count_open() != before + !fails) c.fail("%s: duplicate", hist.c_str());
        if (fails) { if (d) d->~unique_file_handle(); expect_closes(opn[op], {}); break; }
        int fd = d->get().native_handle();
        if (fd == old.fd || fd < simfs::BASE || !w.fds[fd - simfs::BASE] || w.fds[fd - simfs::BASE] != w.fds[old.fd - simfs::BASE]) c.fail("%s: duplicate returned %d for %d", hist.c_str(), fd, old.fd);
        int j = c.choose(SLOTS, "to");
        H nh = {w.fds[fd - simfs::BASE]->id * 100 + fd, fd};
        if (!s[j].p) { s[j].p = new (s[j].mem) unique_file_handle; s[j].own = none(); }
        std::vector<H> e; if (s[j].own.fd != -1) e.push_back(s[j].own);
        aec = thr([&] { *s[j].p = std::move(*d); });
        expect_closes("assigning a duplicate", e); expect_ec("assigning a duplicate", aec);
        if (!aec || s[j].p->get().native_handle() != -1) s[j].own = nh; else s[j].own = none();
        bool f = s[j].own.fd == -1; closes.clear(); failing = -1;
        d->~unique_file_handle();
        expect_closes("destruction", f ? std::vector<H>{nh} : std::vector<H>{});
        break;
      }
      case FROM_NATIVE: { H n = raw_open(); error_code ec = thr([&] { *x.p = unique_file_handle(n.fd); }); finish_assign(x, oldv, ec, n, opn[op]); break; }
      case ASSIGN_TEMP: { error_code ec = thr([&] { *x.p = unique_file_handle(); }); expect_closes(opn[op], oldv); expect_ec(opn[op], ec); x.own = none(); break; }
      case VIA_COPY: { // looking at the handle never changes ownership; operations on an empty one fail without touching a file
        file_handle g = x.p->get(); const unique_file_handle& k = *x.p; (void)k.is_open(); (void)x.p->lowest_layer().is_open();
        size_t calls = w.log.size(); error_code ec; x.p->size(ec);
        if (old.fd == -1 ? ec.value() != EBADF || w.log.size() != calls : bool(ec)) c.fail("%s: size of %s: %s", hist.c_str(), old.fd == -1 ? "an empty handle" : "an open file", ec.message().c_str());
        g.clear(); expect_closes(opn[op], {});
        break;
      }
    }
  }
  bool failing_seen() { return failing > 0; }
  // assignment of a temporary owning nh (none if opening failed) to x; the temporary is gone
  void finish_assign(Slot& x, std::vector<H> oldv, error_code ec, H nh, const char* what)
  {
    // closes: the old handle, and the temporary's if the assignment failed and left it with the source
    if (closes.size() < oldv.size() || (oldv.size() && closes[0].second != oldv[0].ofd)) c.fail("%s: %s did not close the old handle", hist.c_str(), what);
    if (!ec) { expect_closes(what, oldv); x.own = nh; if (failing > 0) c.fail("%s: %s swallowed the error %s", hist.c_str(), what, strerrorname_np(failing)); return; }
    if (failing <= 0) c.fail("%s: %s reported '%s'", hist.c_str(), what, ec.message().c_str());
    if (ec.value() != failing) c.fail("%s: %s reported '%s' for %s", hist.c_str(), what, ec.message().c_str(), strerrorname_np(failing));
    // failed: either the temporary closed its handle again or the object owns it
    if (x.p->get().native_handle() != -1) { expect_closes(what, oldv); x.own = nh; }
    else { if (nh.fd != -1) oldv.push_back(nh); expect_closes(what, oldv); x.own = none(); }
  }
  void run()
  {
    int depth = c.thorough() ? (SLOTS == 2 ? 5 : 4) : (SLOTS == 2 ? 4 : 3), pdepth = c.thorough() ? 8 : 6;
    bool prune = c.flag("pruned");
    int n = prune ? pdepth : depth;
    c.set_bound(prune ? 2 : 3);
    for (int i = 0; i < n; ++i) {
      step(); verify(); c.step();
      uint64_t h = mc::mix(n - i, released.size());
      for (int k = 0; k < SLOTS; ++k) h = mc::mix(h, s[k].p ? s[k].own.fd + 2 : 0), h = mc::mix(h, s[k].own.fd >= 0 ? (uint64_t)w.fds[s[k].own.fd - simfs::BASE]->refs : 9);
      for (int f = 0; f < 12; ++f) h = mc::mix(h, w.fds[f] != nullptr);
      int same = 0; for (int k = 1; k < SLOTS; ++k) for (int q = 0; q < k; ++q) same = same * 2 + (s[k].own.fd >= 0 && s[q].own.fd >= 0 && s[k].own.ofd / 100 == s[q].own.ofd / 100);
      h = mc::mix(h, same); h = mc::mix(h, c.budget());
      c.state(h);
      if (prune && c.seen(mc::mix(h, 77))) { w.policy = nullptr; for (auto& x : s) if (x.p) x.p->~unique_file_handle(); simfs::world = nullptr; return; }
    }
    for (int k = 0; k < SLOTS; ++k) if (s[k].p) { H o = s[k].own; closes.clear(); failing = -1; hist += " | destroy"; s[k].p->~unique_file_handle(); s[k].p = nullptr; std::vector<H> e; if (o.fd != -1) e.push_back(o); expect_closes("destruction", e); s[k].own = none(); }
    verify();
    if (released.size()) c.interesting();
    c.cover(released.size() ? "with released handles" : "without released handles");
    w.policy = nullptr; simfs::world = nullptr;
  }
};
void run(mc::Ctx& c) { Run r(c); r.run(); }
}
int main(int argc, char** argv)
{
  mc::Config cfg; cfg.property = "C09";
  return mc::main_explore(argc, argv, cfg, run);
}
