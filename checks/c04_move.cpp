// C04: every sequence of opening, moving, using, cancelling, closing and destroying file objects against a model of who
// owns which handle and which operations. The pool threads only run when the program says so (no scheduling choices).
#include "async_env.hpp"
#include <algorithm>

namespace {
asioext::open_flags RW = asioext::open_flags::access_read_write | asioext::open_flags::open_existing;
const char* paths[] = {"/sim/0", "/sim/1", "/sim/2"};
const char* texts[] = {"abcdefgh", "ABCDEFGH", "01234567"};
enum Fate { PENDING, DONE, ABORTED, FAILED, BAD };
const char* fates[] = {"pending", "done", "aborted", "failed", "bad_descriptor"};
struct M { bool exists = false, open = false; int inode = -1, ctx = 0, fd = -1; int64_t pos = 0; std::vector<int> pend; };
template <typename F> struct Run : Env {
  std::unique_ptr<asio::io_context> x[2];
  std::unique_ptr<F> f[3];
  M m[3];
  std::vector<Fate> fate;
  bool fds[4] = {};
  int opened = 0, closed = 0;
  error_code ec_closed_cancel;
  Run(mc::Ctx& c) : Env(c) { foreign = true; for (auto& p : x) p.reset(new asio::io_context); }
  void own(int i, int inode) { m[i].open = true; m[i].inode = inode; m[i].pos = 0; for (int k = 0; k < 4; ++k) if (!fds[k]) { fds[k] = true; m[i].fd = simfs::BASE + k; break; } ++opened; }
  void drop(int i, Fate fa) // the file stops owning its handle
  {
    if (!m[i].open) return;
    fds[m[i].fd - simfs::BASE] = false; m[i].open = false; m[i].fd = -1; ++closed;
    for (int o : m[i].pend) if (fate[o] == PENDING) fate[o] = fa;
    m[i].pend.clear();
  }
  void executed() { for (auto& y : fate) if (y == PENDING) y = DONE; for (auto& y : m) y.pend.clear(); }
  void check(const char* what)
  {
    for (int i = 0; i < 3; ++i) {
      if (!m[i].exists) continue;
      if (f[i]->is_open() != m[i].open) c.fail("after %s: file %d is %s", what, i, m[i].open ? "not open" : "open");
      if (m[i].open && f[i]->native_handle() != m[i].fd) c.fail("after %s: file %d owns handle %d instead of %d", what, i, f[i]->native_handle(), m[i].fd);
      if (m[i].open && (!w.fds[m[i].fd - simfs::BASE] || w.fds[m[i].fd - simfs::BASE]->inode->id != m[i].inode)) c.fail("after %s: the handle of file %d isn't open any more", what, i);
    }
    if (w.count_open() != opened - closed) c.fail("after %s: %d handles are open instead of %d", what, w.count_open(), opened - closed);
  }
  void open(int i, int path)
  {
    error_code ec = asio::error::host_not_found;
    f[i]->open(paths[path], RW, ec);
    if (m[i].open) { if (ec != asio::error::already_open) c.fail("opening the open file %d reports '%s'", i, ec.message().c_str()); return; }
    if (ec) c.fail("opening file %d reports '%s'", i, ec.message().c_str());
    own(i, path);
  }
  void close(int i)
  {
    error_code ec = asio::error::host_not_found;
    bool was = m[i].open;
    f[i]->close(ec);
    if (was && ec) c.fail("closing file %d reports '%s'", i, ec.message().c_str());
    drop(i, FAILED);
  }
  void start(int i, Kind k = READ_AT)
  {
    OpRec& o = record(k, i, m[i].open ? m[i].inode : -1, (uint64_t)(ops.size() % 5) + 1, 2, m[i].ctx);
    initiate(*f[i], o, Handler(*this, o));
    fate.push_back(m[i].open ? PENDING : BAD);
    if (m[i].open) m[i].pend.push_back(o.id);
  }
  void cancel(int i)
  {
    error_code ec = asio::error::host_not_found;
    f[i]->cancel(ec);
    if (!m[i].open) { if (ec != ec_closed_cancel) c.fail("cancel() of the closed file %d reports '%s', of a fresh one '%s'", i, ec.message().c_str(), ec_closed_cancel.message().c_str()); return; }
    if (ec) c.fail("cancel() of file %d reports '%s'", i, ec.message().c_str());
    for (int o : m[i].pend) if (fate[o] == PENDING) fate[o] = ABORTED;
    m[i].pend.clear();
  }
  void sync(int i)
  {
    unsigned char b[2] = {0xEE, 0xEE};
    error_code ec = asio::error::host_not_found;
    std::size_t n = f[i]->read_some(asio::buffer(b, 2), ec);
    if (!m[i].open) { if (ec != asio::error::bad_descriptor || n) c.fail("reading the closed file %d: '%s', %zu", i, ec.message().c_str(), n); return; }
    int64_t left = 8 - m[i].pos; std::size_t want = left < 2 ? (std::size_t)left : 2;
    if (n != want || (want ? !!ec : ec != asio::error::eof) || memcmp(b, w.inodes[m[i].inode]->text().data() + m[i].pos, n)) c.fail("reading file %d gives %zu bytes '%.*s', '%s'", i, n, (int)n, b, ec.message().c_str());
    m[i].pos += (int64_t)n;
    if (f[i]->get_executor() != x[m[i].ctx]->get_executor()) c.fail("file %d has the executor of another context", i);
  }
  void drain()
  {
    executed();
    for (int r = 0; r < 2; ++r) { running[0] = r; x[r]->restart(); x[r]->run(); running[0] = -1; }
    for (auto& o : ops) verdict(o);
  }
  void verdict(OpRec& o)
  {
    sched::Quiet q;
    Fate fa = fate[o.id];
    if (o.calls != 1 || o.destroyed != 1) c.fail("operation %d (%s): handler called %d times, destroyed %d times", o.id, fates[fa], o.calls, o.destroyed);
    switch (fa) {
      case DONE:
        if (o.aborted()) c.fail("operation %d of file %d was aborted although nothing cancelled it", o.id, o.file);
        check_result(o);
        if (o.hit_inode != o.inode) c.fail("operation %d accessed another file", o.id);
        break;
      case ABORTED: if (!o.aborted() || o.effects) c.fail("operation %d of file %d should have been aborted by cancel(), but: '%s', %d accesses", o.id, o.file, o.ec.message().c_str(), o.effects); break;
      case FAILED: if (!o.ec || o.effects || o.n) c.fail("operation %d of file %d should have failed when its file was closed, but: '%s', %d accesses", o.id, o.file, o.ec.message().c_str(), o.effects); break;
      case BAD: if (!o.ec || o.effects || o.n) c.fail("operation %d was started on a closed file, but: '%s', %d accesses", o.id, o.ec.message().c_str(), o.effects); break;
      default: c.internal("fate");
    }
  }
  uint64_t hash(int left)
  {
    uint64_t h = mc::mix(77, (uint64_t)left);
    for (auto& y : m) {
      h = mc::mix(h, y.exists * 8 + y.open * 4 + (y.exists ? y.ctx : 0)); h = mc::mix(h, y.open ? (uint64_t)(y.inode * 64 + y.fd) : 99); h = mc::mix(h, y.open ? (uint64_t)y.pos : 0);
      h = mc::mix(h, y.pend.size());
    }
    for (auto fa : fate) h = mc::mix(h, fa); // conservative: all operations so far
    for (auto& o : ops) h = mc::mix(h, (uint64_t)o.calls * 4 + o.ctx);
    return h;
  }
};
template <typename F> void go(mc::Ctx& c, int depth, bool prune, int maxops)
{
  Run<F> e(c);
  for (int i = 0; i < 3; ++i) e.w.create(paths[i], texts[i]);
  sched::Options so; so.locks = false; so.races = false;
  e.begin(so);
  sched::calm(true);
  { F fresh(*e.x[0]); fresh.cancel(e.ec_closed_cancel); }
  bool nonfresh = false;
  for (int d = 0; d < depth; ++d) {
    int a[64], n = 0;
    a[n++] = 0; // stop
    bool first = true;
    for (int i = 0; i < 3; ++i) {
      if (!e.m[i].exists) {
        if (first) { a[n++] = 100 + i; a[n++] = 110 + i; first = false; // lowest free slot: create on context 0/1, move construct
          for (int j = 0; j < 3; ++j) if (e.m[j].exists) a[n++] = 200 + i * 10 + j; }
        continue;
      }
      if (!e.m[i].open) a[n++] = 120 + i;
      else a[n++] = 130 + i;
      if ((int)e.ops.size() < maxops) a[n++] = 140 + i;
      a[n++] = 150 + i; a[n++] = 160 + i; a[n++] = 170 + i;
      for (int j = 0; j < 3; ++j) if (j != i && e.m[j].exists) a[n++] = 300 + i * 10 + j;
    }
    bool p = false; for (auto& y : e.m) p |= !y.pend.empty();
    if (p) a[n++] = 180; 
    bool q = false; for (auto& o : e.ops) q |= !o.calls;
    if (q) a[n++] = 181;
    int k = a[c.choose(n, "step")];
    if (!k) break;
    char what[80];
    int i = k % 10, j = -1;
    if (k >= 200) { j = k % 10; i = k / 10 % 10; }
    static const char* nm[] = {"create on context 0", "create on context 1", "open", "close", "start a read", "cancel", "synchronous read", "destroy"};
    if (k >= 300) snprintf(what, sizeof what, "move assignment of %d to %d", j, i);
    else if (k >= 200) snprintf(what, sizeof what, "move construction of %d from %d", i, j);
    else if (k >= 180) snprintf(what, sizeof what, k == 180 ? "pool threads run" : "contexts run");
    else snprintf(what, sizeof what, "%s %d", nm[(k - 100) / 10], i);
    if (c.logging) c.note("%s", what);
    M& t = e.m[i];
    switch (k / 10) {
      case 10: case 11: e.f[i].reset(new F(*e.x[k / 10 - 10])); t = M(); t.exists = true; t.ctx = k / 10 - 10; break;
      case 12: e.open(i, i); break;
      case 13: e.close(i); break;
      case 14: e.start(i, e.ops.size() % 2 ? WRITE_AT : READ_AT); break;
      case 15: e.cancel(i); break;
      case 16: e.sync(i); break;
      case 17: e.f[i].reset(); e.drop(i, FAILED); t = M(); break;
      case 18: if (k == 180) { sched::settle(); sched::calm(true); e.executed(); } else e.drain(); break;
      case 20: case 21: case 22:
        e.f[i].reset(new F(std::move(*e.f[j]))); t = e.m[j]; e.m[j].open = false; e.m[j].fd = -1; e.m[j].pend.clear(); nonfresh = true; break;
      case 30: case 31: case 32: {
        F& r = (*e.f[i] = std::move(*e.f[j]));
        if (&r != e.f[i].get()) c.fail("move assignment doesn't return the object");
        e.drop(i, FAILED); t = e.m[j]; e.m[j].open = false; e.m[j].fd = -1; e.m[j].pend.clear(); nonfresh = true; break;
      }
    }
    e.check(what);
    if (prune && c.seen(e.hash(depth - d))) { c.cover("pruned"); break; }
  }
  if (nonfresh) c.interesting();
  // Epilogue: every object is as good as new
  if (c.logging) c.note("epilogue");
  for (int i = 0; i < 3; ++i) {
    if (!e.m[i].exists) continue;
    e.sync(i); e.cancel(i); e.start(i); e.start(i, WRITE_AT); e.cancel(i); e.start(i);
  }
  e.drain();
  e.check("epilogue");
  for (int i = 0; i < 3; ++i) {
    if (!e.m[i].exists) continue;
    e.start(i); e.close(i); e.check("closing");
    e.start(i); e.open(i, i); e.check("reopening");
    e.sync(i); e.start(i); e.cancel(i); e.start(i);
  }
  e.drain();
  e.check("reuse");
  for (int i = 2; i >= 0; --i) if (e.m[i].exists) {
    e.start(i);
    e.f[i].reset(); e.drop(i, FAILED); e.m[i] = M();
    e.check("destruction");
  }
  e.drain();
  for (auto& y : e.x) y.reset();
  sched::calm(false);
  sched::end();
  e.check_fds_closed();
  c.step(e.ops.size());
  uint64_t h = 5; for (auto fa : e.fate) h = mc::mix(h, fa); for (auto& o : e.ops) h = mc::mix(h, (uint64_t)o.ec.value() * 4 + o.ctx);
  c.state(h);
}
void run(mc::Ctx& c)
{
  bool th = c.thorough();
  int mode = c.choose(3, "mode");
  static const char* names[] = {"all sequences", "all sequences, plain executor", "deep, with state pruning"};
  if (*c.only() && strcmp(c.only(), names[mode])) return;
  c.cover(names[mode]);
  using PFile = asioext::basic_file<Service, asio::io_context::executor_type>;
  switch (mode) {
    case 0: go<File>(c, th ? 7 : 6, false, 8); break;
    case 1: go<PFile>(c, th ? 6 : 5, false, 8); break;
    case 2: go<File>(c, th ? 9 : 8, true, th ? 3 : 2); break;
  }
}
}
int main(int argc, char** argv)
{
  mc::Config cfg; cfg.property = "C04"; cfg.pin = true; cfg.hang_cpu = 20;
  return mc::main_explore(argc, argv, cfg, run);
}
