// C23: buffered_stream over a scripted stream: which bytes reach the next layer, what flushes and fills report.
#include "asioext/detail/config.hpp"
#include "mc.hpp"
#include <limits>
#include "asioext/experimental/buffered_stream.hpp"
#include <asio/io_context.hpp>
#include <asio/bind_executor.hpp>
#include <asio/append.hpp>
#include <asio/dispatch.hpp>
#include <asio/post.hpp>
#include <deque>
#include <memory>
using namespace asioext;
namespace {
typedef std::string Bytes;
std::string hex(const Bytes& b) { std::string o; char t[4]; if (b.size() > 64) return hex(b.substr(0, 32)) + "..." + std::to_string(b.size()); for (unsigned char c : b) { snprintf(t, sizeof t, "%02x ", c); o += t; } return o + "(" + std::to_string(b.size()) + ")"; }

struct Op { // an operation outstanding on the stream
  std::vector<asio::mutable_buffer> bufs; size_t total = 0;
  std::function<void(error_code, size_t)> done;
};
struct World {
  mc::Ctx& c; asio::io_context io, hio;
  int shorts = 0; // disturbed large transfers
  bool open = true, big = false, broken = false; // big: large transfers
  // broken: no more choices, everything works
  Bytes sent;                       // everything the stream accepted
  unsigned char next_in = 0xA0; Bytes received;
  std::unique_ptr<Op> w, r; int posted = 0;
  error_code lastw, lastr; // what the last transfer reported
  int wcalls = 0, rcalls = 0; std::string hist; bool used_closed = false;
  explicit World(mc::Ctx& cc) : c(cc) {}
};
const asio::error::basic_errors errs[] = {asio::error::broken_pipe, asio::error::would_block};
struct Stream {
  World* w;
  typedef Stream lowest_layer_type; typedef asio::io_context::executor_type executor_type;
  explicit Stream(World* x) : w(x) {}
  Stream& lowest_layer() { return *this; } const Stream& lowest_layer() const { return *this; }
  executor_type get_executor() { return w->io.get_executor(); }
  // outcome of one transfer of at most n bytes
  size_t outcome(size_t n, error_code& ec, const char* tag, bool rd)
  {
    ec = error_code();
    if (!w->open) { ec = asio::error::bad_descriptor; return 0; }
    if (w->broken || n == 0) return n;
    if (w->big) {
      const size_t all = rd ? std::min<size_t>(n, 131072) : n;
      if (w->shorts == 2) return all;
      int k = w->c.choose(6, tag); if (k) ++w->shorts;
      switch (k) { case 0: return all; case 1: return 1; case 2: return all - all / 2; case 3: return all > 1 ? all - 1 : 1; case 4: ec = rd ? error_code(asio::error::eof) : error_code(errs[0]); return 0; case 5: return std::min<size_t>(all, 65536); }
    }
    if (rd) n = std::min<size_t>(n, 3);
    int k = w->c.choose((int)n + 2, tag);
    if (k < (int)n) return n - k;
    ec = rd && k == (int)n ? error_code(asio::error::eof) : error_code(errs[k - n]); return 0;
  }
  template <typename B> static size_t gather(const B& bufs, std::vector<asio::mutable_buffer>& v)
  {
    size_t t = 0;
    for (auto i = asio::buffer_sequence_begin(bufs); i != asio::buffer_sequence_end(bufs); ++i) { asio::const_buffer b(*i); v.push_back(asio::mutable_buffer(const_cast<void*>(b.data()), b.size())); t += b.size(); }
    return t;
  }
  void take(const std::vector<asio::mutable_buffer>& v, size_t n) { for (auto& b : v) { size_t k = std::min(n, b.size()); w->sent.append((const char*)b.data(), k); n -= k; } }
  void give(const std::vector<asio::mutable_buffer>& v, size_t n) { for (auto& b : v) { size_t k = std::min(n, b.size()); for (size_t i = 0; i < k; ++i) { ((unsigned char*)b.data())[i] = w->next_in; w->received += (char)w->next_in++; } n -= k; } }
  template <typename B> size_t write_some(const B& bufs, error_code& ec)
  {
    w->wcalls++; if (w->w) w->c.fail("%s: a second write was started on the stream while one is outstanding", w->hist.c_str());
    std::vector<asio::mutable_buffer> v; size_t n = outcome(gather(bufs, v), ec, "write", false); take(v, n); w->lastw = ec; return n;
  }
  template <typename B> size_t write_some(const B& bufs) { error_code ec; size_t n = write_some(bufs, ec); if (ec) throw MC_SYSTEM_ERROR(ec); return n; }
  template <typename B> size_t read_some(const B& bufs, error_code& ec)
  {
    w->rcalls++; if (w->r) w->c.fail("%s: a second read was started on the stream while one is outstanding", w->hist.c_str());
    std::vector<asio::mutable_buffer> v; size_t n = outcome(gather(bufs, v), ec, "read", true); give(v, n); w->lastr = ec; return n;
  }
  template <typename B> size_t read_some(const B& bufs) { error_code ec; size_t n = read_some(bufs, ec); if (ec) throw MC_SYSTEM_ERROR(ec); return n; }
  template <typename H> std::function<void(error_code, size_t)> completion(H h, error_code* last)
  {
    auto p = std::make_shared<H>(std::move(h)); World* x = w;
    auto ex = asio::get_associated_executor(*p, w->io.get_executor());
    return [p, ex, x, last](error_code ec, size_t n) { x->posted++; *last = ec; asio::post(ex, [p, x, ec, n] { x->posted--; H h(std::move(*p)); h(ec, n); }); };
  }
  template <typename B, typename H> auto async_write_some(const B& bufs, H&& token)
  {
    return asio::async_initiate<H, void(error_code, size_t)>([this, bufs](auto h) {
      w->wcalls++; if (w->w) w->c.fail("%s: a second write was started on the stream while one is outstanding", w->hist.c_str());
      auto op = std::make_unique<Op>(); op->total = gather(bufs, op->bufs); op->done = completion(std::move(h), &w->lastw);
      if (!w->open) op->done(asio::error::bad_descriptor, 0);
      else if (!op->total) op->done(error_code(), 0);
      else w->w = std::move(op);
    }, token);
  }
  template <typename B, typename H> auto async_read_some(const B& bufs, H&& token)
  {
    return asio::async_initiate<H, void(error_code, size_t)>([this, bufs](auto h) {
      w->rcalls++; if (w->r) w->c.fail("%s: a second read was started on the stream while one is outstanding", w->hist.c_str());
      auto op = std::make_unique<Op>(); op->total = gather(bufs, op->bufs); op->done = completion(std::move(h), &w->lastr);
      if (!w->open) op->done(asio::error::bad_descriptor, 0);
      else if (!op->total) op->done(error_code(), 0);
      else w->r = std::move(op);
    }, token);
  }
  void complete(bool rd)
  {
    auto op = std::move(rd ? w->r : w->w); error_code ec;
    size_t n = outcome(op->total, ec, rd ? "read" : "write", rd);
    w->hist += ec ? " err" : " " + std::to_string(n);
    if (rd) give(op->bufs, n); else take(op->bufs, n);
    op->done(ec, n);
  }
  void abort() { for (auto* p : {&w->w, &w->r}) if (*p) { auto op = std::move(*p); op->done(asio::error::operation_aborted, 0); } }
  void close(error_code& ec)
  {
    abort(); ec = error_code(); w->open = false;
    if (!w->broken && w->c.flag("close reports an error")) ec = asio::error::connection_reset;
  }
  void close() { error_code ec; close(ec); if (ec) throw MC_SYSTEM_ERROR(ec); }
};

int foreign;
template <typename T> struct Alloc {
  typedef T value_type; int id = 0;
  Alloc() = default; explicit Alloc(int i) : id(i) {}
  template <typename U> Alloc(const Alloc<U>& o) : id(o.id) {}
  T* allocate(size_t n) { if (id != 7) foreign++; return std::allocator<T>().allocate(n); }
  void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
  bool operator==(const Alloc& o) const { return id == o.id; } bool operator!=(const Alloc& o) const { return id != o.id; }
};

template <typename BS> struct Test {
  mc::Ctx& c; World w; std::unique_ptr<BS> s;
  std::string& hist; unsigned char next_out = 1;
  Bytes undelivered;      // put but not sent
  size_t sent0 = 0;       // bytes of w.sent already accounted for
  size_t left = 0;        // undelivered bytes a failed flush left behind
  Bytes rbuf;             // what the read buffer must hold
  size_t wmax, rmax;
  // pending asynchronous flush / fill
  bool fp = false, rp = false, fdead = false, rdead = false; size_t fbegin_undel = 0, fbegin_left = 0, fsent = 0, rrecv = 0; int initiating = 0;
  bool chain = false, sched_cut = false;
  explicit Test(mc::Ctx& cc) : c(cc), w(cc), hist(w.hist) {}

  void account()
  { // newly sent bytes must be the next undelivered ones
    Bytes n = w.sent.substr(sent0);
    if (n.size() > undelivered.size() || undelivered.compare(0, n.size(), n)) c.fail("%s: the stream was given %s, buffered and not yet delivered are %s", hist.c_str(), hex(n).c_str(), hex(undelivered).c_str());
    undelivered.erase(0, n.size()); sent0 = w.sent.size();
  }
  void verify()
  {
    auto& wb = s->write_buffer(); Bytes b((const char*)wb.data(), wb.size());
    if (!fp && !left && b.size() != undelivered.size()) c.fail("%s: the write buffer holds %zu bytes, %zu are to be delivered", hist.c_str(), b.size(), undelivered.size());
    if (b.size() > undelivered.size() && !fdead) c.fail("%s: the write buffer holds %s, to be delivered are %s", hist.c_str(), hex(b).c_str(), hex(undelivered).c_str());
    if (!fdead && undelivered.compare(undelivered.size() - b.size(), b.size(), b)) c.fail("%s: the write buffer holds %s, to be delivered are %s", hist.c_str(), hex(b).c_str(), hex(undelivered).c_str());
    if (wb.max_size() != wmax) c.fail("%s: the write buffer's maximum changed to %zu", hist.c_str(), wb.max_size());
    if (s->flush_pending() != fp) c.fail("%s: flush_pending() is %d", hist.c_str(), s->flush_pending());
    if (s->can_flush() != (!fp && !undelivered.empty())) c.fail("%s: can_flush() is %d with %zu bytes to deliver and %s flush in progress", hist.c_str(), s->can_flush(), undelivered.size(), fp ? "a" : "no");
    if (!rp) {
      auto& rb = s->read_buffer(); Bytes r((const char*)rb.data(), rb.size());
      if (r != rbuf) c.fail("%s: the read buffer holds %s, must hold %s", hist.c_str(), hex(r).c_str(), hex(rbuf).c_str());
      if (rb.max_size() != rmax) c.fail("%s: the read buffer's maximum changed to %zu", hist.c_str(), rb.max_size());
    }
  }
  // the flush which began with the given state has ended
  void flushed(const char* what, error_code ec, size_t n, size_t got, size_t undel0, size_t left0, bool dead)
  {
    if (n != got) c.fail("%s: %s reports %zu bytes, %zu were delivered", hist.c_str(), what, n, got);
    if (dead) { left = 0; return; }
    if (got > undel0) c.fail("%s: %s delivered %zu bytes, %zu were buffered when it began", hist.c_str(), what, got, undel0);
    if (!ec) {
      if (left0 ? got < left0 : got != undel0) c.fail("%s: %s reports success, but delivered %zu of %zu bytes", hist.c_str(), what, got, left0 ? left0 : undel0);
      left = 0; if (got < undel0) c.cover("flush sent only what an earlier one left");
    } else { left = left0 && got >= left0 ? 0 : (left0 ? left0 : undel0) - got; c.cover("flush failed"); }
  }
  void put()
  {
    static const size_t bign[] = {1, 511, 512, 513, 4097, 32768, 65535, 65536, 65537, 140000};
    size_t n = w.big ? bign[c.choose(10, "bytes")] : 1 + c.choose(2, "bytes"); hist += " put" + std::to_string(n);
    Bytes d; for (size_t i = 0; i < n; ++i) d += (char)(next_out + i);
    const size_t had = s->write_buffer().size(); bool threw = false;
    try { s->write_buffer().append((const uint8_t*)d.data(), n); } catch (std::length_error&) { threw = true; }
    if (threw != (had + n > wmax)) c.fail("%s: appending %zu bytes to the write buffer of %zu (maximum %zu) %s", hist.c_str(), n, had, wmax, threw ? "failed" : "succeeded");
    if (!threw) { undelivered += d; next_out += n; }
  }
  void stream_error(error_code ec, const char* what, bool refused)
  {
    if (refused) { if (ec != asio::error::already_started) c.fail("%s: %s during another flush reports '%s'", hist.c_str(), what, ec.message().c_str()); return; }
    const error_code& last = *what == 'f' ? (what[1] == 'i' ? w.lastr : w.lastw) : what[7] == 'i' ? w.lastr : w.lastw;
    if (ec != last) c.fail("%s: %s reports '%s', the stream reported '%s'", hist.c_str(), what, ec.message().c_str(), last.message().c_str());
  }
  void flush()
  {
    int mode = c.choose(3, "sync"); hist += mode == 2 ? " flush()" : mode ? " flush(stale)" : " flush(ec)";
    const size_t undel0 = undelivered.size(), left0 = left, s0 = w.sent.size(); const int calls = w.wcalls; const bool pend = fp; if (!pend) w.lastw = error_code();
    error_code ec = mode == 1 ? error_code(asio::error::timed_out) : error_code(); size_t n = 0; bool threw = false;
    try { n = mode == 2 ? s->flush() : s->flush(ec); } catch (MC_SYSTEM_ERROR& e) { threw = true; ec = e.code(); if (mode != 2) c.fail("%s: flush(ec) threw", hist.c_str()); }
    const size_t got = w.sent.size() - s0; account();
    stream_error(ec, "flush", pend);
    if (pend) { if (w.wcalls != calls || n) c.fail("%s: a refused flush is not without effect", hist.c_str()); return; }
    flushed("flush", ec, threw ? got : n, got, undel0, left0, false);
  }
  struct Handler {
    Test* t; int* calls; std::unique_ptr<int> moveonly; bool refused, rd;
    void operator()(error_code ec, size_t n)
    {
      if (t->initiating) t->c.fail("%s: a handler is invoked within the initiating function", t->hist.c_str());
      if (++*calls > 1) t->c.fail("%s: a handler is invoked twice", t->hist.c_str());
      t->account();
      if (rd) { t->filled(ec, n); return; }
      t->stream_error(ec, "async_flush", refused);
      if (refused) { if (n) t->c.fail("%s: a refused flush reports %zu bytes", t->hist.c_str(), n); --t->refusals; return; }
      t->fp = false; bool dead = t->fdead; t->fdead = false;
      t->flushed("async_flush", ec, n, t->w.sent.size() - t->fsent, t->fbegin_undel, t->fbegin_left, dead);
      if (t->s->flush_pending()) t->c.fail("%s: a flush is still pending when its handler runs", t->hist.c_str());
      if (t->chain) { t->chain = false; if (t->s->can_flush()) { t->hist += " [chained"; t->async_flush(0); t->hist += "]"; } }
    }
  };
  int refusals = 0; std::deque<int> counters;
  void async_flush(int kind)
  {
    const bool refused = fp; if (refused && refusals) return; const int calls0 = w.wcalls;
    hist += refused ? " async_flush(refused)" : " async_flush";
    if (!refused) { w.lastw = error_code(); fp = true; fdead = false; fbegin_undel = undelivered.size(); fbegin_left = left; fsent = w.sent.size(); } else ++refusals;
    counters.push_back(0); ++initiating;
    Handler h{this, &counters.back(), nullptr, refused, false};
    if (kind) s->async_flush(asio::bind_executor(w.hio.get_executor(), std::move(h))); else s->async_flush(std::move(h));
    --initiating;
    if (refused && w.wcalls != calls0) c.fail("%s: a refused flush touched the stream", hist.c_str());
    if (s->flush_pending() != true) c.fail("%s: no flush is pending", hist.c_str());
  }
  void filled(error_code ec, size_t n)
  {
    const char* what = "async_fill"; rp = false; bool dead = rdead; rdead = false;
    size_t got = w.received.size() - rrecv;
    if (dead) { auto& rb = s->read_buffer(); if (rb.size() > got) c.fail("%s: the read buffer holds %zu bytes after closing", hist.c_str(), rb.size()); rbuf.assign((const char*)rb.data(), rb.size()); if (w.received.size() < rbuf.size() || w.received.compare(w.received.size() - rbuf.size(), rbuf.size(), rbuf)) c.fail("%s: the read buffer shows bytes that were not received", hist.c_str()); return; }
    done_fill(what, ec, n, got);
  }
  void done_fill(const char* what, error_code ec, size_t n, size_t got)
  {
    if (n != got) c.fail("%s: %s reports %zu bytes, %zu were received", hist.c_str(), what, n, got);
    if (!ec && !got && rbuf.size() < rmax) c.fail("%s: %s reports success without a byte although there is room", hist.c_str(), what);
    if (got && ec) c.fail("%s: %s reports '%s' although it received a byte", hist.c_str(), what, ec.message().c_str());
    stream_error(ec, what, false);
    rbuf += w.received.substr(w.received.size() - got);
    if (rbuf.size() > rmax) c.fail("%s: the read buffer exceeds its maximum", hist.c_str());
  }
  void fill()
  {
    int mode = c.choose(3, "sync"); hist += mode == 2 ? " fill()" : mode ? " fill(stale)" : " fill(ec)";
    error_code ec = mode == 1 ? error_code(asio::error::timed_out) : error_code(); size_t n = 0; bool threw = false; w.lastr = error_code(); const size_t r0 = w.received.size();
    try { n = mode == 2 ? s->fill() : s->fill(ec); } catch (MC_SYSTEM_ERROR& e) { threw = true; ec = e.code(); if (mode != 2) c.fail("%s: fill(ec) threw", hist.c_str()); }
    size_t got = w.received.size() - r0; done_fill("fill", ec, threw ? got : n, got);
  }
  void async_fill(int kind)
  {
    hist += " async_fill"; w.lastr = error_code(); rp = true; rdead = false; rrecv = w.received.size(); counters.push_back(0); ++initiating;
    Handler h{this, &counters.back(), nullptr, false, true};
    if (kind) s->async_fill(asio::bind_executor(w.hio.get_executor(), std::move(h))); else s->async_fill(std::move(h));
    --initiating;
  }
  void close()
  {
    bool thr = c.flag("throwing close"); hist += thr ? " close()" : " close(ec)";
    error_code ec = asio::error::timed_out; bool threw = false;
    try { if (thr) s->close(); else s->close(ec); } catch (MC_SYSTEM_ERROR& e) { threw = true; }
    account();
    if (w.open) c.fail("%s: the next layer was not closed", hist.c_str());
    if (fp) fdead = true; if (rp) rdead = true;
    undelivered.clear(); left = 0; rbuf.clear();
  }
  bool step()
  {
    switch (c.choose(10, "step")) {
      case 0: put(); return true;
      case 1: flush(); return true;
      case 2: if (fp && refusals) return false; async_flush(c.choose(2, "handler's executor")); return true;
      case 3: { if (!w.w) return false; bool p = c.flag("run handlers later"); hist += " W"; s->next_layer().complete(false); if (!p) poll(); account(); return true; }
      case 4: if (!w.posted && !refusals) return false; hist += " poll"; poll(); return true;
      case 5: if (rp) return false; fill(); return true;
      case 6: if (rp) return false; async_fill(c.choose(2, "handler's executor")); return true;
      case 7: { if (!w.r) return false; hist += " R"; s->next_layer().complete(true); poll(); return true; }
      case 8: if (!w.open) { if (fp || rp) return false; hist += " reopen"; w.open = true; return true; } close(); return true;
      case 9: if (rp || rbuf.empty()) { if (!fp || chain) return false; hist += " (chain)"; chain = true; return true; } { hist += " take"; size_t k = w.big ? (rbuf.size() + 1) / 2 : 1; s->read_buffer().erase(0, k); rbuf.erase(0, k); return true; }
    }
    return false;
  }
  void poll() { for (int i = 0; i < 30; ++i) { w.io.restart(); w.hio.restart(); if (!(w.io.poll() + w.hio.poll())) break; } }
  uint64_t hash(int left_steps)
  {
    uint64_t h = mc::mix(left_steps * 64 + fp * 32 + rp * 16 + fdead * 8 + rdead * 4 + chain * 2 + w.open, undelivered.size());
    h = mc::mix(h, left); h = mc::mix(h, w.shorts); h = mc::mix(h, s->write_buffer().size()); h = mc::mix(h, rbuf.size()); h = mc::mix(h, wmax * 16 + (rmax & 15)); h = mc::mix(h, w.big);
    h = mc::mix(h, w.w ? w.w->total + 1 : 0); h = mc::mix(h, w.r ? w.r->total + 1 : 0); h = mc::mix(h, w.posted * 4 + refusals);
    if (fp) { h = mc::mix(h, fbegin_undel); h = mc::mix(h, fbegin_left); h = mc::mix(h, w.sent.size() - fsent); }
    if (rp) h = mc::mix(h, w.received.size() - rrecv);
    return h;
  }
  void finish()
  {
    w.broken = true; chain = false; hist += " |";
    for (int i = 0; i < 40 && (w.w || w.r || w.posted || refusals); ++i) { if (w.w) s->next_layer().complete(false); if (w.r) s->next_layer().complete(true); poll(); }
    account();
    if (fp || rp || refusals) c.fail("%s: an operation never completes", hist.c_str());
    for (int k : counters) if (k != 1) c.fail("%s: a handler was invoked %d times", hist.c_str(), k);
    verify();
    if (!w.open) { w.open = true; }
    for (int i = 0; s->can_flush() && i < 4; ++i) { if (i & 1) { async_flush(1); for (int k = 0; k < 40 && (w.w || w.posted); ++k) { if (w.w) s->next_layer().complete(false); poll(); } } else flush_ok(); account(); }
    if (!undelivered.empty()) c.fail("%s: %s is never delivered by a working stream", hist.c_str(), hex(undelivered).c_str());
    verify();
  }
  void flush_ok() { error_code ec; s->flush(ec); account(); if (ec) c.fail("%s: flushing to a working stream fails with '%s'", hist.c_str(), ec.message().c_str()); left = 0; }
  void run(bool prune, int n)
  {
    for (int i = 0; i < n; ++i) {
      if (!step()) { drop(); return; }
      c.step(); verify();
      uint64_t h = hash(prune ? n - i : 99); c.state(h);
      if (prune && c.seen(mc::mix(h, 77))) { drop(); return; }
    }
    c.cover("complete history"); finish(); c.interesting();
  }
  void drop() { w.w.reset(); w.r.reset(); }
};

void run(mc::Ctx& c)
{
  int mode = c.choose(3, "mode"); bool prune = mode == 1;
  static const size_t inf = std::numeric_limits<size_t>::max();
  if (mode == 2) { // large transfers
    static const size_t lim[][2] = {{inf, inf}, {1000, 700}, {65536, 65536}};
    auto& l = lim[c.choose(3, "limits")];
    Test<buffered_stream<Stream>> t(c); t.wmax = l[0]; t.rmax = l[1]; t.s.reset(new buffered_stream<Stream>(&t.w, l[0], l[1]));
    t.wmax = std::min(l[0], t.s->write_buffer().max_size()); t.rmax = std::min(l[1], t.s->read_buffer().max_size()); t.w.big = true;
    t.run(true, c.thorough() ? 5 : 3);
    return;
  }
  int n = prune ? (c.thorough() ? 10 : 8) : (c.thorough() ? 5 : 4);
  switch (c.choose(4, "construction")) {
    case 0: { Test<buffered_stream<Stream>> t(c); t.wmax = t.rmax = inf; t.s.reset(new buffered_stream<Stream>(&t.w)); t.wmax = std::min(inf, t.s->write_buffer().max_size()); t.rmax = t.s->read_buffer().max_size(); if (t.rmax < (1u << 30) || t.wmax < (1u << 30)) c.fail("buffers are limited without a limit having been given"); t.run(prune, n); break; }
    case 1: { Test<buffered_stream<Stream>> t(c); t.wmax = 3; t.rmax = 2; t.s.reset(new buffered_stream<Stream>(&t.w, 3, 2)); t.run(prune, n); break; }
    case 2: { Stream st(nullptr); typedef buffered_stream<Stream&> BS; Test<BS> t(c); st.w = &t.w; t.wmax = 3; t.s.reset(new BS(st, 3)); t.rmax = t.s->read_buffer().max_size(); if (&t.s->next_layer() != &st || &t.s->lowest_layer() != &st) c.fail("next_layer() is a different object"); t.run(prune, n); break; }
    case 3: { typedef buffered_stream<Stream, Alloc<uint8_t>> BS; Test<BS> t(c); t.wmax = 2; t.rmax = 4; t.s.reset(new BS(&t.w, Alloc<uint8_t>(7), 2, 4)); foreign = 0; t.run(prune, n); if (foreign) c.fail("%s: memory does not come from the given allocator", t.hist.c_str()); break; }
  }
}
}
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C23"; return mc::main_explore(argc, argv, cfg, run); }
