// C15: dynamic_linear_buffer as DynamicBuffer_v1 and DynamicBuffer_v2, and generic asio reads/writes through it.
#include "tracked_alloc.hpp"
#include "asioext/linear_buffer.hpp"
#include <asio/completion_condition.hpp>
#include <asio/read.hpp>
#include <asio/read_until.hpp>
#include <asio/write.hpp>
#include <memory>
#include <stdexcept>
#if defined(ASIOEXT_NO_DYNAMIC_BUFFER_V1)
# define V2ONLY 1 // built without the first version of the requirements
#endif
using namespace asioext;
namespace {
typedef std::allocator<uint8_t> A;
typedef basic_linear_buffer<A> B;
typedef dynamic_linear_buffer<A> D;
typedef std::vector<uint8_t> Ref;
const size_t HUGE_ = SIZE_MAX;
bool big; // large sizes

struct World {
  B buf; std::unique_ptr<D> d; uint8_t ctr = 1;
  size_t max;   // effective maximum of the adaptor
  Ref in;       // readable bytes
};

size_t setup(mc::Ctx& c, World& w)
{
  if (big) {
    static const size_t ins[] = {0, 127, 256, 4095, 65536}, maxs[] = {HUGE_, 300, 4096, 65535, 70000};
    size_t init = ins[c.choose(5, "initial bytes")], max = maxs[c.choose(5, "adaptor maximum")];
    static const size_t bmaxs[] = {HUGE_, 66000};
    w.buf = B(0, bmaxs[c.choose(2, "buffer maximum")]);
    w.buf.resize(init);
    for (size_t i = 0; i < init; ++i) { w.buf[i] = w.ctr; w.in.push_back(w.ctr++); }
    w.d.reset(new D(w.buf, max));
    w.max = std::min(w.buf.max_size(), max);
    return 0;
  }
  static const size_t ins[] = {0, 1, 3};
  size_t init = ins[c.choose(3, "initial bytes")];
  size_t spare = c.choose(2, "spare capacity") * 4;
  static const size_t maxs[] = {HUGE_, 0, 1, 3, 5, 8};
  size_t max = maxs[c.choose(6, "adaptor maximum")];
  static const size_t bmaxs[] = {HUGE_, 6, 3};
  size_t bmax = bmaxs[c.choose(3, "buffer maximum")];
  w.buf = B(0, bmax);
  if (init > bmax || init + spare > bmax) return 1;
  w.buf.reserve(init + spare);
  w.buf.resize(init);
  for (size_t i = 0; i < init; ++i) { w.buf[i] = w.ctr; w.in.push_back(w.ctr++); }
  const bool plain = max == HUGE_ && c.flag("through dynamic_buffer()");
  if (plain) w.d.reset(new D(asioext::dynamic_buffer(w.buf)));
  else w.d.reset(new D(w.buf, max));
  w.max = std::min(w.buf.max_size(), max);
  return 0;
}

template <typename V>
void same(mc::Ctx& c, const V& v, const uint8_t* p, size_t n, const char* what)
{
  if (v.size() != n) c.fail("%s: view has %zu bytes, expected %zu", what, v.size(), n);
  if (n && memcmp(v.data(), p, n)) c.fail("%s: view shows different bytes", what);
}

void common(mc::Ctx& c, World& w, const char* what)
{
  const D& cd = *w.d;
  if (cd.max_size() != w.max) c.fail("after %s: max_size %zu, expected %zu", what, cd.max_size(), w.max);
  if (cd.size() != w.in.size()) c.fail("after %s: size %zu, expected %zu", what, cd.size(), w.in.size());
  if (cd.size() > cd.max_size()) c.fail("after %s: size exceeds the maximum", what);
  if (cd.capacity() > cd.max_size()) c.fail("after %s: capacity %zu exceeds the maximum %zu", what, cd.capacity(), cd.max_size());
  if (cd.capacity() < cd.size()) c.fail("after %s: capacity below the size", what);
#if !V2ONLY
  same(c, cd.data(), w.in.data(), w.in.size(), what);
  same(c, w.d->data(), w.in.data(), w.in.size(), what);
#endif
  c.state(mc::hbytes(mc::mix(w.max, w.buf.capacity()), w.in.data(), w.in.size()));
}

void views(mc::Ctx& c, World& w, const uint8_t* p, size_t total, const char* what)
{
  const D& cd = *w.d;
  const size_t ps[] = {0, 1, 2, total ? total - 1 : 0, total, total + 1, HUGE_ - 1, HUGE_}, ns[] = {0, 1, 2, total ? total - 1 : 0, total, total + 1, HUGE_ - total, HUGE_ - 1, HUGE_, HUGE_ / 2 + 1};
  for (size_t pos : ps) for (size_t n : ns) {
    size_t rp = std::min(pos, total), rn = std::min(n, total - rp);
    c.note("data(%zu, %zu)", pos, n);
    same(c, cd.data(pos, n), p + rp, rn, what); same(c, w.d->data(pos, n), p + rp, rn, what);
    if (rn && (cd.data(pos, n).data() != w.buf.data() + rp || w.d->data(pos, n).data() != w.buf.data() + rp)) c.fail("%s: view does not point into the buffer", what);
    c.step();
  }
}

#if !V2ONLY
void v1(mc::Ctx& c)
{
  const bool prune = big || c.flag("pruned search");
  const int depth = big ? (c.thorough() ? 3 : 2) : prune ? (c.thorough() ? 8 : 5) : c.thorough() ? 3 : 2;
  World w; if (setup(c, w)) return;
  if (w.in.size() > w.max) return; // holding more than the maximum before the first prepare: not a usable start state
  common(c, w, "start");
  bool prepared = false; size_t outn = 0; // a commit is only allowed with prepared space untouched since
  for (int k = 0; k < depth; ++k) {
    if (prune && c.seen(mc::mix(mc::mix(mc::mix(w.in.size(), w.buf.size()), mc::mix(w.buf.capacity(), w.max)), mc::mix(mc::mix(w.buf.max_size(), k), 1 + prepared * 2 + !outn)))) break;
    const int op = c.choose(4, "op");
    const Ref before = w.in;
    if (op == 0 || op == 1) { // prepare, throwing or with error code
      const size_t room = w.max - w.in.size();
      const size_t lim = big ? 100000 : 100;
      const size_t ns[] = {0, 1, 2, 4, room < lim ? room : 0, room < lim ? room + 1 : HUGE_, HUGE_ - w.in.size(), HUGE_, 128, 257, 4097, 65537};
      size_t n = ns[c.choose(big ? 12 : 8, "n")];
      if (room >= 100 && n > 70000 && n <= room) return; // would really allocate
      bool over = n > room, threw = false;
      ASIOEXT_MUTABLE_BUFFER out(nullptr, 0);
      c.note("prepare(%zu)", n);
      if (op == 0) { try { out = w.d->prepare(n); } catch (const std::length_error&) { threw = true; } }
      else {
        error_code ec = asio::error::fault; out = w.d->prepare(n, ec); threw = !!ec;
        if (threw && out.size()) c.fail("failed prepare() returned space");
      }
      if (threw != over) c.fail("prepare(%zu) with %zu readable of %zu: %s", n, w.in.size(), w.max, threw ? "refused although it fits" : "not refused");
      if (!threw) {
        if (out.size() != n) c.fail("prepare(%zu) gives %zu bytes", n, out.size());
        uint8_t* o = (uint8_t*)out.data();
        if (n && (o != w.buf.data() + w.in.size())) c.fail("prepared space does not follow the readable bytes");
        for (size_t i = 0; i < n; ++i) o[i] = w.ctr++;
        prepared = true; outn = n;
        common(c, w, "prepare and fill");
        size_t cs[] = {0, 1, n, n + 1, HUGE_};
        int cc = c.choose(6, "commit");
        if (cc < 5) {
          size_t m = cs[cc], t = std::min(m, n);
          c.note("commit(%zu)", m);
          Ref add(o, o + t);
          w.d->commit(m);
          w.in.insert(w.in.end(), add.begin(), add.end());
          outn = 0; // the rest is discarded
          c.cover("commit");
          common(c, w, "commit");
        }
      } else { c.cover("refused"); common(c, w, "refused prepare"); }
    } else if (op == 2) {
      if (!prepared) return;
      if (outn) return;
      c.note("second commit");
      w.d->commit(c.choose(2, "commit") ? HUGE_ : 1); // output sequence is empty: nothing may move
      common(c, w, "commit of an empty output sequence");
    } else {
      const size_t s = w.in.size(); const size_t ns[] = {0, 1, s, s + 1, HUGE_, s / 2, 255, 256, 4096};
      size_t n = ns[c.choose(big ? 9 : 5, "n")], t = std::min(n, s);
      c.note("consume(%zu)", n);
      w.d->consume(n);
      w.in.erase(w.in.begin(), w.in.begin() + t);
      outn = 0;
      if (!prepared) prepared = false;
      else { // consume ended the validity of the prepared space; a new prepare is needed
        prepared = false;
      }
      common(c, w, "consume");
    }
    if (c.flag("move the adaptor")) { c.note("move"); w.d.reset(new D(std::move(*w.d))); common(c, w, "move"); }
  }
  if (w.in.size() > 2) c.interesting();
}
#else
void v1(mc::Ctx&) {}
#endif

void v2(mc::Ctx& c)
{
  const bool prune = big || c.flag("pruned search");
  const int depth = big ? (c.thorough() ? 3 : 2) : prune ? (c.thorough() ? 8 : 5) : c.thorough() ? 3 : 2;
  World w; if (setup(c, w)) return;
  // the underlying buffer may hold more than the adaptor's maximum; only the first max bytes are then readable
  Ref under = w.in;
  auto sync = [&] { w.in.assign(under.begin(), under.begin() + std::min(under.size(), w.max)); };
  sync();
  common(c, w, "start"); views(c, w, w.in.data(), w.in.size(), "start");
  for (int k = 0; k < depth; ++k) {
    if (prune && c.seen(mc::mix(mc::mix(mc::mix(w.in.size(), w.buf.size()), mc::mix(w.buf.capacity(), w.max)), mc::mix(w.buf.max_size(), k * 2)))) break;
    const size_t s = w.in.size();
    switch (c.choose(4, "op")) {
      case 0: {
        const size_t room = w.max - s;
        const size_t lim = big ? 100000 : 100;
        const size_t ns[] = {0, 1, 3, room < lim ? room : 0, room < lim ? room + 1 : HUGE_, HUGE_ - s, HUGE_, 128, 257, 4097, 65537};
        size_t n = ns[c.choose(big ? 11 : 7, "n")];
        if (room >= 100 && n > 70000 && n <= room) return;
        bool over = n > room, threw = false;
        c.note("grow(%zu)", n);
        try { w.d->grow(n); } catch (const std::length_error&) { threw = true; }
        if (threw != over) c.fail("grow(%zu) with %zu readable of %zu: %s", n, s, w.max, threw ? "refused although it fits" : "not refused");
        if (!threw) {
          under = w.in; under.resize(s + n);
          auto v = w.d->data(s, n);
          if (v.size() != n) c.fail("grown space is %zu bytes, expected %zu", v.size(), n);
          for (size_t i = 0; i < n; ++i) { ((uint8_t*)v.data())[i] = w.ctr; under[s + i] = w.ctr++; }
        } else c.cover("refused");
        break;
      }
      case 1: {
        const size_t ns[] = {0, 1, s, s + 1, HUGE_, s / 2, 255, 256, 4096};
        size_t n = ns[c.choose(big ? 9 : 5, "n")], t = std::min(n, s);
        c.note("shrink(%zu)", n);
        w.d->shrink(n);
        under = w.in; under.resize(s - t);
        break;
      }
      case 2: {
        const size_t ns[] = {0, 1, s, s + 1, HUGE_, s / 2, 255, 256, 4096};
        size_t n = ns[c.choose(big ? 9 : 5, "n")], t = std::min(n, s);
        c.note("consume(%zu)", n);
        w.d->consume(n);
        under.erase(under.begin(), under.begin() + t);
        break;
      }
      case 3: c.note("move"); w.d.reset(new D(std::move(*w.d))); break;
    }
    sync();
    common(c, w, "operation"); views(c, w, w.in.data(), w.in.size(), "operation");
  }
  c.interesting();
}

// A stream that hands out / accepts bytes in explorer-chosen chunks and may fail or end.
struct Chunky {
  mc::Ctx& c; Ref data; size_t pos = 0; Ref written; bool failing = true;
  typedef int lowest_layer_type;
  template <typename MB> size_t read_some(const MB& mb, error_code& ec)
  {
    size_t room = asio::buffer_size(mb), left = data.size() - pos;
    if (!left) { ec = asio::error::eof; return 0; }
    if (!room) { ec = error_code(); return 0; }
    size_t m = std::min(room, left);
    size_t n = 1 + c.choose((int)m, "chunk read");
    asio::buffer_copy(mb, asio::buffer(data.data() + pos, n));
    pos += n; ec = error_code();
    return n;
  }
  template <typename MB> size_t read_some(const MB& mb) { error_code ec; size_t n = read_some(mb, ec); if (ec) throw MC_SYSTEM_ERROR(ec); return n; }
  template <typename CB> size_t write_some(const CB& cb, error_code& ec)
  {
    size_t have = asio::buffer_size(cb);
    if (!have) { ec = error_code(); return 0; }
    size_t n = c.choose((int)have + 1, "chunk written");
    if (n == 0) { ec = asio::error::connection_reset; return 0; }
    Ref t(n); asio::buffer_copy(asio::buffer(t), cb);
    written.insert(written.end(), t.begin(), t.end());
    ec = error_code();
    return n;
  }
  template <typename CB> size_t write_some(const CB& cb) { error_code ec; size_t n = write_some(cb, ec); if (ec) throw MC_SYSTEM_ERROR(ec); return n; }
};

void generic(mc::Ctx& c)
{
  World w; if (setup(c, w)) return;
  if (w.in.size() > w.max) return;
  Chunky st{c};
  switch (c.choose(3, "generic operation")) {
    case 0: { // read until the stream ends or the buffer is full
      const size_t total = c.choose(7, "bytes in the stream");
      for (size_t i = 0; i < total; ++i) st.data.push_back(200 + i);
      error_code ec;
      const size_t before = w.in.size(), room = w.max - before;
      size_t n = asio::read(st, std::move(*w.d), ec);
      size_t want = std::min(total, room);
      if (n != want || st.pos != want) c.fail("read() of %zu bytes into room for %zu transferred %zu", total, room, n);
      for (size_t i = 0; i < want; ++i) w.in.push_back(200 + i);
      if (w.buf.size() != w.in.size() || (w.in.size() && memcmp(w.buf.data(), w.in.data(), w.in.size()))) c.fail("buffer does not hold the bytes read behind the bytes it had");
      if ((ec == asio::error::eof) != (total <= room && room > want)) { if (ec != asio::error::eof && total < room) c.fail("end of stream not reported"); }
      break;
    }
    case 1: { // write everything readable
      error_code ec; size_t n = asio::write(st, std::move(*w.d), ec);
      if (n != st.written.size()) c.fail("write() reports %zu bytes, %zu were sent", n, st.written.size());
      if (!ec && n != w.in.size()) c.fail("write() succeeded with %zu of %zu bytes", n, w.in.size());
      if (n > w.in.size() || (n && memcmp(st.written.data(), w.in.data(), n))) c.fail("write() sent other bytes than the readable ones");
      Ref rest(w.in.begin() + n, w.in.end());
      if (w.buf.size() != rest.size() || (rest.size() && memcmp(w.buf.data(), rest.data(), rest.size()))) c.fail("write() did not consume exactly the bytes it sent");
      c.cover(ec ? "write failed" : "write complete");
      break;
    }
    case 2: { // read_until a delimiter
      const size_t total = 1 + c.choose(5, "bytes in the stream"), at = c.choose(6, "delimiter position");
      for (size_t i = 0; i < total; ++i) st.data.push_back(i == at ? '\n' : 100 + i);
      error_code ec;
      const Ref had = w.in; const size_t room = w.max - had.size();
      size_t n = asio::read_until(st, std::move(*w.d), '\n', ec);
      Ref want = had; want.insert(want.end(), st.data.begin(), st.data.begin() + st.pos);
      if (st.pos > room) c.fail("read_until() took %zu bytes with room for %zu", st.pos, room);
      if (w.buf.size() != want.size() || (want.size() && memcmp(w.buf.data(), want.data(), want.size()))) c.fail("read_until(): buffer does not hold the bytes read");
      if (!ec && (at >= total || n != had.size() + at + 1)) c.fail("read_until() reports %zu bytes, delimiter is at %zu", n, had.size() + at);
      if (ec && at < total && at < room) c.fail("read_until() failed although the delimiter fits");
      break;
    }
  }
  c.interesting();
}
void run(mc::Ctx& c)
{
  big = false;
  switch (c.choose(5, "protocol")) { case 3: big = true; v1(c); break; case 4: big = true; v2(c); break; case 0: v1(c); break; case 1: v2(c); break; case 2: generic(c); break; }
}
}
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C15"; return mc::main_explore(argc, argv, cfg, run); }
