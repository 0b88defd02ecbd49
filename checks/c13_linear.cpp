// C13: every operation sequence on a basic_linear_buffer against a byte vector, under ASan with a checking allocator.
#include "tracked_alloc.hpp"
#include "asioext/linear_buffer.hpp"
#include <memory>
#include <stdexcept>
using namespace asioext;
namespace {
typedef TrackAlloc<uint8_t> A;
typedef basic_linear_buffer<A> B;
typedef std::vector<uint8_t> Ref;

struct Src { // exactly sized heap copy of the bytes to add, so that reads beyond it trap
  std::unique_ptr<uint8_t[]> p; size_t n;
  Src(size_t k, uint8_t& ctr) : p(new uint8_t[k ? k : 1]), n(k) { for (size_t i = 0; i < k; ++i) p[i] = ctr++; if (!k) { p.reset(new uint8_t[1]); } }
};

void run(mc::Ctx& c)
{
  // mode 0: every sequence, no pruning. mode 1: longer sequences, executions reaching a (size, capacity, maximum,
  // remaining depth) combination explored before are cut (contents were fully compared up to there).
  // mode 2: two operations on buffers of hundreds and thousands of bytes, positions near the ends and in the middle.
  const int mode = c.choose(3, "search mode (0: all, 1: pruned, 2: large buffers)");
  const bool prune = mode == 1, big = mode == 2;
  const int depth = prune ? (c.thorough() ? 12 : 8) : big ? 2 : 3;
  const bool it = c.flag("positions given as iterators");
  c.set_bound(1); // allocation failures per history
  Ledger led(c);
  const size_t HUGE_ = SIZE_MAX;
  static const size_t inits[] = {0, 2, 5}, biginits[] = {127, 128, 255, 256, 300, 4096};
  const size_t init = big ? biginits[c.choose(6, "initial size")] : inits[c.choose(3, "initial size")];
  static const size_t maxs[] = {SIZE_MAX, 0, 1, 3, 4, 7};
  const size_t bigmaxs[] = {SIZE_MAX, init, init + 1, init * 2 - 1, init * 2, init * 2 + 1};
  const size_t maxarg = (big ? bigmaxs : maxs)[c.choose(6, "maximum size")];
  if (init > maxarg) { /* a buffer larger than its maximum is not a documented state */ return; }
  uint8_t ctr = 1;
  {
    std::unique_ptr<B> bp;
    int ctor = c.choose(init == 0 && maxarg == SIZE_MAX ? 4 : 2, "constructor");
    switch (ctor) {
      case 0: bp.reset(new B(init, maxarg)); break;
      case 1: bp.reset(new B(A(5), init, maxarg)); break;
      case 2: bp.reset(new B()); break;
      case 3: bp.reset(new B(A(7))); break;
    }
    B& b = *bp;
    const B& cb = b;
    led.may_fail = true;
    Ref ref;
    const size_t maxsz = b.max_size();
    if (maxarg != SIZE_MAX ? maxsz != maxarg : maxsz < 10000) c.fail("max_size() is %zu for requested maximum %zu", maxsz, maxarg);
    if (b.size() != init) c.fail("constructed with size %zu instead of %zu", b.size(), init);
    for (size_t i = 0; i < init; ++i) { b[i] = ctr; ref.push_back(ctr++); }

    // a position from lo to the end: all of them, in large buffers those near the ends and in the middle
    auto position = [&](size_t lo, size_t hi, const char* tag) -> size_t {
      if (!big || hi - lo < 8) return lo + c.choose((int)(hi - lo) + 1, tag);
      const size_t cand[] = {lo, lo + 1, lo + (hi - lo) / 2, hi - 2, hi - 1, hi};
      return cand[c.choose(6, tag)];
    };
    auto check = [&](const char* what) {
      if (cb.size() != ref.size()) c.fail("after %s: size %zu, expected %zu", what, cb.size(), ref.size());
      if (cb.empty() != ref.empty()) c.fail("after %s: empty() wrong", what);
      if (cb.capacity() < cb.size()) c.fail("after %s: capacity %zu smaller than size %zu", what, cb.capacity(), cb.size());
      if (cb.max_size() != maxsz) c.fail("after %s: max_size changed", what);
      if (cb.capacity() && cb.capacity() > maxsz) c.fail("after %s: capacity %zu above maximum %zu", what, cb.capacity(), maxsz);
      if (size_t(cb.end() - cb.begin()) != ref.size() || size_t(b.end() - b.begin()) != ref.size() || cb.begin() != cb.data() || b.begin() != cb.data()) c.fail("after %s: iterators disagree with size", what);
      for (size_t i = 0; i < ref.size(); ++i)
        if (cb.data()[i] != ref[i] || b.data()[i] != ref[i] || cb[i] != ref[i] || b[i] != ref[i] || cb.begin()[i] != ref[i])
          c.fail("after %s: byte %zu is %d, expected %d", what, i, cb.data()[i], ref[i]);
      auto v = cb.as_buffers(); auto w = b.as_buffers(); auto x = asioext::buffer(b); auto y = asioext::buffer(cb);
      if (v.size() != ref.size() || w.size() != ref.size() || x.size() != ref.size() || y.size() != ref.size() || (ref.size() && (v.data() != cb.data() || w.data() != cb.data() || x.data() != cb.data() || y.data() != cb.data())))
        c.fail("after %s: buffer view disagrees with the content", what);
      // every byte of the storage up to capacity belongs to us
      size_t cap = cb.capacity();
      if (cap) { auto it = led.live.find((void*)cb.data()); if (it == led.live.end()) c.fail("after %s: data() is not a live allocation", what); if (it->second.n < cap) c.fail("after %s: capacity %zu exceeds allocation of %zu", what, cap, it->second.n); }
      uint64_t h = mc::mix(mc::mix(ref.size(), cap), maxsz);
      for (uint8_t x1 : ref) h = mc::mix(h, x1);
      c.state(h);
    };
    check("construction");
    for (int d = 0; d < depth; ++d) {
      if (prune && c.seen(mc::mix(mc::mix(mc::mix(cb.size(), cb.capacity()), mc::mix(maxsz, d)), mc::mix(it, led.refused + 100 * ctor)))) break;
      enum { APPEND, INSERT, ERASE1, ERASER, RESIZE, RESERVE, CLEAR, NOPS };
      int op = c.choose(NOPS, "op");
      const size_t s0 = b.size(), cap0 = b.capacity();
      const uint8_t* d0 = cb.data();
      const size_t live0 = led.live.size();
      size_t need = 0; bool over = false; bool threw = false, nomem = false; const char* what = "";
      Ref before = ref;
      auto guarded = [&](auto&& f) {
        try { f(); }
        catch (const std::length_error&) { threw = true; }
        catch (const std::bad_alloc&) { nomem = true; }
        catch (...) { c.fail("%s: unexpected exception type", what); }
      };
      int refused0 = led.refused;
      switch (op) {
        case APPEND: {
          static const size_t ns[] = {0, 1, 2, 4, HUGE_};
          const size_t bigns[] = {1, 255, 256, s0, s0 + 1};
          size_t n = (big ? bigns : ns)[c.choose(5, "n")];
          what = "append"; c.note("append(%zu)", n);
          Src s(n == HUGE_ ? 0 : n, ctr);
          over = n > maxsz - s0; need = over ? 0 : s0 + n;
          if (!over && n != HUGE_) ref.insert(ref.end(), s.p.get(), s.p.get() + n);
          guarded([&] { b.append(s.p.get(), n); });
          break;
        }
        case INSERT: {
          size_t pos = position(0, s0, "position");
          static const size_t ns[] = {0, 1, 3, HUGE_};
          const size_t bigns[] = {1, 255, 256, s0 + 1};
          size_t n = (big ? bigns : ns)[c.choose(4, "n")];
         
          what = "insert"; c.note("insert(%zu, %zu)", pos, n);
          Src s(n == HUGE_ ? 0 : n, ctr);
          over = n > maxsz - s0; need = over ? 0 : s0 + n;
          if (!over && n != HUGE_) ref.insert(ref.begin() + pos, s.p.get(), s.p.get() + n);
          guarded([&] { if (it) b.insert(cb.begin() + pos, s.p.get(), n); else b.insert(pos, s.p.get(), n); });
          break;
        }
        case ERASE1: {
          if (!s0) return;
          size_t pos = position(0, s0 - 1, "position");
          what = "erase"; c.note("erase(%zu)", pos);
          ref.erase(ref.begin() + pos);
          guarded([&] { if (it) b.erase(cb.begin() + pos); else b.erase(pos); });
          break;
        }
        case ERASER: {
          size_t f = position(0, s0, "first"), l = position(f, s0, "last");
          what = "erase range"; c.note("erase(%zu, %zu)", f, l);
          ref.erase(ref.begin() + f, ref.begin() + l);
          guarded([&] { if (it) b.erase(cb.begin() + f, cb.begin() + l); else b.erase(f, l); });
          break;
        }
        case RESIZE: {
          size_t cand[] = {0, s0 ? s0 - 1 : 0, s0, s0 + 1, s0 + 3, maxsz < 10000 ? maxsz : 0, maxsz < 10000 ? maxsz + 1 : HUGE_};
          size_t n = cand[c.choose(7, "new size")];
          what = "resize"; c.note("resize(%zu)", n);
          over = n > maxsz; need = over ? 0 : n;
          guarded([&] { b.resize(n); });
          if (!over && !threw && !nomem) {
            if (b.size() != n) c.fail("resize(%zu) gives size %zu", n, b.size());
            size_t old = ref.size(); ref.resize(n);
            for (size_t i = old; i < n; ++i) { b[i] = ctr; ref[i] = ctr++; }
          }
          break;
        }
        case RESERVE: {
          size_t cand[] = {0, s0, cap0, cap0 + 1, cap0 + 4, maxsz < 10000 ? maxsz : 0, maxsz < 10000 ? maxsz + 1 : HUGE_};
          size_t n = cand[c.choose(7, "capacity")];
          what = "reserve"; c.note("reserve(%zu)", n);
          over = n > maxsz; need = over ? 0 : n;
          guarded([&] { b.reserve(n); });
          if (!threw && !nomem && b.capacity() < n) c.fail("reserve(%zu) gives capacity %zu", n, b.capacity());
          break;
        }
        case CLEAR: what = "clear"; c.note("clear()"); ref.clear(); b.clear(); break;
      }
      if (over != threw) c.fail("%s: %s", what, threw ? "length error although the result fits" : "no length error although the result exceeds the maximum size");
      if (need > (1u << 20) && !nomem) c.fail("%s: huge request reported no failure", what);
      if (nomem && led.refused == refused0) c.fail("%s: out of memory although the allocator could serve every sensible request", what);
      if (threw || nomem) {
        ref = before;
        if (b.capacity() != cap0 || cb.data() != d0) c.fail("%s: failed but changed the storage", what);
        c.cover(threw ? "length_error" : "allocation failure");
      } else if (need <= cap0 && cb.data() != d0 && cap0) c.fail("%s: storage moved although the result fits the capacity", what);
      if (!threw && !nomem && need > cap0) c.cover("reallocated");
      if (led.live.size() > 1) c.fail("%s: old storage leaked", what);
      (void)live0;
      check(what);
    }
    if (ref.size() > 3) c.interesting();
    led.may_fail = false;
  }
  if (!led.live.empty()) c.fail("storage leaked at the end of the buffer's life");
}
}
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C13"; return mc::main_explore(argc, argv, cfg, run); }
