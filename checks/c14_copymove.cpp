// C14: copying and moving byte buffers for every combination of allocator propagation traits, with failing allocations.
#include "tracked_alloc.hpp"
#include "asioext/linear_buffer.hpp"
#include <memory>
#include <optional>
#include <stdexcept>
using namespace asioext;
namespace {
struct Model { bool exists = false; int alloc = 0; size_t max = 0; std::vector<uint8_t> v; bool max_known = true; };

template <typename A>
void scenario(mc::Ctx& c)
{
  constexpr bool POCCA = A::propagate_on_container_copy_assignment::value, POCMA = A::propagate_on_container_move_assignment::value;
  constexpr bool AE = A::is_always_equal::value;
  typedef basic_linear_buffer<A> B;
  constexpr int NB = 3;
  // mode 0: every history, no pruning. mode 1: longer histories, cut at states (sizes, capacities, limits, allocators of
  // all buffers) an explored history already continued from with the same remaining depth.
  const bool prune = c.flag("pruned search");
  const int depth = prune ? (c.thorough() ? 6 : 5) : c.thorough() ? 4 : 3;
  c.set_bound(1);
  Ledger led(c);
  const bool equal = AE || c.flag("all allocators equal");
  auto aid = [&](int i) { return equal ? 1 : i + 1; };
  uint8_t ctr = 1;
  {
    std::unique_ptr<B> b[NB]; Model m[NB];
    auto make = [&](int i, size_t init, size_t max) {
      b[i].reset(new B(A(aid(i)), init, max));
      m[i] = {true, aid(i), b[i]->max_size(), {}};
      for (size_t k = 0; k < init; ++k) { (*b[i])[k] = ctr; m[i].v.push_back(ctr++); }
    };
    // start: buffer 0 filled, buffer 1 varying, buffer 2 absent
    make(0, 3, SIZE_MAX);
    switch (c.choose(4, "second buffer")) {
      case 0: b[1].reset(new B(A(aid(1)))); m[1] = {true, aid(1), b[1]->max_size(), {}}; break;
      case 1: make(1, 5, SIZE_MAX); break;
      case 2: make(1, 1, 2); break;
      case 3: make(1, 2, 16); break;
    }
    auto check = [&](const char* what) {
      size_t blocks = 0; uint64_t h = 3;
      for (int i = 0; i < NB; ++i) {
        if (!m[i].exists) { h = mc::mix(h, 1); continue; }
        const B& x = *b[i];
        if (x.size() != m[i].v.size()) c.fail("after %s: buffer %d has size %zu, expected %zu", what, i, x.size(), m[i].v.size());
        if (m[i].max_known && x.max_size() != m[i].max) c.fail("after %s: buffer %d has maximum size %zu, expected %zu", what, i, x.max_size(), m[i].max);
        if (x.capacity() < x.size()) c.fail("after %s: buffer %d has capacity below its size", what, i);
        for (size_t k = 0; k < m[i].v.size(); ++k)
          if (x.data()[k] != m[i].v[k]) c.fail("after %s: buffer %d byte %zu is %d, expected %d", what, i, k, x.data()[k], m[i].v[k]);
        if (x.data()) {
          auto it = led.live.find((void*)x.data());
          if (it == led.live.end()) c.fail("after %s: buffer %d points to memory it does not own", what, i);
          if (it->second.n != x.capacity()) c.fail("after %s: buffer %d has capacity %zu but owns %zu bytes", what, i, x.capacity(), it->second.n);
          if (it->second.id != m[i].alloc) c.fail("after %s: buffer %d holds memory of allocator %d, its allocator should be %d", what, i, it->second.id, m[i].alloc);
          for (int k = 0; k < i; ++k) if (m[k].exists && b[k]->data() == x.data()) c.fail("after %s: buffers %d and %d share storage", what, k, i);
          ++blocks;
        } else if (x.capacity()) c.fail("after %s: buffer %d claims capacity without storage", what, i);
        h = mc::mix(mc::mix(mc::mix(h, x.size()), x.capacity()), mc::mix(m[i].alloc, x.max_size()));
        h = mc::hbytes(h, m[i].v.data(), m[i].v.size());
      }
      if (led.live.size() != blocks) c.fail("after %s: %zu memory blocks are allocated but only %zu are owned by a buffer (leak)", what, led.live.size(), blocks);
      c.state(h);
    };
    check("start");
    led.may_fail = true;
    for (int d = 0; d < depth; ++d) {
      if (prune) {
        uint64_t h = mc::mix(d, led.refused * 64 + POCCA * 32 + POCMA * 16 + AE * 8 + equal * 4 + (A(1).select_on_container_copy_construction().id != 1));
        for (int i = 0; i < NB; ++i) {
          h = mc::mix(h, m[i].exists ? 2 + m[i].alloc * 2 + m[i].max_known : 1);
          if (m[i].exists) h = mc::mix(mc::mix(h, b[i]->size()), mc::mix(b[i]->capacity(), mc::mix(b[i]->max_size(), !!b[i]->data())));
        }
        if (c.seen(h)) break;
      }
      enum { COPYCTOR, MOVECTOR, COPYASSIGN, MOVEASSIGN, APPEND, CLEAR, DESTROY, CTOR };
      struct O { int op, to, from; };
      std::vector<O> ops;
      for (int i = 0; i < NB; ++i) {
        if (m[i].exists) {
          for (int k = 0; k < NB; ++k) if (m[k].exists) { ops.push_back({COPYASSIGN, i, k}); ops.push_back({MOVEASSIGN, i, k}); }
          ops.push_back({APPEND, i, 0}); ops.push_back({DESTROY, i, 0});
          if (m[i].v.size()) ops.push_back({CLEAR, i, 0});
        } else {
          for (int k = 0; k < NB; ++k) if (m[k].exists) { ops.push_back({COPYCTOR, i, k}); ops.push_back({MOVECTOR, i, k}); }
          ops.push_back({CTOR, i, 0});
        }
      }
      O o = ops[c.choose((int)ops.size(), "operation")];
      const char* what = "?";
      bool threw = false, length = false; const int refused0 = led.refused;
      auto guarded = [&](auto&& f) { try { f(); } catch (const std::bad_alloc&) { threw = true; } catch (const std::length_error&) { length = true; } };
      bool expect_length = false;
      switch (o.op) {
        case COPYCTOR: {
          what = "copy construction"; c.note("b%d(b%d)", o.to, o.from);
          const B& src = *b[o.from];
          guarded([&] { b[o.to].reset(new B(src)); });
          if (!threw) { m[o.to] = m[o.from]; m[o.to].alloc = A(m[o.from].alloc).select_on_container_copy_construction().id; }
          break;
        }
        case MOVECTOR:
          what = "move construction"; c.note("b%d(move(b%d))", o.to, o.from);
          b[o.to].reset(new B(std::move(*b[o.from])));
          m[o.to] = m[o.from]; m[o.from].v.clear(); m[o.from].max_known = false;
          if (b[o.from]->data() || b[o.from]->capacity()) c.fail("moved-from buffer still has memory");
          break;
        case COPYASSIGN: {
          what = o.to == o.from ? "copy self-assignment" : "copy assignment"; c.note("b%d = b%d", o.to, o.from);
          const B& src = *b[o.from];
          expect_length = m[o.from].v.size() > b[o.to]->max_size();
          guarded([&] { *b[o.to] = src; });
          if (!threw && !length) { m[o.to].v = m[o.from].v; if (POCCA) m[o.to].alloc = m[o.from].alloc; }
          break;
        }
        case MOVEASSIGN: {
          what = o.to == o.from ? "move self-assignment" : "move assignment"; c.note("b%d = move(b%d)", o.to, o.from);
          B& src = *b[o.from];
          guarded([&] { *b[o.to] = std::move(src); });
          if (!threw && o.to != o.from) {
            int keep = m[o.to].alloc; m[o.to] = m[o.from]; if (!POCMA) m[o.to].alloc = keep;
            m[o.to].max_known = m[o.from].max_known; m[o.from].v.clear(); m[o.from].max_known = false;
            if (src.data() || src.capacity()) c.fail("moved-from buffer still has memory");
          }
          break;
        }
        case APPEND: {
          what = "append"; c.note("b%d.append(2)", o.to);
          uint8_t x[2] = {ctr, uint8_t(ctr + 1)}; ctr += 2;
          expect_length = m[o.to].v.size() + 2 > b[o.to]->max_size();
          guarded([&] { b[o.to]->append(x, 2); });
          if (!threw && !length) { m[o.to].v.push_back(x[0]); m[o.to].v.push_back(x[1]); }
          break;
        }
        case CLEAR: what = "clear"; c.note("b%d.clear()", o.to); b[o.to]->clear(); m[o.to].v.clear(); break;
        case DESTROY: what = "destruction"; c.note("b%d.~()", o.to); b[o.to].reset(); m[o.to] = {}; break;
        case CTOR: what = "construction"; c.note("b%d()", o.to); b[o.to].reset(new B(A(aid(o.to)))); m[o.to] = {true, aid(o.to), b[o.to]->max_size(), {}}; break;
      }
      if (length != expect_length) c.fail("%s: %s", what, length ? "unexpected length error" : "no length error although the content exceeds the maximum");
      if (threw && led.refused == refused0) c.fail("%s: bad_alloc although no allocation failed", what);
      if (threw) c.cover("allocation failure");
      if (!m[o.to].max_known && m[o.to].exists) { /* limit of a moved-from buffer is unspecified */ }
      check(what);
    }
    // every buffer remains usable and allocates from its own allocator
    led.may_fail = false;
    for (int i = 0; i < NB; ++i)
      if (m[i].exists && b[i]->max_size() > 1000) {
        std::vector<uint8_t> big(b[i]->capacity() - b[i]->size() + 1, 9);
        int before = led.allocs;
        b[i]->append(big.data(), big.size());
        if (led.allocs == before) c.fail("append beyond the capacity did not allocate");
        if (led.last_alloc_id != m[i].alloc) c.fail("buffer %d allocates from allocator %d, should be %d", i, led.last_alloc_id, m[i].alloc);
        m[i].v.insert(m[i].v.end(), big.begin(), big.end());
        check("final append");
      }
    c.interesting();
  }
  if (!led.live.empty()) c.fail("memory leaked at the end");
}

void run(mc::Ctx& c)
{
  switch (c.choose(10, "allocator traits")) {
#define CASE(n, a, m, s, e) case n: c.cover("POCCA=" #a " POCMA=" #m " SELECT=" #s " ALWAYS_EQUAL=" #e); scenario<TrackAlloc<uint8_t, a, m, s, e>>(c); break;
    CASE(0, false, false, false, false)
    CASE(1, false, false, true, false)
    CASE(2, false, true, false, false)
    CASE(3, false, true, true, false)
    CASE(4, true, false, false, false)
    CASE(5, true, false, true, false)
    CASE(6, true, true, false, false)
    CASE(7, true, true, true, false)
    CASE(8, false, false, false, true)
    CASE(9, true, true, false, true)
  }
}
}
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C14"; return mc::main_explore(argc, argv, cfg, run); }
