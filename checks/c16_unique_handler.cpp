// C16: unique_handler histories with re-entrant handlers, throwing allocations, moves and invocations.
#include "asioext/detail/config.hpp"
#include "tracked_alloc.hpp"
#include "asioext/unique_handler.hpp"
#include "asioext/exception.hpp"
#include <memory>
using namespace asioext;
namespace {
struct H;
typedef unique_handler<void(int, std::unique_ptr<int>)> UH;
struct Boom {};
constexpr int MAXH = 24, NW = 2;
enum Invoke { NOTHING, REFILL, RESET, COMPLETE_OTHER, THROW, DESTROY_WRAPPER, MOVE_OTHER_IN, NINVOKE };
enum Death { QUIET, D_RESET, D_REFILL, NDEATH };

struct World {
  mc::Ctx& c; Ledger led;
  int created = 0;
  struct Rec { int live = 0, invoked = 0, destroyed = 0, inv = 0, death = 0, alloc = 0, wrapper = -1; bool given = false; } rec[MAXH];
  std::unique_ptr<UH> w[NW];
  bool moves_may_throw = false;
  int depth = 0;          // nesting of re-entrant calls
  int expect_completing = -1, completing_wrapper = -1;
  World(mc::Ctx& ctx) : c(ctx), led(ctx) {}
  static World*& cur() { static World* p = nullptr; return p; }
};

struct H {
  int id; bool moved = false, original = false; // original: the caller's object, moving from it may throw
  explicit H(int i) : id(i), original(true) { World::cur()->rec[id].live++; }
  H(H&& o) : id(o.id), moved(o.moved)
  {
    World& W = *World::cur();
    if (o.original && W.moves_may_throw && W.c.choose_dev(2, "handler move throws")) { W.c.note("move of h%d throws", id); throw Boom(); }
    W.rec[id].live++; o.moved = true;
  }
  H(const H&) = delete;
  ~H();
  void operator()(int v, std::unique_ptr<int> p);
};
} // namespace
MC_ASIO_OPEN
template <typename A> struct associated_allocator<H, A> {
  typedef TrackAlloc<void> type;
  static type get(const H& h, const A& = A()) noexcept { return type(World::cur()->rec[h.id].alloc); }
};
MC_ASIO_CLOSE
namespace {
int fresh(World& W, int inv, int death, int wrapper)
{
  if (W.created >= MAXH) W.c.internal("too many handlers");
  int id = W.created++;
  auto& r = W.rec[id]; r.inv = inv; r.death = death; r.alloc = 10 + id % 2; r.wrapper = wrapper;
  return id;
}
void store(World& W, int wi, int inv, int death, bool lvalue)
{
  int id = fresh(W, inv, death, wi);
  W.rec[id].given = true;
  W.c.note("w%d = h%d(%s, on invocation %d, on destruction %d)", wi, id, lvalue ? "lvalue" : "rvalue", inv, death);
  if (lvalue) { H h(id); *W.w[wi] = h; }
  else *W.w[wi] = H(id);
  if (!W.w[wi]) return;
}
H::~H()
{
  World& W = *World::cur();
  auto& r = W.rec[id];
  if (--r.live < 0) W.c.fail("handler %d destroyed more often than created", id);
  if (moved) return;
  if (++r.destroyed > 1) W.c.fail("handler %d destroyed twice", id);
  W.c.note("h%d destroyed", id);
  if (!original && r.death != QUIET && W.depth < 2 && r.wrapper >= 0 && W.w[r.wrapper]) {
    ++W.depth;
    if (r.death == D_RESET) { W.c.note("  ~h%d: w%d.reset()", id, r.wrapper); W.w[r.wrapper]->reset(); }
    else { bool keep = W.moves_may_throw, af = W.led.may_fail; W.moves_may_throw = W.led.may_fail = false; store(W, r.wrapper, NOTHING, QUIET, false); W.moves_may_throw = keep; W.led.may_fail = af; }
    --W.depth;
  }
}
void H::operator()(int v, std::unique_ptr<int> p)
{
  World& W = *World::cur();
  auto& r = W.rec[id];
  W.c.note("h%d invoked", id);
  if (moved) W.c.fail("a moved-from handler was invoked");
  if (++r.invoked > 1) W.c.fail("handler %d invoked twice", id);
  if (v != 41 || !p || *p != 42) W.c.fail("handler %d invoked with other arguments than given", id);
  if (W.expect_completing != id && W.expect_completing != -2) W.c.fail("completing a wrapper invoked handler %d instead of %d", id, W.expect_completing);
  int wi = W.completing_wrapper;
  if (wi >= 0 && W.w[wi] && *W.w[wi]) W.c.fail("wrapper is not empty while its handler runs");
  // storage returned before the upcall: only the other non-empty wrappers hold memory now
  size_t held = 0; for (auto& x : W.w) if (x && *x) ++held;
  if (W.led.live.size() != held) W.c.fail("handler runs while its storage is still allocated (%zu blocks, %zu filled wrappers)", W.led.live.size(), held);
  if (W.depth >= 2) return;
  ++W.depth;
  struct Dec { int& d; ~Dec() { --d; } } dec{W.depth};
  switch (r.inv) {
    case NOTHING: break;
    case REFILL: if (wi >= 0 && W.w[wi]) { store(W, wi, NOTHING, QUIET, false); W.c.cover("refilled from inside the handler"); } break;
    case RESET: if (wi >= 0 && W.w[wi]) W.w[wi]->reset(); break;
    case COMPLETE_OTHER: {
      int o = 1 - wi;
      if (wi >= 0 && W.w[o]) {
        int se = W.expect_completing, sw = W.completing_wrapper; W.expect_completing = -2; W.completing_wrapper = o;
        bool filled = !!*W.w[o];
        try { W.w[o]->complete(41, std::unique_ptr<int>(new int(42))); if (!filled) W.c.fail("completing an empty wrapper did not throw"); }
        catch (const bad_function_call&) { if (filled) W.c.fail("completing a filled wrapper threw bad_function_call"); }
        catch (const Boom&) {}
        W.expect_completing = se; W.completing_wrapper = sw;
      }
      break;
    }
    case THROW: throw Boom();
    case DESTROY_WRAPPER: if (wi >= 0) { W.c.note("  destroying w%d from inside", wi); W.w[wi].reset(); } break;
    case MOVE_OTHER_IN: if (wi >= 0 && W.w[wi] && W.w[1 - wi]) *W.w[wi] = std::move(*W.w[1 - wi]); break;
  }
}

void run(mc::Ctx& c)
{
  const bool prune = c.flag("pruned search");
  const int depth = prune ? (c.thorough() ? 5 : 4) : c.thorough() ? 3 : 2;
  c.set_bound(1); // throwing allocations / moves per history
  World W(c); World::cur() = &W;
  int content[NW] = {-1, -1}; // -1 empty, -3 unknown (re-entrant destruction), otherwise handler id
  auto resync = [&](const char* what) {
    // content after re-entrant code: every non-destroyed handler must sit in exactly one filled wrapper
    std::vector<int> alive; for (int i = 0; i < W.created; ++i) { auto& r = W.rec[i]; if (r.live && !r.destroyed) alive.push_back(i); if (r.destroyed && r.live) c.fail("after %s: copies of destroyed handler %d remain", what, i); if (!r.live && !r.destroyed && r.given) c.fail("after %s: handler %d vanished without being destroyed", what, i); }
    size_t filled = 0; for (auto& x : W.w) if (x && *x) ++filled;
    if (alive.size() != filled) c.fail("after %s: %zu live handlers but %zu filled wrappers", what, alive.size(), filled);
    if (W.led.live.size() != filled) c.fail("after %s: %zu memory blocks for %zu stored handlers", what, W.led.live.size(), filled);
    for (int id : alive) { bool ok = false; for (auto& b : W.led.live) ok |= b.second.id == W.rec[id].alloc; if (!ok) c.fail("after %s: handler %d is not stored in memory of its own allocator", what, id); }
    for (int i = 0; i < NW; ++i) {
      if (!W.w[i] || !*W.w[i]) { content[i] = -1; continue; }
      if (content[i] >= 0 && !W.rec[content[i]].destroyed) continue;
      if (alive.size() == 1) content[i] = alive[0];
      else content[i] = -3;
    }
    for (int i = 0; i < NW; ++i) if (content[i] == -3 && content[1 - i] >= 0) { for (int id : alive) if (id != content[1 - i]) content[i] = id; }
    uint64_t h = 1; for (int i = 0; i < NW; ++i) h = mc::mix(h, !W.w[i] ? 1 : content[i] < 0 ? 2 + content[i] + 8 : 16 + W.rec[content[i]].inv * 4 + W.rec[content[i]].death);
    c.state(mc::mix(h, W.created));
  };
  for (int i = 0; i < NW; ++i) W.w[i].reset(new UH());
  resync("start");
  for (int d = 0; d < depth; ++d) {
    if (prune) {
      uint64_t h = mc::mix(d, c.used);
      for (int i = 0; i < NW; ++i) h = mc::mix(h, !W.w[i] ? 1 : content[i] < 0 ? 10 + content[i] : 100 + W.rec[content[i]].inv * 64 + W.rec[content[i]].death * 16 + (W.rec[content[i]].alloc % 2) * 4 + W.rec[content[i]].wrapper);
      if (content[0] != -3 && content[1] != -3 && c.seen(mc::mix(h, W.created % 2))) break;
    }
    enum { CTOR, CTOR_H, CTOR_HL, ASSIGN, ASSIGNL, MOVECTOR, MOVEASSIGN, SELFMOVE, RESET_, COMPLETE, DESTROY };
    struct O { int op, w; }; std::vector<O> ops;
    for (int i = 0; i < NW; ++i) {
      if (W.w[i]) { for (int o : {ASSIGN, ASSIGNL, RESET_, COMPLETE, DESTROY, SELFMOVE}) ops.push_back({o, i}); if (W.w[1 - i]) ops.push_back({MOVEASSIGN, i}); }
      else { for (int o : {CTOR, CTOR_H, CTOR_HL}) ops.push_back({o, i}); if (W.w[1 - i]) ops.push_back({MOVECTOR, i}); }
    }
    O o = ops[c.choose((int)ops.size(), "operation")];
    const int i = o.w, k = 1 - i;
    W.led.may_fail = W.moves_may_throw = true;
    bool threw = false; int inv = 0, death = 0;
    const int before = content[i], other = content[k], created0 = W.created;
    if (o.op == CTOR_H || o.op == CTOR_HL || o.op == ASSIGN || o.op == ASSIGNL) {
      inv = c.choose(NINVOKE, "on invocation");
      if (o.op == ASSIGN || o.op == ASSIGNL) death = c.choose(NDEATH, "on destruction");
    }
    const char* what = "";
    bool reentrant_death = before == -3 || (before >= 0 && W.rec[before].death != QUIET);
    try {
      switch (o.op) {
        case CTOR: what = "construction"; W.w[i].reset(new UH()); break;
        case CTOR_H: case CTOR_HL: {
          what = "construction from a handler";
          int id = fresh(W, inv, QUIET, i); W.rec[id].given = true;
          c.note("w%d(h%d)", i, id);
          if (o.op == CTOR_HL) { H h(id); W.w[i].reset(new UH(h)); } else W.w[i].reset(new UH(H(id)));
          content[i] = id;
          break;
        }
        case ASSIGN: case ASSIGNL: what = "assignment of a handler"; content[i] = reentrant_death ? -3 : W.created; store(W, i, inv, death, o.op == ASSIGNL); break;
        case MOVECTOR: what = "move construction"; c.note("w%d(move(w%d))", i, k); W.w[i].reset(new UH(std::move(*W.w[k]))); content[i] = content[k]; content[k] = -1; if (*W.w[k]) c.fail("moved-from wrapper is not empty"); break;
        case MOVEASSIGN:
          what = "move assignment"; c.note("w%d = move(w%d)", i, k);
          W.moves_may_throw = false; // the operation is noexcept
          *W.w[i] = std::move(*W.w[k]); content[i] = content[k]; content[k] = -1;
          if (reentrant_death) content[i] = content[k] = -3;
          else { if (*W.w[k]) c.fail("moved-from wrapper is not empty"); if (!!*W.w[i] != (other != -1)) c.fail("move assignment lost or invented a handler"); }
          break;
        case SELFMOVE: { what = "self move assignment"; c.note("w%d = move(w%d)", i, i); W.moves_may_throw = false; UH& a = *W.w[i]; UH& b = *W.w[i]; a = std::move(b); if (!*W.w[i]) content[i] = -1; else if (before >= 0 && W.rec[before].destroyed) content[i] = -3; break; }
        case RESET_: what = "reset"; c.note("w%d.reset()", i); W.moves_may_throw = false; content[i] = reentrant_death && (before == -3 || W.rec[before].death == D_REFILL) ? -3 : -1; W.w[i]->reset(); if (content[i] == -1 && *W.w[i]) c.fail("wrapper is not empty after reset()"); break;
        case COMPLETE: {
          what = "completion"; c.note("w%d.complete()", i);
          W.moves_may_throw = false;
          W.expect_completing = before == -3 ? -2 : before; W.completing_wrapper = i;
          content[i] = -3; if (before >= 0 && (W.rec[before].inv == COMPLETE_OTHER || W.rec[before].inv == MOVE_OTHER_IN)) content[k] = -3;
          bool empty = before == -1, bfc = false;
          size_t inv0 = 0; for (auto& r : W.rec) inv0 += r.invoked;
          try { W.w[i]->complete(41, std::unique_ptr<int>(new int(42))); }
          catch (const bad_function_call&) { bfc = true; }
          W.expect_completing = -1; W.completing_wrapper = -1;
          size_t inv1 = 0; for (auto& r : W.rec) inv1 += r.invoked;
          if (empty != bfc) c.fail(empty ? "completing an empty wrapper did not throw bad_function_call" : "completing a filled wrapper threw bad_function_call");
          if (empty && inv1 != inv0) c.fail("completing an empty wrapper invoked something");
          if (!empty && before >= 0 && W.rec[before].invoked != 1) c.fail("completed handler was invoked %d times", W.rec[before].invoked);
          if (!empty && before >= 0 && !W.rec[before].destroyed) c.fail("completed handler was not destroyed");
          c.cover(empty ? "completed empty" : "completed");
          break;
        }
        case DESTROY: what = "destruction"; c.note("w%d.~()", i); { W.moves_may_throw = false; auto p = std::move(W.w[i]); p.reset(); } content[i] = -1; break;
      }
    } catch (const Boom&) { threw = true; W.expect_completing = -1; W.completing_wrapper = -1; }
    catch (const std::bad_alloc&) { threw = true; }
    W.led.may_fail = W.moves_may_throw = false;
    if (threw) {
      c.cover("exception");
      if (o.op != COMPLETE) {
        // left empty or with its previous handler
        if (W.w[i] && *W.w[i]) content[i] = before; else content[i] = -1;
        if (W.w[i] && *W.w[i] && before >= 0 && W.rec[before].destroyed && !reentrant_death) c.fail("%s threw, the wrapper is filled but its previous handler was destroyed", what);
        if (reentrant_death) content[i] = -3;
      } else if (before >= 0 && (!W.rec[before].destroyed || W.rec[before].invoked != 1)) c.fail("a handler that threw was not destroyed exactly once");
    }
    // handlers that were aborted must not have been invoked
    if (o.op != COMPLETE) for (int id = 0; id < created0; ++id) if (W.rec[id].destroyed && !W.rec[id].invoked) c.step();
    resync(what);
    if (W.created > 1) c.interesting();
  }
  // finally complete what is left; each stored handler is invoked exactly once
  for (int i = 0; i < NW; ++i) if (W.w[i] && *W.w[i]) {
    W.expect_completing = content[i] >= 0 ? content[i] : -2; W.completing_wrapper = i;
    W.depth = 5; // no re-entrance
    try { W.w[i]->complete(41, std::unique_ptr<int>(new int(42))); } catch (const Boom&) {}
    content[i] = -1;
    W.expect_completing = -1; W.completing_wrapper = -1;
    resync("final completion");
  }
  W.depth = 5;
  for (auto& x : W.w) x.reset();
  for (int i = 0; i < W.created; ++i) { auto& r = W.rec[i]; if (r.live || r.destroyed != 1) c.fail("handler %d: %d instances left, destroyed %d times", i, r.live, r.destroyed); }
  if (!W.led.live.empty()) c.fail("handler storage leaked");
}
}
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C16"; return mc::main_explore(argc, argv, cfg, run); }
