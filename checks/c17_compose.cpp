// C17: every nesting (to a depth) of bind_handler and composed_operation over handlers with and without associated
// executor and allocator, driven through every completion path, with executors that count outstanding work.
#include "asioext/detail/config.hpp"
#include "mc.hpp"
#include "tracked_alloc.hpp"
#include "asioext/associated_allocator.hpp"
#include "asioext/bind_handler.hpp"
#include "asioext/compose.hpp"
#include <asio/bind_executor.hpp>
#include <asio/detail/handler_cont_helpers.hpp>
#include <asio/executor_work_guard.hpp>
#include <asio/io_context.hpp>
#include <asio/post.hpp>
#include <functional>
#ifndef PART
# define PART 0
#endif
using namespace asioext;
namespace {
typedef std::vector<std::string> Vals;
struct Boom {};
struct World {
  mc::Ctx& c;
  int count[16] = {}, guarded[16] = {}; // outstanding work per executor; guards held by layers
  bool cont = false; int layer_calls[8] = {}; // the user's handler's own continuation hint; invocations per composed operation
  int invoked = 0, impl_calls = 0; bool throws = false, abandoned = false;
  Vals expect;      // values the next receiver must see
  Vals level[4];    // values the next receiver sees if the bound handler of that level is called
  explicit World(mc::Ctx& cc) : c(cc) {}
  static World*& cur() { static World* p = nullptr; return p; }
  void held(const char* who)
  {
    for (int i = 0; i < 16; ++i)
      if (guarded[i] > count[i]) c.fail("executor %d has %d outstanding work while %s runs, %d guard(s) must still hold it", i, count[i], who, guarded[i]);
  }
};
struct ECtx : asio::execution_context {};
struct Exec {
  int id = -1;
  static ECtx& ctx() { static ECtx* c = new ECtx; return *c; }
  asio::execution_context& context() const noexcept { return ctx(); }
  void on_work_started() const noexcept { if (id >= 0) World::cur()->count[id]++; }
  void on_work_finished() const noexcept { if (id >= 0 && --World::cur()->count[id] < 0) World::cur()->c.fail("work on executor %d finished more often than started", id); }
  template <typename F, typename A> void dispatch(F f, const A&) const { f(); }
  template <typename F, typename A> void post(F f, const A&) const { f(); }
  template <typename F, typename A> void defer(F f, const A&) const { f(); }
  bool operator==(const Exec& o) const noexcept { return id == o.id; }
  bool operator!=(const Exec& o) const noexcept { return id != o.id; }
};
struct IoObj { int id; typedef Exec executor_type; Exec get_executor() const { return Exec{id}; } };

std::string show(const std::string& s) { return s; }
std::string show(int i) { return std::to_string(i); }
std::string join(const Vals& v) { std::string a; for (auto& x : v) a += (a.empty() ? "" : ",") + x; return a; }
template <typename... T> void receive(World& W, const char* who, const T&... t)
{
  Vals got{show(t)...};
  if (got != W.expect) W.c.fail("%s received (%s) instead of (%s)", who, join(got).c_str(), join(W.expect).c_str());
  W.held(who);
}

struct Base {
  World* w; std::string payload = "user handler state, longer than any small string buffer";
  explicit Base(World& W) : w(&W) {}
  friend bool asio_handler_is_continuation(Base* b) { return b->w->cont; }
  template <typename... T> void operator()(const T&... t)
  {
    World& W = *w;
    if (++W.invoked > 1) W.c.fail("handler invoked %d times", W.invoked);
    if (payload.size() != 55) W.c.fail("a moved-from handler was invoked");
    receive(W, "the handler", t...);
    W.c.note("handler invoked");
    if (W.throws) throw Boom();
  }
};
struct HPlain : Base { using Base::Base; static const bool ex = false, al = false; };
struct HExec : Base { using Base::Base; static const bool ex = true, al = false; typedef Exec executor_type; Exec get_executor() const noexcept { return Exec{14}; } };
struct HAlloc : Base { using Base::Base; static const bool ex = false, al = true; typedef TrackAlloc<void> allocator_type; allocator_type get_allocator() const noexcept { return allocator_type(77); } };
struct HBoth : Base { using Base::Base; static const bool ex = true, al = true; typedef Exec executor_type; Exec get_executor() const noexcept { return Exec{14}; } typedef TrackAlloc<void> allocator_type; allocator_type get_allocator() const noexcept { return allocator_type(77); } };

template <typename H> void hint(World& W, H& h, bool expected, const char* what)
{
  if (MC_CONT_HELPERS::is_continuation(h) != expected)
    W.c.fail("the continuation hint of %s is %s, expected %s (the handler's own is %s)", what, expected ? "off" : "on", expected ? "on" : "off", W.cont ? "on" : "off");
}

template <typename B, typename H> void associations(World& W, H& h)
{
  hint(W, h, W.cont, "an operation that was not started yet");
  auto e = asio::get_associated_executor(h, Exec{15});
  if constexpr (!std::is_same<decltype(e), Exec>::value) W.c.fail("the associated executor has the wrong type");
  else if (e.id != (B::ex ? 14 : 15)) W.c.fail("the associated executor is %d, expected %s", e.id, B::ex ? "the wrapped handler's" : "the given default");
  auto a = asio::get_associated_allocator(h, TrackAlloc<void>(88));
  if constexpr (!std::is_same<decltype(a), TrackAlloc<void>>::value) W.c.fail("the associated allocator has the wrong type");
  else if (a.id != (B::al ? 77 : 88)) W.c.fail("the associated allocator is %d, expected %s", a.id, B::al ? "the wrapped handler's" : "the given default");
  if (!std::is_same<typename asio::associated_executor<H>::type, typename asio::associated_executor<B>::type>::value) W.c.fail("the default associated executor has the wrong type");
  if (!std::is_same<typename asio::associated_allocator<H>::type, typename asio::associated_allocator<B>::type>::value) W.c.fail("the default associated allocator has the wrong type");
  W.c.step();
}

// A composed operation's implementation. NULLARY: the wrapped handler is a bound handler of level `inner`
template <bool NULLARY> struct Impl {
  World* w; int layer, inner, guards;
  std::string payload = "implementation state, longer than any small string buffer";
  template <typename Self> void released(World& W, int lv, int n, Self*)
  {
    for (int i = 0; i < n; ++i)
      if (W.count[lv * 2 + i]) W.c.fail("executor %d still has outstanding work after the bound completion ran", lv * 2 + i);
  }
  template <typename Self, typename... T> void operator()(Self& self, T&&... t)
  {
    World& W = *w; const int lv = layer, n = guards;
    if (payload.size() != 57) W.c.fail("a moved-from implementation was invoked");
    if (++W.impl_calls > 12) W.c.internal("runaway");
    receive(W, "the implementation", t...);
    const int nth = ++W.layer_calls[lv];
    hint(W, self, nth > 1 || W.cont, nth > 1 ? "an operation that is being continued" : "an operation that was just started");
    W.c.state(mc::mix(mc::hstr(lv, join(W.expect)), W.impl_calls));
    int what = W.c.choose(W.impl_calls < 3 ? 6 : 4, "composed operation's step");
    switch (what) {
      case 0:
        if constexpr (NULLARY) { W.expect = W.level[inner]; self.complete(); }
        else self.complete(std::forward<T>(t)...);
        break;
      case 1: {
        auto run = [&](auto&& b) {
          typedef std::decay_t<decltype(b)> BB;
          if (NULLARY) W.expect = W.level[inner];
          hint(W, b, W.cont, "the bound completion");
          if (W.c.flag("move the bound completion")) { BB m(std::move(b)); m(); }
          else b();
          released(W, lv, n, (BB*)nullptr);
        };
        if constexpr (NULLARY) run(self.complete_to_bound_handler());
        else run(self.complete_to_bound_handler(std::forward<T>(t)...));
        break;
      }
      case 2: W.c.note("abandoned"); W.abandoned = true; break;
      case 3:
        if constexpr (NULLARY) { W.abandoned = true; }
        else { W.expect = {"7", "final", "8"}; self.complete(7, std::string("final"), 8); }
        break;
      case 4: { W.expect = {"intermediate", "5"}; Self m(std::move(self)); m(std::string("intermediate"), 5); break; }
      case 5: { W.expect = {}; Self m(std::move(self)); m(); break; }
    }
  }
};
// NULLARY: h is a bound handler, called without arguments
template <typename B, int D, bool NULLARY, typename H> void drive(World& W, H&& h)
{
  mc::Ctx& c = W.c;
  typedef std::decay_t<H> HH;
  associations<B>(W, h);
  int path = c.choose(3, "path");
  W.throws = path != 2 && c.flag("handler throws");
  {
    HH x(std::forward<H>(h));
    auto call = [&](HH& y) {
      bool thrown = false;
      W.held("nobody");
      try {
        if constexpr (NULLARY) { W.expect = W.level[D - 1]; y(); }
        else { W.expect = {"3", "direct"}; y(3, std::string("direct")); }
      } catch (const Boom&) { thrown = true; }
      if (W.abandoned) { if (W.invoked) c.fail("an abandoned operation invoked the handler"); c.cover("abandoned"); return; }
      if (W.invoked != 1) c.fail("the completed operation invoked the handler %d times", W.invoked);
      if (thrown != W.throws) c.fail("exception of the handler lost");
      if (!thrown)
        for (int i = 0; i < 16; ++i) if (W.count[i]) c.fail("executor %d still has outstanding work after the handler was invoked", i);
      c.cover(thrown ? "thrown" : "completed");
    };
    switch (path) {
      case 0: call(x); break;
      case 1: { HH m(std::move(x)); associations<B>(W, m); call(m); break; }
      case 2: W.abandoned = true; c.note("destroyed without invocation"); break;
    }
  }
  if (W.abandoned && W.invoked) c.fail("abandoned operation invoked the handler");
  for (int i = 0; i < 16; ++i) if (W.count[i]) c.fail("executor %d still has %d outstanding work after the operation was destroyed", i, W.count[i]);
}

template <typename B, int D, int MAXD, bool N = false, typename H> void nest(World& W, H&& h)
{
  mc::Ctx& c = W.c;
  int layer = D == MAXD ? 0 : c.choose(D < 2 ? 7 : 3, "layer");
  if (D == 2 && layer == 2) layer = 5;
  if (D == 2 && layer == 1) layer = 2;
  if (layer == 0) return drive<B, D, N>(W, std::forward<H>(h));
  if constexpr (D < MAXD) {
    constexpr bool few = D >= 2;
    const int e0 = D * 2, e1 = D * 2 + 1;
    int val = 100 + D; std::string str = "bound value " + std::to_string(D) + std::string(40, 'x');
    W.level[D] = N ? W.level[D ? D - 1 : 0] : Vals{std::to_string(val), str};
    auto next = [&](auto nullary, auto&& b) { val = -1; str = "changed"; nest<B, D + 1, MAXD, nullary()>(W, std::forward<decltype(b)>(b)); };
    const int bits = layer <= 3 ? layer - 1 : layer - 4;
    if (bits >= 1) W.guarded[e0]++;
    if (bits >= 2) W.guarded[e1]++;
    IoObj io{e0};
    c.note("level %d: %s, %d executors", D, layer <= 3 ? "bind" : "compose", bits);
    auto bind = [&](auto&&... work) {
      if constexpr (N) next(std::true_type(), asioext::bind_handler(std::forward<H>(h), std::move(work)...));
      else next(std::true_type(), asioext::bind_handler(std::forward<H>(h), std::move(work)..., val, str));
    };
    auto compose = [&](auto&... ios) { next(std::false_type(), asioext::make_composed_operation(Impl<N>{&W, D, D - 1, (int)sizeof...(ios)}, std::forward<H>(h), ios...)); };
    Exec ex1{e1};
    if (layer == 2) bind(asioext::make_work_tuple(Exec{e0}));
    else if (layer == 5) compose(io);
    else if constexpr (!few) {
      if (layer == 1) bind();
      else if (layer == 3) bind(asioext::make_work_tuple(Exec{e0}, Exec{e1}));
      else if (layer == 4) compose();
      else compose(io, ex1);
    }
  }
}

// The same guarantee observed on real contexts: `guarded` must not run out of work until the handler, which runs on
// another context, has been invoked.
void real_contexts(mc::Ctx& c)
{
  asio::io_context guarded, other;
  int calls = 0; bool alive_in_handler = false;
  struct Fin { asio::io_context& g; int& calls; bool& alive; typedef asio::io_context::executor_type executor_type; executor_type ex; executor_type get_executor() const noexcept { return ex; }
    void operator()(int v) { ++calls; g.poll(); alive = !g.stopped() && v == 42; } };
  Fin fin{guarded, calls, alive_in_handler, other.get_executor()};
  bool drop = c.flag("other context is destroyed without running");
  auto go = [&](auto&& h) { asio::post(std::forward<decltype(h)>(h)); };
  int how = c.choose(3, "wrapper");
  {
    auto op = [](auto& self) { auto b = self.complete_to_bound_handler(42); asio::post(std::move(b)); };
    auto op2 = [](auto& self) { self.complete(42); };
    if (how == 0) go(asioext::bind_handler(fin, asioext::make_work_tuple(guarded.get_executor()), 42));
    else if (how == 1) asioext::make_composed_operation(op, fin, guarded)();
    else { auto h = asioext::make_composed_operation(op2, fin, guarded); asio::post(std::move(h)); }
  }
  guarded.poll();
  if (guarded.stopped()) c.fail("guarded context ran out of work before the handler was invoked");
  if (calls) c.fail("handler invoked before its executor ran");
  if (drop) return;
  other.poll();
  if (calls != 1) c.fail("handler was invoked %d times on its executor", calls);
  if (!alive_in_handler) c.fail("guarded context ran out of work before the handler was invoked");
  guarded.poll();
  if (!guarded.stopped()) c.fail("guarded context is kept alive after the handler was invoked");
}

void run(mc::Ctx& c)
{
  World W(c);
  World::cur() = &W;
  Ledger L(c); Ledger::cur() = &L;
  c.interesting();
  W.cont = c.flag("handler is a continuation");
#if PART == 0
  if (c.choose(2, "scenario") == 1) { real_contexts(c); return; }
  if (c.flag("plain handler")) nest<HPlain, 0, 2>(W, HPlain(W));
  else nest<HExec, 0, 1>(W, HExec(W));
#elif PART == 1
  if (c.flag("handler with both")) nest<HBoth, 0, 2>(W, HBoth(W));
  else nest<HAlloc, 0, 1>(W, HAlloc(W));
#else
  nest<HBoth, 0, 3>(W, HBoth(W));
#endif
}
} // namespace
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C17"; return mc::main_explore(argc, argv, cfg, run); }
