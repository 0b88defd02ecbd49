// C06: cancellation sources and tokens, all histories up to a depth, against a reference machine.
#include "mc.hpp"
#include "asioext/cancellation_token.hpp"
#include <memory>
#include <new>
#include <optional>
#include <vector>
using namespace asioext;

namespace {
// Reference: each live "generation" of a source has an id; a token is cancelled iff its generation is dead.
// Resetting a source that is not destroyed is outside its documented use: tokens issued before it may or may not
// count as cancelled afterwards ("limbo"), until the source is next cancelled.
struct RefSource { bool exists = false; long gen = 0; /* 0: destroyed state */ std::vector<long> limbo; };
struct RefToken { bool exists = false; long gen = 0; bool reported = false; };

void run(mc::Ctx& c)
{
  const int depth = c.thorough() ? 8 : 7;
  constexpr int NT = 4;
  alignas(cancellation_token_source) unsigned char mem[2][sizeof(cancellation_token_source)];
  auto S = [&](int i) { return std::launder(reinterpret_cast<cancellation_token_source*>(mem[i])); };
  RefSource rs[2];
  std::optional<cancellation_token> tk[NT];
  RefToken rt[NT];
  long next = 1;
  std::vector<int> live(64, 0); // 0 dead, 1 live, 2 limbo
  auto fresh = [&] { live[next] = 1; return next++; };
  auto kill = [&](RefSource& r) { if (r.gen) live[r.gen] = 0; for (long g : r.limbo) live[g] = 0; r.limbo.clear(); r.gen = 0; };

  new (mem[0]) cancellation_token_source(); rs[0] = {true, fresh(), {}};
  int ntok = 0;
  auto check = [&](const char* what) {
    uint64_t h = 7;
    for (int i = 0; i < ntok; ++i) {
      bool want = rt[i].gen == 0 || !live[rt[i].gen];
      bool got = tk[i]->cancelled();
      if (rt[i].gen && live[rt[i].gen] == 2) want = got;
      if (got != want)
        c.fail("after %s: token %d reports cancelled()=%d, reference says %d", what, i, got, want);
      if (rt[i].reported && !got) c.fail("after %s: token %d went back from cancelled to not cancelled", what, i);
      rt[i].reported = got;
      h = mc::mix(h, (rt[i].gen ? 1 + rt[i].gen * 2 : 0) + got);
    }
    for (auto& r : rs) h = mc::mix(h, r.exists ? 3 + r.gen : 1);
    c.state(h);
  };
  check("start");
  for (int d = 0; d < depth; ++d) {
    // enabled operations
    enum Op { CANCEL, DESTROY, RESET, ISSUE, END, CTOR, MOVECTOR, MOVEASSIGN, COPYTOK };
    std::vector<std::pair<int, int>> ops;
    for (int i = 0; i < 2; ++i) {
      if (rs[i].exists) {
        ops.push_back({CANCEL, i}); ops.push_back({DESTROY, i}); ops.push_back({RESET, i});
        if (ntok < NT) ops.push_back({ISSUE, i});
        ops.push_back({END, i});
        if (rs[1 - i].exists) ops.push_back({MOVEASSIGN, i}); // from the other one
      } else {
        ops.push_back({CTOR, i});
        if (rs[1 - i].exists) ops.push_back({MOVECTOR, i});
      }
    }
    if (ntok > 0 && ntok < NT) ops.push_back({COPYTOK, 0});
    auto [op, i] = ops[c.choose((int)ops.size(), "op")];
    const int o = 1 - i;
    switch (op) {
      case CANCEL: {
        c.note("s%d.cancel()", i);
        S(i)->cancel();
        if (rs[i].gen) { kill(rs[i]); rs[i].gen = fresh(); }
        check("cancel"); break;
      }
      case DESTROY: c.note("s%d.destroy()", i); S(i)->destroy(); kill(rs[i]); check("destroy"); break;
      case RESET: c.note("s%d.reset()", i); S(i)->reset(); if (rs[i].gen) { live[rs[i].gen] = 2; rs[i].limbo.push_back(rs[i].gen); } rs[i].gen = fresh(); check("reset"); break;
      case ISSUE: c.note("t%d(s%d)", ntok, i); tk[ntok].emplace(*S(i)); rt[ntok] = {true, rs[i].gen, false}; ++ntok; c.cover("token issued"); check("issue"); break;
      case END: c.note("s%d.~()", i); S(i)->~cancellation_token_source(); kill(rs[i]); rs[i] = {}; check("end of source lifetime"); break;
      case CTOR: c.note("s%d()", i); new (mem[i]) cancellation_token_source(); rs[i] = {true, fresh(), {}}; check("construct"); break;
      case MOVECTOR:
        c.note("s%d(move(s%d))", i, o);
        new (mem[i]) cancellation_token_source(std::move(*S(o))); rs[i] = {true, rs[o].gen, rs[o].limbo}; rs[o].gen = 0; rs[o].limbo.clear(); check("move construct"); break;
      case MOVEASSIGN:
        c.note("s%d = move(s%d)", i, o);
        *S(i) = std::move(*S(o)); kill(rs[i]); rs[i].gen = rs[o].gen; rs[i].limbo = rs[o].limbo; rs[o].gen = 0; rs[o].limbo.clear(); check("move assign"); break;
      case COPYTOK: {
        int k = c.choose(ntok, "which token");
        c.note("t%d = copy of t%d", ntok, k);
        tk[ntok].emplace(*tk[k]); rt[ntok] = {true, rt[k].gen, false}; ++ntok; check("copy token"); break;
      }
    }
  }
  for (int i = 0; i < 2; ++i)
    if (rs[i].exists) { S(i)->~cancellation_token_source(); kill(rs[i]); rs[i] = {}; }
  check("end of all sources");
  if (ntok >= 2) c.interesting();
}
} // namespace

int main(int argc, char** argv)
{
  mc::Config cfg; cfg.property = "C06";
  return mc::main_explore(argc, argv, cfg, run);
}
