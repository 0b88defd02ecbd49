// C12: safe_duration_cast, decompose_time and compose_time against exact 128-bit arithmetic.
#include "mc.hpp"
#include "asioext/detail/chrono.hpp"
#include "asioext/chrono.hpp"
#include <limits>
#include <ratio>
#include <set>
#include <type_traits>
using namespace asioext;
namespace {
typedef __int128 W;
template <typename R, intmax_t N, intmax_t Dn> using Dur = std::chrono::duration<R, std::ratio<N, Dn>>;

std::string str(W v) { if (v == 0) return "0"; bool n = v < 0; std::string s; while (v != 0) { int d = int(v % 10); s.insert(s.begin(), char('0' + (d < 0 ? -d : d))); v /= 10; } return n ? "-" + s : s; }

// all values of 8/16 bit types, boundary values of wider ones
template <typename R> std::vector<R> values(intmax_t num, intmax_t den)
{
  std::vector<R> v;
  W lo = std::numeric_limits<R>::min(), hi = std::numeric_limits<R>::max();
  if (sizeof(R) <= 1) { for (W x = lo; x <= hi; ++x) v.push_back(R(x)); return v; }
  std::set<W> s;
  auto around = [&](W x) { for (W d = -2; d <= 2; ++d) if (x + d >= lo && x + d <= hi) s.insert(x + d); };
  for (W b : {W(0), lo, hi, W(INT8_MIN), W(INT8_MAX), W(UINT8_MAX), W(INT16_MIN), W(INT16_MAX), W(UINT16_MAX), W(INT32_MIN), W(INT32_MAX), W(UINT32_MAX), W(INT64_MIN), W(INT64_MAX), W(UINT64_MAX)}) {
    around(b); around(b / num); around(b / den); around(b / num * den); around(b / den * num); around(b / num / den);
    if (b > -((W)1 << 90) && b < ((W)1 << 90)) { around(b / 2); around(b / 3); }
  }
  for (W x = -300; x <= 300; ++x) around(x);
  for (int k = 1; k < 64; ++k) { around((W)1 << k); around(-((W)1 << k)); }
  for (W x : s) v.push_back(R(x));
  return v;
}

template <typename In, typename Out> void cast_one(mc::Ctx& c, const char* name)
{
  typedef typename In::rep RI; typedef typename Out::rep RO;
  typedef std::ratio_divide<typename In::period, typename Out::period> Q;
  c.cover(name);
  auto vals = values<RI>(Q::num, Q::den);
  if (sizeof(RI) == 2) { vals.clear(); for (W x = std::numeric_limits<RI>::min(); x <= std::numeric_limits<RI>::max(); ++x) vals.push_back(RI(x)); }
  for (RI v : vals) {
    W exact = (W)v * Q::num / Q::den; // rounds towards zero
    bool fits = exact >= (W)std::numeric_limits<RO>::min() && exact <= (W)std::numeric_limits<RO>::max();
    for (int pre = 0; pre < 2; ++pre) {
      Out out(RO(pre ? 77 : 0));
      bool ok = detail::safe_duration_cast(In(v), out);
      c.step();
      if (ok != fits) c.fail("safe_duration_cast %s of %s: %s, exact result is %s", name, str(v).c_str(), ok ? "reports success" : "refuses", str(exact).c_str());
      if (ok && (W)out.count() != exact) c.fail("safe_duration_cast %s of %s gives %s instead of %s", name, str(v).c_str(), str(out.count()).c_str(), str(exact).c_str());
    }
    if (vals.size() < 1000) c.state(mc::mix(mc::hstr(1, name), (uint64_t)v));
  }
}

// Whether a (first, second) pair exists in the part types with 0 <= second < 1 first for this exact value
template <typename D, typename F, typename S> void pair_one(mc::Ctx& c, const char* name)
{
  typedef typename D::rep RD; typedef typename F::rep RF; typedef typename S::rep RS;
  typedef std::ratio_divide<typename F::period, typename S::period> FS; // second ticks per first tick
  typedef std::ratio_divide<typename F::period, typename D::period> FD; // duration ticks per first tick
  typedef std::ratio_divide<typename S::period, typename D::period> SD; // duration ticks per second tick
  static_assert(FS::den == 1 && FD::den == 1 && SD::den == 1, "duration must be the finest");
  c.cover(name);
  const W fs = FS::num, fd = FD::num, sd = SD::num;
  // compose: every normalised pair (all 8/16 bit firsts with boundary seconds; boundaries otherwise)
  std::set<W> ss; for (W x : {W(0), W(1), W(2), fs / 2, fs - 2, fs - 1}) if (x >= 0 && x < fs) ss.insert(x);
  // the seconds at which the limits of the duration are crossed
  for (W lim : {(W)std::numeric_limits<RD>::min(), (W)std::numeric_limits<RD>::max()}) {
    W m = ((lim % fd) + fd) % fd; for (W x = m / sd - 2; x <= m / sd + 2; ++x) if (x >= 0 && x < fs) ss.insert(x);
  }
  if (fs <= 300) for (W x = 0; x < fs; ++x) ss.insert(x);
  auto fvals = values<RF>((intmax_t)fd, 1);
  if (sizeof(RF) == 2) { fvals.clear(); for (W x = INT16_MIN; x <= INT16_MAX; ++x) fvals.push_back(RF(x)); }
  for (RF f : fvals) for (W s : ss) {
    W exact = (W)f * fd + s * sd;
    bool fits = exact >= (W)std::numeric_limits<RD>::min() && exact <= (W)std::numeric_limits<RD>::max();
    D out(RD(7));
    bool ok = detail::compose_time(F(f), S(RS(s)), out);
    c.step();
    if (ok != fits) c.fail("compose_time %s of (%s, %s): %s, exact result is %s ticks", name, str(f).c_str(), str(s).c_str(), ok ? "reports success" : "refuses", str(exact).c_str());
    if (ok && (W)out.count() != exact) c.fail("compose_time %s of (%s, %s) gives %s instead of %s", name, str(f).c_str(), str(s).c_str(), str(out.count()).c_str(), str(exact).c_str());
  }
  // decompose every value and compose it again
  auto dvals = values<RD>((intmax_t)fd, 1);
  if (sizeof(RD) == 2) { dvals.clear(); for (W x = INT16_MIN; x <= INT16_MAX; ++x) dvals.push_back(RD(x)); }
  for (RD d : dvals) {
    W q = (W)d / fd, r = (W)d % fd; if (r < 0) { r += fd; --q; }
    if (r % sd) continue; // needs rounding: not exactly representable by the parts
    bool fits = q >= (W)std::numeric_limits<RF>::min() && q <= (W)std::numeric_limits<RF>::max();
    F f(RF(5)); S s(RS(5));
    bool ok = detail::decompose_time(D(d), f, s);
    c.step();
    if (ok != fits) c.fail("decompose_time %s of %s: %s", name, str(d).c_str(), ok ? "reports success for an unrepresentable value" : "refuses a representable value");
    if (!ok) continue;
    if ((W)s.count() < 0) c.fail("decompose_time %s of %s: negative second part", name, str(d).c_str());
    if ((W)f.count() != q || (W)s.count() * sd != r) c.fail("decompose_time %s of %s gives (%s, %s) instead of (%s, %s)", name, str(d).c_str(), str(f.count()).c_str(), str(s.count()).c_str(), str(q).c_str(), str(r / sd).c_str());
    D back(RD(3));
    if (!detail::compose_time(f, s, back) || back != D(d)) c.fail("compose_time(decompose_time(%s)) gives %s", str(d).c_str(), str(back.count()).c_str());
    c.state(mc::mix(mc::hstr(2, name), (uint64_t)d));
  }
}
// splitting into a finer second part than the duration itself (exact, no composition)
template <typename D, typename F, typename S> void split_finer(mc::Ctx& c, const char* name)
{
  typedef typename D::rep RD; typedef typename F::rep RF;
  typedef std::ratio_divide<typename F::period, typename D::period> FD; typedef std::ratio_divide<typename D::period, typename S::period> DS;
  const W fd = FD::num, ds = DS::num;
  c.cover(name);
  for (RD d : values<RD>((intmax_t)fd, 1)) {
    W q = (W)d / fd, r = (W)d % fd; if (r < 0) { r += fd; --q; }
    bool fits = q >= (W)std::numeric_limits<RF>::min() && q <= (W)std::numeric_limits<RF>::max();
    F f(5); S s(5);
    bool ok = detail::decompose_time(D(d), f, s);
    c.step();
    if (ok != fits || (ok && ((W)f.count() != q || (W)s.count() != r * ds))) c.fail("decompose_time %s of %s: ok=%d (%s, %s) instead of ok=%d (%s, %s)", name, str(d).c_str(), ok, str(f.count()).c_str(), str(s.count()).c_str(), fits, str(q).c_str(), str(r * ds).c_str());
  }
}

// file_clock and time_t
void clock_conv(mc::Ctx& c, const char* name)
{
  typedef file_clock::duration D; typedef std::ratio_divide<std::ratio<1>, D::period> PS; static_assert(PS::den == 1, "");
  const W per = PS::num;
#if defined(ASIOEXT_WINDOWS)
  const W epoch = 11644473600;
#else
  const W epoch = 0;
#endif
  c.cover(name);
  const W lo = (W)std::numeric_limits<D::rep>::min() / per - epoch, hi = (W)std::numeric_limits<D::rep>::max() / per - epoch;
  for (int64_t t : values<int64_t>((intmax_t)per, 1)) for (int k : {0, 1}) {
    if (k) t = t / (int64_t)per; // around the limits of the clock
    if (t < lo || t > hi) continue;
    file_time_type p = file_clock::from_time_t((std::time_t)t);
    c.step(); c.state(mc::mix(7, (uint64_t)t));
    if ((W)p.time_since_epoch().count() != ((W)t + epoch) * per) c.fail("from_time_t(%s) gives %s ticks", str(t).c_str(), str(p.time_since_epoch().count()).c_str());
    if ((W)file_clock::to_time_t(p) != t) c.fail("to_time_t(from_time_t(%s)) gives %s", str(t).c_str(), str(file_clock::to_time_t(p)).c_str());
    for (W off : {(W)1, per / 2, per - 1}) { // between two seconds: one of them
      W x = ((W)t + epoch) * per + off;
      if (x > (W)std::numeric_limits<D::rep>::max()) continue;
      W g = file_clock::to_time_t(file_time_type(D((D::rep)x)));
      if (g != t && g != (W)t + 1) c.fail("to_time_t() of %s + %s ticks gives %s", str(t).c_str(), str(off).c_str(), str(g).c_str());
    }
  }
}

struct Case { void (*fn)(mc::Ctx&, const char*); const char* name; };
#define CAST(RI, N1, D1, RO, N2, D2) { &cast_one<Dur<RI, N1, D1>, Dur<RO, N2, D2>>, #RI "*" #N1 "/" #D1 " -> " #RO "*" #N2 "/" #D2 }
#define CASTR(RI, RO) CAST(RI, 1, 1, RO, 1, 1), CAST(RI, 60, 1, RO, 1, 1), CAST(RI, 1, 1, RO, 60, 1), CAST(RI, 1, 1, RO, 1, 1000), CAST(RI, 1, 1000, RO, 1, 1), CAST(RI, 2, 3, RO, 1, 1), CAST(RI, 1, 1, RO, 2, 3), CAST(RI, 5, 7, RO, 3, 1), CAST(RI, 7, 3, RO, 1, 4)
#define CASTS(RI) CASTR(RI, int8_t), CASTR(RI, uint8_t), CASTR(RI, int16_t), CASTR(RI, uint16_t), CASTR(RI, int32_t), CASTR(RI, uint32_t), CASTR(RI, int64_t), CASTR(RI, uint64_t)
#define PAIR(RD, ND, DD, RF, NF, DF, RS, NS, DS) { &pair_one<Dur<RD, ND, DD>, Dur<RF, NF, DF>, Dur<RS, NS, DS>>, #RD "*" #ND "/" #DD " <-> (" #RF "*" #NF "/" #DF ", " #RS "*" #NS "/" #DS ")" }
const Case cases[] = {
  CASTS(int8_t), CASTS(uint8_t), CASTS(int16_t), CASTS(uint16_t), CASTS(int32_t), CASTS(uint32_t), CASTS(int64_t), CASTS(uint64_t),
  CAST(int64_t, 1, 1, int64_t, 1, 1000000000), CAST(int64_t, 1, 1000000000, int64_t, 1, 1), CAST(int64_t, 1, 1000000000, int64_t, 3600, 1), CAST(int64_t, 3600, 1, int64_t, 1, 1000000000),
  CAST(int64_t, 1, 10000000, int64_t, 1, 1000000000), CAST(int64_t, 1, 1000000000, int64_t, 1, 10000000), CAST(int32_t, 3600, 1, int64_t, 1, 1000000000), CAST(int64_t, 1, 1000000000, int32_t, 1, 1),
  PAIR(int8_t, 1, 1, int8_t, 1, 1, int8_t, 1, 1), PAIR(int8_t, 1, 4, int8_t, 1, 1, int8_t, 1, 4), PAIR(int8_t, 1, 5, int8_t, 1, 1, int8_t, 1, 5), PAIR(int8_t, 1, 100, int8_t, 1, 1, int8_t, 1, 100),
  PAIR(int8_t, 1, 127, int8_t, 1, 1, int8_t, 1, 127), PAIR(int8_t, 1, 12, int8_t, 1, 1, int8_t, 1, 4), PAIR(int8_t, 1, 1, int8_t, 7, 1, int8_t, 1, 1),
  PAIR(int16_t, 1, 1000, int16_t, 1, 1, int16_t, 1, 1000), PAIR(int16_t, 1, 60, int16_t, 1, 1, int16_t, 1, 60), PAIR(int16_t, 1, 1, int16_t, 60, 1, int16_t, 1, 1), PAIR(int16_t, 1, 30, int16_t, 1, 1, int16_t, 1, 10),
  PAIR(int32_t, 1, 1000, int32_t, 1, 1, int32_t, 1, 1000), PAIR(int32_t, 1, 1000000, int32_t, 1, 1, int32_t, 1, 1000000), PAIR(int32_t, 1, 1000000, int32_t, 1, 1, int32_t, 1, 1000),
  PAIR(int64_t, 1, 1000000000, int64_t, 1, 1, int64_t, 1, 1000000000), PAIR(int64_t, 1, 1000000000, int64_t, 1, 1, int64_t, 1, 1000000), PAIR(int64_t, 1, 10000000, int64_t, 1, 1, int64_t, 1, 10000000),
  PAIR(int64_t, 1, 1000000, int64_t, 1, 1, int64_t, 1, 1000), PAIR(int64_t, 1, 1000000000, int64_t, 3600, 1, int64_t, 1, 1000000000),
  // second parts whose type can't hold what is there before the borrow
  PAIR(int16_t, 1, 100, int16_t, 1, 1, int8_t, 1, 100), PAIR(int16_t, 1, 200, int16_t, 1, 1, uint8_t, 1, 200), PAIR(int32_t, 1, 1000, int32_t, 1, 1, int16_t, 1, 1000), PAIR(int32_t, 1, 1000, int32_t, 1, 1, uint16_t, 1, 1000),
  PAIR(int32_t, 1, 1000, int64_t, 1, 1, uint32_t, 1, 1000), PAIR(int64_t, 1, 1000000000, int64_t, 1, 1, uint32_t, 1, 1000000000), PAIR(int64_t, 1, 1000000000, int64_t, 1, 1, int32_t, 1, 1000000000), PAIR(int64_t, 1, 10000000, int64_t, 1, 1, uint64_t, 1, 10000000),
  { &split_finer<Dur<int64_t, 1, 1000000>, Dur<int64_t, 1, 1>, Dur<int64_t, 1, 1000000000>>, "int64 us -> (s, ns)" },
  { &split_finer<Dur<int64_t, 1, 10000000>, Dur<int64_t, 1, 1>, Dur<int64_t, 1, 1000000000>>, "int64 100ns -> (s, ns)" },
  { &clock_conv, "file_clock" },
};
void run(mc::Ctx& c)
{
  int n = sizeof cases / sizeof cases[0];
  int i = c.choose(n, "types");
  c.note("%s", cases[i].name);
  cases[i].fn(c, cases[i].name);
  c.interesting();
}
}
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C12"; return mc::main_explore(argc, argv, cfg, run); }
