// C27: flag enumerations are sets (all pairs of values) and error codes name one condition each (all small values).
#include "mc.hpp"
#include "asioext/detail/config.hpp"
#include "asioext/error.hpp"
#include "asioext/file_attrs.hpp"
#include "asioext/file_perms.hpp"
#include "asioext/open_flags.hpp"
#include "asioext/socks/error.hpp"
#include "asioext/detail/throw_error.hpp"
#include <asio/error.hpp>
#include <climits>
#include <set>
#include <thread>
#include <sys/stat.h>
#include <type_traits>
using namespace asioext;
namespace unit { // c27_unit.cpp
const error_category& url_category(); const error_category& socks_category();
error_code code(url_error e); error_code code(socks::error e);
bool is(const error_code& ec, url_error e); bool is(const error_code& ec, socks::error e);
void raise(const error_code& ec);
}
namespace {
template <typename E> void x_self(mc::Ctx& c, const char* name, typename std::underlying_type<E>::type l)
{
  E x = (E)l;
  x &= x; if (x != (E)l) c.fail("%s: x &= x changes x", name);
  x |= x; if (x != (E)l) c.fail("%s: x |= x changes x", name);
  x ^= x; if ((typename std::underlying_type<E>::type)x) c.fail("%s: x ^= x is not empty", name);
}
// WIDTH: number of declared bits
template <typename E, int WIDTH> void bits(mc::Ctx& c, const char* name)
{
  typedef typename std::underlying_type<E>::type U;
  const U l = (U)c.choose(1 << WIDTH, name);
  auto is = [&](const char* what, E got, U want, U r) { if ((U)got != want) c.fail("%s: %#x %s %#x is %#x, expected %#x", name, (unsigned)l, what, (unsigned)r, (unsigned)(U)got, (unsigned)want); };
  const E a = (E)l;
  is("~", ~a, (U)~l, 0);
  is("~~", ~~a, l, 0);
  for (U r = 0; r < (U)1 << WIDTH; ++r) {
    const E b = (E)r; E x;
    is("&", a & b, l & r, r); is("|", a | b, l | r, r); is("^", a ^ b, l ^ r, r); is("& ~", a & ~b, l & ~r, r);
    E* p;
    x = a; p = &(x &= b); is("&=", x, l & r, r); if (p != &x) c.fail("%s: &= does not return its left operand", name);
    x = a; p = &(x |= b); is("|=", x, l | r, r); if (p != &x) c.fail("%s: |= does not return its left operand", name);
    x = a; p = &(x ^= b); is("^=", x, l ^ r, r); if (p != &x) c.fail("%s: ^= does not return its left operand", name);
    x = a; (x |= b) &= a; is("|= &=", x, l, r);
  }
  x_self<E>(c, name, l);
  c.state(mc::hstr(l, name)); c.step();
}
#define EQ(a, b) do { if ((unsigned)(a) != (unsigned)(b)) c.fail("%s is %#o, expected %#o", #a, (unsigned)(a), (unsigned)(b)); } while (0)
void names(mc::Ctx& c)
{
  typedef file_perms P;
  EQ(P::none, 0); EQ(P::owner_read, S_IRUSR); EQ(P::owner_write, S_IWUSR); EQ(P::owner_exec, S_IXUSR); EQ(P::owner_all, S_IRWXU);
  EQ(P::group_read, S_IRGRP); EQ(P::group_write, S_IWGRP); EQ(P::group_exec, S_IXGRP); EQ(P::group_all, S_IRWXG);
  EQ(P::others_read, S_IROTH); EQ(P::others_write, S_IWOTH); EQ(P::others_exec, S_IXOTH); EQ(P::others_all, S_IRWXO);
  EQ(P::set_uid, S_ISUID); EQ(P::set_gid, S_ISGID); EQ(P::sticky_bit, S_ISVTX);
  EQ(P::all, P::owner_all | P::group_all | P::others_all);
  EQ(P::mask, P::all | P::set_uid | P::set_gid | P::sticky_bit);
  EQ(P::create_default, P::owner_read | P::owner_write | P::group_read | P::group_write | P::others_read | P::others_write);
  if ((P::unknown & P::mask) == P::unknown) c.fail("file_perms::unknown is a valid set of permissions");
  EQ(open_flags::access_read_write, open_flags::access_read | open_flags::access_write);
  auto distinct = [&](const char* what, std::initializer_list<unsigned> l) {
    unsigned all = 0;
    for (unsigned v : l) { if (__builtin_popcount(v) != 1 || (all & v)) c.fail("%s: the flag %#x is no bit of its own", what, v); all |= v; }
  };
  typedef open_flags F;
  distinct("open_flags", {(unsigned)F::access_read, (unsigned)F::access_write, (unsigned)F::create_new, (unsigned)F::create_always, (unsigned)F::open_existing, (unsigned)F::open_always, (unsigned)F::truncate_existing, (unsigned)F::exclusive_read, (unsigned)F::exclusive_write});
  typedef file_attrs A;
  distinct("file_attrs", {(unsigned)A::hidden, (unsigned)A::system, (unsigned)A::archive, (unsigned)A::no_dump, (unsigned)A::not_indexed, (unsigned)A::user_immutable, (unsigned)A::system_immutable, (unsigned)A::user_no_unlink, (unsigned)A::system_no_unlink});
  distinct("file_perm_options", {(unsigned)file_perm_options::replace, (unsigned)file_perm_options::add, (unsigned)file_perm_options::remove});
  distinct("file_attr_options", {(unsigned)file_attr_options::replace, (unsigned)file_attr_options::add, (unsigned)file_attr_options::remove});
  EQ(F::none, 0); EQ(A::none, 0);
  c.step();
}

const int values[] = {INT_MIN, INT_MIN + 1, -65537, -257, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255, 256, 257, 65535, 65536, INT_MAX - 1, INT_MAX};
// cat: the library's category; enumerators 0..last are declared
template <typename E> void errors(mc::Ctx& c, const char* name, const error_category& cat, const error_category& other, const error_category& elsewhere, int last)
{
  if (&cat != &elsewhere || cat != elsewhere) c.fail("%s: another translation unit has another category", name);
  const bool near = c.flag("small value");
  const int v = near ? c.choose(1024, "value") - 512 : values[c.choose(sizeof values / sizeof *values, "value")];
  const bool declared = v >= 0 && v <= last;
  error_code ec(v, cat), twin(v, cat);
  if (bool(ec) != (v != 0)) c.fail("%s: value %d %s an error", name, v, ec ? "counts as" : "does not count as");
  if (ec != twin || MC_HASH(ec) != MC_HASH(twin)) c.fail("%s: equal codes with value %d differ", name, v);
  std::string m = ec.message();
  if (m.empty()) c.fail("%s: value %d has no message", name, v);
  if (m != ec.message()) c.fail("%s: value %d has two messages", name, v);
  for (int k = 0; k <= last; ++k)
    if (k != v && error_code(k, cat).message() == m) c.fail("%s: values %d and %d have the same message '%s'", name, v, k, m.c_str());
  for (const error_category* o : {&other, (const error_category*)&system_category(), (const error_category*)&generic_category(), (const error_category*)&asio::error::get_misc_category(), (const error_category*)&asio::error::get_netdb_category(), (const error_category*)&asio::error::get_addrinfo_category()}) {
    if (*o == cat || !(*o != cat)) c.fail("%s: its category equals '%s'", name, o->name());
    if (error_code(v, *o) == ec) c.fail("%s: value %d equals the same value of '%s'", name, v, o->name());
    if (std::string(o->name()) == cat.name()) c.fail("%s: its category has the name of another one", name);
  }
  if (declared) {
    E e = (E)v;
    error_code a = e, b = make_error_code(e), d; d = e;
    if (a != ec || b != ec || d != ec || !(ec == e)) c.fail("%s: enumerator %d converts to %s:%d", name, v, a.category().name(), a.value());
    if (&a.category() != &cat) c.fail("%s: enumerator %d has another category", name, v);
    if (unit::code(e) != ec || ec != unit::code(e) || MC_HASH(unit::code(e)) != MC_HASH(ec)) c.fail("%s: enumerator %d made by another translation unit differs", name, v);
    for (int k = 0; k <= last; ++k) if (unit::is(ec, (E)k) != (k == v)) c.fail("%s: another translation unit does not tell enumerators %d and %d apart", name, v, k);
    for (int k = 0; k <= last; ++k) if ((ec == (E)k) != (k == v)) c.fail("%s: enumerators %d and %d are not told apart", name, v, k);
    c.cover("declared");
  } else c.cover("undeclared");
  // raising it
  bool thrown = false; int form = c.choose(3, "form");
  try { if (form == 2) unit::raise(ec); else if (form) asioext::detail::throw_error(ec, "somewhere"); else asioext::detail::throw_error(ec); }
  catch (const MC_SYSTEM_ERROR& x) {
    thrown = true;
    if (x.code() != ec) c.fail("%s: raising value %d throws %s:%d", name, v, x.code().category().name(), x.code().value());
    if (form && !strstr(x.what(), form == 2 ? "elsewhere" : "somewhere")) c.fail("%s: the exception does not name the place", name);
  }
  if (thrown != (v != 0)) c.fail("%s: raising value %d %s", name, v, thrown ? "throws" : "does not throw");
  c.state(mc::hstr(mc::mix(v, form), m)); c.step();
}
// codes made by another thread (of either translation unit) are the same
void threads(mc::Ctx& c)
{
  const int k = c.choose(2, "category"), v = c.choose(5, "value");
  auto here = [&] { return k ? (v > (int)socks::error::generic ? error_code() : error_code((socks::error)v)) : v > (int)url_error::port_overflow ? error_code() : error_code((url_error)v); };
  error_code a = here(), b; const error_category *x = 0, *y = 0;
  std::thread([&] { b = here(); x = k ? &socks::get_error_category() : &url_error_category(); y = k ? &unit::socks_category() : &unit::url_category(); }).join();
  if (x != y || x != (k ? &socks::get_error_category() : &url_error_category())) c.fail("another thread has another error category");
  if (a != b || MC_HASH(a) != MC_HASH(b)) c.fail("value %d made by another thread differs", v);
  c.step();
}
void run(mc::Ctx& c)
{
  c.interesting();
  switch (c.choose(9, "kind")) {
    case 0: bits<open_flags, 10>(c, "open_flags"); break;
    case 1: bits<file_perms, 12>(c, "file_perms"); break;
    case 2: bits<file_attrs, 9>(c, "file_attrs"); break;
    case 3: bits<file_perm_options, 3>(c, "file_perm_options"); break;
    case 4: bits<file_attr_options, 3>(c, "file_attr_options"); break;
    case 5: names(c); break;
    case 6: errors<url_error>(c, "url_error", url_error_category(), socks::get_error_category(), unit::url_category(), (int)url_error::port_overflow); break;
    case 8: threads(c); break;
    case 7: errors<socks::error>(c, "socks::error", socks::get_error_category(), url_error_category(), unit::socks_category(), (int)socks::error::generic); break;
  }
}
} // namespace
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C27"; return mc::main_explore(argc, argv, cfg, run); }
