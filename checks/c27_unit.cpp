// C27: a second translation unit of the program: its error codes must be the same as everyone else's.
#include "asioext/error.hpp"
#include "asioext/socks/error.hpp"
#include "asioext/detail/throw_error.hpp"
namespace unit {
const asioext::error_category& url_category() { return asioext::url_error_category(); }
const asioext::error_category& socks_category() { return asioext::socks::get_error_category(); }
asioext::error_code code(asioext::url_error e) { return e; }
asioext::error_code code(asioext::socks::error e) { return e; }
bool is(const asioext::error_code& ec, asioext::url_error e) { return ec == e; }
bool is(const asioext::error_code& ec, asioext::socks::error e) { return ec == e; }
void raise(const asioext::error_code& ec) { asioext::detail::throw_error(ec, "elsewhere"); }
}
