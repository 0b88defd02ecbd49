// Lets the harnesses be built with Boost.Asio: the library's other flavour (ASIOEXT_USE_BOOST_ASIO).
#pragma once
#include <boost/system/system_error.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;
#define MC_SYSTEM_ERROR boost::system::system_error
#define MC_ASIO_OPEN namespace boost { namespace asio {
#define MC_ASIO_CLOSE } }
#define MC_CONT_HELPERS boost_asio_handler_cont_helpers
#define MC_HASH(x) hash_value(x)
