#pragma once
#include <boost/asio/detail/handler_cont_helpers.hpp>
#include "flavour.hpp"
