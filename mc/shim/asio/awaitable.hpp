#pragma once
#include <boost/asio/awaitable.hpp>
#include "flavour.hpp"
