#pragma once
#include <boost/asio/use_awaitable.hpp>
#include "flavour.hpp"
