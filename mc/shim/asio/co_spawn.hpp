#pragma once
#include <boost/asio/co_spawn.hpp>
#include "flavour.hpp"
