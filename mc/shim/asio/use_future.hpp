#pragma once
#include <boost/asio/use_future.hpp>
#include "flavour.hpp"
