#pragma once
#include <boost/asio/read_until.hpp>
#include "flavour.hpp"
