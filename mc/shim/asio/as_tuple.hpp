#pragma once
#include <boost/asio/as_tuple.hpp>
#include "flavour.hpp"
