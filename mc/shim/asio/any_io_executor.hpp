#pragma once
#include <boost/asio/any_io_executor.hpp>
#include "flavour.hpp"
