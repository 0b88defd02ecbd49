#pragma once
#include <boost/asio/io_context.hpp>
#include "flavour.hpp"
