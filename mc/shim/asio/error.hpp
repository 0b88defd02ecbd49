#pragma once
#include <boost/asio/error.hpp>
#include "flavour.hpp"
