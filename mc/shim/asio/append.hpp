#pragma once
#include <boost/asio/append.hpp>
#include "flavour.hpp"
