#pragma once
#include <boost/asio/read.hpp>
#include "flavour.hpp"
