#pragma once
#include <boost/asio/detached.hpp>
#include "flavour.hpp"
