#pragma once
#include <boost/asio/dispatch.hpp>
#include "flavour.hpp"
