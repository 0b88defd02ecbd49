#pragma once
#include <boost/asio/write.hpp>
#include "flavour.hpp"
