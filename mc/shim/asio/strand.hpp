#pragma once
#include <boost/asio/strand.hpp>
#include "flavour.hpp"
