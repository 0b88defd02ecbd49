#pragma once
#include <boost/asio/deferred.hpp>
#include "flavour.hpp"
