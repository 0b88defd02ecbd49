#pragma once
#include <boost/asio/redirect_error.hpp>
#include "flavour.hpp"
