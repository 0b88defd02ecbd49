#pragma once
#include <boost/asio/bind_executor.hpp>
#include "flavour.hpp"
