#pragma once
#include <boost/asio/completion_condition.hpp>
#include "flavour.hpp"
