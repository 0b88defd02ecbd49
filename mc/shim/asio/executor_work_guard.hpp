#pragma once
#include <boost/asio/executor_work_guard.hpp>
#include "flavour.hpp"
