#pragma once
#include <boost/asio/post.hpp>
#include "flavour.hpp"
