#pragma once
#include "boost/asio/hvasio.hpp"
