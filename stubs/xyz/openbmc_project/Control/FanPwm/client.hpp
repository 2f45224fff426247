#pragma once
#include "xyz/openbmc_project/Control/FanPwm/common.hpp"
