#pragma once
#include "xyz/openbmc_project/Sensor/Value/common.hpp"
