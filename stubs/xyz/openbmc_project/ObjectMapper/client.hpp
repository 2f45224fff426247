#pragma once
#include "xyz/openbmc_project/ObjectMapper/common.hpp"
