#pragma once
#include "xyz/openbmc_project/Association/common.hpp"
