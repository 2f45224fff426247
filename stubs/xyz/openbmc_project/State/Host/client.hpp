#pragma once
#include "xyz/openbmc_project/State/Host/common.hpp"
