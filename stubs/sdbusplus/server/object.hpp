#pragma once
#include "hv/dbus.hpp"
