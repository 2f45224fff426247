#pragma once
#include <cstdint>
namespace ipmi
{
using Cc = uint8_t;
constexpr Cc ccSuccess = 0x00;
constexpr Cc ccBusy = 0xC0;
constexpr Cc ccInvalidCommand = 0xC1;
constexpr Cc ccReqDataLenInvalid = 0xC7;
constexpr Cc ccParmOutOfRange = 0xC9;
constexpr Cc ccInvalidFieldRequest = 0xCC;
constexpr Cc ccResponseError = 0xCE;
constexpr Cc ccUnspecifiedError = 0xFF;
} // namespace ipmi
