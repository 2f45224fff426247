#pragma once
namespace oem
{
using Number = unsigned;
constexpr Number obmcOemNumber = 49871;
} // namespace oem
