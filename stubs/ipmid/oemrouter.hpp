#pragma once
#include "ipmid/api-types.hpp"
#include <cstddef>
#include <functional>
#include <vector>
namespace oem
{
using Handler =
    std::function<ipmi::Cc(uint8_t, const uint8_t*, uint8_t*, size_t*)>;
struct Router
{
    struct R
    {
        unsigned oen;
        uint8_t cmd;
        Handler h;
    };
    std::vector<R> handlers;
    void registerHandler(unsigned oen, uint8_t cmd, Handler h)
    {
        handlers.push_back({oen, cmd, h});
    }
};
inline Router* mutableRouter()
{
    static Router r;
    return &r;
}
} // namespace oem
