#pragma once
namespace phosphor::logging
{
enum class level { EMERG, ALERT, CRIT, ERR, WARNING, NOTICE, INFO, DEBUG };
template <typename... A>
int entry(const char*, A&&...)
{
    return 0;
}
template <level L, typename... A>
void log(const char*, A&&...)
{}
} // namespace phosphor::logging
