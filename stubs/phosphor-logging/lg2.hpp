#pragma once
namespace lg2
{
template <typename... A> void error(const char*, A&&...) {}
template <typename... A> void warning(const char*, A&&...) {}
template <typename... A> void info(const char*, A&&...) {}
template <typename... A> void debug(const char*, A&&...) {}
} // namespace lg2
