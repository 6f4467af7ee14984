// stand-in for aocommon's logger: swallows everything
#pragma once
namespace aocommon {
struct LogSink { template <class T> LogSink& operator<<(const T&) { return *this; } };
struct Logger { static inline LogSink Debug, Info, Warn, Error; };
}
