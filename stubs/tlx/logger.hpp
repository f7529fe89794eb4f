// Minimal functional stand-in for tlx/logger.hpp (submodule is not checked out here).
#pragma once
#include <iostream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <unordered_set>
namespace tlx {
template <typename T>
inline void log_put(std::ostream& o, const T& t) { o << t; }
template <typename A, typename B>
inline void log_put(std::ostream& o, const std::pair<A, B>& p);
template <typename T>
inline void log_put(std::ostream& o, const std::vector<T>& v) {
    o << '[';
    for (const auto& x : v) { log_put(o, x); o << ','; }
    o << ']';
}
template <typename T>
inline void log_put(std::ostream& o, const std::unordered_set<T>& v) {
    for (const auto& x : v) { log_put(o, x); o << ','; }
}
template <typename A, typename B>
inline void log_put(std::ostream& o, const std::pair<A, B>& p) {
    log_put(o, p.first); o << ':'; log_put(o, p.second);
}
class Logger {
    std::ostringstream s;
 public:
    Logger() { }
    ~Logger() { std::string t = s.str() + "\n"; std::cout << t; }
    template <typename T>
    Logger& operator << (const T& t) { log_put(s, t); return *this; }
};
class SpacingLogger {
    std::ostringstream s;
 public:
    SpacingLogger() { }
    ~SpacingLogger() { std::string t = s.str() + "\n"; std::cout << t; }
    template <typename T>
    SpacingLogger& operator << (const T& t) { log_put(s, t); s << ' '; return *this; }
};
}  // namespace tlx
#define LOGC(cond) !(cond) ? (void)0 : tlx_voidify() & ::tlx::Logger()
#define sLOGC(cond) !(cond) ? (void)0 : tlx_voidify() & ::tlx::SpacingLogger()
struct tlx_voidify {
    void operator & (const ::tlx::Logger&) { }
    void operator & (const ::tlx::SpacingLogger&) { }
};
#define LOG LOGC(debug)
#define LOG0 LOGC(false)
#define LOG1 LOGC(true)
#define sLOG sLOGC(debug)
#define sLOG0 sLOGC(false)
#define sLOG1 sLOGC(true)
