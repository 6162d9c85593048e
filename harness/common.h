// Small helpers shared by the conformance drivers.
#ifndef VERIF_HARNESS_COMMON_H
#define VERIF_HARNESS_COMMON_H
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace drv {
inline std::string js(std::string const& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else { r += c; }
    }
    return r + "\"";
}
inline std::string jlist(std::vector<std::string> const& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) { r += (i ? "," : "") + js(v[i]); }
    return r + "]";
}
template<typename T>
std::string jnums(std::vector<T> const& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) { r += (i ? "," : "") + std::to_string(v[i]); }
    return r + "]";
}
inline std::vector<std::string> split(std::string const& s, char d)
{
    std::vector<std::string> r;
    std::string cur;
    std::istringstream is(s);
    while (std::getline(is, cur, d)) { r.push_back(cur); }
    if (!s.empty() && s.back() == d) { r.push_back(""); }
    return r;
}
}   // namespace drv
#endif
