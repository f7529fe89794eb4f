#pragma once
#include <string>
#include <vector>
namespace tlx {
inline std::vector<std::string> split(const std::string& sep, const std::string& str) {
    std::vector<std::string> r;
    size_t b = 0;
    while (true) {
        size_t e = str.find(sep, b);
        if (e == std::string::npos) { r.push_back(str.substr(b)); return r; }
        r.push_back(str.substr(b, e - b));
        b = e + sep.size();
    }
}
inline std::vector<std::string> split(char sep, const std::string& str) { return split(std::string(1, sep), str); }
}  // namespace tlx
