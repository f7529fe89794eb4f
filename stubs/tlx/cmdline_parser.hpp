// Stand-in for tlx/cmdline_parser.hpp: a small working parser.
#pragma once
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace tlx {
class CmdlineParser {
    struct Opt { char key; std::string name; bool flag; bool list; std::function<void(const char*)> set; };
    std::vector<Opt> opts;
    std::vector<std::function<void(const char*)> > params;
    template <typename F>
    void opt(char k, const std::string& n, bool flag, bool list, F f) { opts.push_back({ k, n, flag, list, f }); }
 public:
    void set_description(const std::string&) { }
    void set_author(const std::string&) { }
    void add_bool(char k, const std::string& n, bool& d, const std::string&) { opt(k, n, true, false, [&d](const char*) { d = true; }); }
    void add_flag(char k, const std::string& n, bool& d, const std::string&) { opt(k, n, true, false, [&d](const char*) { d = true; }); }
    void add_int(char k, const std::string& n, int& d, const std::string&) { opt(k, n, false, false, [&d](const char* s) { d = std::atoi(s); }); }
    void add_size_t(char k, const std::string& n, size_t& d, const std::string&) { opt(k, n, false, false, [&d](const char* s) { d = std::strtoull(s, nullptr, 10); }); }
    void add_double(char k, const std::string& n, double& d, const std::string&) { opt(k, n, false, false, [&d](const char* s) { d = std::atof(s); }); }
    void add_string(char k, const std::string& n, std::string& d, const std::string&) { opt(k, n, false, false, [&d](const char* s) { d = s; }); }
    void add_stringlist(char k, const std::string& n, std::vector<std::string>& d, const std::string&) { opt(k, n, false, true, [&d](const char* s) { d.push_back(s); }); }
    void add_param_string(const std::string&, std::string& d, const std::string&) { params.push_back([&d](const char* s) { d = s; }); }
    void add_param_size_t(const std::string&, size_t& d, const std::string&) { params.push_back([&d](const char* s) { d = std::strtoull(s, nullptr, 10); }); }
    bool process(int argc, const char* const* argv) {
        size_t p = 0;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a.size() > 1 && a[0] == '-') {
                bool found = false;
                for (auto& o : opts) {
                    if (a == std::string("-") + o.key || a == "--" + o.name) {
                        found = true;
                        if (o.flag) o.set("");
                        else { if (++i >= argc) return false; o.set(argv[i]); }
                        break;
                    }
                }
                if (!found) return false;
            } else {
                if (p >= params.size()) return false;
                params[p++](argv[i]);
            }
        }
        return p == params.size();
    }
};
}  // namespace tlx
