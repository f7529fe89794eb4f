// Stand-in for the growt concurrent hash table (submodule is not checked out here).
#pragma once
#include <cstddef>
#include <cstdint>
#include <mutex>
#include <unordered_map>
#include <utility>
namespace growt {
template <class H>
class uaGrow {
    std::unordered_map<size_t, size_t> map_;
    std::mutex mtx_;
 public:
    using iterator = std::unordered_map<size_t, size_t>::iterator;
    class handle_type {
        uaGrow* t;
     public:
        explicit handle_type(uaGrow* p) : t(p) { }
        template <class F>
        std::pair<iterator, bool> insert_or_update(size_t k, size_t v, F f, size_t d) {
            std::lock_guard<std::mutex> g(t->mtx_);
            auto r = t->map_.emplace(k, v);
            if (!r.second) f(r.first->second, d);
            return r;
        }
        iterator find(size_t k) { std::lock_guard<std::mutex> g(t->mtx_); return t->map_.find(k); }
        iterator end() { return t->map_.end(); }
    };
    explicit uaGrow(size_t) { }
    handle_type get_handle() { return handle_type(this); }
};
}  // namespace growt
