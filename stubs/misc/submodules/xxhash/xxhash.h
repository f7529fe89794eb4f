#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
inline unsigned long long XXH64(const void* p, size_t n, unsigned long long seed) { unsigned long long h = seed; const unsigned char* c = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL; return h; }
