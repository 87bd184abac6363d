#pragma once
#include <cstring>
#include <string>
namespace gzip { inline std::string compress(const char *d, std::size_t n) { std::string r; r.resize(n + 1); r[0] = 'G'; if (n) memcpy(&r[1], d, n); return r; } }
