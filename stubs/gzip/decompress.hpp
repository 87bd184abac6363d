#pragma once
#include <cstring>
#include <stdexcept>
#include <string>
namespace gzip { inline std::string decompress(const char *d, std::size_t n) { if (n == 0 || d[0] != 'G') throw std::runtime_error("not gzip"); std::string r; r.resize(n - 1); if (n > 1) memcpy(&r[0], d + 1, n - 1); return r; } }
