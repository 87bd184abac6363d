#pragma once
#include <string>
namespace gzip { inline std::string decompress(const char *d, std::size_t n) { return std::string(d, n); } inline bool is_compressed(const char *, std::size_t) { return false; } }
