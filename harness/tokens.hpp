// Numbers written to a stream (or by std::to_string) become tokens "#k"; the
// table `told` says which value token k stands for, and std::stod reads it back.
#pragma once
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
namespace hx { inline std::vector<double> told; inline std::string token(double v) { told.push_back(v); std::string k = std::to_string(told.size() - 1); return "#" + std::string(k.size() < 6 ? 6 - k.size() : 0, (char)48) + k; }
inline long token_id(const std::string &c) { if (c.size() < 2 || c[0] != '#') return -1; long k = 0; for (size_t i = 1; i < c.size(); i++) { if (c[i] < '0' || c[i] > '9') return -1; k = 10 * k + (c[i] - '0'); } return k < long(told.size()) ? k : -1; } }
namespace std {
template <> template <> inline ostream &ostream::_M_insert<double>(double v) { return *this << hx::token(v); }
template <> template <> inline ostream &ostream::_M_insert<bool>(bool v) { if (v) return *this << "1"; return *this << "0"; }
inline string symx_to_string(double v) { return hx::token(v); } inline string symx_to_string(int v) { return to_string(v); } inline string symx_to_string(size_t v) { return to_string(v); } inline string symx_to_string(unsigned v) { return to_string(v); } inline string symx_to_string(long v) { return to_string(v); }
inline double symx_stod(const string &s) { long k = hx::token_id(s); if (k >= 0) return hx::told[size_t(k)]; size_t used = 0; long w = 0; bool ok = !s.empty(); for (char c : s) { if (c < '0' || c > '9') { ok = false; break; } w = 10 * w + (c - '0'); used++; } if (!ok) throw invalid_argument("stod"); return double(w); }
}
#include "symx.h"
#include <sstream>
#include <iostream>
#include <iomanip>
