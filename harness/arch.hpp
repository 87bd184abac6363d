// Archives whose bytes stay in memory the harness owns: a stream buffer that
// copies whole objects, so that symbolic values pass through cereal unchanged.
#pragma once
#include <cstring>
#include <sstream>
#include <streambuf>
#include <vector>
namespace hx {
struct Bytes : public std::streambuf {
  std::vector<char> data; size_t at = 0;
  std::streamsize xsputn(const char *s, std::streamsize n) override { size_t o = data.size(); data.resize(o + size_t(n)); if (n) memcpy(data.data() + o, s, size_t(n)); return n; }
  int_type overflow(int_type c) override { data.push_back(char(c)); return c; }
  std::streamsize xsgetn(char *s, std::streamsize n) override { size_t k = std::min(size_t(n), data.size() - at); if (k) memcpy(s, data.data() + at, k); at += k; return std::streamsize(k); }
  int_type underflow() override { return at < data.size() ? int_type((unsigned char)data[at]) : traits_type::eof(); }
  int_type uflow() override { return at < data.size() ? int_type((unsigned char)data[at++]) : traits_type::eof(); }
};
template <class Out, class T> inline void put(Bytes &b, const T &x) { std::ostream os(&b); Out a(os); a(x); }
template <class In, class T> inline void get(Bytes &b, T &x) { std::istream is(&b); In a(is); a(x); }
}
