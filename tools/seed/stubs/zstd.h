// A lossless stand-in for zstd, compiled with the harness so that symbolic
// content passes through it: a frame is a magic number, the content's size and
// the content.  Its failures follow zstd's interface (sizes at the top of the
// range are error codes).  `answer` lets a harness choose what zstd reports.
#pragma once
#include <cstddef>
#include <cstring>
#define ZSTD_CONTENTSIZE_UNKNOWN (0ULL - 1)
#define ZSTD_CONTENTSIZE_ERROR (0ULL - 2)
#define ZSTD_CLEVEL_DEFAULT 3
namespace zstdstub {
struct Answer { bool fix_size = false; unsigned long long size = 0; bool fix_result = false; std::size_t result = 0; bool fix_compress = false; std::size_t compress = 0; };
inline Answer answer;
inline unsigned long long magic() { return 0x5ead0ffd2fb528fdULL; }
}
inline std::size_t ZSTD_compressBound(std::size_t n) { return n + 16; }
inline unsigned ZSTD_isError(std::size_t code) { return code > std::size_t(-120); }
inline const char *ZSTD_getErrorName(std::size_t) { return "error"; }
inline int ZSTD_minCLevel() { return -7; }
inline int ZSTD_maxCLevel() { return 22; }
inline std::size_t ZSTD_compress(void *dst, std::size_t cap, const void *src, std::size_t n, int) {
  if (zstdstub::answer.fix_compress) return zstdstub::answer.compress;
  if (cap < n + 16) return std::size_t(-70);
  unsigned long long m = zstdstub::magic(), s = n;
  memcpy(dst, &m, 8); memcpy(static_cast<char *>(dst) + 8, &s, 8);
  if (n) memcpy(static_cast<char *>(dst) + 16, src, n);
  return n + 16;
}
inline unsigned long long ZSTD_getFrameContentSize(const void *src, std::size_t n) {
  if (zstdstub::answer.fix_size) return zstdstub::answer.size;
  if (n < 16) return ZSTD_CONTENTSIZE_ERROR;
  unsigned long long m, s; memcpy(&m, src, 8); memcpy(&s, static_cast<const char *>(src) + 8, 8);
  return m == zstdstub::magic() ? s : ZSTD_CONTENTSIZE_ERROR;
}
inline std::size_t ZSTD_decompress(void *dst, std::size_t cap, const void *src, std::size_t n) {
  if (zstdstub::answer.fix_result) return zstdstub::answer.result;
  unsigned long long m, s; if (n < 16) return std::size_t(-72);
  memcpy(&m, src, 8); memcpy(&s, static_cast<const char *>(src) + 8, 8);
  if (m != zstdstub::magic()) return std::size_t(-10);
  if (n - 16 != s) return std::size_t(-72);
  if (cap < s) return std::size_t(-70);
  if (s) memcpy(dst, static_cast<const char *>(src) + 16, s);
  return s;
}
