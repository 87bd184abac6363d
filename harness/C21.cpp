// @flags: -D_GLIBCXX_EXTERN_TEMPLATE=0
// @bounds: contents of 0 to 5 elements with every element symbolic (bytes and doubles), frames cut or extended by up to 9 bytes, every answer the codec may give about a frame's size and result
// @assume: zstd itself is lossless and reports failures as its interface says (a stand-in with zstd's framing sizes and error codes)
#include "symx.h"
#include <albatross/Common>
#include "common.hpp"
using namespace hx; namespace z = albatross::zstd;
static std::string text(int n) { std::string s; s.resize(n); for (int i = 0; i < n; i++) s[i] = char(symx::integer(nm("b", i).c_str(), 0, 120)); return s; }
HARNESS(strings) { int n = symx::choose("n", 0, 5), old = symx::choose("old", 0, 2) * 4; std::string s = text(n), out; out.resize(old); std::string c = symx::choose("level", 0, 1) ? z::compress(s, 5) : z::compress(s); bool ok = z::maybe_decompress(c, &out); symx::check(ok, "what was compressed can be read"); symx::check(out.size() == s.size(), "length"); if (out.size() == s.size()) for (int i = 0; i < n; i++) symx::check(out[i] == s[i], "content"); }
HARNESS(doubles) { int n = symx::choose("n", 0, 5); Vec v = vec("v", n), w = Vec::Constant(n + 1, 7.); std::string c = z::compress(v.data(), std::size_t(n)); int how = symx::choose("how", 0, 1); bool ok = true; if (how) z::decompress(c, w.data(), std::size_t(n)); else ok = z::maybe_decompress(c, w.data(), std::size_t(n)); symx::check(ok, "read back"); for (int i = 0; i < n; i++) symx::check_eq(w[i], v[i], "element"); symx::check_eq(w[n], 7., "nothing beyond the elements is written"); }
HARNESS(another_count) { int n = symx::choose("n", 0, 4), k = symx::choose("k", 0, 5); Vec v = vec("v", n), w = Vec::Constant(8, 7.); std::string c = z::compress(v.data(), std::size_t(n)); bool ok = z::maybe_decompress(c, w.data(), std::size_t(k)); symx::check(ok == (n == k), "only the number of elements that was compressed"); for (int i = k; i < 8; i++) symx::check_eq(w[i], 7., "nothing beyond the elements is written"); if (ok) for (int i = 0; i < n; i++) symx::check_eq(w[i], v[i], "element"); }
HARNESS(another_count_asserts) { int n = symx::choose("n", 0, 3), k = symx::choose("k", 0, 3); symx::check(true, "reached"); if (n != k) symx_allow_abort_(1); Vec v = vec("v", n), w = Vec::Constant(8, 7.); std::string c = z::compress(v.data(), std::size_t(n)); z::decompress(c, w.data(), std::size_t(k)); symx::check(n == k, "another number of elements is refused"); for (int i = 0; i < n; i++) symx::check_eq(w[i], v[i], "element"); }
HARNESS(not_compressed) { int n = symx::choose("n", 0, 20); std::string s = text(n), out = "before"; Vec w = Vec::Constant(3, 7.); bool a = z::maybe_decompress(s, &out), b = z::maybe_decompress(s, w.data(), 3); symx::check(!a, "content that is no frame is not read as a string"); symx::check(!b, "content that is no frame is not read as elements"); for (int i = 0; i < 3; i++) symx::check_eq(w[i], 7., "elements untouched"); }
HARNESS(damaged) {
  int n = symx::choose("n", 0, 4), d = symx::choose("change", -9, 9); if (d == 0) return; Vec v = vec("v", n), w = Vec::Constant(8, 7.); std::string c = z::compress(v.data(), std::size_t(n)), m; m.resize(c.size() + d); memcpy(&m[0], c.data(), std::min(m.size(), c.size())); bool a = z::maybe_decompress(m, w.data(), std::size_t(n)); symx::check(!a, "a damaged frame is not read as elements"); std::string out; bool b = false; try { b = z::maybe_decompress(m, &out); } catch (const std::exception &) {} symx::check(!b, "a damaged frame is not read as a string");
}
// whatever the codec answers, only agreement of both sizes with the request is a success
HARNESS(any_answer) {
  const unsigned long long sizes[] = {ZSTD_CONTENTSIZE_UNKNOWN, ZSTD_CONTENTSIZE_ERROR, 0, 8, 16, 24}; const std::size_t results[] = {std::size_t(-1), std::size_t(-70), 0, 8, 16, 24}; auto &an = zstdstub::answer; an = zstdstub::Answer(); an.fix_size = an.fix_result = true; an.size = sizes[symx::choose("size", 0, 5)]; an.result = results[symx::choose("result", 0, 5)]; int k = symx::choose("k", 0, 3); double w[3]; std::string in = "frame", out; bool a = z::maybe_decompress(in, w, std::size_t(k)), b = z::maybe_decompress(in, &out); bool known = an.size < ZSTD_CONTENTSIZE_ERROR; symx::check(a == (known && an.size == 8u * k && an.result == 8u * k), "success only when both sizes are the request's"); symx::check(b == (known && an.result == an.size), "success only when the result is the stated size"); if (b) symx::check(out.size() == an.size, "string of the stated size"); an = zstdstub::Answer();
}
HARNESS(any_answer_asserts) { const unsigned long long sizes[] = {ZSTD_CONTENTSIZE_UNKNOWN, ZSTD_CONTENTSIZE_ERROR, 0, 8, 16}; const std::size_t results[] = {std::size_t(-1), 0, 8, 16}; auto &an = zstdstub::answer; an = zstdstub::Answer(); an.fix_size = an.fix_result = true; an.size = sizes[symx::choose("size", 0, 4)]; an.result = results[symx::choose("result", 0, 3)]; int k = symx::choose("k", 0, 2); bool ok = an.size == 8u * k && an.result == 8u * k; symx::check(true, "reached"); if (!ok) symx_allow_abort_(1); double w[3]; z::decompress("frame", w, std::size_t(k)); symx::check(ok, "disagreement is refused"); an = zstdstub::Answer(); }
// a failing compressor must not produce something that looks like a result
HARNESS(compressor_fails) { auto &an = zstdstub::answer; an = zstdstub::Answer(); an.fix_compress = true; const std::size_t codes[] = {std::size_t(-1), std::size_t(-70), std::size_t(-64)}; an.compress = codes[symx::choose("code", 0, 2)]; symx_allow_abort_(1); symx::check(true, "reached"); bool threw = false; try { (void)z::compress(text(2)); } catch (const std::exception &) { threw = true; } an = zstdstub::Answer(); symx::check(threw, "a failure to compress is not a result"); }
// frames may be shorter than the bound
HARNESS(shorter_than_bound) { auto &an = zstdstub::answer; an = zstdstub::Answer(); an.fix_compress = true; int n = symx::choose("n", 0, 3), k = symx::choose("k", 0, 19); if (k > n + 16) return; an.compress = k; std::string c = z::compress(text(n)); an = zstdstub::Answer(); symx::check(c.size() == std::size_t(k), "exactly the bytes the codec wrote"); }
