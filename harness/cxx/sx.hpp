// Interface to the symbolic executor (or to rt/sxrt.c) for C++ entries.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <string>
#include <memory>
#include <optional>
#include <utility>
#include <functional>
#include <tuple>
extern "C" {
void sx_symbolic(uint8_t *, uint64_t, const char *, uint64_t); void sx_assume(uint64_t); void sx_check(uint64_t, const char *, uint64_t); void sx_reach(const char *, uint64_t);
uint64_t sx_pick(uint64_t, const char *, uint64_t); uint64_t sx_concretize(uint64_t);
}
namespace {
inline void check(bool c, const char *m) { sx_check(c, m, strlen(m)); }
inline void assume(bool c) { sx_assume(c); }
inline void reach(const char *m) { sx_reach(m, strlen(m)); }
inline size_t pick(size_t n, const char *m) { return n <= 1 ? 0 : (size_t)sx_pick(n, m, strlen(m)); }
inline bool flag(const char *m) { return pick(2, m) == 1; }
template <class T> T sym(const char *m) { T v; sx_symbolic((uint8_t *)&v, sizeof v, m, strlen(m)); return v; }
inline char ch(const char *m) { char c = sym<char>(m); assume(c >= 0); return c; }
}
