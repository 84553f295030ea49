// Stand-in for deps/fast_double_parser (an empty git submodule in this checkout, not packaged by the distribution).
// Same interface as the part common.h uses: parse an RFC-7159-style number at p, store it, return a pointer just past it;
// nullptr when p does not start with one (the caller then falls back to strtod).
#pragma once
#include <cstdlib>
#include <cctype>
namespace fast_double_parser {
static inline const char* parse_number(const char* p, double* out) {
  const char* q = p;
  if (*q == '-') ++q;
  if (!isdigit(static_cast<unsigned char>(*q))) return nullptr;
  char* end = nullptr;
  *out = std::strtod(p, &end);
  return end == p ? nullptr : end;
}
}
