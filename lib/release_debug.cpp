// The diagnostics of a release build (NDEBUG), under another name, for props/G02.cpp.
#define NDEBUG 1
#define stdex stdex_release
#include <stdex/debug.hpp>
#undef stdex
void release_print(bool err, const char* f, int i, const char* s) { if (err) stdex_release::err::printf(f, i, s); else stdex_release::diag::printf(f, i, s); }
void release_print(bool err, const wchar_t* f, int i, const wchar_t* s) { if (err) stdex_release::err::printf(f, i, s); else stdex_release::diag::printf(f, i, s); }
void release_bench(const char* n) { stdex_release::benchmark b(n); }
