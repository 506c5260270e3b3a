// The assertions of the library, which it does not compile on this platform; included with VERIF_ASSERTS=1 (see run.sh).
#pragma once
#include "stdex/compat.hpp"
#include "stdex/assert.hpp"
#undef stdex_assert
#undef stdex_verify
#include <stdio.h>
#include <stdlib.h>
inline void pbt_assert_failed(const char* e, const char* f, int l) { fprintf(stderr, "ASSERTION %s %s:%d\n", e, f, l); abort(); }
#define stdex_assert(e) (!!(e) ? (void)0 : pbt_assert_failed(#e, __FILE__, __LINE__))
#define stdex_verify(e) stdex_assert(e)
#undef NDEBUG
#undef assert
#define assert(e) stdex_assert(e)
