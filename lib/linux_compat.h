// Force-included (clang++ -include) into every translation unit; nothing here is part of stdex.
//
// stdex's non-Windows branch was written for macOS and uses things glibc headers do not give it:
//  - vsnprintf_l()/vswprintf_l(): BSD/macOS libc extensions, no apt package has them. Expressed here
//    through POSIX uselocale() and the ordinary glibc functions. A null locale means "current locale",
//    as stdex documents.
//    vswprintf_l() reports a full buffer with errno EOVERFLOW (the POSIX/macOS contract that stdex's
//    vappendf() relies on); glibc 2.37+ says E2BIG.
//  - newlocale(mask, name, LC_GLOBAL_LOCALE): fine on macOS, undefined in POSIX, and a segfault in
//    glibc 2.39 (in the static initializers of locale.hpp, so before main). LC_GLOBAL_LOCALE is replaced
//    by a copy of the global locale, which is what macOS does.
//  - numa_node_of_cpu(): pool.hpp calls it without including <numa.h> (libnuma-dev).
#pragma once
#include <errno.h>
#include <locale.h>
#include <numa.h>
#include <sched.h>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <wchar.h>

static inline int vsnprintf_l(char* str, size_t size, locale_t loc, const char* format, va_list ap)
{
	locale_t old = uselocale(loc);
	int r = vsnprintf(str, size, format, ap);
	uselocale(old);
	return r;
}

static inline int vswprintf_l(wchar_t* str, size_t size, locale_t loc, const wchar_t* format, va_list ap)
{
	locale_t old = uselocale(loc);
	int r = vswprintf(str, size, format, ap);
	if (r < 0 && errno == E2BIG)
		errno = EOVERFLOW;
	uselocale(old);
	return r;
}

static inline locale_t stdex_harness_newlocale(int mask, const char* name, locale_t base)
{
	if (base != LC_GLOBAL_LOCALE)
		return newlocale(mask, name, base);
	if ((mask & LC_ALL_MASK) == LC_ALL_MASK)
		return newlocale(mask, name, (locale_t)0); // nothing of the base is kept
	base = duplocale(LC_GLOBAL_LOCALE);
	locale_t r = newlocale(mask, name, base);
	if (!r && base)
		freelocale(base);
	return r;
}
#define newlocale stdex_harness_newlocale

// Assertions of stdex stay active: they are contracts of their own. (Debug builds of stdex for Linux do not exist: assert.hpp.)
#include <stdlib.h>
static inline void stdex_harness_assert(const char* file, int line, const char* e)
{
	const char* p = strrchr(file, '/'); fprintf(stderr, "ERROR: assertion of %s:%d fails: %s\n", p ? p + 1 : file, line, e); abort();
}
#define _Analysis_assume_(e) (!!(e) ? (void)0 : stdex_harness_assert(__FILE__, __LINE__, #e))
