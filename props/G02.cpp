// Diagnostic output against the C library; the clock is a stand-in that a case sets.
// LIBS: lib/release_debug.cpp
#include "pbt.hpp"
#include <optional>
#include <functional>
#include <time.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <wchar.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdex/string.hpp>
// Debugging for what is tested here only: assert.hpp has none for this platform.
#undef NDEBUG
#include <stdex/debug.hpp>
#define NDEBUG 1
using namespace pbt;
static thread_local bool fake = false; static thread_local long long fake_now = 0;
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
	if (fake) { t->tv_sec = fake_now / 1000000000; t->tv_nsec = fake_now % 1000000000; return 0; }
	return static_cast<int>(syscall(SYS_clock_gettime, c, t));
}
void release_print(bool err, const char* f, int i, const char* s); void release_print(bool err, const wchar_t* f, int i, const wchar_t* s); void release_bench(const char* n);
static void print(bool err, const char* f, int i, const char* s) { if (err) stdex::err::printf(f, i, s); else stdex::diag::printf(f, i, s); }
static void print(bool err, const wchar_t* f, int i, const wchar_t* s) { if (err) stdex::err::printf(f, i, s); else stdex::diag::printf(f, i, s); }
static int c_print(FILE* f, const char* m, ...) { va_list a; va_start(a, m); int n = vfprintf(f, m, a); va_end(a); return n; }
static int c_print(FILE* f, const wchar_t* m, ...) { va_list a; va_start(a, m); int n = vfwprintf(f, m, a); va_end(a); return n; }
// Standard output and error of the process replaced by memory.
struct captured
{
	FILE *out, *err, *was_out = stdout, *was_err = stderr;
	static FILE* mem() { int fd = memfd_create("captured", 0); FILE* f = fd < 0 ? nullptr : fdopen(fd, "w+"); if (!f) fail("no memory file"); return f; }
	static std::string close(FILE* f) { fflush(f); std::string o; char b[4096]; off_t at = 0; for (ssize_t n; (n = pread(fileno(f), b, sizeof b, at)) > 0; at += n) o.append(b, static_cast<size_t>(n)); fclose(f); return o; }
	captured() { out = mem(); err = mem(); stdout = out; stderr = err; }
	std::pair<std::string, std::string> end() { stdout = was_out; stderr = was_err; auto a = close(out), b = close(err); out = nullptr; return {a, b}; }
	~captured() { if (out) end(); }
};
template<class T> static void messages(Src& s)
{
	std::string want[2]; bool release = s.chance(1, 4); size_t n = 0; struct m { bool err; std::basic_string<T> f, t; int i; }; std::vector<m> v;
	s.repeat(6, [&] { m x; x.err = s.boolean(); std::string f; s.repeat(3, [&] { f += s.pick<const char*>({"a", "%%", "\n", " ", "text: "}); }); f += s.pick<const char*>({"%d", "%5d", "%-8x", "%08d"}); f += s.pick<const char*>({"", "|", "%%", "\t"}); f += sizeof(T) > 1 ? s.pick<const char*>({"%ls", "%30ls", "%.3ls"}) : s.pick<const char*>({"%s", "%30s", "%-30s", "%.3s"}); if (s.boolean()) f += "\n"; x.f.assign(f.begin(), f.end()); x.i = s.integer<int>(); size_t l = s.chance(1, 8) ? s.draw(20000) : s.draw(30); for (size_t k = 0; k < l; k++) x.t += T('!' + (k * 7 + l) % 90); v.push_back(std::move(x)); });
	{ captured c; for (auto& x : v) c_print(x.err ? stderr : stdout, x.f.c_str(), x.i, x.t.c_str()); auto r = c.end(); want[0] = r.first; want[1] = r.second; }
	s.note([&] { std::string o = release ? "release:" : "debug:"; for (auto& x : v) o += (x.err ? " err " : " out ") + show(std::string(x.f.begin(), x.f.end())) + "(" + show(x.t.size()) + ")"; return o; });
	captured c; for (auto& x : v) { exact<T> f(x.f + T(0)), t(x.t + T(0)); if (release) release_print(x.err, f.get(), x.i, t.get()); else print(x.err, f.get(), x.i, t.get()); n++; } auto r = c.end();
	PBT_REQUIRE(v.empty() || want[0].size() + want[1].size() >= v.size(), "captured nothing");
	if (release) { PBT_REQUIRE(r.first.empty() && r.second.empty()); } else { PBT_REQUIRE(r.first == want[0]); PBT_REQUIRE(r.second == want[1]); }
	s.nontrivial(!v.empty()); s.label(release ? "release" : "debug");
}
PBT_CHECK(messages, 40000, 400000) { if (s.boolean()) messages<char>(s); else messages<wchar_t>(s); }

// Measurements: what it prints is the time between the beginning and the end, nested ones from inside out.
PBT_CHECK(measurement, 40000, 400000)
{
	std::string want; bool release = s.chance(1, 5); long long start = s.range<long long>(0, 2000000000000000000ll); fake_now = start; std::string notes;
	struct off { ~off() { fake = false; } } o;
	captured c; std::function<void(int)> go = [&](int depth) {
		static const char* const names[] = {"a", "task of the day", "%d%n%s", "", "\xc4\x8d"}; const char* name = names[s.draw(4)];
		long long began = fake_now; auto advance = [&] { fake_now += s.weighted({3, 2, 2}) == 0 ? s.range<long long>(0, 1000) : s.boolean() ? s.range<long long>(0, 5000000000ll) : s.range<long long>(0, 400000000000000ll); };
		auto body = [&] { advance(); if (depth < 3) for (size_t k = s.draw(2); k--;) { go(depth + 1); advance(); } };
		if (release) { release_bench(name); body(); } else { fake = true; std::optional<stdex::benchmark> b(std::in_place, name); body(); b.reset(); fake = false; want += std::string(name) + " took " + std::to_string(fake_now - began) + " ns\n"; notes += show(fake_now - began) + " "; if (fake_now - began > INT32_MAX) s.label("more than two seconds"); fake = depth > 0; }
	};
	go(0); fake = false; auto r = c.end(); s.note([&] { return "measured " + notes + (release ? "release" : ""); });
	if (release) PBT_REQUIRE(r.first.empty()); else PBT_EQ(r.first, want); PBT_REQUIRE(r.second.empty()); s.nontrivial(!release);
}
PBT_MAIN("G02", "something was printed or measured")
