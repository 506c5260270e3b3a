// Formatting into strings against the C library with buffers large enough; lengths around the internal buffers, different process and given locales.
// SCALE: 3
#include "reftext.hpp"
#include <stdex/locale.hpp>
#include <stdex/string.hpp>
#include <stdex/stream.hpp>
using namespace pbt;
static const char* const names[] = {"C", "de_DE.utf8", "sl_SI.utf8", "en_US.utf8"};
static locale_t locs(unsigned i) { static locale_t l[] = {newlocale(LC_ALL_MASK, "C", nullptr), newlocale(LC_ALL_MASK, "de_DE.utf8", nullptr), newlocale(LC_ALL_MASK, "sl_SI.utf8", nullptr), newlocale(LC_ALL_MASK, "en_US.utf8", nullptr)}; return l[i]; }
struct in_locale { explicit in_locale(const char* n) { if (!setlocale(LC_ALL, n)) fail("no locale"); } ~in_locale() { setlocale(LC_ALL, "C"); } };
static size_t gen_len(Src& s) { return s.boolean() ? s.draw(40) : s.chance(1, 20) ? s.draw(9000) : s.pick<size_t>({255, 256, 257, 510, 511, 512, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4095, 4096, 4097}) - s.draw(2) + s.draw(2); }
static size_t c_format(std::string& o, const char* f, ...) { o.resize(40000); va_list a; va_start(a, f); int n = ::vsnprintf(&o[0], o.size(), f, a); va_end(a); if (n < 0) return SIZE_MAX; o.resize(static_cast<size_t>(n)); return o.size(); }
static size_t c_format(std::wstring& o, const wchar_t* f, ...) { o.resize(40000); va_list a; va_start(a, f); int n = ::vswprintf(&o[0], o.size(), f, a); va_end(a); if (n < 0) return SIZE_MAX; o.resize(static_cast<size_t>(n)); return o.size(); }
template<class T> static std::basic_string<T> v_sprintf(const T* f, locale_t l, ...) { va_list a; va_start(a, l); auto r = stdex::vsprintf(f, l, a); va_end(a); return r; }
template<class T> static void v_sprintf_to(std::basic_string<T>& o, const T* f, locale_t l, ...) { va_list a; va_start(a, l); stdex::vsprintf(o, f, l, a); va_end(a); }
template<class T> static size_t v_appendf(std::basic_string<T>& o, const T* f, locale_t l, ...) { va_list a; va_start(a, l); size_t n = stdex::vappendf(o, f, l, a); va_end(a); return n; }
template<class T> static void formatting(Src& s)
{
	unsigned process = static_cast<unsigned>(s.draw(3)), given = static_cast<unsigned>(s.draw(4)); locale_t L = given == 4 ? locale_t(nullptr) : given == 0 && s.boolean() ? static_cast<locale_t>(stdex::locale_C) : locs(given);
	std::string f; size_t len = gen_len(s), lit = s.chance(1, 3) ? s.draw(len) : 0; for (size_t i = 0; i < lit; i++) f += static_cast<char>('a' + i % 26); if (s.chance(1, 5)) f += "%%";
	int i = s.integer<int>(); double d = static_cast<double>(s.range(-10000000, 10000000)) / s.pick<double>({1, 8, 1000, 3}); long long ll = s.integer<long long>(); std::string txt; size_t tl = s.chance(1, 3) ? len - lit : s.draw(20); if (s.chance(1, 6)) tl = gen_len(s); for (size_t k = 0; k < tl; k++) txt += static_cast<char>('A' + (k * 7) % 26); std::wstring wtxt(txt.begin(), txt.end());
	// In this order: int, text, double, long long.
	f += s.pick<const char*>({"%d", "%5d", "%-8d", "%08d", "%+d", "%x", "%'d"}); f += s.pick<const char*>({"", "|", "\xc3\xa9"}); std::string tf = s.pick<const char*>({"%s", "%30s", "%-30s", "%.3s"}); if (sizeof(T) > 1) tf.insert(tf.size() - 1, "l"); f += tf; f += s.pick<const char*>({"", " ", "%%"}); f += s.pick<const char*>({"%f", "%.2f", "%e", "%g", "%10.3f", "%'.2f"}); f += s.pick<const char*>({"%lld", "%20lld", "%llx"}); if (s.chance(1, 3)) { char pad[32]; snprintf(pad, sizeof pad, "%%%zulld", len); size_t p = f.rfind("%"); f = f.substr(0, p) + pad; }
	std::basic_string<T> F; { std::u32string u; if (sizeof(T) > 1) { rt::from8(f, u); F.assign(u.begin(), u.end()); } else F.assign(f.begin(), f.end()); } exact<T> fe(F + T(0)); const T* text; if constexpr (sizeof(T) > 1) text = wtxt.c_str(); else text = txt.c_str();
	// The C library in the locale that counts.
	std::basic_string<T> want; { locale_t was = uselocale(L ? L : locs(process)); size_t n = c_format(want, fe.get(), i, text, d, ll); uselocale(was); if (n == SIZE_MAX) throw discard_t{}; }
	s.note([&] { return "format of " + show(f.size()) + ": " + show(f.substr(f.size() > 80 ? f.size() - 80 : 0)) + ", result of " + show(want.size()) + ", process " + names[process] + ", given " + (given == 4 ? "none" : names[given]); });
	std::basic_string<T> pre(s.draw(5), T('p')); if (s.chance(1, 6)) pre.assign(gen_len(s), T('p')); if (s.chance(1, 5)) pre += T(0); in_locale in(names[process]); auto o = pre; 
	switch (s.draw(7)) {
	case 0: PBT_EQ(stdex::appendf(o, fe.get(), L, i, text, d, ll), want.size(), "appendf"); break;
	case 1: PBT_EQ(v_appendf(o, fe.get(), L, i, text, d, ll), want.size(), "vappendf"); break;
	case 2: stdex::sprintf(o, fe.get(), L, i, text, d, ll); pre.clear(); break;
	case 3: v_sprintf_to(o, fe.get(), L, i, text, d, ll); pre.clear(); break;
	case 4: o = v_sprintf(fe.get(), L, i, text, d, ll); pre.clear(); break;
	case 5: { std::basic_string<T> b(want.size() + 2, T('#')); int n = sizeof(T) > 1 ? 0 : 1; (void)n; o = pre + stdex::sprintf(fe.get(), L, i, text, d, ll); break; }
	default: { stdex::stream::memory_file m(stdex::stream::memory_file(16)); PBT_EQ(m.write_sprintf(fe.get(), L, i, text, d, ll), want.size(), "write_sprintf"); PBT_EQ(m.size(), want.size() * sizeof(T)); o = pre + std::basic_string<T>(reinterpret_cast<const T*>(m.data()), want.size()); } }
	if (o != pre + want) { size_t k = 0; auto w = pre + want; while (k < o.size() && k < w.size() && o[k] == w[k]) k++; fail("length " + show(o.size()) + " instead of " + show(w.size()) + ", differs at " + show(k)); }
	s.nontrivial(); s.label_if(want.size() >= 1024 / sizeof(T), "over the internal buffer"); s.label_if(process && given != 4, "other process locale");
}
PBT_CHECK(format, 40000, 400000) { if (s.boolean()) formatting<char>(s); else formatting<wchar_t>(s); }
// Text that cannot be written: reported, with nothing appended.
PBT_CHECK(unencodable, 20000, 100000)
{
	std::wstring w(s.boolean() ? s.draw(20) : gen_len(s), L'a'); if (w.size()) w[s.draw(w.size() - 1)] = L'\x161'; else w = L"\x161"; std::string o = "kept", f = std::string(s.chance(1, 3) ? gen_len(s) : 0, 'x') + "%ls"; bool threw = false; try { stdex::appendf(o, f.c_str(), static_cast<locale_t>(stdex::locale_C), w.c_str()); } catch (const std::runtime_error&) { threw = true; }
	PBT_REQUIRE(threw, "no failure reported"); PBT_REQUIRE(o == "kept", "left " + show(o.size()) + " characters"); s.nontrivial();
}
static size_t c_time(std::string& o, const char* f, const tm* t, locale_t l) { o.resize(60000); size_t n = strftime_l(&o[0], o.size(), f, t, l); o.resize(n); return n; }
static size_t c_time(std::wstring& o, const wchar_t* f, const tm* t, locale_t l) { o.resize(60000); size_t n = wcsftime_l(&o[0], o.size(), f, t, l); o.resize(n); return n; }
template<class T> static void times(Src& s)
{
	unsigned process = static_cast<unsigned>(s.draw(3)), given = static_cast<unsigned>(s.draw(4)); locale_t L = given == 4 ? locale_t(nullptr) : locs(given); std::basic_string<T> f; size_t reps = s.weighted({5, 1}) ? 1 + s.draw(400) : 1;
	std::string one; s.repeat(6, [&] { one += s.chance(1, 3) ? s.pick<const char*>({" ", ".", "T", "x", "%%"}) : s.pick<const char*>({"%Y", "%m", "%d", "%H", "%M", "%S", "%A", "%a", "%B", "%b", "%p", "%j", "%c", "%x", "%X", "%y", "%e", "%I", "%U", "%F", "%T", "%D", "%P", "%Ey"}); }); for (size_t i = 0; i < reps; i++) f.append(one.begin(), one.end()); exact<T> fe(f + T(0));
	tm t = {}; t.tm_year = s.range(0, 200); t.tm_mon = s.range(0, 11); t.tm_mday = s.range(1, 28); t.tm_hour = s.range(0, 23); t.tm_min = s.range(0, 59); t.tm_sec = s.range(0, 59); t.tm_wday = s.range(0, 6); t.tm_yday = s.range(0, 364); t.tm_zone = "UTC";
	std::basic_string<T> want; c_time(want, fe.get(), &t, L ? L : locs(process)); s.note([&] { return show(one) + " times " + show(reps) + ", result of " + show(want.size()) + ", process " + names[process] + ", given " + (given == 4 ? "none" : names[given]); });
	in_locale in(names[process]); std::basic_string<T> pre(s.draw(4), T('p')), o = pre; switch (s.draw(2)) { case 0: stdex::strcatftime(o, fe.get(), &t, L); break; case 1: stdex::strftime(o, fe.get(), &t, L); pre.clear(); break; default: o = stdex::strftime(fe.get(), &t, L); pre.clear(); }
	PBT_REQUIRE(o == pre + want, "length " + show(o.size()) + " instead of " + show(pre.size() + want.size())); s.nontrivial(one.size() > 0); s.label_if(want.empty(), "nothing"); s.label_if(want.size() >= 1024 / sizeof(T), "over the internal buffer");
}
PBT_CHECK(time_format, 30000, 300000) { if (s.boolean()) times<char>(s); else times<wchar_t>(s); }
PBT_MAIN("T06", "every case that the C library can format")
