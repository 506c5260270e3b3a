// Text to number: model with wide arithmetic for integers of every width, base and unit type; from_chars for floating point under different locales.
// SCALE: 20
#include "reftext.hpp"
#include <stdex/locale.hpp>
#include <stdex/string.hpp>
#include <charconv>
#include <cmath>
using namespace pbt;
using stdex::utf16_t;
// Sign, magnitude (saturated), end.
struct parsed { bool neg = false; unsigned __int128 mag = 0; size_t end = 0; bool any = false; };
static parsed model(const std::string& t, int radix)
{
	parsed r; size_t i = 0, n = t.size(); auto at = [&](size_t k) { return k < n ? t[k] : 0; };
	while (i < n && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) i++;
	if (at(i) == '+') i++; else if (at(i) == '-') { r.neg = true; i++; }
	if (radix == 16 && at(i) == '0' && (at(i + 1) == 'x' || at(i + 1) == 'X')) i += 2;
	else if (!radix) { if (at(i) == '0') { i++; if (at(i) == 'x' || at(i) == 'X') { radix = 16; i++; } else radix = 8; } else radix = 10; }
	for (; i < n; i++) { char c = t[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; if (d >= radix) break; r.any = true; if (r.mag < (static_cast<unsigned __int128>(1) << 100)) r.mag = r.mag * static_cast<unsigned>(radix) + static_cast<unsigned>(d); }
	r.end = i; return r;
}
template<class I> static I want(const parsed& p)
{
	const auto max = static_cast<unsigned __int128>(std::numeric_limits<I>::max());
	if constexpr (std::is_signed_v<I>) { if (p.neg) return p.mag > max ? std::numeric_limits<I>::min() : static_cast<I>(-static_cast<__int128>(p.mag)); return p.mag > max ? std::numeric_limits<I>::max() : static_cast<I>(p.mag); }
	else { if (p.mag > max) return p.neg ? I(0) : std::numeric_limits<I>::max(); return p.neg ? static_cast<I>(I(0) - static_cast<I>(p.mag)) : static_cast<I>(p.mag); }
}
template<class T> static void integers(Src& s)
{
	int radix = s.boolean() ? s.pick<int>({0, 10, 16, 8, 2}) : s.pick<int>({36, 3, 7, 11, 35, 5, 12}); std::string t; size_t b = s.weighted({5, 1}) ? s.draw(3) : 0; for (size_t i = 0; i < b; i++) t += s.pick(std::string(" \t\n\r\v\f")); switch (s.weighted({4, 1, 3})) { case 0: break; case 1: t += '+'; break; default: t += '-'; } if (s.chance(1, 4)) t += s.pick<const char*>({"0x", "0", "0X", "00"});
	int rr = radix ? radix : 10; 
	switch (s.weighted({3, 4, 1})) {
	case 0: { size_t n = s.len(24); for (size_t i = 0; i < n; i++) { int d = static_cast<int>(s.draw(static_cast<uint64_t>(rr - 1))); t += d < 10 ? static_cast<char>('0' + d) : static_cast<char>((s.boolean() ? 'a' : 'A') + d - 10); } break; }
	case 1: { unsigned __int128 v = static_cast<unsigned __int128>(1) << s.pick<int>({7, 8, 15, 16, 31, 32, 63, 64, 0, 1}); v = v + 2 - s.draw(4); std::string d; do { int k = static_cast<int>(v % static_cast<unsigned>(rr)); d += k < 10 ? static_cast<char>('0' + k) : static_cast<char>((s.boolean() ? 'a' : 'A') + k - 10); v /= static_cast<unsigned>(rr); } while (v); std::reverse(d.begin(), d.end()); t += d; if (s.chance(1, 8)) t += '0'; break; }
	default: break; }
	if (s.chance(1, 3)) { t += s.pick(std::string(" .,gGzZ/:@[`{-+x")); t += s.pick(std::string("0aZ ")); }
	std::basic_string<T> w(t.begin(), t.end()); if (s.chance(1, 12) && sizeof(T) > 1) w += static_cast<T>(0x661), t += '\x01'; size_t n = w.size(); if (s.boolean()) { w += T(0); n = s.boolean() ? w.size() : SIZE_MAX; } exact<T> e(w); auto p = model(t, radix); s.note([&] { return show(t) + " base " + show(radix) + " counted " + show(n); });
	size_t end; const T* q = e.get(); size_t* pe = s.chance(1, 8) ? nullptr : &end;
#define ONE(f, I) do { end = 9999; auto r = stdex::f(q, n, pe, radix); PBT_EQ(+r, +want<I>(p), #f); if (pe) PBT_EQ(end, p.end, #f " end"); } while (0)
	ONE(strto8, int8_t); ONE(strto16, int16_t); ONE(strto32, int32_t); ONE(strto64, int64_t); ONE(strtou8, uint8_t); ONE(strtou16, uint16_t); ONE(strtou32, uint32_t); ONE(strtou64, uint64_t); ONE(strtoi, ptrdiff_t); ONE(strtoui, size_t);
	if (w.size() < 12) { T a[12] = {}; std::copy(w.begin(), w.end(), a); PBT_EQ(stdex::strto32(a, pe, radix), want<int32_t>(p), "array"); PBT_EQ(stdex::strtou16(a, pe, radix), want<uint16_t>(p), "array"); PBT_EQ(stdex::strto64(a, pe, radix), want<int64_t>(p), "array"); PBT_EQ(+stdex::strtou8(a, pe, radix), +want<uint8_t>(p), "array"); PBT_EQ(stdex::strtoui(a, pe, radix), want<size_t>(p), "array"); }
	s.nontrivial(p.any); s.label_if(p.mag > INT64_MAX, "over 63 bits");
}
PBT_CHECK(integer, 80000, 800000) { switch (s.draw(2)) { case 0: integers<char>(s); break; case 1: integers<utf16_t>(s); break; default: integers<wchar_t>(s); } }
template<class T> static void floats(Src& s)
{
	static const char* const names[] = {"C", "sl_SI.utf8", "de_DE.utf8", "en_US.utf8"}; static locale_t locs[] = {nullptr, newlocale(LC_ALL_MASK, "sl_SI.utf8", nullptr), newlocale(LC_ALL_MASK, "de_DE.utf8", nullptr), newlocale(LC_ALL_MASK, "en_US.utf8", nullptr)};
	int process = s.range(0, 3), given = s.boolean() ? 0 : s.range(0, 3); char point = given == 1 || given == 2 ? ',' : '.'; std::string t;
	setlocale(LC_ALL, "C");
	switch (s.draw(3)) {
	case 0: { uint64_t bits = s.integer<uint64_t>(); double d; memcpy(&d, &bits, 8); if (!std::isfinite(d)) d = 1.5; char b[400]; snprintf(b, sizeof b, s.pick<const char*>({"%.17g", "%.3e", "%g", "%.0f", "%.20e"}), d); t = b; break; }
	case 1: { double d = static_cast<double>(s.range(-100000, 100000)) / s.pick<double>({1, 10, 100, 1000, 8, 3}); char b[64]; snprintf(b, sizeof b, s.pick<const char*>({"%.17g", "%.2f", "%g"}), d); t = b; break; }
	case 2: { size_t n = 1 + s.draw(8); for (size_t i = 0; i < n; i++) t += s.pick(std::string("0123456789.e+-")); break; }
	default: { t = s.pick<const char*>({"", "-", ".", "1e", "1e+", "-.5", "5.", "1e400", "-1e400", "1e-400", "0.1e1", "00012.50", "4.9e-324", "2.2250738585072011e-308", "9007199254740993", "179769313486231580793728971405301e277"}); } }
	// In the C form: digits with a full stop.
	double want = 0; size_t end = 0; { const char *b = t.data(), *q = b, *z = b + t.size(); if (q < z && (*q == '+')) q++; bool sign2 = q > b && q < z && *q == '-'; auto r = std::from_chars(q, z, want); if (r.ec == std::errc::invalid_argument || sign2) { want = 0; end = 0; } else { end = static_cast<size_t>(r.ptr - b); if (r.ec == std::errc::result_out_of_range) { std::string k(b, r.ptr); want = ::strtod(k.c_str(), nullptr); } } }
	std::string lead; if (end && s.chance(1, 5)) lead = s.pick<const char*>({" ", "\t\n"}); std::string tail = s.chance(1, 3) ? s.pick<const char*>({" ", ";", "abc", ",5", " 7", "e", ".7"}) : ""; if (!tail.empty() && (!end || end != t.size() || tail == ".7" || tail == ",5" || tail == "e")) { if (tail != ";") tail = ";"; }
	std::string text = lead + t + tail; if (point == ',') for (auto& c : text) if (c == '.') c = ','; if (end) end += lead.size();
	std::basic_string<T> w(text.begin(), text.end()); size_t n = w.size(); if (s.boolean()) { w += T(0); n = s.boolean() ? w.size() : SIZE_MAX; if (n == w.size() && s.boolean()) { w += T('7'); n++; } } exact<T> e(w); s.note([&] { return show(text) + " counted " + show(n) + ", process " + names[process] + ", given " + names[given]; });
	if (!setlocale(LC_ALL, names[process])) fail(std::string("no locale ") + names[process]); size_t got = 9999; double r = stdex::strtod(e.get(), n, &got, given ? locs[given] : static_cast<locale_t>(stdex::locale_C)); setlocale(LC_ALL, "C");
	PBT_EQ(got, end, "end"); PBT_REQUIRE(r == want && std::signbit(r) == std::signbit(want), "got " + show(r) + " instead of " + show(want)); stdex::strtod(e.get(), n, nullptr, stdex::locale_C); s.nontrivial(end > 0); s.label_if(process && !given, "other process locale");
}
PBT_CHECK(floating, 40000, 400000) { if (s.boolean()) floats<char>(s); else floats<wchar_t>(s); }
PBT_MAIN("T05", "the text has a digit of the base (a number, for floating point)")
