// Copying and editing of strings against a model of the whole destination: exact allocations, sentinels behind the terminator.
// SCALE: 16
#include "reftext.hpp"
#include <stdex/string.hpp>
#include <locale>
using namespace pbt;
using stdex::utf16_t;
static const std::locale& loc(unsigned i) { static const std::locale l[] = {std::locale::classic(), std::locale("C.utf8"), std::locale("sl_SI.utf8")}; return l[i % 3]; }
static locale_t cloc(unsigned i) { static locale_t l[] = {newlocale(LC_ALL_MASK, "C", nullptr), newlocale(LC_ALL_MASK, "C.utf8", nullptr), newlocale(LC_ALL_MASK, "sl_SI.utf8", nullptr)}; return l[i % 3]; }
template<class T> using str = std::basic_string<T>;
template<class T> static T gen_unit(Src& s, unsigned mode)
{
	switch (mode) {
	case 0: return static_cast<T>(s.pick(std::string("ab \r\n\tAB\v\f")));
	case 1: return static_cast<T>(1 + s.draw(126));
	default: if (sizeof(T) == 1) return static_cast<T>(1 + s.draw(254)); if (sizeof(T) == 2) return static_cast<T>(1 + s.draw(0xfffe)); { auto c = s.pick<unsigned>({0x41, 0x61, 0xc9, 0xe9, 0x160, 0x161, 0x416, 0x436, 0x1f600, 0x2003, 0xa0, 0xffff, 0x10400}); return static_cast<T>(s.boolean() ? c : 1 + s.draw(0x10fffe)); } }
}
template<class T> static str<T> gen_text(Src& s, unsigned mode, size_t max = 12) { str<T> t; size_t n = s.len(max); for (size_t i = 0; i < n; i++) t += gen_unit<T>(s, mode); return t; }
template<class T> static std::vector<int64_t> see(const str<T>& t) { return std::vector<int64_t>(t.begin(), t.end()); }
// A source just as long as it may be read, with the count to give.
template<class T> struct source { std::unique_ptr<exact<T>> m; size_t n; source(Src& s, const str<T>& t) { auto v = t; n = t.size(); if (s.boolean()) { v += T(0); n = s.boolean() ? v.size() : SIZE_MAX; } m = std::make_unique<exact<T>>(v); } const T* p() const { return m->get(); } };
template<class T> static str<T> z(const str<T>& t) { return t + T(0); }
template<class A, class B> static str<A> as(const str<B>& t) { str<A> r; for (auto c : t) r += static_cast<A>(c); return r; }
// Destination of exactly cap units, text and terminator (if there is room), the rest sentinels.
template<class T> struct dest
{
	exact<T> m; std::vector<T> was; dest(size_t cap, const str<T>& t) : m(cap, T('#')) { for (size_t i = 0; i < t.size() && i < cap; i++) m.get()[i] = t[i]; if (t.size() < cap) m.get()[t.size()] = 0; was.assign(m.get(), m.get() + cap); }
	void expect(size_t got, const str<T>& t, bool terminated, const char* w) { PBT_EQ(got, t.size(), w); for (size_t i = 0; i < t.size(); i++) if (m.get()[i] != t[i]) fail(std::string(w) + ": unit " + show(i) + " of " + show(see(t))); size_t i = t.size(); if (terminated) PBT_EQ(static_cast<int64_t>(m.get()[i++]), 0, w); for (; i < was.size(); i++) PBT_REQUIRE(m.get()[i] == was[i], std::string(w) + ": touched unit " + show(i) + " beyond the end"); }
};
template<class A, class B> static void copying(Src& s)
{
	unsigned mode = sizeof(A) >= sizeof(B) && std::is_same_v<A, B> ? static_cast<unsigned>(s.draw(2)) : 1; auto t = gen_text<B>(s, mode); auto w = as<A>(t); auto pre = as<A>(gen_text<B>(s, mode, 4)); source<B> x(s, t); exact<B> tz(z(t));
	s.note([&] { return "text " + show(see(t)) + " counted " + show(x.n) + " after " + show(see(pre)); });
	{ dest<A> d(t.size() + 1 + s.draw(3), pre); size_t n = stdex::strcpy(d.m.get(), tz.get()); d.expect(n, w, true, "strcpy"); }
	{ size_t c = s.boolean() ? s.draw(14) : t.size() + s.draw(2); auto lim = w.substr(0, c); bool term = t.size() < c; str<B> mem = term ? z(t) : t.substr(0, c); exact<B> e(mem); dest<A> d(lim.size() + term + s.draw(2), pre); size_t n = stdex::strncpy(d.m.get(), e.get(), c); d.expect(n, lim, term, "strncpy(dst, src, count)"); }
	{ size_t cap = s.boolean() ? s.draw(14) : t.size() + s.draw(2); auto lim = w.substr(0, cap); dest<A> d(cap, pre.substr(0, cap)); size_t n = stdex::strncpy(d.m.get(), cap, x.p(), x.n); d.expect(n, lim, t.size() < cap, "strncpy(dst, count, src, count)"); }
	{ dest<A> d(pre.size() + t.size() + 1 + s.draw(3), pre); size_t n = stdex::strcat(d.m.get(), tz.get()); d.expect(n, pre + w, true, "strcat"); }
	{ size_t c = s.boolean() ? s.draw(14) : t.size() + s.draw(2); auto lim = w.substr(0, c); str<B> mem = t.size() < c ? z(t) : t.substr(0, c); exact<B> e(mem); dest<A> d(pre.size() + lim.size() + 1 + s.draw(2), pre); size_t n = stdex::strncat(d.m.get(), e.get(), c); d.expect(n, pre + lim, true, "strncat(dst, src, count)"); }
	{ size_t cap = s.boolean() ? s.draw(18) : pre.size() + t.size() + s.draw(2); auto p = pre.substr(0, cap); dest<A> d(cap, p); auto lim = (p + w).substr(0, cap); size_t n = stdex::strncat(d.m.get(), cap, x.p(), x.n); d.expect(n, lim, lim.size() < cap, "strncat(dst, count, src, count)"); }
	{ A dst[6]; B src[7]; std::fill(std::begin(dst), std::end(dst), A('#')); auto k = t.substr(0, s.draw(7)); std::fill(std::begin(src), std::end(src), B(0)); std::copy(k.begin(), k.end(), src); size_t n = stdex::strncpy(dst, src); auto e = as<A>(k.substr(0, 6)); PBT_EQ(n, e.size(), "array"); PBT_REQUIRE(std::equal(e.begin(), e.end(), dst)); if (n < 6) { PBT_REQUIRE(dst[n] == 0); for (size_t i = n + 1; i < 6; i++) PBT_REQUIRE(dst[i] == A('#')); } }
	s.nontrivial(t.size() > 1);
}
PBT_CHECK(copy, 60000, 600000) { switch (s.draw(6)) { case 0: copying<char, char>(s); break; case 1: copying<utf16_t, utf16_t>(s); break; case 2: copying<wchar_t, wchar_t>(s); break; case 3: copying<wchar_t, char>(s); break; case 4: copying<char, wchar_t>(s); break; case 5: copying<utf16_t, char>(s); break; default: copying<char, utf16_t>(s); } }
PBT_CHECK(utf16_to_utf32, 40000, 400000)
{
	str<utf16_t> t; size_t n = s.len(10); for (size_t i = 0; i < n; i++) { if (s.chance(1, 3)) { t += static_cast<utf16_t>(0xd800 + s.draw(1) * 0x3ff); if (s.chance(3, 4)) t += static_cast<utf16_t>(0xdc00 + s.draw(2) * 0x1ff); } else t += static_cast<utf16_t>(s.pick<unsigned>({0x41, 0xdc00, 0xd800, 0xffff, 0xe000, 0x161, 0xdbff, 0xdfff})); }
	auto conv = [](const str<utf16_t>& t) { std::wstring w; for (size_t i = 0; i < t.size(); i++) if (t[i] >= 0xd800 && t[i] < 0xdc00 && i + 1 < t.size() && t[i + 1] >= 0xdc00 && t[i + 1] < 0xe000) { w += static_cast<wchar_t>(0x10000 + ((t[i] - 0xd800) << 10) + (t[i + 1] - 0xdc00)); i++; } else w += static_cast<wchar_t>(t[i]); return w; };
	auto w = conv(t); exact<utf16_t> e(z(t)); source<utf16_t> x(s, t); { dest<wchar_t> d(w.size() + 1 + s.draw(2), L""); d.expect(stdex::strcpy(d.m.get(), e.get()), w, true, "strcpy"); }
	size_t cap = s.boolean() ? s.draw(10) : w.size() + s.draw(2); dest<wchar_t> d(cap, L""); d.expect(stdex::strncpy(d.m.get(), cap, x.p(), x.n), w.substr(0, cap), w.size() < cap, "strncpy"); size_t c = s.draw(t.size()); exact<utf16_t> y(t.substr(0, c)); auto wc = conv(t.substr(0, c)); dest<wchar_t> d2(wc.size() + 1, L""); d2.expect(stdex::strncpy(d2.m.get(), d2.was.size(), y.get(), c), wc, true, "strncpy counted"); s.nontrivial(w.size() < t.size());
}
template<class T> static void duplicating(Src& s)
{
	auto t = gen_text<T>(s, 2); exact<T> e(z(t)); source<T> x(s, t); { std::unique_ptr<T[]> d(stdex::strdup(e.get())); PBT_REQUIRE(str<T>(d.get()) == t, "strdup"); } PBT_REQUIRE(stdex::strdup(static_cast<const T*>(nullptr)) == nullptr);
	if (x.n != SIZE_MAX) { std::unique_ptr<T[]> d(stdex::strndup(x.p(), x.n)); for (size_t i = 0; i <= t.size(); i++) PBT_REQUIRE(d[i] == (i < t.size() ? t[i] : 0), "strndup"); }
	size_t c = s.draw(t.size()); exact<T> y(t.substr(0, c)); std::unique_ptr<T[]> d(stdex::strndup(y.get(), c)); for (size_t i = 0; i <= c; i++) PBT_REQUIRE(d[i] == (i < c ? t[i] : 0), "strndup of a part"); T arr[5] = {}; auto k = t.substr(0, s.draw(5)); std::copy(k.begin(), k.end(), arr); std::unique_ptr<T[]> a(stdex::strndup(arr)); for (size_t i = 0; i <= k.size(); i++) PBT_REQUIRE(a[i] == (i < k.size() ? k[i] : 0), "strndup of an array"); s.nontrivial(t.size() > 0);
}
PBT_CHECK(duplicate, 30000, 300000) { switch (s.draw(2)) { case 0: duplicating<char>(s); break; case 1: duplicating<utf16_t>(s); break; default: duplicating<wchar_t>(s); } }
template<class T> static void line_ends(Src& s)
{
	str<T> t; size_t n = s.len(16), pairs = 0; for (size_t i = 0; i < n; i++) t += static_cast<T>(s.pick(std::string("\r\n\r\nab"))); str<T> want; for (size_t i = 0; i < t.size(); i++) if (t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n') { pairs++; continue; } else want += t[i];
	s.note([&] { return show(see(t)); }); exact<T> e(z(t)); dest<T> d(t.size() + 1, str<T>()); PBT_EQ(stdex::crlf2nl(d.m.get(), e.get()), want.size(), "crlf2nl"); for (size_t i = 0; i <= want.size(); i++) PBT_REQUIRE(d.m.get()[i] == (i < want.size() ? want[i] : 0)); for (size_t i = want.size() + 1; i < d.was.size(); i++) PBT_REQUIRE(d.m.get()[i] == d.was[i]); str<T> o(3, T('x')); stdex::crlf2nl(o, e.get()); PBT_REQUIRE(o == want, "crlf2nl to a string"); o = t; if (s.boolean()) { o += T(0); o += t; want = want + T(0) + want; } stdex::crlf2nl(o); PBT_REQUIRE(o == want, "crlf2nl of a string"); s.nontrivial(pairs > 0);
}
PBT_CHECK(crlf, 40000, 400000) { switch (s.draw(2)) { case 0: line_ends<char>(s); break; case 1: line_ends<utf16_t>(s); break; default: line_ends<wchar_t>(s); } }
static char tr(char c, bool up, int l) { return l < 0 ? (up ? (c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c) : (c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c)) : static_cast<char>(up ? toupper_l(static_cast<unsigned char>(c), cloc(static_cast<unsigned>(l))) : tolower_l(static_cast<unsigned char>(c), cloc(static_cast<unsigned>(l)))); }
static wchar_t tr(wchar_t c, bool up, int l) { return l < 0 ? (up ? (c >= 'a' && c <= 'z' ? c - 32 : c) : (c >= 'A' && c <= 'Z' ? c + 32 : c)) : static_cast<wchar_t>(up ? towupper_l(static_cast<wint_t>(c), cloc(static_cast<unsigned>(l))) : towlower_l(static_cast<wint_t>(c), cloc(static_cast<unsigned>(l)))); }
static utf16_t tr(utf16_t c, bool up, int) { return up ? (c >= 'a' && c <= 'z' ? static_cast<utf16_t>(c - 32) : c) : (c >= 'A' && c <= 'Z' ? static_cast<utf16_t>(c + 32) : c); }
static bool sp(char c, int l) { return l < 0 ? c == ' ' || (c >= 9 && c <= 13) : isspace_l(static_cast<unsigned char>(c), cloc(static_cast<unsigned>(l))); }
static bool sp(wchar_t c, int l) { return l < 0 ? c == ' ' || (c >= 9 && c <= 13) : iswspace_l(static_cast<wint_t>(c), cloc(static_cast<unsigned>(l))); }
static bool sp(utf16_t c, int) { return c == ' ' || (c >= 9 && c <= 13); }
template<class T> static void casing(Src& s)
{
	unsigned mode = static_cast<unsigned>(1 + s.draw(1)); auto t = gen_text<T>(s, mode), o = t; int l = std::is_same_v<T, utf16_t> ? -1 : s.range(-1, 2); bool up = s.boolean(); for (auto& c : o) c = tr(c, up, l); source<T> x(s, t); T* p = const_cast<T*>(x.p()); T arr[5] = {}; auto k = t.substr(0, s.draw(5)), ko = o.substr(0, k.size()); std::copy(k.begin(), k.end(), arr); auto g = t, go = o; if (s.boolean()) { g += T(0); g += t; go = go + T(0) + o; } s.note([&] { return show(see(t)) + (up ? " up" : " down") + ", locale " + show(l); });
	if (l < 0) { up ? stdex::strupr(p, x.n) : stdex::strlwr(p, x.n); up ? stdex::strupr(arr) : stdex::strlwr(arr); up ? stdex::strupr(g) : stdex::strlwr(g); }
	else if constexpr (!std::is_same_v<T, utf16_t>) { auto& L = loc(static_cast<unsigned>(l)); up ? stdex::strupr(p, x.n, L) : stdex::strlwr(p, x.n, L); up ? stdex::strupr(arr, L) : stdex::strlwr(arr, L); up ? stdex::strupr(g, L) : stdex::strlwr(g, L); }
	for (size_t i = 0; i < x.m->n; i++) PBT_REQUIRE(p[i] == (i < t.size() ? o[i] : 0), "unit " + show(i) + " became " + show(static_cast<int64_t>(p[i]))); for (size_t i = 0; i < 5; i++) PBT_REQUIRE(arr[i] == (i < k.size() ? ko[i] : 0), "array"); PBT_REQUIRE(g == go, "string"); s.nontrivial(o != t);
}
PBT_CHECK(change_case, 50000, 500000) { switch (s.draw(2)) { case 0: casing<char>(s); break; case 1: casing<utf16_t>(s); break; default: casing<wchar_t>(s); } }
template<class T> static void trimming(Src& s)
{
	auto gb = [&] { str<T> b; size_t n = s.len(4); for (size_t i = 0; i < n; i++) b += sizeof(T) == 4 && s.chance(1, 8) ? static_cast<T>(0x2003) : static_cast<T>(s.pick(std::string(" \t\r\n\v\f"))); return b; }; auto b1 = gb(); auto t = b1 + gen_text<T>(s, static_cast<unsigned>(s.draw(2)), 6) + gb(); int l = std::is_same_v<T, utf16_t> ? -1 : s.range(-1, 2), side = s.range(0, 2); size_t a = 0, b = t.size(); if (side != 1) while (a < b && sp(t[a], l)) a++; if (side != 0) while (b > a && sp(t[b - 1], l)) b--; auto want = t.substr(a, b - a);
	s.note([&] { return show(see(t)) + (side == 0 ? " left" : side == 1 ? " right" : " both") + ", locale " + show(l); });
	auto mem = t; size_t n = t.size(); bool term = s.boolean(); if (term) { mem += T(0); size_t junk = s.draw(3); for (size_t i = 0; i < junk; i++) mem += T('#'); n = s.boolean() ? mem.size() : SIZE_MAX; } exact<T> e(mem); T* p = e.get(); size_t r = 0; auto g = t;
	if (l < 0) { r = side == 0 ? stdex::ltrim(p, n) : side == 1 ? stdex::rtrim(p, n) : stdex::trim(p, n); side == 0 ? stdex::ltrim(g) : side == 1 ? stdex::rtrim(g) : stdex::trim(g); }
	else if constexpr (!std::is_same_v<T, utf16_t>) { auto& L = loc(static_cast<unsigned>(l)); r = side == 0 ? stdex::ltrim(p, n, L) : side == 1 ? stdex::rtrim(p, n, L) : stdex::trim(p, n, L); side == 0 ? stdex::ltrim(g, L) : side == 1 ? stdex::rtrim(g, L) : stdex::trim(g, L); }
	PBT_EQ(r, want.size(), "length"); for (size_t i = 0; i < want.size(); i++) PBT_REQUIRE(p[i] == want[i], "unit " + show(i)); if (term || want.size() < t.size()) PBT_EQ(static_cast<int64_t>(p[want.size()]), 0, "terminator"); for (size_t i = t.size() + 1; i < mem.size(); i++) PBT_REQUIRE(p[i] == mem[i], "touched beyond the terminator"); PBT_REQUIRE(g == want, "string"); s.nontrivial(want.size() && want.size() < t.size());
}
PBT_CHECK(trim, 60000, 600000) { switch (s.draw(2)) { case 0: trimming<char>(s); break; case 1: trimming<utf16_t>(s); break; default: trimming<wchar_t>(s); } }
PBT_MAIN("T04", "something is copied, changed or removed")
