// T07: character classes, line ends, user-perceived characters.
// SCALE: 20
#include "common.hpp"
#include <stdex/string.hpp>
#include <ctype.h>
using namespace pbt;
using stdex::utf16_t; using stdex::utf32_t;
template <class T> static std::string hex(const std::basic_string<T>& s) { std::string o; char b[16]; for (auto c : s) { snprintf(b, sizeof b, "%x ", static_cast<unsigned>(c)); o += b; } return o; }

// --- classes of one code unit
template <class T> static void classes(T c)
{
	using U = std::make_unsigned_t<T>; uint32_t v = static_cast<U>(c); bool a = v < 128; int i = a ? static_cast<int>(v) : 0;
	static locale_t C = newlocale(LC_ALL_MASK, "C", nullptr);
	auto eq = [&](bool got, bool want, const char* what) { if (got != want) { char b[64]; snprintf(b, sizeof b, "%s(%#x) of %zu bytes is %d", what, v, sizeof(T), got); fail(b); } };
	eq(stdex::isspace(c), a && isspace_l(i, C), "isspace"); eq(stdex::ispunct(c), a && ispunct_l(i, C), "ispunct"); eq(stdex::islower(c), a && islower_l(i, C), "islower"); eq(stdex::isupper(c), a && isupper_l(i, C), "isupper");
	eq(stdex::isdigit(c), a && isdigit_l(i, C), "isdigit"); eq(stdex::isalpha(c), a && isalpha_l(i, C), "isalpha"); eq(stdex::is7bit(c), a, "is7bit"); eq(stdex::islbreak(c), v == 10 || v == 13, "islbreak");
	T lo = a ? static_cast<T>(tolower_l(i, C)) : c, up = a ? static_cast<T>(toupper_l(i, C)) : c;
	eq(stdex::tolower(c) == lo, true, "tolower"); eq(stdex::toupper(c) == up, true, "toupper");
}
static utf32_t any_unit(Src& s)
{
	switch (s.weighted({ 3, 2, 2, 2 })) { case 0: return s.range(0, 0x300); case 1: return s.range(0, 0x10ffff); case 2: { static const uint32_t e[] = { 0x2f00, 0xff00, 0xd7f0, 0xdbf0, 0xdff0, 0xfff0, 0x10ff0, 0x1dff0, 0x1d90, 0x20c0, 0x2020, 0x12020, 0x10020, 0xfe10, 0x30fff }; return e[s.draw(14)] + s.draw(64); } default: return static_cast<utf32_t>(s.integer<uint32_t>() & 0x7fffffff); }
}
PBT_CHECK(units, 200000, 2000000)
{
	utf32_t c = any_unit(s); s.note([&] { char b[16]; snprintf(b, 16, "%#x", static_cast<unsigned>(c)); return std::string(b); });
	classes(static_cast<char>(c)); classes(static_cast<unsigned char>(c)); classes(static_cast<uint16_t>(c)); classes(static_cast<utf32_t>(c)); classes(static_cast<uint32_t>(c));
	// The same through the character types.
	char16_t d = static_cast<char16_t>(c); PBT_EQ(stdex::isspace(d), stdex::isspace(static_cast<uint32_t>(d))); PBT_EQ(stdex::ispunct(d), stdex::ispunct(static_cast<uint32_t>(d))); PBT_EQ(stdex::isalpha(d), stdex::isalpha(static_cast<uint32_t>(d))); PBT_EQ(stdex::isdigit(d), stdex::isdigit(static_cast<uint32_t>(d))); PBT_EQ(stdex::islbreak(d), stdex::islbreak(static_cast<uint32_t>(d)));
	PBT_EQ(static_cast<uint32_t>(stdex::tolower(d)), stdex::tolower(static_cast<uint32_t>(d))); PBT_EQ(static_cast<uint32_t>(stdex::toupper(d)), stdex::toupper(static_cast<uint32_t>(d)));
	s.nontrivial(); s.label_if(c > 127, "beyond ASCII");
}
PBT_CHECK(all_bytes, 2, 2, 30) { uint32_t lim = 0x11000; if (s.boolean()) lim = 0x10000; for (uint32_t c = 0; c < lim; c++) { if (c < 256) { classes(static_cast<char>(c)); classes(static_cast<unsigned char>(c)); } if (c < 65536) classes(static_cast<uint16_t>(c)); classes(static_cast<utf32_t>(c)); } s.nontrivial(); }

// --- combining marks: whole blocks as Unicode has them
static bool ref_mark(uint32_t c) { static const uint32_t b[][2] = { { 0x300, 0x36f }, { 0x1dc0, 0x1dff }, { 0x20d0, 0x20ff }, { 0xfe20, 0xfe2f } }; for (auto& r : b) if (r[0] <= c && c <= r[1]) return true; return false; }
PBT_CHECK(marks, 2, 2, 30) { uint32_t lim = s.boolean() ? 0x110000 : 0x20000; for (uint32_t c = 0; c < lim; c++) if (stdex::iscombining(static_cast<utf32_t>(c)) != ref_mark(c)) { char b[32]; snprintf(b, 32, "iscombining(%#x)", c); fail(b); } s.nontrivial(); }
// --- surrogates
PBT_CHECK(surrogates, 2, 2, 30)
{
	uint32_t from = s.boolean() ? 0x10000 : 0x80000; 
	for (uint32_t c = from; c < 0x110000; c++) { exact<utf16_t> p(std::basic_string<utf16_t>(2, 0).data(), 2); utf16_t q[3] = { 1, 2, 3 }; stdex::ucs4_to_surrogate_pair(q, static_cast<utf32_t>(c));
		uint32_t v = c - 0x10000; if (q[0] != 0xd800 + (v >> 10) || q[1] != 0xdc00 + (v & 1023) || q[2] != 3) { char b[64]; snprintf(b, 64, "%#x becomes %#x %#x", c, q[0], q[1]); fail(b); }
		if (!stdex::is_surrogate_pair(q) || static_cast<uint32_t>(stdex::surrogate_pair_to_ucs4(q)) != c) fail("pair not read back");
		if (c % 64) continue; }
	for (uint32_t c = 0; c < 0x10000; c++) { bool h = c >= 0xd800 && c <= 0xdbff, l = c >= 0xdc00 && c <= 0xdfff; PBT_EQ(stdex::is_high_surrogate(static_cast<utf16_t>(c)), h); PBT_EQ(stdex::is_low_surrogate(static_cast<utf16_t>(c)), l); }
	s.nontrivial();
}
PBT_CHECK(pair_test, 20000, 200000) { auto u = [&] { static const uint16_t e[] = { 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0x41, 0x300 }; return s.boolean() ? e[s.draw(7)] : static_cast<uint16_t>(s.range(0xd000, 0xe100)); }; utf16_t p[2] = { u(), u() }; bool want = (p[0] & 0xfc00) == 0xd800 && (p[1] & 0xfc00) == 0xdc00; PBT_EQ(stdex::is_surrogate_pair(p), want); if (want) { PBT_EQ(static_cast<uint32_t>(stdex::surrogate_pair_to_ucs4(p)), 0x10000u + ((p[0] & 1023u) << 10) + (p[1] & 1023u)); s.nontrivial(); } }

// --- line breaks
template <class T> static void breaks(Src& s)
{
	std::basic_string<T> t; size_t n = s.draw(4); for (size_t i = 0; i < n; i++) { static const uint16_t e[] = { 10, 13, 0x41, 0, 11, 0x85, 0x0d0a, 0x0a0d, 0x2028 }; t += static_cast<T>(e[s.draw(8)]); }
	bool z = s.chance(1, 3); size_t count = n; if (z) { t += T(0); count = s.boolean() ? SIZE_MAX : n + s.draw(5); } exact<T> e(t.data(), t.size());
	auto u = [&](size_t i) { return i < std::min(count, t.size()) ? static_cast<uint32_t>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<T, char16_t>, uint16_t, T>>>(t[i])) : 0; };
	size_t want = (u(0) == 10 && u(1) == 13) || (u(0) == 13 && u(1) == 10) ? 2 : u(0) == 10 || u(0) == 13 ? 1 : 0; if (!count) want = 0;
	s.note([&] { return hex(t) + "count " + show(count); });
	PBT_EQ(stdex::islbreak(e.get(), count), want, "islbreak"); if (want) s.nontrivial();
	// Cut into lines: no break is torn.
}
PBT_CHECK(line_breaks, 40000, 400000) { switch (s.draw(2)) { case 0: breaks<char>(s); break; case 1: breaks<char16_t>(s); break; default: breaks<wchar_t>(s); } }

// --- user-perceived characters
template <class T> static std::vector<size_t> ref_cuts(const std::basic_string<T>& t)
{
	std::vector<size_t> c; size_t i = 0; while (i < t.size()) { c.push_back(i); bool pair = sizeof(T) == 2 && i + 1 < t.size() && (t[i] & 0xfc00) == 0xd800 && (t[i + 1] & 0xfc00) == 0xdc00; i += pair ? 2 : 1; while (i < t.size() && ref_mark(static_cast<uint32_t>(t[i]))) i++; } c.push_back(t.size()); return c;
}
template <class T> static void glyphs(Src& s)
{
	std::basic_string<T> t; size_t n = s.len(s.chance(1, 20) ? 300 : 12);
	for (size_t i = 0; i < n; i++) { static const uint16_t m[] = { 0x300, 0x301, 0x36f, 0x1dc0, 0x1dff, 0x20d0, 0x20ff, 0xfe20, 0xfe2f }, nm[] = { 0x2ff, 0x370, 0x1dbf, 0x1e00, 0x20cf, 0x2100, 0xfe1f, 0xfe30, 0x41 };
		switch (s.weighted({ 3, 4, 2, 2, 1, 1 })) { case 0: t += static_cast<T>(s.range(0x61, 0x7a)); break; case 1: t += static_cast<T>(m[s.draw(8)]); break; case 2: t += static_cast<T>(0xd800 + s.draw(0x3ff)); if (s.boolean()) t += static_cast<T>(0xdc00 + s.draw(0x3ff)); break; case 3: t += static_cast<T>(0xdc00 + s.draw(0x3ff)); break; case 4: t += static_cast<T>(nm[s.draw(8)]); break; default: t += static_cast<T>(sizeof(T) == 4 ? s.range(0x10000, 0x10ffff) : s.range(1, 0xffff)); } }
	s.note([&] { return hex(t); });
	PBT_EQ(stdex::glyphlen(static_cast<const T*>(nullptr), 0), 0u, "glyphlen of nothing");
	auto cuts = ref_cuts(t); exact<T> e(t.data(), t.size());
	std::vector<size_t> f; size_t i = 0; while (i < t.size()) { f.push_back(i); size_t k = stdex::glyphlen(e.get() + i, t.size() - i); if (!k || k > t.size() - i) fail("glyphlen gave " + show(k) + " of " + show(t.size() - i)); i += k; } f.push_back(i);
	if (f != cuts) fail("cut forward at " + show(f) + " instead of " + show(cuts));
	std::vector<size_t> b; i = t.size(); while (i) { b.insert(b.begin(), i); size_t k = stdex::glyphrlen(e.get(), i); if (!k || k > i) fail("glyphrlen gave " + show(k) + " of " + show(i)); i -= k; } b.insert(b.begin(), 0); if (t.empty()) b = { 0 };
	if (b != cuts) fail("cut backward at " + show(b) + " instead of " + show(cuts));
	// Every prefix has its own last character.
	if (t.size()) { size_t k = 1 + static_cast<size_t>(s.draw(t.size() - 1)); auto c = ref_cuts(t.substr(0, k)); exact<T> p(t.data(), k); PBT_EQ(stdex::glyphrlen(p.get(), k), k - c[c.size() - 2], "glyphrlen of a prefix"); PBT_EQ(stdex::glyphlen(p.get(), k), c[1], "glyphlen of a prefix"); }
	// Terminated text is not read past its terminator.
	if (t.size()) { auto z = t + T(0); exact<T> ez(z.data(), z.size()); size_t k = cuts[s.draw(cuts.size() - 2)]; size_t want = *std::upper_bound(cuts.begin(), cuts.end(), k) - k; PBT_EQ(stdex::glyphlen(ez.get() + k, s.boolean() ? SIZE_MAX : t.size() - k + s.draw(5)), want, "glyphlen of terminated text"); }
	if (cuts.size() > 2) s.nontrivial(); s.label_if(cuts.size() < t.size() + 1, "characters of several units");
}
PBT_CHECK(characters, 60000, 600000) { if (s.boolean()) glyphs<utf16_t>(s); else glyphs<utf32_t>(s); }
PBT_MAIN("T07", "the unit, pair, break or text has the property the check is about (a mark, a pair, a break, two characters)")
