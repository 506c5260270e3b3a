// SGML entities: encoding is decoded by a reference decoder and by the library; random SGML text against the reference decoder; fixed buffers of every capacity.
// SCALE: 4
#include "reftext.hpp"
#include <stdex/sgml.hpp>
using namespace pbt;
using stdex::utf16_t;
static const std::pair<const char*, const char32_t*> table[] = {
#include "sgml_table.inc"
};
static const std::map<std::string, std::u32string>& names() { static const auto m = [] { std::map<std::string, std::u32string> m; for (auto& e : table) m.emplace(e.first, e.second); return m; }(); return m; }
static const std::set<std::u32string>& encodable() { static const auto m = [] { std::set<std::u32string> m; for (auto& e : table) if (names().at(e.first) == e.second) m.insert(e.second); return m; }(); return m; }
// Letters that may come back composed.
static const std::map<char32_t, std::u32string>& decomposed() { static const auto m = [] { std::map<char32_t, std::u32string> m; for (auto& e : table) { std::u32string a = names().at(e.first), b = e.second; if (a.size() == 1 && b.size() == 2 && b[1] >= 0x300 && b[1] < 0x370 && !(b == U"l\x307" || b == U"o\x307" || b == U"s\x307" || b == U"t\x307" || b == U"x\x302")) m.emplace(a[0], b); } return m; }(); return m; }
static std::u32string norm(const std::u32string& t) { std::u32string r; for (auto c : t) { auto i = decomposed().find(c); if (i == decomposed().end()) r += c; else r += i->second; } return r; }
struct flag { int f; const char* c; };
static const flag flags[] = {{stdex::sgml_quot, "\""}, {stdex::sgml_apos, "'"}, {stdex::sgml_amp, "&"}, {stdex::sgml_lt_gt, "<>"}, {stdex::sgml_bsol, "\\"}, {stdex::sgml_dollar, "$"}, {stdex::sgml_percnt, "%"}, {stdex::sgml_commat, "@"}, {stdex::sgml_num, "#"}, {stdex::sgml_lpar_rpar, "()"}, {stdex::sgml_lcub_rcub, "{}"}, {stdex::sgml_lsqb_rsqb, "[]"}};
static int gen_flags(Src& s, std::string& set) { int w = 0; set.clear(); switch (s.draw(3)) { case 0: break; case 1: { auto& f = flags[s.draw(11)]; w = f.f; set = f.c; break; } default: for (auto& f : flags) if (s.boolean()) { w |= f.f; set += f.c; } } return w; }
// One entity (without & and ;): what it stands for; empty: nothing known.
static std::u32string resolve(const std::u32string& n)
{
	if (n.size() > 1 && n[0] == '#') {
		bool hex = n[1] == 'x' || n[1] == 'X'; uint64_t v = 0; size_t i = hex ? 2 : 1; if (i >= n.size()) return {};
		for (; i < n.size(); i++) { char32_t c = n[i]; unsigned d = c >= '0' && c <= '9' ? c - '0' : hex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : hex && c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d == 99) return {}; v = std::min<uint64_t>(v * (hex ? 16 : 10) + d, 1u << 30); }
		return v && v < 0x110000 ? std::u32string(1, static_cast<char32_t>(v)) : std::u32string();
	}
	auto i = names().find(std::string(n.begin(), n.end())); for (auto c : n) if (c > 127) return {}; return i == names().end() ? std::u32string() : i->second;
}
static std::u32string decode(const std::u32string& t, const std::string& skip, size_t* error = nullptr, std::u32string* literals = nullptr)
{
	std::u32string r; bool bad = false;
	for (size_t i = 0; i < t.size();) {
		if (t[i] == '&') { size_t e = t.find(U';', i); if (e != t.npos) { auto c = resolve(t.substr(i + 1, e - i - 1)); if (!c.empty()) { if (c[0] > 127 || skip.find(static_cast<char>(c[0])) == skip.npos) { r += c; i = e + 1; continue; } } else if (error && !bad) { *error = i; bad = true; } } else if (error && !bad) { *error = i; bad = true; } }
		if (literals) *literals += t[i]; r += t[i++];
	}
	if (error && !bad) *error = stdex::npos; return r;
}
template<class T> static std::basic_string<T> conv(const std::u32string& t);
template<> std::string conv<char>(const std::u32string& t) { return rt::utf8(t); }
template<> std::basic_string<utf16_t> conv<utf16_t>(const std::u32string& t) { auto u = rt::utf16(t); return std::basic_string<utf16_t>(u.begin(), u.end()); }
template<> std::wstring conv<wchar_t>(const std::u32string& t) { return rt::wide(t); }
static bool combining(char32_t c) { return (c >= 0x300 && c < 0x370) || (c >= 0x1dc0 && c < 0x1e00) || (c >= 0x20d0 && c < 0x2100) || (c >= 0xfe20 && c < 0xfe30); }
static std::u32string gen_text(Src& s, size_t max)
{
	std::u32string t; size_t n = s.len(max);
	while (t.size() < n) switch (s.weighted({5, 4, 3, 4, 2})) {
	case 0: t += s.pick(std::u32string(U"abcXYZ 0129;.,\n\t")); break;
	case 1: t += s.pick(std::u32string(U"&\"'<>\\$%@#(){}[]&;!*-_=+/|~`^?:")); break;
	case 2: t += rt::gen_char(s); break;
	case 3: t += table[s.draw(std::size(table) - 1)].second; break;
	default: t += static_cast<char32_t>(s.pick<unsigned>({0x300, 0x301, 0x307, 0x302, 0x304, 0x30c, 0x308, 0x36f, 0x20d0, 0xfe20, 0x362})); }
	return t;
}
template<class T> static void encoding(Src& s, const std::u32string& t, int what, const std::string& set)
{
	auto w = conv<T>(t); bool z = s.boolean(); if (z) w += T(0); exact<T> src(w); size_t n = z && s.boolean() ? SIZE_MAX : w.size(); std::string e = "pre", one = stdex::str2sgml(src.get(), n, what); stdex::str2sgmlcat(e, src.get(), n, what); PBT_REQUIRE(e == "pre" + one); stdex::str2sgmlcpy(e, src.get(), n, what); PBT_REQUIRE(e == one); PBT_REQUIRE(stdex::str2sgml(w, what) == one);
	s.note([&] { return "encoded " + show(one.substr(0, 300)); });
	for (char c : one) PBT_REQUIRE(static_cast<unsigned char>(c) < 128, "not 7-bit");
	std::u32string lit, back = decode(std::u32string(one.begin(), one.end()), "", nullptr, &lit);
	PBT_REQUIRE(norm(back) == norm(t), "stands for " + show(rt::utf8(back).substr(0, 300)));
	for (auto c : lit) { PBT_REQUIRE(c != '&' && set.find(static_cast<char>(c)) == set.npos, "protected character not encoded"); if (what & stdex::sgml_full) PBT_REQUIRE(!encodable().count(std::u32string(1, c)), "character that has an entity not encoded"); }
	PBT_EQ(stdex::sgmlerr(one.data(), one.size()), stdex::npos, "encoded text in error");
	if (!(what & stdex::sgml_full) && std::none_of(t.begin(), t.end(), combining)) { std::u32string plain, want; plain = lit; for (auto c : t) if (c < 128 && c != '&' && set.find(static_cast<char>(c)) == set.npos) want += c; PBT_REQUIRE(plain == want, "plain characters encoded"); }
	std::basic_string<T> d; stdex::sgml2strcat(d, one.data(), one.size()); PBT_REQUIRE(d == conv<T>(back), "decoded otherwise");
	// Fixed buffers.
	for (int k = 0; k < 3; k++) {
		std::string pre(s.draw(4), 'p'); size_t need = pre.size() + one.size() + 1, cap = k == 0 ? need : k == 1 ? need - 1 : static_cast<size_t>(s.draw(need + 2)); if (cap < pre.size() + 1) pre.resize(cap ? cap - 1 : 0), need = pre.size() + one.size() + 1; exact<char> b(cap, '!'); if (cap) { memcpy(b.get(), pre.data(), pre.size()); b.get()[pre.size()] = 0; }
		bool cpy = s.boolean(), threw = false; size_t got = 0; if (cpy) need = one.size() + 1; std::string before(b.get(), cap);
		try { got = cpy ? stdex::str2sgmlcpy(b.get(), cap, src.get(), n, what) : stdex::str2sgmlcat(b.get(), cap, src.get(), n, what); } catch (const std::invalid_argument&) { threw = true; }
		PBT_EQ(threw, need > cap, "room for " + show(cap) + " of " + show(need)); if (!threw) { PBT_EQ(got, need - 1); PBT_REQUIRE(std::string(b.get(), got) == (cpy ? one : pre + one) && b.get()[got] == 0, "buffer"); for (size_t i = got + 1; i < cap; i++) PBT_REQUIRE(b.get()[i] == before[i], "wrote past the terminator"); } else if (!cpy) PBT_REQUIRE(memcmp(b.get(), pre.data(), pre.size()) == 0);
	}
}
PBT_CHECK(encode, 60000, 600000)
{
	auto t = gen_text(s, s.chance(1, 20) ? 300 : 12); std::string set; int what = gen_flags(s, set); if (s.chance(1, 4)) what |= stdex::sgml_full; s.note([&] { return "text " + show(rt::utf8(t).substr(0, 300)) + ", flags " + show(what); });
	if (s.boolean()) encoding<wchar_t>(s, t, what, set); else encoding<utf16_t>(s, t, what, set);
	s.nontrivial(std::any_of(t.begin(), t.end(), [](char32_t c) { return c > 127 || c == '&'; }));
}
template<class F, class T> static void decoding(Src& s, const std::u32string& t, int skip, const std::string& set)
{
	auto w = conv<F>(t); bool z = s.boolean(); if (z) w += F(0); exact<F> src(w); size_t n = z && s.boolean() ? SIZE_MAX : w.size(); auto want = conv<T>(decode(t, set)); std::basic_string<T> d(2, T('P')); stdex::mapping_vector<size_t> map;
	stdex::sgml2strcat(d, src.get(), n, skip, stdex::mapping<size_t>(0, 0), s.boolean() ? &map : nullptr); auto g = conv<wchar_t>(U""); PBT_REQUIRE(d == std::basic_string<T>(2, T('P')) + want, "decoded to " + show(std::vector<uint32_t>(d.begin(), d.end()))); stdex::sgml2strcpy(d, src.get(), n, skip); PBT_REQUIRE(d == want);
	PBT_REQUIRE((stdex::sgml2str<T>(src.get(), n, skip)) == want); (void)g; size_t err; decode(t, "", &err); PBT_EQ(stdex::sgmlerr(src.get(), n, s.boolean() ? stdex::sgml_full : 0), err, "first error");
	for (int k = 0; k < 3; k++) {
		std::basic_string<T> pre(s.draw(3), T('p')); bool cpy = s.boolean(); size_t need = (cpy ? 0 : pre.size()) + want.size() + 1, cap = k == 0 ? need : k == 1 ? need - 1 : static_cast<size_t>(s.draw(need + 2)); if (cap < pre.size() + 1) { pre.resize(cap ? cap - 1 : 0); need = (cpy ? 0 : pre.size()) + want.size() + 1; }
		exact<T> b(cap, T('!')); if (cap) { std::copy(pre.begin(), pre.end(), b.get()); b.get()[pre.size()] = 0; } bool threw = false; size_t got = 0;
		try { got = cpy ? stdex::sgml2strcpy(b.get(), cap, src.get(), n, skip) : stdex::sgml2strcat(b.get(), cap, src.get(), n, skip); } catch (const std::invalid_argument&) { threw = true; }
		PBT_EQ(threw, need > cap, "room for " + show(cap) + " of " + show(need)); if (!threw) { PBT_EQ(got, need - 1); PBT_REQUIRE(std::basic_string<T>(b.get(), got) == (cpy ? want : pre + want) && b.get()[got] == 0, "buffer"); for (size_t i = got + 1; i < cap; i++) PBT_REQUIRE(b.get()[i] == T('!') || (i <= pre.size()), "wrote past the terminator"); }
	}
}
PBT_CHECK(decode_text, 60000, 600000)
{
	bool narrow = s.boolean(); std::u32string t; size_t ents = 0;
	s.repeat(14, [&] {
		switch (s.weighted({4, 2, 2, 2, 2})) {
		case 0: { std::string n = table[s.draw(std::size(table) - 1)].first; if (s.chance(1, 5)) { size_t at = static_cast<size_t>(s.draw(n.size())); switch (s.draw(2)) { case 0: n.insert(at, 1, s.pick(std::string("aZ1.& "))); break; case 1: if (at < n.size()) n.erase(at, 1); break; default: n.resize(at); } } t += '&'; t.append(n.begin(), n.end()); if (!s.chance(1, 8)) t += ';'; ents++; break; }
		case 1: { char32_t c = rt::gen_char(s); char b[32]; snprintf(b, sizeof b, s.pick<const char*>({"&#%u;", "&#x%x;", "&#X%X;", "&#0%u;", "&#x00%x;"}), static_cast<unsigned>(c)); for (char* p = b; *p; p++) t += static_cast<unsigned char>(*p); ents++; break; }
		case 2: { std::string n = s.pick<const char*>({"&#;", "&#x;", "&#a;", "&#12z;", "&#1114112;", "&#x110000;", "&#99999999999;", "&#18446744073709551681;", "&#x100000041;", "&#0;", "&", "&;", "&&", "&a ", "&amp", "&lt ;", "&#x1F60", "&#38;#38;", "&amp;amp;"}); t.append(n.begin(), n.end()); break; }
		case 3: t += s.pick(std::u32string(U"abc ;#x&1<\"")); break;
		default: t += narrow ? static_cast<char32_t>(1 + s.draw(126)) : rt::gen_char(s); }
	});
	std::string set; int skip = gen_flags(s, set); s.note([&] { return show(rt::utf8(t).substr(0, 300)) + ", skip " + show(skip); });
	bool ascii = std::all_of(t.begin(), t.end(), [](char32_t c) { return c < 128; });
	if (!ascii && narrow) throw discard_t{};
	switch (s.draw(ascii && narrow ? 1 : 3)) { case 0: if (ascii) { decoding<char, wchar_t>(s, t, skip, set); break; } [[fallthrough]]; case 1: if (ascii) { decoding<char, utf16_t>(s, t, skip, set); break; } [[fallthrough]]; case 2: if (ascii) { decoding<wchar_t, wchar_t>(s, t, skip, set); break; } [[fallthrough]]; default: if (ascii) decoding<utf16_t, utf16_t>(s, t, skip, set); else { auto w = rt::wide(t); exact<wchar_t> x(w); PBT_REQUIRE(stdex::sgml2str(x.get(), x.n, skip) == rt::wide(decode(t, set))); auto u = conv<utf16_t>(t); exact<utf16_t> y(u); PBT_REQUIRE(stdex::sgml2str<utf16_t>(y.get(), y.n, skip) == conv<utf16_t>(decode(t, set))); } }
	s.nontrivial(ents > 0); s.label_if(!ascii, "beyond ASCII");
}
// Every entity, by name and by character.
PBT_CHECK(every_entity, 3070, 3070, 60, 1)
{
	size_t i = static_cast<size_t>(s.enumerate(std::size(table))); std::string n = std::string("&") + table[i].first + ";"; PBT_REQUIRE(stdex::sgml2str(n) == rt::wide(names().at(table[i].first)), n); PBT_REQUIRE(stdex::sgml2str<utf16_t>(n) == conv<utf16_t>(names().at(table[i].first)), n); std::u32string t = table[i].second;
	for (int f = 0; f < 2; f++) { auto e = stdex::str2sgml(rt::wide(t), f ? stdex::sgml_full : 0), e16 = stdex::str2sgml(conv<utf16_t>(t), f ? stdex::sgml_full : 0); PBT_REQUIRE(e == e16, n); PBT_REQUIRE(norm(decode(std::u32string(e.begin(), e.end()), "")) == norm(t), n); if (t[0] > 127 && encodable().count(t)) PBT_REQUIRE(e.size() > 2 && e[0] == '&' && e[1] != '#' && e.find(';') == e.size() - 1, n + " not used: " + e); }
	s.nontrivial();
}
// Units in any order, surrogates on their own too: what follows the text has no influence, nothing else is read, and what comes out is plain.
template<class T> static void units(Src& s)
{
	std::basic_string<T> t; size_t n = s.len(8); while (t.size() < n) t += static_cast<T>(s.pick<unsigned>({0xd83d, 0xde00, 0xdbff, 0xdfff, 'a', '&', ';', '#', 0x301, 0x20d0, 'S', 0x30c, 0x161})); std::basic_string<T> more; for (size_t k = s.draw(3); k--;) more += static_cast<T>(s.pick<unsigned>({0xdc00, 0xdfff, 0x301, 0x20d0, 'b', ';'}));
	std::string set; int what = gen_flags(s, set); if (s.boolean()) what |= stdex::sgml_full; s.note([&] { return show(std::vector<uint32_t>(t.begin(), t.end())) + " followed by " + show(std::vector<uint32_t>(more.begin(), more.end())) + ", flags " + show(what); });
	exact<T> e(t), f(t + more); auto a = stdex::str2sgml(e.get(), t.size(), what), b = stdex::str2sgml(f.get(), t.size(), what); PBT_EQ(b, a, "text influenced by what follows"); for (char c : a) PBT_REQUIRE(static_cast<unsigned char>(c) < 128, "not 7-bit");
	exact<char> x(a.size() + 1, '!'), y(a.size(), '!'); x[0] = 0; PBT_EQ(stdex::str2sgmlcat(x.get(), x.n, e.get(), t.size(), what), a.size()); PBT_REQUIRE(x.str() == a + '\0', "in a buffer"); bool threw = false; if (!a.empty()) { y[0] = 0; try { stdex::str2sgmlcat(y.get(), y.n, e.get(), t.size(), what); } catch (const std::invalid_argument&) { threw = true; } PBT_REQUIRE(threw, "no room for the terminator"); }
	auto c = stdex::sgml2str<T>(e.get(), t.size()), d = stdex::sgml2str<T>(f.get(), t.size()); PBT_REQUIRE(c == d, "decoding influenced by what follows"); PBT_EQ(stdex::sgmlerr(e.get(), t.size()), stdex::sgmlerr(f.get(), t.size()), "error influenced by what follows"); s.nontrivial(n > 1 && !more.empty());
}
PBT_CHECK(any_units, 60000, 600000) { if (s.boolean()) units<wchar_t>(s); else units<utf16_t>(s); }
PBT_MAIN("T02", "the text has an entity, a character beyond ASCII, or an ampersand")
