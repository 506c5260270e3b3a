// Character set conversion against encodings written from their definitions.
// SCALE: 3
#include "reftext.hpp"
#include <iconv.h>
#include <langinfo.h>
#include <map>
#include <set>
#include <system_error>
#include <stdex/unicode.hpp>
#include "codepages.inc"
using namespace pbt;
using stdex::charset_id; using stdex::charset_encoder; using stdex::utf16_t;

static const charset_id sets[] = {charset_id::utf8, charset_id::utf16, charset_id::utf32, charset_id::windows1250, charset_id::windows1251, charset_id::windows1252, charset_id::utf7};
static const char* const set_names[] = {"UTF-8", "UTF-16", "UTF-32", "cp1250", "cp1251", "cp1252", "UTF-7"};
// Text in a set as bytes; false: cannot be written in it.
static bool encode(unsigned set, const std::u32string& t, std::string& o)
{
	switch (set) {
	case 0: o = rt::utf8(t); return true;
	case 1: { auto u = rt::utf16(t); o.assign(reinterpret_cast<const char*>(u.data()), u.size() * 2); return true; }
	case 2: o.assign(reinterpret_cast<const char*>(t.data()), t.size() * 4); return true;
	default: o.clear(); for (auto c : t) { if (c < 0x80) { o += static_cast<char>(c); continue; } unsigned b = 0; for (; b < 128; b++) if (codepages[set - 3][b] == c) break; if (b == 128) return false; o += static_cast<char>(128 + b); } return true;
	}
}
static size_t unit(unsigned set) { return set == 1 ? 2 : set == 2 ? 4 : 1; }
template<class C> static std::basic_string<C> as(const std::string& b) { return std::basic_string<C>(reinterpret_cast<const C*>(b.data()), b.size() / sizeof(C)); }
static std::u32string gen_for(Src& s, unsigned a, unsigned b, size_t max)
{
	unsigned cp = a >= 3 && a < 6 ? a : b; if (cp < 3 || cp > 5) { auto t = rt::gen(s, max); for (auto& c : t) if (!c) c = U'0'; return t; }
	std::u32string t; size_t n = s.len(max); for (size_t i = 0; i < n; i++) { char32_t c = s.boolean() ? codepages[cp - 3][s.draw(127)] : static_cast<char32_t>(1 + s.draw(126)); t += c ? c : U'u'; } return t;
}
// Converters with all combinations of code unit types.
struct conv { virtual ~conv() {} virtual std::string run(Src& s, const std::string& in, const std::string& before, bool& threw) = 0; virtual void clear() = 0; };
template<class F, class T> struct conv_of : conv
{
	charset_encoder<F, T> e; conv_of(charset_id a, charset_id b) : e(a, b) { PBT_EQ(e.from_encoding(), a); PBT_EQ(e.to_encoding(), b); }
	void clear() override { e.clear(); }
	std::string run(Src& s, const std::string& in, const std::string& before, bool& threw) override
	{
		auto src = as<F>(in); auto dst = as<T>(before); bool z = src.find(F(0)) != src.npos; threw = false; size_t n = src.size();
		try {
			switch (s.draw(6)) {
			case 0: { exact<F> x(src); e.strcat(dst, x.get(), n); break; }                                               // counted
			case 1: { auto y = src; y += F(0); exact<F> x(y); e.strcat(dst, x.get()); break; }                          // terminated
			case 2: { auto y = src; y += F(0); exact<F> x(y); e.strcat(dst, x.get(), n + 1 + s.draw(5) * 1000); break; } // whichever comes first
			case 3: { exact<F> x(src); e.strcat(dst, std::basic_string_view<F>(x.get(), n)); break; }
			case 4: { exact<F> x(src); auto keep = dst; try { e.strcpy(dst, x.get(), n); } catch (...) { dst = keep + dst; throw; } dst = keep + dst; break; }
			case 5: { exact<F> x(src); dst += e.convert(x.get(), n); break; }
			default: { auto y = src; y += F(0); exact<F> x(y); dst += e.convert(x.get()); } }
		} catch (const std::system_error&) { threw = true; }
		(void)z; return std::string(reinterpret_cast<const char*>(dst.data()), dst.size() * sizeof(T));
	}
};
static std::unique_ptr<conv> make(unsigned a, unsigned b)
{
	auto A = sets[a], B = sets[b];
	switch (unit(a) * 10 + unit(b)) { case 11: return std::make_unique<conv_of<char, char>>(A, B); case 12: return std::make_unique<conv_of<char, utf16_t>>(A, B); case 14: return std::make_unique<conv_of<char, wchar_t>>(A, B); case 21: return std::make_unique<conv_of<utf16_t, char>>(A, B); case 22: return std::make_unique<conv_of<utf16_t, utf16_t>>(A, B); case 24: return std::make_unique<conv_of<utf16_t, wchar_t>>(A, B); case 41: return std::make_unique<conv_of<wchar_t, char>>(A, B); case 42: return std::make_unique<conv_of<wchar_t, utf16_t>>(A, B); default: return std::make_unique<conv_of<wchar_t, wchar_t>>(A, B); }
}
PBT_CHECK(conversion, 80000, 800000)
{
	unsigned a = static_cast<unsigned>(s.draw(5)), b = static_cast<unsigned>(s.draw(5)); auto c = make(a, b); s.note([&] { return std::string(set_names[a]) + " to " + set_names[b]; }); size_t n = 0, total = 0;
	s.repeat(6, [&] {
		auto t = gen_for(s, a, b, s.chance(1, 6) ? 2600 : 40); if (s.chance(1, 6) && t.size()) while (t.size() < 240 + s.draw(20)) t += t[0];
		std::string in, out; if (!encode(a, t, in)) throw discard_t{}; bool can = encode(b, t, out); std::string before; auto bt = gen_for(s, b, b, 5); encode(b, bt, before); bool threw; s.note([&] { return "text " + show(rt::utf8(t.substr(0, 60))) + " of " + std::to_string(t.size()); });
		auto r = c->run(s, in, before, threw); n++; total += t.size(); PBT_EQ(threw, !can, "failure reported"); PBT_REQUIRE(r.compare(0, before.size(), before) == 0, "what was there before");
		if (can) PBT_REQUIRE(r == before + out, "got " + show(r.substr(0, 300)) + " instead of " + show((before + out).substr(0, 300))); s.label_if(!can, "cannot be written"); s.label_if(out.size() > 1024, "over the internal buffer");
		if (s.chance(1, 5)) c->clear();
	});
	s.nontrivial(n > 0 && total > 0); s.label_if(n > 1, "converter reused");
}
// Text ends at its first zero.
PBT_CHECK(embedded_zero, 30000, 300000)
{
	unsigned a = static_cast<unsigned>(s.draw(5)), b = static_cast<unsigned>(s.draw(5)); auto c = make(a, b); auto t = gen_for(s, a, b, 20), rest = gen_for(s, a, b, 20); std::string in, tail, out; encode(a, t, in); encode(a, rest, tail); if (!encode(b, t, out)) throw discard_t{}; bool threw;
	in += std::string(unit(a), '\0') + tail; PBT_REQUIRE(c->run(s, in, "", threw) == out && !threw, "text with a zero inside"); s.nontrivial(t.size() > 0 && rest.size() > 0);
}
// Malformed text is reported, nothing before is lost, and the converter is as good as before.
PBT_CHECK(malformed, 60000, 600000)
{
	unsigned a = static_cast<unsigned>(s.draw(2)), b = static_cast<unsigned>(s.draw(2)); auto c = make(a, b); size_t bad = 0;
	s.repeat(5, [&] {
		auto t = rt::gen(s, s.chance(1, 8) ? 1300 : 30); std::string in; encode(a, t, in); size_t u = unit(a), units = in.size() / u;
		if (units) s.repeat(3, [&] { size_t at = static_cast<size_t>(s.draw(units - 1)) * u; switch (s.draw(2)) { case 0: for (size_t k = 0; k < u && k < 3; k++) in[at + k] = static_cast<char>(s.draw(k < 2 ? 255 : 16)); break; case 1: in.erase(at, u); units--; if (!units) in.assign(u, 'x'), units = 1; break; default: in.resize(at); units = at / u; if (!units) in.assign(u, 'x'), units = 1; } });
		// Up to the first zero.
		for (size_t k = 0; k < units; k++) if (std::all_of(in.begin() + k * u, in.begin() + (k + 1) * u, [](char x) { return !x; })) { in.resize(k * u); units = k; }
		std::u32string d; bool good; if (a == 0) good = rt::from8(in, d); else if (a == 1) good = rt::from16(as<char16_t>(in), d); else { good = true; for (auto x : as<char32_t>(in)) { if (!rt::scalar(x)) good = false; else if (good) d += x; } }
		std::string out, before(unit(b) * 2, 'B'); encode(b, d, out); bool threw; s.note([&] { return std::string(set_names[a]) + " to " + set_names[b] + " " + show(in.substr(0, 200)); }); auto r = c->run(s, in, before, threw);
		if (a == b && threw == false && !good) return; // a set converted to itself may pass through
		PBT_EQ(threw, !good, "malformed text reported"); PBT_REQUIRE(r.compare(0, before.size(), before) == 0); if (good) PBT_REQUIRE(r == before + out, "good text converted wrongly"); bad += !good;
	});
	s.nontrivial(bad > 0);
}
// UTF-7: a text stands on its own, is 7-bit, and converts back.
PBT_CHECK(utf7, 30000, 300000)
{
	unsigned b = static_cast<unsigned>(s.draw(2)); auto to = make(b, 6), from = make(6, b); size_t n = 0;
	s.repeat(5, [&] {
		auto t = gen_for(s, b, b, s.chance(1, 6) ? 1300 : 20); std::string in; encode(b, t, in); bool threw; s.note([&] { return "text " + show(rt::utf8(t.substr(0, 60))); }); auto u = to->run(s, in, "", threw); PBT_REQUIRE(!threw); for (char c : u) PBT_REQUIRE(static_cast<unsigned char>(c) < 0x80 && c);
		auto r = from->run(s, u, "", threw); PBT_REQUIRE(!threw, "own UTF-7 not accepted: " + show(u.substr(0, 200))); PBT_REQUIRE(r == in, "round trip through " + show(u.substr(0, 200)));
		if (s.boolean() && n) { auto f2 = make(6, b); PBT_REQUIRE(f2->run(s, u, "", threw) == in, "the text does not stand on its own"); } n += t.size();
		if (s.chance(1, 4)) { std::string junk = "+" + s.bytes(6); bool th; from->run(s, junk.substr(0, junk.find('\0')), "", th); }
	});
	s.nontrivial(n > 1);
}
PBT_CHECK(convenience, 30000, 300000)
{
	auto t = gen_for(s, 0, 0, s.chance(1, 6) ? 1500 : 30); unsigned k = s.pick<unsigned>({0, 3, 4, 5}); if (k) t = gen_for(s, k, 0, 30); std::string n; encode(k, t, n); auto w = rt::wide(t); auto id = sets[k]; exact<char> nx(n), nz((n + '\0')); exact<wchar_t> wx(w), wz((w + L'\0'));
	PBT_REQUIRE(stdex::str2wstr(nx.get(), n.size(), id) == w); PBT_REQUIRE(stdex::str2wstr(nz.get(), id) == w); PBT_REQUIRE(stdex::str2wstr(std::string_view(nx.get(), n.size()), id) == w);
	PBT_REQUIRE(stdex::wstr2str(wx.get(), w.size(), id) == n); PBT_REQUIRE(stdex::wstr2str(wz.get(), id) == n); PBT_REQUIRE(stdex::wstr2str(std::wstring_view(wx.get(), w.size()), id) == n);
	std::wstring dw = L"before"; stdex::strcat(dw, nx.get(), n.size(), id); PBT_REQUIRE(dw == L"before" + w); stdex::strcpy(dw, nx.get(), n.size(), id); PBT_REQUIRE(dw == w); std::string dn = "before"; stdex::strcat(dn, wx.get(), w.size(), id); PBT_REQUIRE(dn == "before" + n); stdex::strcpy(dn, wx.get(), w.size(), id); PBT_REQUIRE(dn == n); s.nontrivial(t.size() > 0);
}
PBT_CHECK(names, 20000, 100000)
{
	static const std::map<std::string, charset_id> known = {{"utf-8", charset_id::utf8}, {"utf8", charset_id::utf8}, {"utf-7", charset_id::utf7}, {"unicode-1-1-utf-7", charset_id::utf7}, {"csunicode11utf7", charset_id::utf7}, {"utf-16", charset_id::utf16}, {"utf-16le", charset_id::utf16}, {"utf-32", charset_id::utf32}, {"utf-32le", charset_id::utf32}, {"cp1250", charset_id::windows1250}, {"ms-ee", charset_id::windows1250}, {"windows-1250", charset_id::windows1250}, {"cp1251", charset_id::windows1251}, {"ms-cyrl", charset_id::windows1251}, {"windows-1251", charset_id::windows1251}, {"cp1252", charset_id::windows1252}, {"ms-ansi", charset_id::windows1252}, {"windows-1252", charset_id::windows1252}};
	auto it = known.begin(); std::advance(it, static_cast<ptrdiff_t>(s.draw(known.size() - 1))); std::string n = it->first; for (auto& c : n) if (s.boolean()) c = static_cast<char>(toupper(c));
	if (s.chance(1, 3) && !n.empty()) { size_t at = static_cast<size_t>(s.draw(n.size() - 1)); if (s.boolean()) n.erase(at, 1); else n.insert(at, 1, static_cast<char>('!' + s.draw(90))); }
	std::string low = n; for (auto& c : low) c = static_cast<char>(tolower(c)); auto e = known.find(low); auto want = e == known.end() ? charset_id::system : e->second; exact<char> x((n + '\0')); PBT_EQ(stdex::charset_from_name(x.get()), want, "of " + n); PBT_EQ(stdex::charset_from_name(n), want); s.nontrivial();
}
PBT_MAIN("T01", "at least one character was converted (two for UTF-7), or a malformed one")
