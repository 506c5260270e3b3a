// Bounded string functions against a direct reading: every function, every unit type, counted, terminated and both, exact allocations.
// SCALE: 16
#include "reftext.hpp"
#include <stdex/string.hpp>
#include <locale>
using namespace pbt;
using stdex::utf16_t;
static const std::locale& loc(unsigned i) { static const std::locale l[] = {std::locale::classic(), std::locale("C.utf8"), std::locale("sl_SI.utf8")}; return l[i % 3]; }
static locale_t cloc(unsigned i) { static locale_t l[] = {newlocale(LC_ALL_MASK, "C", nullptr), newlocale(LC_ALL_MASK, "C.utf8", nullptr), newlocale(LC_ALL_MASK, "sl_SI.utf8", nullptr)}; return l[i % 3]; }
template<class T> static T low(T c) { return c >= 'A' && c <= 'Z' ? static_cast<T>(c + 32) : c; }
static char low(char c, unsigned l) { return static_cast<char>(tolower_l(static_cast<unsigned char>(c), cloc(l))); }
static wchar_t low(wchar_t c, unsigned l) { return static_cast<wchar_t>(towlower_l(static_cast<wint_t>(c), cloc(l))); }
static bool blank(char c, unsigned l) { return isspace_l(static_cast<unsigned char>(c), cloc(l)); }
static bool blank(wchar_t c, unsigned l) { return iswspace_l(static_cast<wint_t>(c), cloc(l)); }
template<class T> static T gen_unit(Src& s, unsigned mode)
{
	switch (mode) {
	case 0: return static_cast<T>(s.pick(std::string("abAB")));
	case 1: return static_cast<T>(1 + s.draw(126));
	default: if (sizeof(T) == 1) return static_cast<T>(1 + s.draw(254)); if (sizeof(T) == 2) return static_cast<T>(1 + s.draw(0xfffe)); { auto c = s.pick<unsigned>({0x41, 0x61, 0xc9, 0xe9, 0x160, 0x161, 0x416, 0x436, 0x1f600, 0x2003, 0xa0, 0xffff, 0x10400}); return static_cast<T>(s.boolean() ? c : 1 + s.draw(0x10fffe)); } }
}
// A text as a function may get it: what it means, the memory, the count to give.
template<class T> struct text
{
	std::basic_string<T> t; std::unique_ptr<exact<T>> m; size_t n; bool z;
	text(Src& s, std::basic_string<T> v, bool need_z = false) : t(v)
	{
		z = need_z || s.boolean(); auto mem = t; n = t.size(); if (z) { mem += T(0); size_t junk = need_z ? 0 : s.draw(3); for (size_t i = 0; i < junk; i++) mem += T('a'); n = need_z || !s.boolean() ? mem.size() : SIZE_MAX; }
		else if (s.chance(1, 4)) { size_t junk = s.draw(3); (void)junk; }
		m = std::make_unique<exact<T>>(mem);
	}
	const T* p() const { return m->get(); }
	const std::basic_string<T>& terminated(Src&) { return t; }
};
template<class T> static std::basic_string<T> gen_text(Src& s, unsigned mode, size_t max = 12) { std::basic_string<T> t; size_t n = s.len(max); for (size_t i = 0; i < n; i++) t += gen_unit<T>(s, mode); return t; }
template<class T> static std::basic_string<T> vary(Src& s, const std::basic_string<T>& a, unsigned mode)
{
	auto b = a; if (s.chance(1, 5)) return gen_text<T>(s, mode);
	switch (s.draw(4)) { case 0: break; case 1: if (b.size()) b[s.draw(b.size() - 1)] = gen_unit<T>(s, mode); break; case 2: if (b.size()) b.resize(s.draw(b.size() - 1)); break; case 3: b += gen_unit<T>(s, mode); break; default: for (auto& c : b) if (s.chance(1, 3) && c < 128 && isalpha(static_cast<int>(c))) c ^= 0x20; }
	return b;
}
template<class T> static size_t pos(size_t p) { return p == std::basic_string<T>::npos ? stdex::npos : p; }
template<class T> struct holder { std::basic_string<T> z; exact<T> e; explicit holder(const std::basic_string<T>& t) : z(t + T(0)), e(z) {} const T* get() const { return e.get(); } };
template<class T> static void searching(Src& s)
{
	unsigned mode = static_cast<unsigned>(s.draw(2)); auto t = gen_text<T>(s, mode); text<T> x(s, t); holder<T> h(t); T c = s.boolean() && t.size() ? t[s.draw(t.size() - 1)] : gen_unit<T>(s, mode); if (s.chance(1, 3) && c < 128 && isalpha(static_cast<int>(c))) c ^= 0x20;
	s.note([&] { return show(std::vector<int64_t>(t.begin(), t.end())) + " counted " + show(x.n) + ", unit " + show(static_cast<int64_t>(c)); });
	std::basic_string<T> f = t; for (auto& k : f) k = low(k); T cf = low(c);
	PBT_EQ(stdex::strlen(h.get()), t.size(), "strlen"); PBT_EQ(stdex::strnlen(x.p(), x.n), t.size(), "strnlen");
	PBT_EQ(stdex::strchr(h.get(), c), pos<T>(t.find(c)), "strchr"); PBT_EQ(stdex::strnchr(x.p(), x.n, c), pos<T>(t.find(c)), "strnchr"); PBT_EQ(stdex::strrchr(h.get(), c), pos<T>(t.rfind(c)), "strrchr"); PBT_EQ(stdex::strrnchr(x.p(), x.n, c), pos<T>(t.rfind(c)), "strrnchr");
	PBT_EQ(stdex::strichr(h.get(), c), pos<T>(f.find(cf)), "strichr"); PBT_EQ(stdex::strnichr(x.p(), x.n, c), pos<T>(f.find(cf)), "strnichr"); PBT_EQ(stdex::strrichr(h.get(), c), pos<T>(f.rfind(cf)), "strrichr"); PBT_EQ(stdex::strrnichr(x.p(), x.n, c), pos<T>(f.rfind(cf)), "strrnichr");
	if constexpr (!std::is_same_v<T, utf16_t>) {
		unsigned l = static_cast<unsigned>(s.draw(2)); auto& L = loc(l); auto g = t; for (auto& k : g) k = low(k, l); T cg = low(c, l);
		PBT_EQ(stdex::strichr(h.get(), c, L), pos<T>(g.find(cg)), "strichr, locale"); PBT_EQ(stdex::strnichr(x.p(), x.n, c, L), pos<T>(g.find(cg)), "strnichr, locale"); PBT_EQ(stdex::strrichr(h.get(), c, L), pos<T>(g.rfind(cg)), "strrichr, locale"); PBT_EQ(stdex::strrnichr(x.p(), x.n, c, L), pos<T>(g.rfind(cg)), "strrnichr, locale");
		auto bl = gen_text<T>(s, mode, 3); for (auto& k : bl) if (s.chance(3, 4)) k = static_cast<T>(s.pick<int>({' ', '\t', '\n', '\r', '\v', '\f', 0x1c})); if (sizeof(T) > 1 && bl.size() && s.chance(1, 4)) bl[0] = static_cast<T>(0x2003); text<T> y(s, bl);
		PBT_EQ(stdex::isblank(y.p(), y.n, L), std::all_of(bl.begin(), bl.end(), [&](T k) { return blank(k, l); }), "isblank, locale");
	}
	auto bl = gen_text<T>(s, mode, 3); for (auto& k : bl) if (s.chance(3, 4)) k = static_cast<T>(s.pick<int>({' ', '\t', '\n', '\r', '\v', '\f'})); text<T> y(s, bl); PBT_EQ(stdex::isblank(y.p(), y.n), std::all_of(bl.begin(), bl.end(), [](T k) { return k == ' ' || (k >= 9 && k <= 13); }), "isblank");
	PBT_EQ(stdex::is7bit(x.p(), x.n), std::all_of(t.begin(), t.end(), [](T k) { return k > 0 && k < 128; }), "is7bit"); s.nontrivial(t.size() > 1);
	T arr[6]; std::basic_string<T> a = t.substr(0, s.draw(6)); std::fill(std::begin(arr), std::end(arr), T(0)); std::copy(a.begin(), a.end(), arr); std::basic_string<T> af = a; for (auto& k : af) k = low(k);
	PBT_EQ(stdex::strnlen(arr), a.size()); PBT_EQ(stdex::strnchr(arr, c), pos<T>(a.find(c))); PBT_EQ(stdex::strrnchr(arr, c), pos<T>(a.rfind(c))); PBT_EQ(stdex::strnichr(arr, c), pos<T>(af.find(cf))); PBT_EQ(stdex::strrnichr(arr, c), pos<T>(af.rfind(cf))); PBT_EQ(stdex::is7bit(arr), std::all_of(a.begin(), a.end(), [](T k) { return k > 0 && k < 128; })); PBT_EQ(stdex::isblank(arr), std::all_of(a.begin(), a.end(), [](T k) { return k == ' ' || (k >= 9 && k <= 13); }));
}
PBT_CHECK(search_unit, 60000, 600000) { switch (s.draw(2)) { case 0: searching<char>(s); break; case 1: searching<utf16_t>(s); break; default: searching<wchar_t>(s); } }

static int sign(int64_t x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
template<class A, class B> static int order(const std::basic_string<A>& a, const std::basic_string<B>& b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) if (static_cast<int64_t>(a[i]) != static_cast<int64_t>(b[i])) return sign(static_cast<int64_t>(a[i]) - static_cast<int64_t>(b[i])); return sign(static_cast<int64_t>(a.size()) - static_cast<int64_t>(b.size())); }
template<class T> static std::basic_string<T> fold(std::basic_string<T> t) { for (auto& c : t) c = low(c); return t; }
template<class T> static std::basic_string<T> fold(std::basic_string<T> t, unsigned l) { for (auto& c : t) c = low(c, l); return t; }
template<class T> static std::basic_string<T> rev(std::basic_string<T> t) { std::reverse(t.begin(), t.end()); return t; }
template<class T> static bool plain(const std::basic_string<T>& t) { return sizeof(T) > 1 || std::all_of(t.begin(), t.end(), [](T c) { return c > 0; }); }
// Exactly the order of code units where all agree on it, only equality and antisymmetry with narrow characters beyond ASCII.
#define CMP(call, swapped, expect) do { int r = call, q = swapped, e = expect; if (ord) PBT_EQ(sign(r), e, #call); else PBT_EQ(r == 0, e == 0, #call); PBT_EQ(sign(q), -sign(r), #swapped); } while (0)
template<class A, class B> static void comparing(Src& s)
{
	unsigned mode = static_cast<unsigned>(s.draw(2)); auto a = gen_text<A>(s, mode, 9); std::basic_string<B> b; if constexpr (std::is_same_v<A, B>) b = vary(s, a, mode); else { if (mode == 2) mode = 1, a = gen_text<A>(s, 1, 9); auto v = vary(s, a, mode); b.assign(v.begin(), v.end()); }
	bool ord = plain(a) && plain(b); text<A> x(s, a); text<B> y(s, b); holder<A> ha(a); holder<B> hb(b); size_t n = s.chance(1, 5) ? SIZE_MAX : s.draw(10); auto an = a.substr(0, n); auto bn = b.substr(0, n);
	s.note([&] { return show(std::vector<int64_t>(a.begin(), a.end())) + " counted " + show(x.n) + ", " + show(std::vector<int64_t>(b.begin(), b.end())) + " counted " + show(y.n) + ", limit " + show(n); });
	CMP(stdex::strcmp(ha.get(), hb.get()), stdex::strcmp(hb.get(), ha.get()), order(a, b));
	CMP(stdex::strncmp(x.p(), x.n, y.p(), y.n), stdex::strncmp(y.p(), y.n, x.p(), x.n), order(a, b));
	CMP(stdex::strrcmp(ha.get(), hb.get()), stdex::strrcmp(hb.get(), ha.get()), order(rev(a), rev(b)));
	CMP(stdex::strrncmp(x.p(), x.n, y.p(), y.n), stdex::strrncmp(y.p(), y.n, x.p(), x.n), order(rev(a), rev(b)));
	CMP(stdex::stricmp(ha.get(), hb.get()), stdex::stricmp(hb.get(), ha.get()), order(fold(a), fold(b)));
	CMP(stdex::strnicmp(x.p(), x.n, y.p(), y.n), stdex::strnicmp(y.p(), y.n, x.p(), x.n), order(fold(a), fold(b)));
	// One limit for both: memory just up to the limit or the terminator.
	std::basic_string<A> am = a.size() >= n ? an : a + A(0); std::basic_string<B> bm = b.size() >= n ? bn : b + B(0); exact<A> ea(am); exact<B> eb(bm); 
	CMP(stdex::strncmp(ea.get(), eb.get(), n), stdex::strncmp(eb.get(), ea.get(), n), order(an, bn)); CMP(stdex::strrncmp(ea.get(), eb.get(), n), stdex::strrncmp(eb.get(), ea.get(), n), order(rev(an), rev(bn))); CMP(stdex::strnicmp(ea.get(), eb.get(), n), stdex::strnicmp(eb.get(), ea.get(), n), order(fold(an), fold(bn)));
	A aa[10] = {}; B ba[12] = {}; auto ta = a.substr(0, 10); auto tb = b.substr(0, 12); std::copy(ta.begin(), ta.end(), aa); std::copy(tb.begin(), tb.end(), ba); CMP(stdex::strncmp(aa, ba), stdex::strncmp(ba, aa), order(ta, tb)); CMP(stdex::strrncmp(aa, ba), stdex::strrncmp(ba, aa), order(rev(ta), rev(tb))); CMP(stdex::strnicmp(aa, ba), stdex::strnicmp(ba, aa), order(fold(ta), fold(tb)));
	if constexpr (!std::is_same_v<A, utf16_t> && !std::is_same_v<B, utf16_t>) {
		unsigned l = static_cast<unsigned>(s.draw(2)); auto& L = loc(l);
		CMP(stdex::stricmp(ha.get(), hb.get(), L), stdex::stricmp(hb.get(), ha.get(), L), order(fold(a, l), fold(b, l))); CMP(stdex::strnicmp(x.p(), x.n, y.p(), y.n, L), stdex::strnicmp(y.p(), y.n, x.p(), x.n, L), order(fold(a, l), fold(b, l))); CMP(stdex::strnicmp(ea.get(), eb.get(), n, L), stdex::strnicmp(eb.get(), ea.get(), n, L), order(fold(an, l), fold(bn, l))); CMP(stdex::strnicmp(aa, ba, L), stdex::strnicmp(ba, aa, L), order(fold(ta, l), fold(tb, l)));
	}
	if constexpr (std::is_same_v<A, B> && !std::is_same_v<A, utf16_t>) {
		unsigned l = static_cast<unsigned>(s.draw(2)); auto& L = loc(l); auto& k = std::use_facet<std::collate<A>>(L); int e = sign(k.compare(a.data(), a.data() + a.size(), b.data(), b.data() + b.size())); PBT_EQ(sign(stdex::strcoll(ha.get(), hb.get(), L)), e, "strcoll"); if (x.n != SIZE_MAX && y.n != SIZE_MAX) PBT_EQ(sign(stdex::strncoll(x.p(), x.n, y.p(), y.n, L)), e, "strncoll"); PBT_EQ(sign(stdex::strncoll(aa, ba, L)), sign(k.compare(ta.data(), ta.data() + ta.size(), tb.data(), tb.data() + tb.size())), "strncoll of arrays");
	}
	s.nontrivial(a.size() && b.size());
}
PBT_CHECK(compare, 60000, 600000) { switch (s.draw(5)) { case 0: comparing<char, char>(s); break; case 1: comparing<utf16_t, utf16_t>(s); break; case 2: comparing<wchar_t, wchar_t>(s); break; case 3: comparing<char, wchar_t>(s); break; case 4: comparing<utf16_t, char>(s); break; default: comparing<wchar_t, char>(s); } }
template<class T> static void transitive(Src& s)
{
	unsigned mode = static_cast<unsigned>(s.draw(2)); auto a = gen_text<T>(s, mode, 6), b = vary(s, a, mode), c = vary(s, b, mode); holder<T> x(a), y(b), z(c);
	auto check = [&](int ab, int bc, int ac, const char* w) { if (ab <= 0 && bc <= 0) PBT_REQUIRE(ac <= 0 && (ac < 0 || (ab == 0 && bc == 0)), w); if (ab >= 0 && bc >= 0) PBT_REQUIRE(ac >= 0 && (ac > 0 || (ab == 0 && bc == 0)), w); };
	check(stdex::strcmp(x.get(), y.get()), stdex::strcmp(y.get(), z.get()), stdex::strcmp(x.get(), z.get()), "strcmp"); check(stdex::stricmp(x.get(), y.get()), stdex::stricmp(y.get(), z.get()), stdex::stricmp(x.get(), z.get()), "stricmp"); check(stdex::strrcmp(x.get(), y.get()), stdex::strrcmp(y.get(), z.get()), stdex::strrcmp(x.get(), z.get()), "strrcmp");
	exact<T> ea(a), eb(b), ec(c); check(stdex::strncmp(ea.get(), a.size(), eb.get(), b.size()), stdex::strncmp(eb.get(), b.size(), ec.get(), c.size()), stdex::strncmp(ea.get(), a.size(), ec.get(), c.size()), "strncmp"); check(stdex::strnicmp(ea.get(), a.size(), eb.get(), b.size()), stdex::strnicmp(eb.get(), b.size(), ec.get(), c.size()), stdex::strnicmp(ea.get(), a.size(), ec.get(), c.size()), "strnicmp");
	s.nontrivial(a.size() && b.size() && c.size());
}
PBT_CHECK(orderings, 40000, 400000) { switch (s.draw(2)) { case 0: transitive<char>(s); break; case 1: transitive<utf16_t>(s); break; default: transitive<wchar_t>(s); } }
// UTF-32 against UTF-16: in the order of characters.
PBT_CHECK(utf32_with_utf16, 40000, 400000)
{
	auto gen = [&] { std::u32string t; size_t n = s.len(6); for (size_t i = 0; i < n; i++) t += s.chance(1, 3) ? s.pick<char32_t>({0x61, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x1f600, 0x1f601}) : rt::gen_char(s); return t; };
	auto a = gen(), b = s.boolean() ? gen() : a; if (s.chance(1, 3) && b.size()) b[s.draw(b.size() - 1)] = rt::gen_char(s); if (s.chance(1, 4)) b += rt::gen_char(s); auto u = rt::utf16(b); text<wchar_t> x(s, rt::wide(a)); text<utf16_t> y(s, std::basic_string<utf16_t>(u.begin(), u.end())); int e = sign(a.compare(b)); e = order(a, b);
	s.note([&] { return show(rt::utf8(a)) + " and " + show(rt::utf8(b)); }); PBT_EQ(sign(stdex::strncmp(x.p(), x.n, y.p(), y.n)), e); wchar_t aa[8] = {}; utf16_t ba[16] = {}; std::copy(a.begin(), a.begin() + static_cast<ptrdiff_t>(std::min<size_t>(a.size(), 8)), aa); std::copy(u.begin(), u.begin() + static_cast<ptrdiff_t>(std::min<size_t>(u.size(), 16)), ba); PBT_EQ(sign(stdex::strncmp(aa, ba)), e); s.nontrivial(a.size() > 1 && b.size() > 1);
}
template<class A, class B> static void finding(Src& s)
{
	unsigned mode = std::is_same_v<A, B> ? static_cast<unsigned>(s.draw(2)) : s.draw(1); auto a = gen_text<A>(s, mode, 14); std::basic_string<A> b; if (s.chance(3, 4) && a.size()) { size_t f = s.draw(a.size() - 1); b = vary(s, a.substr(f, s.draw(a.size() - f)), mode); } else b = gen_text<A>(s, mode, 3); if (s.chance(1, 3)) { size_t k = a.size() / 2; a = a.substr(0, k) + b.substr(0, b.size() / 2) + b; }
	std::basic_string<B> sb(b.begin(), b.end()); text<A> x(s, a); holder<A> h(a); holder<B> q(sb); std::basic_string<A> fa = fold(a), fb = fold(b);
	s.note([&] { return show(std::vector<int64_t>(b.begin(), b.end())) + " in " + show(std::vector<int64_t>(a.begin(), a.end())) + " counted " + show(x.n); });
	PBT_EQ(stdex::strstr(h.get(), q.get()), pos<A>(a.find(b)), "strstr"); PBT_EQ(stdex::strnstr(x.p(), x.n, q.get()), pos<A>(a.find(b)), "strnstr"); PBT_EQ(stdex::stristr(h.get(), q.get()), pos<A>(fa.find(fb)), "stristr"); PBT_EQ(stdex::strnistr(x.p(), x.n, q.get()), pos<A>(fa.find(fb)), "strnistr");
	A arr[8] = {}; auto t = a.substr(0, s.draw(8)); std::copy(t.begin(), t.end(), arr); PBT_EQ(stdex::strnstr(arr, q.get()), pos<A>(t.find(b)), "strnstr of an array"); PBT_EQ(stdex::strnistr(arr, q.get()), pos<A>(fold(t).find(fb)), "strnistr of an array");
	if constexpr (!std::is_same_v<A, utf16_t> && !std::is_same_v<B, utf16_t>) { unsigned l = static_cast<unsigned>(s.draw(2)); auto& L = loc(l); auto ga = fold(a, l), gb = fold(b, l); PBT_EQ(stdex::stristr(h.get(), q.get(), L), pos<A>(ga.find(gb)), "stristr, locale"); PBT_EQ(stdex::strnistr(x.p(), x.n, q.get(), L), pos<A>(ga.find(gb)), "strnistr, locale"); PBT_EQ(stdex::strnistr(arr, q.get(), L), pos<A>(fold(t, l).find(gb)), "strnistr of an array, locale"); }
	s.nontrivial(a.size() > 1 && b.size());
}
PBT_CHECK(find_text, 60000, 600000) { switch (s.draw(4)) { case 0: finding<char, char>(s); break; case 1: finding<utf16_t, utf16_t>(s); break; case 2: finding<wchar_t, wchar_t>(s); break; case 3: finding<wchar_t, char>(s); break; default: finding<utf16_t, char>(s); } }
PBT_MAIN("T03", "the texts are not empty (two units where one is searched in)")
