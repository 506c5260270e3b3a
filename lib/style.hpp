// Spellings of the same tokens: plain, with a second form of digits and signs (one or several code units), with SGML entities; and parsers for them.
#pragma once
#include "common.hpp"
#include <stdex/parser.hpp>
namespace sp = stdex::parser;
struct tok { char k; int v; size_t at, end; }; // d digit, p/m/s signs, . , ' _ separators, e exponent, space, n line break, / : $ other x
inline std::string utf8(uint32_t c) { std::string o; if (c < 0x80) o += static_cast<char>(c); else if (c < 0x800) { o += static_cast<char>(0xc0 | c >> 6); o += static_cast<char>(0x80 | (c & 63)); } else { o += static_cast<char>(0xe0 | c >> 12); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); } return o; }

// How text is spelled: plain, with a second form of digits, SGML.
template<class T> struct style
{
	unsigned mode; // 0 plain, 1 second form (wide: another code unit; narrow: several bytes), 2 SGML entities
	using str = std::basic_string<T>; using P = std::shared_ptr<sp::basic_parser<T>>; using S = std::shared_ptr<sp::basic_set<T>>; using B = std::shared_ptr<sp::basic_integer<T>>; using I10 = std::shared_ptr<sp::basic_integer10<T>>;
	static str w(const std::string& x) { return str(x.begin(), x.end()); }
	str alt(uint32_t c) const { if constexpr (sizeof(T) > 1) return str(1, static_cast<T>(c)); else return utf8(c); }
	P lit(const str& x) const { if constexpr (sizeof(T) == 1) if (mode == 2) return std::make_shared<sp::sgml_string>(x.c_str()); if (x.size() == 1) return std::make_shared<sp::basic_cu<T>>(x[0]); return std::make_shared<sp::basic_string<T>>(x.c_str()); }
	static char dig(int i) { return "0123456789abcdef"[i]; }
	P digit(int i) const { P a = lit(str(1, static_cast<T>(dig(i)))); if (mode != 1) return a; std::vector<P> v{a, lit(alt(0x660 + static_cast<uint32_t>(i)))}; return std::make_shared<sp::basic_branch<T>>(std::move(v)); }
	P sign(char k) const { if (mode == 1) { std::vector<P> v{lit(w(k == 'p' ? "+" : k == 'm' ? "-" : "~")), lit(alt(k == 'p' ? 0xff0b : k == 'm' ? 0x2212 : 0xb1))}; return std::make_shared<sp::basic_branch<T>>(std::move(v)); } return lit(w(k == 'p' ? "+" : k == 'm' ? "-" : mode == 2 ? "&plusmn;" : "~")); }
	S seps() const { if constexpr (sizeof(T) == 1) if (mode == 2) return std::make_shared<sp::sgml_cp_set>(".,'_"); return std::make_shared<sp::basic_cu_set<T>>(w(".,'_").c_str()); }
	P space() const { if constexpr (sizeof(T) == 1) if (mode == 2) return std::make_shared<sp::sgml_space_cp>(); return std::make_shared<sp::basic_space_cu<T>>(); }
	I10 int10() const { return std::make_shared<sp::basic_integer10<T>>(digit(0), digit(1), digit(2), digit(3), digit(4), digit(5), digit(6), digit(7), digit(8), digit(9)); }
	B int16() const { return std::make_shared<sp::basic_integer16<T>>(digit(0), digit(1), digit(2), digit(3), digit(4), digit(5), digit(6), digit(7), digit(8), digit(9), digit(10), digit(11), digit(12), digit(13), digit(14), digit(15)); }
	std::shared_ptr<sp::basic_integer10ts<T>> int10ts() const { return std::make_shared<sp::basic_integer10ts<T>>(int10(), seps()); }
	str spell(pbt::Src& s, const tok& t) const
	{
		switch (t.k) {
		case 'd': if (mode == 1 && s.boolean()) return alt(0x660 + static_cast<uint32_t>(t.v)); if (mode == 2 && s.chance(1, 3)) return w("&#" + std::to_string(static_cast<int>(dig(t.v))) + ";"); return str(1, static_cast<T>(dig(t.v)));
		case 'p': return mode == 1 && s.boolean() ? alt(0xff0b) : mode == 2 && s.boolean() ? w("&plus;") : w("+"); case 'm': return mode == 1 && s.boolean() ? alt(0x2212) : w("-"); case 's': return mode == 1 && s.boolean() ? alt(0xb1) : mode == 2 ? w("&plusmn;") : w("~");
		case 'e': return w("E"); case ' ': return mode == 2 && s.chance(1, 3) ? w("&#32;") : s.boolean() ? w(" ") : w("\t"); case 'n': return w("\n"); case '.': return mode == 2 && s.chance(1, 3) ? w("&period;") : w("."); case 'x': return w(s.pick(std::vector<std::string>{"x", "Z", ";", "^", "é"}));
		default: return str(1, static_cast<T>(t.k));
		}
	}
};

// Plain text, respelled: pos[i] is where character i of the plain text starts. A prefix in front, and a terminator or further text after it.
template<class T> struct spelled
{
	std::basic_string<T> t; std::vector<size_t> pos; size_t n, end, pre = 0; std::unique_ptr<pbt::exact<T>> e; std::string plain;
	spelled(pbt::Src& s, bool sgml, const std::string& p, const std::string& after = "x1.") : plain(p)
	{
		auto w = [](const std::string& x) { return std::basic_string<T>(x.begin(), x.end()); };
		if (s.chance(1, 4)) { t = w("1:2.3 "); pre = t.size(); } bool much = sgml && s.chance(1, 3);
		for (char c : p) { pos.push_back(t.size()); unsigned char u = static_cast<unsigned char>(c); if (u >= 0x80) t += sgml ? w("&#" + std::to_string(u) + ";") : std::basic_string<T>(1, static_cast<T>(u)); else if (sgml && c == '&') t += w(s.boolean() ? "&amp;" : "&#38;"); else if (sgml && much && s.chance(1, 3)) t += w("&#" + std::to_string(static_cast<int>(c)) + ";"); else t += static_cast<T>(c); }
		pos.push_back(t.size()); n = end = t.size(); if (s.chance(1, 3)) { t += T(0); end = s.boolean() ? SIZE_MAX : n + 1; } else if (s.chance(1, 3)) t += w(after);
		e = std::make_unique<pbt::exact<T>>(t.data(), t.size()); s.note([&] { return pbt::show(plain) + (sgml ? " SGML" : sizeof(T) > 1 ? " wide" : "") + " from " + pbt::show(pre); });
	}
	void iv(const stdex::interval<size_t>& i, size_t a, size_t b, const std::string& what) const { if (!i) pbt::fail(what + " not reported"); PBT_EQ(i.start, pos[a], what + " start"); PBT_EQ(i.end, pos[b], what + " end"); }
};
template<class T, class N, class S> std::shared_ptr<sp::basic_parser<T>> ns_parser(bool sgml) { if constexpr (sizeof(T) == 1) if (sgml) return std::make_shared<S>(); (void)sgml; return std::make_shared<N>(); }
