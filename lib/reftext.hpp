// Unicode encodings by definition, and Unicode text to test with.
#pragma once
#include "pbt.hpp"

namespace rt
{
	inline void utf8(std::string& o, char32_t c)
	{
		if (c < 0x80) o += static_cast<char>(c);
		else if (c < 0x800) { o += static_cast<char>(0xc0 | c >> 6); o += static_cast<char>(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += static_cast<char>(0xe0 | c >> 12); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
		else { o += static_cast<char>(0xf0 | c >> 18); o += static_cast<char>(0x80 | (c >> 12 & 63)); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
	}
	inline std::string utf8(const std::u32string& t) { std::string o; for (auto c : t) utf8(o, c); return o; }
	inline std::u16string utf16(const std::u32string& t) { std::u16string o; for (auto c : t) if (c < 0x10000) o += static_cast<char16_t>(c); else { o += static_cast<char16_t>(0xd800 + ((c - 0x10000) >> 10)); o += static_cast<char16_t>(0xdc00 + (c & 0x3ff)); } return o; }
	inline std::wstring wide(const std::u32string& t) { return std::wstring(t.begin(), t.end()); }
	inline bool scalar(char32_t c) { return c < 0xd800 || (c > 0xdfff && c < 0x110000); }
	// Strict decoders; false: malformed.
	inline bool from8(const std::string& s, std::u32string& o)
	{
		for (size_t i = 0; i < s.size();) {
			unsigned char b = static_cast<unsigned char>(s[i]); size_t n; char32_t c, lo;
			if (b < 0x80) { o += b; i++; continue; }
			if (b >= 0xc2 && b < 0xe0) { n = 1; c = b & 31; lo = 0x80; } else if ((b & 0xf0) == 0xe0) { n = 2; c = b & 15; lo = 0x800; } else if (b >= 0xf0 && b < 0xf5) { n = 3; c = b & 7; lo = 0x10000; } else return false;
			if (i + n >= s.size()) return false;
			for (size_t k = 1; k <= n; k++) { unsigned char x = static_cast<unsigned char>(s[i + k]); if ((x & 0xc0) != 0x80) return false; c = c << 6 | (x & 63); }
			if (c < lo || !scalar(c)) return false;
			o += c; i += n + 1;
		}
		return true;
	}
	inline bool from16(const std::u16string& s, std::u32string& o)
	{
		for (size_t i = 0; i < s.size(); i++) {
			if (s[i] < 0xd800 || s[i] > 0xdfff) { o += s[i]; continue; }
			if (s[i] > 0xdbff || i + 1 >= s.size() || s[i + 1] < 0xdc00 || s[i + 1] > 0xdfff) return false;
			o += 0x10000 + ((s[i] & 0x3ff) << 10) + (s[i + 1] & 0x3ff); i++;
		}
		return true;
	}
	inline char32_t gen_char(pbt::Src& s)
	{
		switch (s.weighted({6, 3, 3, 2, 1})) {
		case 0: return static_cast<char32_t>(0x20 + s.draw(0x5e));
		case 1: return static_cast<char32_t>(0x80 + s.draw(0x77f));
		case 2: { char32_t c = static_cast<char32_t>(0x800 + s.draw(0xf7ff)); return scalar(c) ? c : c & 0xfff; }
		case 3: return static_cast<char32_t>(0x10000 + s.draw(0xfffff));
		default: return s.pick<char32_t>({1, 9, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfeff, 0xffff, 0x10000, 0x10ffff}); }
	}
	inline std::u32string gen(pbt::Src& s, size_t max) { std::u32string r; size_t n = s.len(max); if (n > 100) { char32_t c[3] = {gen_char(s), gen_char(s), gen_char(s)}; for (size_t i = 0; i < n; i++) r += c[pbt::mix(i + n) % 3]; } else for (size_t i = 0; i < n; i++) r += gen_char(s); return r; }
}
