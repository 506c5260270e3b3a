// HTML, URL and CSS escaping: reversible for any text, reference unescaping of arbitrary text, within bounds.
// SCALE: 20
#include "common.hpp"
#include <mutex>
#include <shared_mutex>
#include <stdex/html.hpp>
using namespace pbt; using str = std::string; namespace H = stdex::html;
template<class T> using bs = std::basic_string<T>;
template<class T> static bs<T> chars(Src& s, const char* special) { bs<T> x; size_t k = strlen(special); for (size_t n = s.len(16); n--;) { unsigned w = static_cast<unsigned>(s.draw(3)); if (w < 2) x += static_cast<T>(special[s.draw(k - 1)]); else if (w == 2) x += static_cast<T>(s.range(1, 126)); else if constexpr (sizeof(T) == 1) x += static_cast<T>(s.range(1, 255)); else { auto c = s.pick<uint32_t>({0xa0, 0xe9, 0x2212, 0x10400, 0xfeff, 0x7f, 0x80}); x += static_cast<T>(c); } } return x; }
// Text in an exact buffer: counted, terminated, or with a limit beyond the terminator.
template<class T> struct given { bs<T> z; std::unique_ptr<exact<T>> e; size_t n; given(Src& s, const bs<T>& x) { z = x; n = x.size(); if (s.chance(1, 5)) z += static_cast<T>(s.pick<int>({'4', ' ', 'a', ';', '%', 'x'})); else if (s.chance(1, 3)) { z += T(0); n = s.boolean() ? SIZE_MAX : n + 1; if (n != SIZE_MAX && s.boolean()) { z += T('%'); z += T('\\'); n += 2; } } e = std::make_unique<exact<T>>(z.data(), z.size()); s.note([&] { return show(z); }); } };
template<class T> static bs<T> before(Src& s) { return s.boolean() ? bs<T>() : bs<T>{T('&'), T('%'), T('\\')}; }
template<class T> static void cut(bs<T>& o, const bs<T>& b) { PBT_REQUIRE(o.compare(0, b.size(), b) == 0, "what was there before is gone"); o.erase(0, b.size()); }
static bool odd(int c) { return c == '&' || c == '<' || c == '>'; }

template<class T> static void html(Src& s)
{
	auto x = chars<T>(s, "&;<>\"' lt#x27"); given<T> g(s, x); auto b = before<T>(s), o = b, m = b, c = b; H::escape(o, g.e->get(), g.n); cut(o, b); H::escape_min(m, g.e->get(), g.n); cut(m, b); for (T ch : x) H::escape_min(c, ch); cut(c, b); s.nontrivial(!x.empty() && o != x);
	for (T ch : o) PBT_REQUIRE(ch != '<' && ch != '>' && ch != '"' && ch != '\'' && ch != 0xa0, "markup left by escape: " + show(o)); for (T ch : m) PBT_REQUIRE(ch != '<' && ch != '>', "markup left by escape_min: " + show(m)); PBT_EQ(c, m, "escape_min one by one");
	PBT_EQ(stdex::sgml2str(o), std::wstring(x.begin(), x.end()), "escape and back"); PBT_EQ(stdex::sgml2str(m), std::wstring(x.begin(), x.end()), "escape_min and back");
	size_t special = 0; for (T ch : x) if (odd(static_cast<int>(ch)) || ch == 0xa0) special++; if (!special) PBT_EQ(m, x, "text that needs no escaping");
	if (x.size() == g.n) { bs<T> v = b; H::escape(v, x); cut(v, b); PBT_EQ(v, o, "escape of a string"); v = b; H::escape_min(v, x); cut(v, b); PBT_EQ(v, m, "escape_min of a string"); }
}
PBT_CHECK(html_escape, 60000, 600000) { if (s.boolean()) html<char>(s); else html<wchar_t>(s); }
PBT_CHECK(html_escape_utf8, 20000, 200000)
{
	str x; for (size_t n = s.len(8); n--;) x += s.pick(std::vector<str>{"a", "&", "\xc2\xa0", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x90\x90\x80", "<", ";"}); given<char> g(s, x); str o; H::escape(o, g.e->get(), g.n); PBT_EQ(stdex::sgml2str(o), std::wstring(x.begin(), x.end()), "escape and back"); o.clear(); H::escape_min(o, g.e->get(), g.n); PBT_EQ(stdex::sgml2str(o), std::wstring(x.begin(), x.end()), "escape_min and back"); s.nontrivial(!x.empty());
}

static int hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
PBT_CHECK(url_escape, 60000, 600000)
{
	str x = chars<char>(s, " %+/?:@=&$#<>[]{}|\\^~`;"); given<char> g(s, x); str b = before<char>(s), o = b; H::url_escape(o, g.e->get(), g.n); cut(o, b); for (char c : o) PBT_REQUIRE(isalnum(static_cast<unsigned char>(c)) || (c && strchr("%-_.!*'(),\"", c)), "left unescaped: " + show(o)); str u = b; exact<char> e(o); H::url_unescape(u, e.get(), o.size()); cut(u, b); PBT_EQ(u, x, "escape and back"); str v; H::url_escape(v, std::string_view(x)); PBT_EQ(v, o, "escape of a string"); s.nontrivial(o != x);
}
PBT_CHECK(url_unescape, 60000, 600000)
{
	str x; for (size_t n = s.len(10); n--;) x += s.pick(std::vector<str>{"%", "4", "1", "%41", "%e9", "%C3%A9", "a", "g", "+", "f", "%2", "%%", " "}); if (s.chance(1, 4)) x += chars<char>(s, "%09afAFgG/:@`"); str r; for (size_t i = 0; i < x.size();) { int h, l; if (x[i] == '+') { r += ' '; i++; } else if (x[i] == '%' && i + 2 < x.size() + 0 && (h = hex(x[i + 1])) >= 0 && (l = hex(x[i + 2])) >= 0) { r += static_cast<char>(h << 4 | l); i += 3; } else r += x[i++]; }
	given<char> g(s, x); str b = before<char>(s), o = b; H::url_unescape(o, g.e->get(), g.n); cut(o, b); PBT_EQ(o, r); s.nontrivial(x.find('%') != str::npos); if (g.n == x.size()) { str v; H::url_unescape(v, std::string_view(x)); PBT_EQ(v, r, "of a string"); }
}
template<class T> static void css(Src& s)
{
	auto x = chars<T>(s, "\\\n\r\t\"'nrt0a "); given<T> g(s, x); auto b = before<T>(s), o = b; H::css_escape(o, g.e->get(), g.n); cut(o, b); for (size_t i = 0; i < o.size(); i++) { T c = o[i]; PBT_REQUIRE(c != '\n' && c != '\r' && c != '\t', "control character left: " + show(o)); if (c == '\\') i++; else PBT_REQUIRE(c != '"' && c != '\'', "quote left unescaped: " + show(o)); } bs<T> u = b; exact<T> e(o.data(), o.size()); H::css_unescape(u, e.get(), o.size()); cut(u, b); PBT_EQ(u, x, "escape and back"); bs<T> v, w; H::css_escape(v, x); PBT_EQ(v, o, "escape of a string"); H::css_unescape(w, o); PBT_EQ(w, x, "unescape of a string"); s.nontrivial(o != x);
}
PBT_CHECK(css_escape, 60000, 600000) { if (s.boolean()) css<char>(s); else css<wchar_t>(s); }
template<class T> static void uncss(Src& s)
{
	bs<T> x, r; bool ends = false; size_t n = s.len(10), open = 7; // digits of the escape that is still open
	auto plain = [&](T c) { if (open < 7 && (c == T(' ') || (open < 6 && c < 0x7f && isxdigit(static_cast<int>(c))))) x += T(' '); open = 7; x += c; r += c; };
	for (size_t i = 0; i < n; i++) switch (s.draw(5)) {
		case 0: plain(static_cast<T>(s.pick<int>({'x', 'z', ' ', '"', '(', 'G', '4', 'a', 'F'}))); break;
		case 1: { T c = static_cast<T>(s.pick<int>({'"', '\'', '\\', '(', ')', ' ', 'g', 'z', '-', '{'})); open = 7; x += T('\\'); x += c; r += c; break; }
		case 2: { int k = static_cast<int>(s.draw(3)); open = 7; x += T('\\'); x += static_cast<T>("nrt\n"[k]); if (k < 3) r += static_cast<T>("\n\r\t"[k]); break; }
		default: { uint32_t c = static_cast<uint32_t>(sizeof(T) == 1 ? s.range(1, 0x7f) : s.range(1, 0x10ffff)); char d[8]; snprintf(d, sizeof d, s.boolean() ? "%x" : "%X", c); str h = d; size_t pad = s.draw(6 - h.size()); h = str(pad, '0') + h; x += T('\\'); x.append(h.begin(), h.end()); open = h.size(); r += static_cast<T>(c); if (s.boolean()) { x += T(' '); s.label_if(open == 6, "six digits and a space"); open = 7; } } }
	s.label_if(open < 6, "escape of less than six digits at the end");
	if (s.chance(1, 6)) { ends = true; x += T('\\'); } given<T> g(s, x); auto b = before<T>(s), o = b; H::css_unescape(o, g.e->get(), g.n); cut(o, b); if (ends && o.size() == r.size() + 1 && o.back() == T('\\')) o.pop_back(); PBT_EQ(o, r); s.nontrivial(n > 0); s.label_if(ends, "lone backslash at the end");
}
PBT_CHECK(css_unescape, 60000, 600000, 3) { if (s.boolean()) uncss<char>(s); else uncss<wchar_t>(s); }
PBT_MAIN("W02", "Texts of special, ordinary and non-ASCII characters in exact, counted or terminated buffers; texts that need escaping count as non-trivial. Oracle: the text escaped, reference unescaping.")
