// JSON strings, CSS and HTML tokens and MIME types: composed from any contents and read back; mutated text against reference readers.
// SCALE: 4
#include "style.hpp"
using namespace pbt;

using iv = std::pair<size_t, size_t>; static const iv none{1, 0}; static const size_t no = SIZE_MAX;
using str = std::string;
template<class T> using bs = std::basic_string<T>;
template<class T> static bs<T> W(const str& x) { return bs<T>(x.begin(), x.end()); }
static bool sps(char c) { return c && strchr(" \t\r\n\v\f", c); }
static str blanks(Src& s) { return s.chance(1, 2) ? str() : s.pick(std::vector<str>{" ", "\t", "\r\n", "  ", "\n \f"}); }
static void mutate(Src& s, str& x, const str& al) { for (size_t k = 1 + s.draw(2); k--;) switch (s.draw(2)) { case 0: if (x.size()) x.erase(s.draw(x.size() - 1), 1); break; case 1: x.insert(s.draw(x.size()), 1, al[s.draw(al.size() - 1)]); break; default: if (x.size()) x[s.draw(x.size() - 1)] = al[s.draw(al.size() - 1)]; } }
// Text composed or mutated, in an exact buffer, against what the reference found.
template<class T> struct text
{
	Src& s; str x; bool mutated = false; size_t full = 0; std::unique_ptr<spelled<T>> t; text(Src& s_) : s(s_) {}
	void done(const std::vector<str>& tails, const str& junk, const char* after) { full = x.size(); mutated = s.chance(1, 2); if (mutated) { if (s.chance(1, 3)) x.resize(s.draw(x.size())); else mutate(s, x, junk); } else if (s.boolean()) x += s.pick(tails); t = std::make_unique<spelled<T>>(s, false, x, after); }
	void is(const stdex::interval<size_t>& i, const iv& e, const str& what) { if (e == none) { if (i) fail(what + " reported, though absent"); } else t->iv(i, e.first, e.second, what); }
	template<class P> bool match(P& p, size_t e) { if (!mutated && e != full) fail("reference stops at " + show(e) + " of " + show(full)); bool b = p.match(t->e->get(), t->pre, t->end, s.boolean() ? sp::match_multiline : sp::match_default); PBT_EQ(b, e != no, "match"); is(p.interval, e == no ? none : iv{0, e}, "whole"); s.nontrivial(b); s.label(mutated ? b ? "recognised after mutation" : "rejected after mutation" : "composed"); return b; }
	template<class P> void before(P& p, const std::function<str(Src&)>& f) { if (s.boolean()) { str y = f(s); if (s.chance(1, 3)) mutate(s, y, "<>\"'/ x"); auto w = W<T>(y); p.match(w.data(), 0, w.size()); } }
};
static char at(const str& x, size_t p) { return p < x.size() ? x[p] : 0; }
static size_t skip(const str& x, size_t p) { while (sps(at(x, p))) p++; return p; }
static bool fold(const str& x, size_t p, const char* w) { for (; *w; w++, p++) if (tolower(at(x, p)) != *w) return false; return true; }

// --- JSON
template<class T> struct json_char : sp::basic_parser<T> { bool do_match(const T* text, size_t start, size_t end, int) override { using U = std::make_unsigned_t<T>; if (start < end && static_cast<U>(text[start]) >= 0x20 && text[start] != '"' && text[start] != '\\') { this->interval.end = (this->interval.start = start) + 1; return true; } this->interval.invalidate(); return false; } };
template<class T> static auto json_parser(bool any)
{
	style<T> st{0}; auto l = [&](const char* x) { return st.lit(W<T>(x)); }; std::shared_ptr<sp::basic_parser<T>> c; if (any) c = std::make_shared<sp::basic_any_cu<T>>(); else c = std::make_shared<json_char<T>>(); auto hex = std::make_shared<sp::basic_integer16<T>>(st.digit(0), st.digit(1), st.digit(2), st.digit(3), st.digit(4), st.digit(5), st.digit(6), st.digit(7), st.digit(8), st.digit(9), st.digit(10), st.digit(11), st.digit(12), st.digit(13), st.digit(14), st.digit(15));
	return std::make_shared<sp::basic_json_string<T>>(l("\""), c, l("\\"), l("/"), l("b"), l("f"), l("n"), l("r"), l("t"), l("u"), hex);
}
static str utf(uint32_t c) { if (c < 0x10000) return utf8(c); str o; o += static_cast<char>(0xf0 | c >> 18); o += static_cast<char>(0x80 | (c >> 12 & 63)); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); return o; }
template<class T> static void put(bs<T>& o, uint32_t c) { if constexpr (sizeof(T) == 1) o += utf(c); else o += static_cast<T>(c); }
template<class T> static void json(Src& s)
{
	bs<T> x = W<T>("\""), v; size_t n = s.len(12); bool strict = s.boolean(); for (size_t i = 0; i < n; i++)
	{
		unsigned k = static_cast<unsigned>(s.draw(4)); uint32_t c = static_cast<uint32_t>(k == 0 ? s.range(0, 0x1f) : k == 1 ? s.range(0x20, 0x7e) : k == 2 ? s.pick<uint32_t>({'"', '\\', '/', 8, 9, 10, 12, 13, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000}) : k == 3 ? s.range(0x80, 0xffff) : s.range(0x10000, 0x10ffff)); if (c >= 0xd800 && c < 0xe000) c = 0xe9;
		put(v, c); const char* e = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == 8 ? "\\b" : c == 12 ? "\\f" : c == 10 ? "\\n" : c == 13 ? "\\r" : c == 9 ? "\\t" : nullptr; bool must = c < 0x20 || c == '"' || c == '\\'; unsigned how = static_cast<unsigned>(s.draw(2)); if (how == 0 && !must) { put(x, c); continue; } if (how <= 1 && e) { x += W<T>(e); continue; }
		char b[8]; auto u = [&](uint32_t w) { snprintf(b, sizeof b, s.boolean() ? "\\u%04x" : "\\u%04X", w); x += W<T>(b); }; if (c > 0xffff) { u(0xd800 + ((c - 0x10000) >> 10)); u(0xdc00 + ((c - 0x10000) & 0x3ff)); } else u(c);
	}
	x += T('"'); size_t len = x.size(), pre = s.chance(1, 4) ? 2 : 0, end; bs<T> y = bs<T>(pre, T('"')) + x; end = y.size(); if (s.chance(1, 3)) { y += T(0); end = SIZE_MAX; } else if (s.boolean()) { y += W<T>("\\\"x\""); if (s.boolean()) end = y.size(); } exact<T> e(y.data(), y.size()); auto p = json_parser<T>(!strict); if (s.boolean()) { auto o = W<T>(s.pick(std::vector<str>{"\"a\\u00e9\"", "\"abc", "\"\""})); p->match(o.data(), 0, o.size()); } s.note([&] { return show(x); });
	PBT_REQUIRE(p->match(e.get(), pre, end), "not recognised"); PBT_EQ(p->interval.start, pre); PBT_EQ(p->interval.end, pre + len); PBT_EQ(p->value, v, "decoded"); s.nontrivial(n > 0);
	// cut short anywhere it is not recognised
	size_t cut = s.draw(len - 1); exact<T> f(y.data() + pre, cut); PBT_REQUIRE(!p->match(f.get(), 0, cut), "recognised the first " + show(cut)); PBT_REQUIRE(!p->interval && p->value.empty(), "left-overs after failure");
}
PBT_CHECK(json_string, 60000, 600000) { if (s.boolean()) json<char>(s); else json<wchar_t>(s); }
PBT_CHECK(json_malformed, 20000, 200000)
{
	auto p = json_parser<char>(false); str in; for (size_t n = s.draw(3); n--;) in += s.pick(std::vector<str>{"a", "\\n", "\\u0041", " ", "\\\\"}); str bad = s.pick(std::vector<str>{"\\x", "\\u12", "\\u12g4", "\\", "\\u", "\\ ", "\n", "\x01", "\\u00-1", "\\'"}); str x = "\"" + in + bad + "\""; if (bad == "\\") x += "z"; bool cut = s.chance(1, 4); exact<char> e(x); s.note([&] { return show(x); }); (void)cut; bool ok = p->match(e.get(), 0, x.size()); PBT_REQUIRE(!ok, "recognised " + show(x)); PBT_REQUIRE(!p->interval && p->value.empty(), "left-overs after failure"); s.nontrivial();
}

// --- CSS
static size_t r_comment(const str& x, iv& c) { c = none; if (at(x, 0) != '/' || at(x, 1) != '*') return no; size_t q = x.find("*/", 2); if (q == str::npos) return no; c = {2, q}; return q + 2; }
static size_t quoted(const str& x, size_t p, iv& c) { char q = at(x, p); if (q != '"' && q != '\'') return no; for (size_t i = p + 1; i < x.size(); i++) { if (x[i] == q) { c = {p + 1, i}; return i + 1; } if (x[i] == '\\' && i + 1 < x.size() && strchr("\"'\\", x[i + 1])) i++; } return no; }
static size_t r_uri(const str& x, iv& c) { c = none; if (!fold(x, 0, "url(")) return no; size_t p = skip(x, 4); if (at(x, p) == '"' || at(x, p) == '\'') { iv k; size_t q = quoted(x, p, k); if (q == no) return no; q = skip(x, q); if (at(x, q) != ')') return no; c = k; return q + 1; } iv k{p, p}; for (size_t i = p; i < x.size(); i++) { if (x[i] == ')') { c = k; return i + 1; } if (x[i] == '\\' && i + 1 < x.size()) i++; else if (sps(x[i])) continue; k.second = i + 1; } return no; }
static size_t r_import(const str& x, iv& c) { c = none; if (!fold(x, 0, "@import")) return no; iv k; size_t q = quoted(x, skip(x, 7), k); if (q != no) c = k; return q; }
static str content(Src& s, const char* al) { str r; size_t k = strlen(al) - 1; for (size_t n = s.len(8); n--;) r += s.boolean() ? "abcXYZ019"[s.draw(8)] : al[s.draw(k)]; return r; }
static str escape(const str& v, const char* what) { str r; for (char c : v) { if (strchr(what, c)) r += '\\'; r += c; } return r; }
static str quote(Src& s, const char* al) { char q = s.boolean() ? '"' : '\''; char e[3] = {q, '\\', 0}; return q + escape(content(s, al), s.boolean() ? "\"'\\" : e) + q; }
static str cased(Src& s, str x) { for (char& c : x) if (s.chance(1, 3)) c = static_cast<char>(toupper(c)); return x; }
static const char* qal = " \t\n\"'\\()/*{};:@<>";
static str g_comment(Src& s) { str v = content(s, "*/ \n\"-"); for (size_t p; (p = v.find("*/")) != str::npos; ) v[p] = 'x'; return "/*" + v + "*/"; }
static str g_string(Src& s) { return quote(s, qal); }
static str g_uri(Src& s) { if (s.boolean()) return cased(s, "url") + "(" + blanks(s) + quote(s, qal) + blanks(s) + ")"; str v = escape(content(s, " \"'\\()/.:;"), "\"'\\() "); return cased(s, "url") + "(" + blanks(s) + v + blanks(s) + ")"; }
static str g_import(Src& s) { return cased(s, "@import") + blanks(s) + quote(s, qal); }
template<class T, class P> static void css(Src& s, str (*g)(Src&), size_t (*r)(const str&, iv&), const str& junk) { text<T> t(s); P p; t.before(p, g); t.x = g(s); t.done({" ", ";", "x", "*/", "\"", ")"}, junk, "*/\")'"); iv c; size_t e = r(t.x, c); t.match(p, e); t.is(p.content, e == no ? none : c, "content"); }
template<class T> static void css_any(Src& s)
{
	switch (s.draw(3)) {
	case 0: css<T, sp::basic_css_comment<T>>(s, g_comment, r_comment, "*/ x"); break;
	case 1: css<T, sp::basic_css_string<T>>(s, g_string, [](const str& x, iv& c) { c = none; return quoted(x, 0, c); }, "\"'\\ x"); break;
	case 2: css<T, sp::basic_css_uri<T>>(s, g_uri, r_uri, "\"'\\ x()ulr"); break;
	default: css<T, sp::basic_css_import<T>>(s, g_import, r_import, "\"'\\ x@import"); }
}
PBT_CHECK(css, 100000, 1000000) { if (s.boolean()) css_any<char>(s); else css_any<wchar_t>(s); }
template<class T> static void fixed(Src& s)
{
	unsigned k = static_cast<unsigned>(s.draw(2)); static const char* w[] = {"<!--", "-->", "]]>"}; text<T> t(s); t.x = w[k]; t.done({"-", ">", "x"}, "<!->] ", "->"); size_t n = strlen(w[k]), e = t.x.compare(0, n, w[k]) == 0 ? n : no; if (k == 0) { sp::basic_css_cdo<T> p; t.match(p, e); } else if (k == 1) { sp::basic_css_cdc<T> p; t.match(p, e); } else { sp::basic_html_declaration_condition_end<T> p; t.match(p, e); }
}
PBT_CHECK(fixed_tokens, 20000, 100000) { if (s.boolean()) fixed<char>(s); else fixed<wchar_t>(s); }

// --- MIME type
template<class T> static void mime(Src& s)
{
	auto f = [](Src& s2) { str x = content(s2, "-+._x*") + "a/" + content(s2, "-+._x*") + "b"; if (s2.boolean()) { x += ";" + blanks(s2); x += cased(s2, "charset") + "="; char q = s2.boolean() ? '"' : '\''; if (s2.boolean()) x += q + content(s2, "-_ :") + q; else x += content(s2, "-_.:") + "8"; } return x; };
	text<T> t(s); sp::basic_mime_type<T> p; t.before(p, f); t.x = f(s); t.done(t.x.find('=') == no ? std::vector<str>{" ", "\n", " x"} : std::vector<str>{" ", "\n", " x", ";", "; boundary=x", ";q"}, "/;= \"'cx", " ;"); const str& x = t.x; iv b = none, u = none, c = none; size_t e = 0, q; auto run = [&](size_t i) { while (i < x.size() && x[i] != '/' && x[i] != ';' && !sps(x[i])) i++; return i; };
	if ((q = run(0)) == 0 || at(x, q) != '/' || run(q + 1) == q + 1) e = no; else { b = {0, q}; u = {q + 1, run(q + 1)}; e = u.second; if (at(x, e) == ';') { e = skip(x, e + 1); if (fold(x, e, "charset=")) { e += 8; char k = at(x, e); if (k == '"' || k == '\'') { size_t z = x.find(k, e + 1); if (z == str::npos) e = x.size(); else { c = {e + 1, z}; e = z + 1; } } else { size_t z = e; while (z < x.size() && !sps(x[z]) && x[z] != ';') z++; c = {e, z}; e = z; } } } }
	if (e != no && e < x.size() && !sps(x[e]) && (c == none || x[e] != ';')) { if (!t.mutated) fail("generator"); throw discard_t{}; } if (t.mutated && e != no && u.second < x.size() && x[u.second] == ';' && c == none) throw discard_t{}; // other parameters are left open
	t.match(p, e); t.is(p.base_type, b, "type"); t.is(p.sub_type, u, "subtype"); t.is(p.charset, c, "charset"); s.label_if(c != none, "charset");
}
PBT_CHECK(mime_type, 40000, 400000) { if (s.boolean()) mime<char>(s); else mime<wchar_t>(s); }

// --- HTML tags
struct tag { sp::html_sequence_t type = sp::html_sequence_t::unknown; iv name = none; std::vector<std::pair<iv, iv>> a; };
static size_t ident(const str& x, size_t p) { size_t q = p; for (; q < x.size(); q++) if (x[q] == '>' || x[q] == '=' || sps(x[q]) || (x[q] == '/' && at(x, q + 1) == '>')) return q; return q > p ? q : no; }
static size_t value(const str& x, size_t p, iv& c) { if (at(x, p) == '"' || at(x, p) == '\'') { size_t q = x.find(x[p], p + 1); if (q == str::npos) return no; c = {p + 1, q}; return q + 1; } size_t q = p; while (q < x.size() && x[q] != '>' && !sps(x[q]) && !(x[q] == '/' && at(x, q + 1) == '>')) q++; c = {p, q}; return q; }
static size_t r_tag(const str& x, tag& t)
{
	using S = sp::html_sequence_t; t = {}; if (at(x, 0) != '<' || x.size() < 2) return no; size_t p, q; if (x[1] == '/' && (p = ident(x, 2)) != no) { t.type = S::element_end; t.name = {2, p}; }
	else if (x.compare(1, 3, "!--") == 0) { q = x.find("-->", 4); if (q == str::npos) return no; t.type = S::comment; t.name = {4, q}; return q + 3; } else if (x[1] == '!') { t.type = S::declaration; p = 2; t.name = {2, 2}; }
	else if (x[1] == '?') { for (q = 2; q < x.size(); q++) { if (x[q] == '>' || x.compare(q, 2, "?>") == 0) { t.type = S::instruction; t.name = {2, q}; return q + (x[q] == '>' ? 1 : 2); } } return no; } else if ((p = ident(x, 1)) != no) { t.type = S::element_start; t.name = {1, p}; } else return no;
	for (p = skip(x, p);;) {
		if (t.type == S::element_start && x.compare(p, 2, "/>") == 0) { t.type = S::element; return p + 2; } if (at(x, p) == '>') return p + 1; if (t.type == S::declaration && x.compare(p, 2, "!>") == 0) return p + 2; if (t.type == S::declaration && x.compare(p, 2, "--") == 0) { q = x.find("--", p + 2); if (q == str::npos) return no; p = skip(x, q + 2); continue; }
		if (p >= x.size()) return no; q = ident(x, p); if (q == no || (q == p && x[p] != '=')) { p++; continue; } t.a.push_back({{p, q}, none}); p = skip(x, q); if (at(x, p) == '=') { p = skip(x, p + 1); iv v; q = value(x, p, v); if (q != no) { t.a.back().second = v; p = skip(x, q); } } }
}
static str word(Src& s, const char* al, size_t max = 6) { str r; size_t k = strlen(al) - 1; for (size_t n = 1 + s.draw(max - 1); n--;) r += s.boolean() ? "abcXYZ019"[s.draw(8)] : al[s.draw(k)]; return r; }
static str g_tag(Src& s)
{
	unsigned k = static_cast<unsigned>(s.draw(5)); if (k == 4) { str v = content(s, " -!<>\"\n"); for (size_t p; (p = v.find("-->")) != str::npos; ) v[p] = 'x'; return "<!--" + v + "-->"; } if (k == 5) { str v = content(s, " -!\"=/\n"); return "<?" + v + (s.boolean() ? "?>" : ">"); }
	str x = k == 3 ? "<!" : k == 2 ? "</" : "<"; if (k != 3) { str n = word(s, "-:_.19"); x += n; } size_t n = s.draw(4); bool need = true; static const char* name = "-:_.@'\"&;#"; for (size_t i = 0; i < n; i++) { str g = need || s.boolean() ? blanks(s) + " " : ""; if (k == 3 && i == 0 && s.boolean()) g = ""; if (k == 3 && s.chance(1, 4) && (i == 0 || !g.empty())) { str c = content(s, " ->x="); for (size_t p; (p = c.find("--")) != str::npos; ) c[p] = 'x'; if (c.size() && c.back() == '-') c.back() = 'y'; if (!(i == 0 && g.empty())) { x += g + "--" + c + "--"; g = blanks(s); } } str a = word(s, name); if (a[0] == '-' || a[0] == '!') a[0] = 'a'; x += g + a; need = true; if (s.boolean()) { x += blanks(s) + "=" + blanks(s); unsigned q = static_cast<unsigned>(s.draw(2)); if (q < 2) { str v = content(s, " \n<>=/'\"&;"); char c = q ? '"' : '\''; for (char& y : v) if (y == c) y = 'x'; x += c + v + c; need = false; } else x += word(s, "-:_.=/&;") + (s.boolean() ? "z" : ""); } }
	x += blanks(s); if (k == 1) { if (at(x, x.size() - 1) == '/') x += ' '; x += "/"; } if (k == 0 && x.back() == '/') x += ' '; if (k != 1 && x.back() == '/') x += ' '; if (k == 3 && s.chance(1, 4)) { if (!sps(x.back()) && x.size() > 2) x += ' '; x += "!"; } return x + ">";
}
template<class T> static void html_tag(Src& s)
{
	text<T> t(s); sp::basic_html_tag<T> p; t.before(p, g_tag); t.x = g_tag(s); t.done({" ", "x", ">", "</a>"}, "<>/!-=? \"'x", ">\"'"); tag g; size_t e = r_tag(t.x, g); if (e == no) g = {}; t.match(p, e); PBT_EQ(static_cast<int>(p.type), static_cast<int>(g.type), "type"); t.is(p.name, g.name, "name"); PBT_EQ(p.attributes.size(), g.a.size(), "number of attributes"); for (size_t i = 0; i < g.a.size(); i++) { t.is(p.attributes[i].name, g.a[i].first, "attribute name"); t.is(p.attributes[i].value, g.a[i].second, "attribute value"); } s.label_if(g.a.size() > 1, "several attributes");
}
PBT_CHECK(html_tag, 100000, 1000000) { if (s.boolean()) html_tag<char>(s); else html_tag<wchar_t>(s); }
template<class T> static void html_parts(Src& s)
{
	text<T> t(s); if (s.boolean()) { sp::basic_html_value<T> p; auto f = [](Src& z) { if (z.boolean()) { str v = content(z, " <>=/'"); for (char& c : v) if (c == '"') c = 'x'; return "\"" + v + "\""; } return word(z, "-:_.=&;"); }; t.before(p, f); t.x = f(s); bool q = t.x[0] == '"'; t.done(q ? std::vector<str>{" ", "x", ">"} : std::vector<str>{" ", ">", "/>"}, "<>/= \"'x", ">"); iv c = none; size_t e = value(t.x, 0, c); t.match(p, e); t.is(p.content, e == no ? none : c, "content"); }
	else { sp::basic_html_ident<T> p; t.x = word(s, "-:_.&;"); t.done({" ", ">", "=", "/>"}, "<>/= \"'x", ">"); size_t e = ident(t.x, 0); t.match(p, e); }
}
PBT_CHECK(html_values_and_names, 40000, 200000) { if (s.boolean()) html_parts<char>(s); else html_parts<wchar_t>(s); }
template<class T> static void condition(Src& s)
{
	auto f = [](Src& z) { str v = content(z, " !()|&"); while (v.size() && sps(v.back())) v.pop_back(); return "<![" + blanks(z) + v + blanks(z) + "["; }; text<T> t(s); sp::basic_html_declaration_condition_start<T> p; t.before(p, f); t.x = f(s); t.done({"x", "[", "]]>"}, "<![ x", "["); const str& x = t.x; iv c = none; size_t e = no; if (x.compare(0, 3, "<![") == 0) { size_t a = skip(x, 3), q = x.find('[', a); if (q != str::npos) { size_t b = q; while (b > a && sps(x[b - 1])) b--; c = {a, b}; e = q + 1; } } t.match(p, e); t.is(p.condition, c, "condition");
}
PBT_CHECK(html_condition, 30000, 200000) { if (s.boolean()) condition<char>(s); else condition<wchar_t>(s); }
PBT_MAIN("P09", "Tokens composed from any contents with every escape, followed by other text, truncated or mutated; recognised ones count as non-trivial. Oracle: the contents they were composed from, and reference readers.")
