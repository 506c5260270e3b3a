// Every parser over arbitrary text and ranges: within bounds, terminating, deterministic, fresh or reused, narrow or wide.
// SCALE: 4
#include "style.hpp"
using namespace pbt;

// Everything a parser reports, positions relative to where it started.
#define MEMBERS(M) M(hit_offset) M(value) M(digit_count) M(has_separators) M(numerator) M(fraction_line) M(denominator) M(home) M(separator) M(guest) M(positive_sign) M(negative_sign) M(special_sign) M(number) M(integer) M(fraction) M(decimal_separator) M(decimal) M(exponent_symbol) M(positive_exp_sign) M(negative_exp_sign) M(exponent) M(currency) M(components) M(scope_id) M(path) M(query) M(bookmark) M(http_scheme) M(ftp_scheme) M(mailto_scheme) M(file_scheme) M(username) M(password) M(ipv4_host) M(ipv6_host) M(dns_host) M(port) M(emoticon) M(apex) M(eyes) M(nose) M(mouth) M(format) M(day) M(month) M(year) M(hour) M(minute) M(second) M(millisecond) M(degree) M(degree_separator) M(minute_separator) M(second_separator) M(country) M(check_digits) M(bban) M(is_valid) M(reference) M(model) M(part1) M(part2) M(part3) M(has_digits) M(has_charge) M(content) M(string) M(token) M(name) M(type) M(subtype) M(params) M(segments) M(server) M(asterisk) M(factor) M(version) M(version_maj) M(version_min) M(verb) M(url) M(protocol) M(base_type) M(sub_type) M(charset) M(attributes) M(condition)
#define HAS(m) template<class X, class = void> struct has_##m : std::false_type {}; template<class X> struct has_##m<X, std::void_t<decltype(std::declval<X&>().m)>> : std::true_type {};
MEMBERS(HAS)
template<class X, class = void> struct is_list : std::false_type {}; template<class X> struct is_list<X, std::void_t<decltype(std::declval<X&>().begin())>> : std::true_type {};
template<class X> struct is_ptr : std::false_type {}; template<class X> struct is_ptr<std::shared_ptr<X>> : std::true_type {};
struct dumper
{
	std::string o; size_t base, lo, hi;
	void iv(const stdex::interval<size_t>& i) { if (!i) { o += '-'; return; } if (i.start < lo || i.end > hi) fail("interval outside of the range: " + show(i.start) + " to " + show(i.end)); o += std::to_string(i.start - base) + ":" + std::to_string(i.end - base); }
	template<class X> void put(const X& x)
	{
		if constexpr (std::is_same_v<X, stdex::interval<size_t>>) iv(x);
		else if constexpr (std::is_enum_v<X>) o += std::to_string(static_cast<long long>(x)); else if constexpr (std::is_arithmetic_v<X>) o += std::to_string(x);
		else if constexpr (std::is_array_v<X>) { using E = std::remove_extent_t<X>; for (auto& y : x) { if constexpr (std::is_integral_v<E>) if (!y) break; put(y); o += ','; } }
		else if constexpr (is_ptr<X>::value) { if (x) put(*x); else o += "null"; }
		else if constexpr (std::is_same_v<X, in_addr> || std::is_same_v<X, in6_addr>) { auto b = reinterpret_cast<const unsigned char*>(&x); for (size_t i = 0; i < sizeof x; i++) o += std::to_string(b[i]) + "."; }
		else if constexpr (is_list<X>::value) { for (auto& y : x) { if constexpr (std::is_integral_v<std::decay_t<decltype(y)>>) o += std::to_string(static_cast<long long>(y)); else put(y); o += ','; } }
		else if constexpr (std::is_same_v<X, sp::html_attribute>) { iv(x.name); o += '='; iv(x.value); }
		else { iv(x.interval); if (x.interval) {
#define PUT(m) if constexpr (has_##m<const X>::value) { o += " " #m "("; put(x.m); o += ')'; }
			MEMBERS(PUT) } }
	}
};

template<class T> struct subject { const char* family; bool wide = true, behind = false; std::shared_ptr<sp::basic_parser<T>> p; std::function<void(dumper&)> dump; };
template<class T> struct factory
{
	style<T> st; subject<T> r; factory(unsigned mode) : st{mode} {}
	using P = std::shared_ptr<sp::basic_parser<T>>; bool sgml() const { return st.mode == 2; }
	P lit(const char* x) const { return st.lit(style<T>::w(x)); }
	template<class N, class G> P ns() const { if constexpr (sizeof(T) == 1) if (st.mode == 2) return std::make_shared<G>(); return std::make_shared<N>(); }
	typename style<T>::S set(const char* x) const { if constexpr (sizeof(T) == 1) if (st.mode == 2) return std::make_shared<sp::sgml_cp_set>(x); return std::make_shared<sp::basic_cu_set<T>>(style<T>::w(x).c_str()); }
	P many(P p, size_t lo = 1) const { return std::make_shared<sp::basic_iterations<T>>(p, lo); }
	P alts(std::vector<P> v) const { return std::make_shared<sp::basic_branch<T>>(std::move(v)); }
	template<class X> subject<T> is(const char* family, std::shared_ptr<X> x) { r.family = family; r.p = x; r.dump = [x](dumper& d) { d.put(*x); }; return r; }
	template<class X, class... A> subject<T> mk(const char* family, A&&... a) { return is(family, std::make_shared<X>(std::forward<A>(a)...)); }
	template<class X> subject<T> http(const char* family = "http") { r.wide = false; if constexpr (sizeof(T) == 1) return is(family, std::make_shared<X>()); else throw discard_t{}; }
	P any() const { return ns<sp::basic_any_cu<T>, sp::sgml_any_cp>(); }
	auto v4() const { return std::make_shared<sp::basic_ipv4_address<T>>(st.digit(0), st.digit(1), st.digit(2), st.digit(3), st.digit(4), st.digit(5), st.digit(6), st.digit(7), st.digit(8), st.digit(9), lit(".")); }
	auto v6(bool scope) const { return std::make_shared<sp::basic_ipv6_address<T>>(st.digit(0), st.digit(1), st.digit(2), st.digit(3), st.digit(4), st.digit(5), st.digit(6), st.digit(7), st.digit(8), st.digit(9), st.digit(10), st.digit(11), st.digit(12), st.digit(13), st.digit(14), st.digit(15), lit(":"), scope ? lit("%") : nullptr, scope ? many(ns<sp::basic_ipv6_scope_id_char<T>, sp::sgml_ipv6_scope_id_char>()) : nullptr); }
	P dns() const { std::shared_ptr<sp::basic_dns_domain_char<T>> c; if constexpr (sizeof(T) == 1) if (st.mode == 2) c = std::make_shared<sp::sgml_dns_domain_char>(true); if (!c) c = std::make_shared<sp::basic_dns_domain_char<T>>(true); return std::make_shared<sp::basic_dns_name<T>>(true, c, lit(".")); }
	P user() const { return many(ns<sp::basic_url_username_char<T>, sp::sgml_url_username_char>()); } P pass() const { return many(ns<sp::basic_url_password_char<T>, sp::sgml_url_password_char>()); }
	auto path() const { return std::make_shared<sp::basic_url_path<T>>(ns<sp::basic_url_path_char<T>, sp::sgml_url_path_char>(), lit("?"), lit("#")); }
	P digit() const { std::vector<P> v; for (int i = 0; i < 10; i++) v.push_back(st.digit(i)); return alts(v); }
	static constexpr unsigned count = 88;
	subject<T> make(unsigned k)
	{
		r = {}; switch (k) {
		case 0: return mk<sp::basic_noop<T>>("any"); case 1: return is("any", ns<sp::basic_any_cu<T>, sp::sgml_any_cp>()); case 2: return is("any", std::static_pointer_cast<sp::basic_parser<T>>(lit("a"))); case 3: return is("any", ns<sp::basic_space_cu<T>, sp::sgml_space_cp>()); case 4: return is("any", ns<sp::basic_punct_cu<T>, sp::sgml_punct_cp>()); case 5: return is("any", ns<sp::basic_space_or_punct_cu<T>, sp::sgml_space_or_punct_cp>());
		case 6: r.behind = true; return mk<sp::basic_bol<T>>("any"); case 7: r.behind = true; return mk<sp::basic_eol<T>>("any"); case 8: return is("any", set("ab1 ")); case 9: return is("any", lit("ab")); case 10: return mk<sp::basic_iterations<T>>("any", lit("a"), 1, 3, false); case 11: return mk<sp::basic_iterations<T>>("any", any(), 0);
		case 12: { std::vector<P> v{lit("a"), lit("b"), lit("1")}; return mk<sp::basic_sequence<T>>("any", std::move(v)); } case 13: { std::vector<P> v{lit("a"), lit("ab"), lit("1")}; return mk<sp::basic_branch<T>>("any", std::move(v)); } case 14: { std::vector<P> v{lit("a"), lit("b"), lit("1")}; return mk<sp::basic_permutation<T>>("any", std::move(v)); } case 15: { auto a = style<T>::w("ab"), b = style<T>::w("a"); return mk<sp::basic_string_branch<T>>("any", std::locale::classic(), a.c_str(), b.c_str(), static_cast<const T*>(nullptr)); }
		case 16: return is("num", st.int10()); case 17: return is("num", st.int10ts()); case 18: return is("num", st.int16()); case 19: return mk<sp::basic_roman_numeral<T>>("num", lit("I"), lit("V"), lit("X"), lit("L"), lit("C"), lit("D"), lit("M"), nullptr, nullptr);
		case 20: return mk<sp::basic_fraction<T>>("num", st.int10(), lit("/"), st.int10()); case 21: return mk<sp::basic_score<T>>("num", st.int10(), lit(":"), st.int10(), st.space()); case 22: return mk<sp::basic_signed_numeral<T>>("num", st.sign('p'), st.sign('m'), st.sign('s'), st.int10()); case 23: return mk<sp::basic_mixed_numeral<T>>("num", st.sign('p'), st.sign('m'), st.sign('s'), st.int10(), st.space(), std::make_shared<sp::basic_fraction<T>>(st.int10(), lit("/"), st.int10()));
		case 24: return mk<sp::basic_scientific_numeral<T>>("num", st.sign('p'), st.sign('m'), st.sign('s'), st.int10(), lit("."), st.int10(), lit("E"), st.sign('p'), st.sign('m'), st.int10()); case 25: return mk<sp::basic_monetary_numeral<T>>("num", st.sign('p'), st.sign('m'), st.sign('s'), lit("$"), st.int10(), lit("."), st.int10());
		case 26: return is("net", v4()); case 27: return is("net", v6(false)); case 28: return is("net", v6(true)); case 29: return is("net", dns()); case 30: return is("net", ns<sp::basic_ipv6_scope_id_char<T>, sp::sgml_ipv6_scope_id_char>());
		case 31: return is("url", ns<sp::basic_url_username_char<T>, sp::sgml_url_username_char>()); case 32: return is("url", ns<sp::basic_url_password_char<T>, sp::sgml_url_password_char>()); case 33: return is("url", ns<sp::basic_url_path_char<T>, sp::sgml_url_path_char>()); case 34: return is("url", path());
		case 35: case 36: return mk<sp::basic_url<T>>("url", lit("http"), lit("ftp"), lit("mailto"), lit("file"), lit(":"), lit("/"), user(), pass(), lit("@"), lit("["), lit("]"), v4(), v6(k == 36), dns(), st.int10(), path()); case 37: return mk<sp::basic_email_address<T>>("url", user(), lit("@"), lit("["), lit("]"), v4(), v6(false), dns());
		case 38: return mk<sp::basic_emoticon<T>>("emo", alts({lit("<3"), lit("^^")}), lit("O"), set(":;8"), lit("-"), set(")(P")); case 39: return mk<sp::basic_emoticon<T>>("emo", nullptr, nullptr, set(":;8"), nullptr, set(")(P"));
		case 40: case 41: return mk<sp::basic_date<T>>("date", k == 40 ? 127 : static_cast<int>(sp::date_format_ymd), st.int10(), st.int10(), st.int10(), set("./-"), st.space()); case 42: return mk<sp::basic_time<T>>("date", st.int10(), st.int10(), st.int10(), st.int10(), set(":."), lit(".")); case 43: return mk<sp::basic_time<T>>("date", st.int10(), st.int10(), nullptr, nullptr, set(":"), nullptr);
		case 44: return mk<sp::basic_angle<T>>("date", st.int10(), lit("*"), st.int10(), lit("'"), st.int10(), lit("\""), alts({lit(".5"), lit(".")})); case 45: return mk<sp::basic_phone_number<T>>("date", digit(), lit("+"), set("(["), set(")]"), lit("-"), st.space());
		case 46: return mk<sp::basic_iban<T>>("ref", st.space()); case 47: return mk<sp::basic_creditor_reference<T>>("ref", st.space()); case 48: return mk<sp::basic_si_reference<T>>("ref", st.space()); case 49: return mk<sp::basic_si_reference_part<T>>("ref"); case 50: return mk<sp::basic_si_reference_delimiter<T>>("ref"); case 51: return mk<sp::basic_iban<T>>("ref", nullptr); case 52: return mk<sp::basic_creditor_reference<T>>("ref", nullptr); case 53: return mk<sp::basic_si_reference<T>>("ref", nullptr);
		case 54: return mk<sp::basic_chemical_formula<T>>("chem", alts({lit("He"), lit("H"), lit("O"), lit("C")}), digit(), alts({lit("+"), lit("-")}));
		case 55: return http<sp::http_line_break>(); case 56: return http<sp::http_space>(); case 57: return http<sp::http_text_char>(); case 58: return http<sp::http_token>(); case 59: return http<sp::http_quoted_string>(); case 60: return http<sp::http_value>(); case 61: return http<sp::http_parameter>(); case 62: return http<sp::http_any_type>(); case 63: return http<sp::http_media_range>(); case 64: return http<sp::http_media_type>(); case 65: return http<sp::http_url_server>(); case 66: return http<sp::http_url_port>(); case 67: return http<sp::http_url_path_segment>(); case 68: return http<sp::http_url_path>(); case 69: return http<sp::http_url_parameter>(); case 70: return http<sp::http_url>(); case 71: return http<sp::http_language>(); case 72: return http<sp::http_weight>(); case 73: return http<sp::http_asterisk>(); case 74: return http<sp::http_weighted_value<sp::http_language>>(); case 75: return http<sp::http_cookie>(); case 76: return http<sp::http_agent>(); case 77: return http<sp::http_protocol>(); case 78: return http<sp::http_request>(); case 79: return http<sp::http_header>(); case 80: return http<sp::http_cookie_parameter>();
		case 81: return mk<sp::basic_json_string<T>>("css", lit("\""), any(), lit("\\"), lit("/"), lit("b"), lit("f"), lit("n"), lit("r"), lit("t"), lit("u"), std::static_pointer_cast<sp::basic_integer16<T>>(st.int16()));
		case 82: return mk<sp::basic_css_comment<T>>("css"); case 83: return mk<sp::basic_css_string<T>>("css"); case 84: return mk<sp::basic_css_uri<T>>("css"); case 85: return mk<sp::basic_css_import<T>>("css"); case 86: return mk<sp::basic_mime_type<T>>("http"); case 87: return mk<sp::basic_html_tag<T>>("html"); case 88: return mk<sp::basic_html_declaration_condition_start<T>>("html");
		} return r;
	}
};
using pieces = std::vector<std::string>;
static const pieces& family(const std::string& f)
{
	static const pieces any{"ab1", "ba1", "a", "b", "ab", "1", " ", "\n", "\r\n", "AB", "."}, num{"1/2", "3:4", "12 : 5", "$5.20", "-7", "2 3/4", "1.5E+10", "0", "12", "345", "1,234", ",567", "1.5", "/", "-", "+", "~", "E", "MCMXC", "IV", "X", "$", ":", " ", "_", "ff"}, net{"fe80::1%eth0", "1:2:3:4:5:6:7:8", "a.b.c.", "1.2.3.4", "fe80", "::", ":", "1", "%eth0", "www.", "a-b", ".com", ".", "255", "-", "ffff", "256"}, url{"http://user:pw@host.si:80/a?b#c", "a@b.si", "ftp://u@h", "[::1]", "mailto:a@b.c", "http", "://", "user", "@", "pw", ":", "[", "]", "/", "?", "#", "host.si", "ftp", "mailto:", "file:", "80", "%20", "::1", "1.2.3.4", "65536"}, date{"1.2.2003", "2024-02-29", "12:30:15.5", "7:05", "45*30'15\"", "28. 2. ", "31/4", "+386 1 234-56", "1", "12", "31", "2024", ".", "/", "-", ":", "59", " ", "*", "'", "\"", "+", "386", "(", "01", ")", "02", "29"},
		ref{"SI56", "RF18", "RF", "SI", "00", "12", "99", "191000000123438", " ", "-", "5390", "0754", "7034", "GB82 WEST 1234 5698 7654 32", "01", "AT611904300234573201", "4"}, http{"\"quoted\"", "GET /a?b=c HTTP/1.1\r\n", "text/html;charset=utf-8", "en-US;q=0.5", "*", "a=b; $Path=\"x\"", "Host: x\r\n y\r\n", "http://h:80/p/q?r=s&t", "GET", " ", "/", "HTTP/1.1", "\r\n", ":", ";", "q=0.5", "\"", "\\", "text", "/html", ",", "en-US", "*", "=", "name", "$Version=1", "Mozilla/5.0", "?a=b&c", "localhost", "//", "8080", "%41", "charset=", "\t", "x"}, css{"/* a */", "url( \"x\" )", "url(a)", "@import 'x'", "\"a\\nb\"", "'c\\'d'", "\"", "/*", "*/", "\"", "'", "\\", "url(", ")", "@import", "<!--", "-->", " ", "a", "\\\"", "\\u00e9", "\\n", "\\ud800", "\n", "("}, html{"<![if a[", "<a b=c d=\"e\">", "</a>", "<br/>", "<!-- c -->", "<?x?>", "<!D e>", "<", "p", ">", "</", "/>", "<!--", "--", "-->", "<![", "[", "]]>", "=", "\"", "'", "?", "<?", "?>", "!", "<!", " ", "a", "a=b", "\n", "/"}, emo{":", "-", ")", "O", "(", "P", ";", "<3", "^^", "8", "))"}, chem{"H", "2", "O", "+", "-", "C", "He", "10", "e"};
	return f == "num" ? num : f == "net" ? net : f == "url" ? url : f == "date" ? date : f == "ref" ? ref : f == "http" ? http : f == "css" ? css : f == "html" ? html : f == "emo" ? emo : f == "chem" ? chem : any;
}
static std::string gen(Src& s, const char* f, bool sgml)
{
	std::string x; size_t n = s.len(12); static const pieces entities{"&amp;", "&#49;", "&#x41;", "&", "&lt;", "&#32;", "&nosuch;", "&#", ";", "&period;"}; for (size_t i = 0; i < n; i++) { unsigned w = static_cast<unsigned>(s.draw(19)); if (w < 16) x += s.pick(family(f)); else if (w == 16) x += s.pick(family(s.pick(pieces{"any", "num", "net", "url", "date", "ref", "http", "css", "html"}))); else if (w == 17 && sgml) x += s.pick(entities); else x += static_cast<char>(s.range(1, 127)); } return x;
}
template<class T> struct result_ { bool ok; std::string d; };
template<class T> static result_<T> run(subject<T>& j, const T* t, size_t start, size_t end, size_t hi, int flags)
{
	bool ok = j.p->match(t, start, end, flags); auto& i = j.p->interval; if (!ok) { PBT_REQUIRE(!i, "interval reported after failure: " + show(i.start) + " to " + show(i.end)); return {false, ""}; }
	PBT_EQ(i.start, start, "start"); PBT_REQUIRE(i.end >= start && i.end <= std::max(hi, start), "end outside of the range: " + show(i.end)); dumper d{"", start, start, std::max(hi, start)}; j.dump(d); return {true, d.o};
}
#define SAME(a, b, what) do { auto x_ = (a); auto y_ = (b); PBT_EQ(x_.ok, y_.ok, what); PBT_EQ(x_.d, y_.d, what); } while (0)
template<class T> static void one(Src& s)
{
	unsigned k = static_cast<unsigned>(s.draw(factory<T>::count)), mode = sizeof(T) > 1 ? 0u : s.chance(1, 3) ? 2u : 0u; if (sizeof(T) > 1 && k >= 55 && k <= 80) k -= 30; factory<T> f(mode); auto j = f.make(k); if (!j.p) fail("no parser " + show(k));
	std::string x = gen(s, j.family, mode == 2), pre = s.chance(1, 3) ? gen(s, j.family, mode == 2) : ""; if (mode == 2 && !pre.empty()) pre += ' '; std::basic_string<T> w(x.begin(), x.end()), q(pre.begin(), pre.end()); bool ascii = true; if (s.chance(1, 4)) { ascii = false; w.insert(s.draw(w.size()), 1, sizeof(T) > 1 ? static_cast<T>(s.pick<uint32_t>({0xa0, 0xe9, 0x660, 0x2212, 0x10400, 0xfeff})) : static_cast<T>(s.range(128, 255))); } if (s.chance(1, 2) && w.size() > 1) { size_t c = s.draw(w.size()); w.resize(c); x.resize(std::min(x.size(), c)); }
	int flags = static_cast<int>(s.pick<int>({0, sp::match_case_insensitive, sp::match_multiline, sp::match_case_insensitive | sp::match_multiline})); s.note([&] { return "parser " + show(k) + (mode ? " SGML" : "") + (sizeof(T) > 1 ? " wide" : "") + " text " + show(w) + " behind " + show(q) + " flags " + show(flags); });
	size_t n = w.size(); exact<T> e(w.data(), n); auto r = run(j, e.get(), 0, n, n, flags); s.nontrivial(r.ok); if (r.ok) s.label("parser " + show(k));
	// terminated, and with anything after the terminator
	{ std::basic_string<T> z = w; z += T(0); exact<T> t(z.data(), z.size()); auto g = f.make(k); SAME(run(g, t.get(), 0, SIZE_MAX, n, flags), r, "terminated"); std::string y = gen(s, j.family, mode == 2); z += std::basic_string<T>(y.begin(), y.end()); exact<T> u(z.data(), z.size()); SAME(run(g, u.get(), 0, z.size(), n, flags), r, "after the terminator, parser used before"); }
	// used before, other text in front
	{ auto g = f.make(k); for (size_t c = s.draw(2); c--;) { std::string y = gen(s, j.family, mode == 2); std::basic_string<T> z(y.begin(), y.end()); exact<T> t(z.data(), z.size()); run(g, t.get(), 0, z.size(), z.size(), flags); } if (!j.behind) { auto z = q + w; exact<T> t(z.data(), z.size()); SAME(run(g, t.get(), q.size(), z.size(), z.size(), flags), r, "used before, further in the text"); } else SAME(run(g, e.get(), 0, n, n, flags), r, "used before"); if (s.boolean()) { g.p->invalidate(); PBT_REQUIRE(!g.p->interval, "invalidate"); SAME(run(g, e.get(), 0, n, n, flags), r, "invalidated"); } }
	// a shorter range of the text is all there is
	if (n) { size_t c = s.draw(n - 1); exact<T> t(w.data(), c); auto g = f.make(k); auto h = f.make(k); auto a = run(g, t.get(), 0, c, c, flags); SAME(run(h, e.get(), 0, c, c, flags), a, "shorter range"); }
	// empty and reversed ranges
	{ auto g = f.make(k); size_t from = s.draw(n), to = s.draw(from); if (s.boolean()) to = from; bool null = from == 0 && s.boolean(); auto a = run(g, null ? nullptr : e.get() , from, to, from, flags); (void)a; s.label_if(to < from, "reversed range"); }
	if (sizeof(T) == 1 && mode == 0 && ascii && j.wide) { factory<wchar_t> v(0); auto g = v.make(k); std::wstring z(w.begin(), w.end()); exact<wchar_t> t(z.data(), z.size()); auto a = run(g, t.get(), 0, n, n, flags); PBT_EQ(a.ok, r.ok, "wide"); if (k != 81) PBT_EQ(a.d, r.d, "wide"); }
}
PBT_CHECK(any_text, 200000, 2000000) { if (s.chance(2, 3)) one<char>(s); else one<wchar_t>(s); }

// Code units of any value, any parser: bounds and termination only.
template<class T> static void wild(Src& s)
{
	unsigned k = static_cast<unsigned>(s.draw(factory<T>::count)); if (sizeof(T) > 1 && k >= 55 && k <= 80) k -= 30; factory<T> f(sizeof(T) > 1 ? 0u : s.boolean() ? 2u : 0u); auto j = f.make(k); std::basic_string<T> w; size_t n = s.len(20); for (size_t i = 0; i < n; i++) { if (s.chance(2, 3)) { std::string y = s.pick(family(j.family)); w.append(y.begin(), y.end()); } else if (sizeof(T) == 1) w += static_cast<T>(s.draw(255)); else w += static_cast<T>(s.boolean() ? s.draw(0x10ffff) : s.draw(255)); }
	size_t a = s.draw(w.size()), b = s.draw(w.size()); if (s.chance(3, 4)) { a = s.chance(2, 3) ? 0 : a; b = s.chance(2, 3) ? w.size() : std::max(a, b); } exact<T> e(w.data(), w.size()); s.note([&] { return "parser " + show(k) + " " + show(w) + " from " + show(a) + " to " + show(b); }); bool term = s.chance(1, 4); if (term) { w += T(0); exact<T> t(w.data(), w.size()); auto r = run(j, t.get(), std::min(a, w.size() - 1), SIZE_MAX, w.size() - 1, 0); s.nontrivial(r.ok); return; } auto r = run(j, e.get(), a, b, std::max(a, b), sp::match_multiline); s.nontrivial(r.ok);
}
PBT_CHECK(any_code_units, 150000, 1500000) { if (s.boolean()) wild<char>(s); else wild<wchar_t>(s); }
PBT_MAIN("P01", "One of 89 parsers over pieces of its language, other text and arbitrary code units, in ranges of every kind; cases it recognises something in count as non-trivial. Oracle: intervals within the range, the same result however the text is delimited, surrounded and widened, and whatever was matched before.")
