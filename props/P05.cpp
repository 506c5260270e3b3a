// URLs and e-mail addresses against the components they were composed from, and against a reference reading of mutated text.
// SCALE: 4
#include "style.hpp"
using namespace pbt;

template<class T> using P = std::shared_ptr<sp::basic_parser<T>>;
using range = std::pair<size_t, size_t>; static const range none{1, 0};
static bool alnum(char c) { return isalnum(static_cast<unsigned char>(c)) != 0; }
static bool user_char(char c) { return c && (strchr("-._~%!$&'*+,;=", c) || alnum(c)); }
static bool pass_char(char c) { return c && (strchr("-._~%!$&'()*+,;=:", c) || alnum(c)); }
static bool path_char(char c) { return c && (strchr("/-._~%!$&'()*+,;=:@?#", c) || alnum(c)); }

// What a text falls apart into.
struct parts { bool ok = false; range all = none, http = none, ftp = none, mailto = none, file = none, user = none, pass = none, v4 = none, v6 = none, name = none, port = none, whole = none, path = none, query = none, mark = none; uint64_t port_v = 0; std::string host; };
struct ref
{
	std::string x; size_t p; bool absolute, fold;
	bool at(size_t i, const char* w) const { for (; *w; w++, i++) if (i >= x.size() || (x[i] != *w && !(fold && tolower(x[i]) == *w))) return false; return true; }
	size_t run(size_t i, bool (*f)(char)) const { while (i < x.size() && f(x[i])) i++; return i; }
	bool v4(size_t i, range& r) const { size_t a = i; for (int k = 0; k < 4; k++) { if (k) { if (!at(i, ".")) return false; i++; } unsigned v = 0; size_t b = i; while (i < x.size() && isdigit(static_cast<unsigned char>(x[i])) && v * 10 + static_cast<unsigned>(x[i] - '0') <= 255) v = v * 10 + static_cast<unsigned>(x[i++] - '0'); if (b == i) return false; } r = {a, i}; return true; }
	bool v6(size_t i, range& r) const // longest beginning; groups of any number of digits not over 0xffff
	{
		size_t a = i, n = 0; bool comp = false; auto group = [&](size_t& q) { size_t b = q, v = 0; while (q < x.size() && isxdigit(static_cast<unsigned char>(x[q])) && (fold || !isupper(static_cast<unsigned char>(x[q])))) { int c = tolower(x[q]); size_t d = static_cast<size_t>(c <= '9' ? c - '0' : c - 'a' + 10); if (v * 16 + d > 0xffff) break; v = v * 16 + d; q++; } return q > b; };
		if (at(i, "::")) { comp = true; i += 2; if (group(i)) n++; } else { if (!group(i)) return false; n = 1; }
		for (;;) { size_t q = i; if (!at(q, ":")) break; if (at(q, "::")) { if (comp || n > 7) break; comp = true; q += 2; i = q; if (n < 7 && group(q)) { n++; i = q; } continue; } if (i > a && x[i - 1] == ':') break; q++; if (n >= (comp ? 7u : 8u) || !group(q)) break; n++; i = q; }
		if (!comp && n < 8) return false; r = {a, i}; return true;
	}
	bool dns(size_t i, range& r) const { size_t a = i, e = i; for (int labels = 0; labels < 127; labels++) { if (i >= x.size() || !alnum(x[i])) break; size_t q = i; while (q < x.size() && (alnum(x[q]) || x[q] == '-')) q++; size_t l = q; while (x[l - 1] == '-') l--; e = l; if (l < q || !at(q, ".")) break; if (absolute) e = q + 1; i = q + 1; } r = {a, e}; return e > a; }
	bool host(size_t& i, parts& r, bool bracket4) const
	{
		range h; if (bracket4 ? at(i, "[") && v4(i + 1, h) && at(h.second, "]") : v4(i, h)) { r.v4 = h; i = h.second + (bracket4 ? 1 : 0); return true; }
		if (at(i, "[") && v6(i + 1, h) && at(h.second, "]")) { r.v6 = h; i = h.second + 1; return true; } if (dns(i, h)) { r.name = h; i = h.second; return true; } return false;
	}
	size_t path(size_t i, parts& r) const
	{
		size_t a = i; while (i < x.size() && x[i] != '?' && x[i] != '#' && path_char(x[i])) i++; if (i == a && !at(i, "?") && !at(i, "#")) return a; r.path = {a, i};
		if (at(i, "?")) { size_t q = ++i; while (i < x.size() && x[i] != '#' && path_char(x[i])) i++; r.query = {q, i}; } if (at(i, "#")) { size_t q = ++i; i = run(i, path_char); r.mark = {q, i}; } r.whole = {a, i}; return i;
	}
	parts email(size_t i) const { parts r; size_t a = i, u = run(i, user_char); if (u == i || !at(u, "@")) return r; r.user = {i, u}; i = u + 1; if (!host(i, r, true)) return parts(); r.ok = true; r.all = {a, i}; return r; }
	parts url() const
	{
		parts r; size_t i = p, a = p; bool ex = true, plain = false;
		if (at(i, "http://")) { r.http = {i, i + 4}; i += 7; } else if (at(i, "ftp://")) { r.ftp = {i, i + 3}; i += 6; }
		else if (at(i, "mailto:")) { parts m = email(i + 7); if (!m.ok) return parts(); m.mailto = {a, a + 6}; m.all.first = a; return m; }
		else if (at(i, "file://")) { r.file = {i, i + 4}; i = path(i + 7, r); r.ok = true; r.all = {a, i}; return r; } else { plain = true; ex = false; } (void)plain;
		if (ex) { size_t u = run(i, user_char); if (u > i) { if (at(u, ":")) { size_t w = run(u + 1, pass_char); if (w > u + 1 && at(w, "@")) { r.user = {i, u}; r.pass = {u + 1, w}; i = w + 1; } } else if (at(u, "@")) { r.user = {i, u}; i = u + 1; } } }
		if (!host(i, r, false)) return parts(); if (at(i, ":")) { size_t q = i + 1; while (q < x.size() && isdigit(static_cast<unsigned char>(x[q]))) q++; if (q > i + 1) { r.port = {i + 1, q}; r.port_v = strtoull(x.c_str() + i + 1, nullptr, 10); i = q; } }
		i = path(i, r); r.ok = true; r.all = {a, i}; return r;
	}
};

template<class T> struct grammar
{
	style<T> st; bool sgml; const std::locale& loc; P<T> lit(const char* x) { return st.lit(style<T>::w(x)); }
	P<T> many(P<T> c) { return std::make_shared<sp::basic_iterations<T>>(c, 1); }
	template<class N, class G> P<T> ch() { return nsp<N, G>(); }
	template<class N, class G> std::shared_ptr<N> nsp() { if constexpr (sizeof(T) == 1) if (sgml) return std::make_shared<G>(loc); return std::make_shared<N>(loc); }
	std::shared_ptr<sp::basic_ipv4_address<T>> v4; std::shared_ptr<sp::basic_ipv6_address<T>> v6; P<T> name, user, pass; std::shared_ptr<sp::basic_integer10<T>> port; std::shared_ptr<sp::basic_url_path<T>> path; P<T> http, ftp, mailto, file;
	std::shared_ptr<sp::basic_url<T>> url; std::shared_ptr<sp::basic_email_address<T>> email;
	grammar(bool sgml_, bool absolute) : st{sgml_ ? 2u : 0u}, sgml(sgml_), loc(std::locale::classic())
	{
		P<T> d[16]; for (int i = 0; i < 16; i++) d[i] = st.digit(i);
		v4 = std::make_shared<sp::basic_ipv4_address<T>>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], lit("."));
		v6 = std::make_shared<sp::basic_ipv6_address<T>>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15], lit(":"));
		std::shared_ptr<sp::basic_dns_domain_char<T>> c; if constexpr (sizeof(T) == 1) if (sgml) c = std::make_shared<sp::sgml_dns_domain_char>(true, loc); if (!c) c = std::make_shared<sp::basic_dns_domain_char<T>>(true, loc);
		name = std::make_shared<sp::basic_dns_name<T>>(absolute, c, lit(".")); user = many(ch<sp::basic_url_username_char<T>, sp::sgml_url_username_char>()); pass = many(ch<sp::basic_url_password_char<T>, sp::sgml_url_password_char>());
		port = st.int10(); path = std::make_shared<sp::basic_url_path<T>>(ch<sp::basic_url_path_char<T>, sp::sgml_url_path_char>(), lit("?"), lit("#")); http = lit("http"); ftp = lit("ftp"); mailto = lit("mailto"); file = lit("file");
		url = std::make_shared<sp::basic_url<T>>(http, ftp, mailto, file, lit(":"), lit("/"), user, pass, lit("@"), lit("["), lit("]"), v4, v6, name, port, path);
		email = std::make_shared<sp::basic_email_address<T>>(user, lit("@"), lit("["), lit("]"), v4, v6, name);
	}
};
static std::string word(Src& s, const char* al, size_t max, size_t min = 1) { std::string r; size_t n = min + s.draw(max - min), k = strlen(al); for (size_t i = 0; i < n; i++) r += s.chance(2, 3) ? "abcxyz019"[s.draw(8)] : al[s.draw(k - 1)]; return r; }
static std::string domain(Src& s) { std::string r; size_t n = 1 + s.draw(3); for (size_t i = 0; i < n; i++) { if (i) r += '.'; std::string l = word(s, "AZ-", 8); l[0] = "abxZ"[s.draw(3)]; if (l.back() == '-') l.back() = '7'; r += l; } return r; }
static std::string ip4(Src& s) { std::string r; for (int i = 0; i < 4; i++) { if (i) r += '.'; r += std::to_string(s.boolean() ? s.draw(255) : s.draw(25) * 10); } return r; }
static std::string ip6(Src& s) { static const std::vector<std::string> v = {"::1", "fe80::1", "::", "1:2:3:4:5:6:7:8", "2001:db8::ff00:42:8329", "1::8", "0:0:0:0:0:0:0:0"}; return s.pick(v); }

// Compose, and note where each component is.
struct composed { std::string x; parts r; size_t put(const std::string& w, range& at) { at = {x.size(), x.size() + w.size()}; x += w; return x.size(); } };
static void put_path(Src& s, composed& c, bool must)
{
	static const char* al = "-._~%!$&'()*+,;=:@/"; unsigned k = static_cast<unsigned>(s.draw(7)); if (must && !k) k = 1; if (!k) return; size_t a = c.x.size();
	c.put(k & 1 ? "/" + word(s, al, 12, 0) : "", c.r.path); if (k & 2) { c.x += "?"; c.put(word(s, "-._~%!$&'()*+,;=:@/?", 12, 0), c.r.query); } if (k & 4) { c.x += "#"; c.put(word(s, "-._~%!$&'()*+,;=:@/?#", 12, 0), c.r.mark); } c.r.whole = {a, c.x.size()};
}
static void put_host(Src& s, composed& c, bool mail) { switch (s.draw(2)) { case 0: c.put(domain(s), c.r.name); break; case 1: if (mail) c.x += "["; c.put(ip4(s), c.r.v4); if (mail) c.x += "]"; break; default: c.x += "["; c.put(ip6(s), c.r.v6); c.x += "]"; } }
static composed compose(Src& s, bool mail)
{
	composed c; static const char* ual = "-._~%!$&'*+,;="; c.r.ok = true;
	unsigned scheme = static_cast<unsigned>(mail ? 5 : s.draw(4)); auto sch = [&](const char* w, const char* after, range& at) { c.put(w, at); c.x += after; };
	switch (scheme) { case 1: sch("http", "://", c.r.http); break; case 2: sch("ftp", "://", c.r.ftp); break; case 3: sch("mailto", ":", c.r.mailto); break; case 4: sch("file", "://", c.r.file); break; default:; }
	if (scheme == 4) put_path(s, c, false); else if (scheme == 3 || scheme == 5) { c.put(word(s, ual, 10), c.r.user); c.x += "@"; put_host(s, c, true); }
	else {
		if (scheme && s.boolean()) { c.put(word(s, ual, 10), c.r.user); if (s.boolean()) { c.x += ":"; c.put(word(s, "-._~%!$&'()*+,;=:", 10), c.r.pass); } c.x += "@"; }
		put_host(s, c, false); if (s.boolean()) { c.x += ":"; c.r.port_v = s.boolean() ? s.draw(65535) : s.pick<uint64_t>({0, 1, 80, 443, 8080, 65535}); c.put(std::to_string(c.r.port_v), c.r.port); } put_path(s, c, false);
	}
	c.r.all = {0, c.x.size()}; return c;
}
static void mutate(Src& s, std::string& x) { static const std::string al = "a1:/@[]?#. -%"; for (size_t k = 1 + s.draw(2); k--;) switch (s.draw(2)) { case 0: if (x.size()) x.erase(s.draw(x.size() - 1), 1); break; case 1: x.insert(s.draw(x.size()), 1, al[s.draw(al.size() - 1)]); break; default: if (x.size()) x[s.draw(x.size() - 1)] = al[s.draw(al.size() - 1)]; } }

template<class T> static void run(Src& s, bool mail)
{
	bool sgml = sizeof(T) == 1 && s.chance(1, 3), absolute = s.chance(1, 4), mutated = s.chance(1, 2); int flags = s.chance(1, 4) ? stdex::parser::match_case_insensitive : stdex::parser::match_default;
	composed c = compose(s, mail); std::string x = c.x; if (mutated) mutate(s, x); if (flags) for (char& ch : x) if (s.chance(1, 4)) ch = static_cast<char>(toupper(ch));
	if (!mutated) x += s.pick(std::vector<std::string>{"", " ", "\"", "<b", "\n", ">", " .", "|/x"});
	for (size_t i = 0, r = 0; i < x.size(); i++) { r = isxdigit(static_cast<unsigned char>(x[i])) ? r + 1 : 0; if (mutated && r > 18 && x.find_first_not_of("0123456789", i - 18) > i) throw discard_t{}; }
	ref f{x, 0, absolute, flags != 0}; parts r = mail ? f.email(0) : f.url(); if (!mutated && !(absolute && c.x.back() == '.')) { // reference agrees with the composition
		PBT_REQUIRE(r.ok == c.r.ok && r.all == c.r.all && r.http == c.r.http && r.ftp == c.r.ftp && r.mailto == c.r.mailto && r.file == c.r.file && r.user == c.r.user && r.pass == c.r.pass && r.v4 == c.r.v4 && r.v6 == c.r.v6 && r.name == c.r.name && r.port == c.r.port && r.port_v == c.r.port_v && r.whole == c.r.whole && r.path == c.r.path && r.query == c.r.query && r.mark == c.r.mark, "reference is wrong about " + show(x)); }
	grammar<T> g(sgml, absolute); P<T> p = mail ? P<T>(g.email) : P<T>(g.url);
	if (s.chance(1, 2)) { composed o = compose(s, mail); std::string y = o.x; if (s.chance(1, 3)) mutate(s, y); auto w = style<T>::w(y); p->match(w.data(), 0, w.size()); } // an earlier use leaves nothing behind
	spelled<T> t(s, sgml, x, "/x.y:1"); bool b = p->match(t.e->get(), t.pre, t.end, flags); PBT_EQ(b, r.ok, "match");
	auto is = [&](const stdex::interval<size_t>& i, const range& e, const char* what) { if (e == none) PBT_REQUIRE(!i, std::string(what) + " reported, though absent"); else t.iv(i, e.first, e.second, what); };
	is(p->interval, r.all, "whole"); is(g.user->interval, r.user, "user name"); is(g.v4->interval, r.v4, "IPv4 host"); is(g.v6->interval, r.v6, "IPv6 host"); is(g.name->interval, r.name, "host name");
	if (!mail) { is(g.http->interval, r.http, "http"); is(g.ftp->interval, r.ftp, "ftp"); is(g.mailto->interval, r.mailto, "mailto"); is(g.file->interval, r.file, "file"); is(g.pass->interval, r.pass, "password"); is(g.port->interval, r.port, "port"); if (r.port != none) PBT_EQ(g.port->value, r.port_v, "port"); is(g.path->interval, r.whole, "path as a whole"); is(g.path->path, r.path, "path"); is(g.path->query, r.query, "query"); is(g.path->bookmark, r.mark, "bookmark"); }
	s.nontrivial(r.ok); s.label(mutated ? r.ok ? "recognised after mutation" : "rejected after mutation" : "composed"); s.label_if(r.user != none && r.port != none && r.query != none, "many parts");
}
PBT_CHECK(url, 80000, 800000) { if (s.boolean()) run<char>(s, false); else run<wchar_t>(s, false); }
PBT_CHECK(email, 40000, 400000) { if (s.boolean()) run<char>(s, true); else run<wchar_t>(s, true); }

// A path on its own.
template<class T> static void path(Src& s)
{
	bool sgml = sizeof(T) == 1 && s.chance(1, 3); composed c; put_path(s, c, true); std::string x = c.x; if (s.boolean()) mutate(s, x); grammar<T> g(sgml, false); if (s.boolean()) { auto w = style<T>::w(s.pick(std::vector<std::string>{"/a?b#c", "?", "#x", "<"})); g.path->match(w.data(), 0, w.size()); }
	ref f{x, 0, false, false}; parts r; f.path(0, r); spelled<T> t(s, sgml, x, "?x#y"); PBT_EQ(g.path->match(t.e->get(), t.pre, t.end), r.whole != none, "match");
	auto is = [&](const stdex::interval<size_t>& i, const range& e, const char* what) { if (e == none) PBT_REQUIRE(!i, std::string(what) + " reported, though absent"); else t.iv(i, e.first, e.second, what); };
	is(g.path->interval, r.whole, "whole"); is(g.path->path, r.path, "path"); is(g.path->query, r.query, "query"); is(g.path->bookmark, r.mark, "bookmark"); s.nontrivial(r.query != none || r.mark != none);
}
PBT_CHECK(url_path, 40000, 400000) { if (s.boolean()) path<char>(s); else path<wchar_t>(s); }
PBT_MAIN("P05", "URLs and e-mail addresses composed from random components, or mutated; recognised ones count as non-trivial. Oracle: the composition, and a reference reader of mutated text.")
