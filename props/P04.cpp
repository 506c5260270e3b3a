// IPv4 and IPv6 addresses against the C library, and against a reference reading of arbitrary text; domain names against a reference reading.
// SCALE: 4
#include "style.hpp"
#include <arpa/inet.h>
using namespace pbt;

template<class T> using str = std::basic_string<T>;
template<class T> static str<T> W(const std::string& x) { return str<T>(x.begin(), x.end()); }
// Text, respelled: pos[i] is where character i of the plain text starts.
template<class T> struct text_
{
	str<T> t; std::vector<size_t> pos; size_t n, end, pre = 0; std::unique_ptr<exact<T>> e; std::string plain;
	text_(Src& s, const style<T>& st, const std::string& p) : plain(p)
	{
		if (s.chance(1, 4)) { t = W<T>("1:2.3 "); pre = t.size(); }
		for (char c : p) { pos.push_back(t.size()); tok k{c, 0, 0, 0}; if (isxdigit(static_cast<unsigned char>(c)) && !isupper(static_cast<unsigned char>(c))) { k.k = 'd'; k.v = c <= '9' ? c - '0' : c - 'a' + 10; t += st.spell(s, k); } else if (st.mode == 2 && c == '.' && s.chance(1, 3)) t += W<T>("&period;"); else if (st.mode == 2 && c == ':' && s.chance(1, 3)) t += W<T>("&colon;"); else t += static_cast<T>(c); }
		pos.push_back(t.size()); n = end = t.size(); if (s.chance(1, 3)) { t += T(0); end = s.boolean() ? SIZE_MAX : n + 1; } else if (s.chance(1, 3)) t += W<T>("::1.2.3.4");
		e = std::make_unique<exact<T>>(t.data(), t.size()); s.note([&] { return "\"" + plain + "\" spelled " + show(st.mode) + (sizeof(T) > 1 ? " wide" : "") + " from " + show(pre); });
	}
	void iv(const stdex::interval<size_t>& i, size_t a, size_t b, const std::string& what) { if (!i) fail(what + " not reported"); PBT_EQ(i.start, pos[a], what + " start"); PBT_EQ(i.end, pos[b], what + " end"); }
};
static void mutate(Src& s, std::string& x, const std::string& al) { for (unsigned k = static_cast<unsigned>(s.draw(3)); k--;) switch (s.draw(2)) { case 0: if (x.size()) x.erase(s.draw(x.size() - 1), 1); break; case 1: x.insert(s.draw(x.size()), 1, al[s.draw(al.size() - 1)]); break; default: if (x.size()) x[s.draw(x.size() - 1)] = al[s.draw(al.size() - 1)]; } }

// --- IPv4
struct r4 { bool ok = false; uint32_t v = 0; size_t e = 0, s[4], t[4]; };
static r4 ref4(const std::string& x) { r4 r; size_t p = 0; for (unsigned i = 0; i < 4; i++) { if (i) { if (p >= x.size() || x[p] != '.') return r; p++; } r.s[i] = p; unsigned v = 0; while (p < x.size() && isdigit(static_cast<unsigned char>(x[p])) && v * 10 + static_cast<unsigned>(x[p] - '0') <= 255) v = v * 10 + static_cast<unsigned>(x[p++] - '0'); r.t[i] = p; if (r.s[i] == p) return r; r.v = r.v << 8 | v; } r.ok = true; r.e = p; return r; }
template<class T> static auto parser4(const style<T>& st) { return std::make_shared<sp::basic_ipv4_address<T>>(st.digit(0), st.digit(1), st.digit(2), st.digit(3), st.digit(4), st.digit(5), st.digit(6), st.digit(7), st.digit(8), st.digit(9), st.lit(W<T>("."))); }
template<class T> static void ipv4(Src& s)
{
	style<T> st{static_cast<unsigned>(s.draw(sizeof(T) == 1 ? 2 : 1))}; std::string x; uint32_t v = 0; bool valid = s.chance(2, 3); for (int i = 0; i < 4; i++) { unsigned o = static_cast<unsigned>(s.boolean() ? s.draw(255) : s.pick<unsigned>({0, 9, 10, 25, 26, 99, 100, 199, 200, 249, 250, 255})); v = v << 8 | o; char b[16]; snprintf(b, 16, s.chance(1, 6) ? "%03u" : "%u", o); x += (i ? "." : "") + std::string(b); } size_t len = x.size(); if (valid) x += s.pick(std::vector<std::string>{"", ".", "x", " ", ":80", ".1", "/24", "-"}); else { if (s.chance(1, 4)) { x = ""; s.repeat(16, [&] { x += "0123456789.x"[s.draw(11)]; }); } mutate(s, x, "0123456789.:x"); }
	text_<T> t(s, st, x); auto p = parser4(st); if (s.chance(1, 3)) { auto o = W<T>(s.pick(std::vector<std::string>{"9.8.7.6", "1.2.3", "255.255.255.255"})); p->match(o.data(), 0, o.size()); }
	r4 r = ref4(x); if (valid) { PBT_REQUIRE(r.ok && r.v == v && r.e == len, "reference is wrong"); struct in_addr a; std::string y = x.substr(0, len); if (x.find(".0") == std::string::npos && inet_pton(AF_INET, y.c_str(), &a) == 1 && ntohl(a.s_addr) != v) fail("C library disagrees"); }
	PBT_EQ(p->match(t.e->get(), t.pre, t.end), r.ok, "match"); if (!r.ok) { PBT_REQUIRE(!p->interval, "interval after failure"); return; } t.iv(p->interval, 0, r.e, "address"); PBT_EQ(ntohl(p->value.s_addr), r.v, "value"); for (unsigned i = 0; i < 4; i++) t.iv(p->components[i], r.s[i], r.t[i], "component"); s.nontrivial(); s.label_if(!valid, "recognised after mutation");
}
PBT_CHECK(ipv4_address, 60000, 600000) { if (s.boolean()) ipv4<char>(s); else ipv4<wchar_t>(s); }

// --- IPv6: the longest beginning that is an address
struct r6 { bool ok = false; uint16_t w[8] = {}; size_t e = 0, s[8], t[8]; size_t comp = SIZE_MAX; };
static r6 ref6(const std::string& x)
{
	// Groups up to the compaction, then groups after it.
	r6 r; size_t p = 0; std::vector<std::array<size_t, 3>> a, b; auto group = [&](size_t& q, std::array<size_t, 3>& g) { size_t k = q, v = 0; while (k < x.size() && strchr("0123456789abcdef", x[k]) && x[k]) { size_t d = static_cast<size_t>(x[k] <= '9' ? x[k] - '0' : x[k] - 'a' + 10); if (v * 16 + d > 0xffff) break; v = v * 16 + d; k++; } if (k == q) return false; g = {v, q, k}; q = k; return true; };
	std::array<size_t, 3> g; auto at = [&](size_t i, const char* w) { return x.compare(i, strlen(w), w) == 0; }; bool comp = false;
	if (at(0, "::")) { comp = true; r.comp = 1; p = 2; } else { if (!group(p, g)) return r; a.push_back(g); while (a.size() < 8) { if (a.size() < 8 && at(p, "::")) { if (a.size() > 7) break; comp = true; r.comp = p + 1; p += 2; break; } if (!at(p, ":")) break; size_t q = p + 1; if (!group(q, g)) break; a.push_back(g); p = q; } }
	if (comp && a.size() < 7) { size_t q = p; if (group(q, g)) { b.push_back(g); p = q; while (a.size() + b.size() < 7 && at(p, ":") && !at(p, "::")) { q = p + 1; if (!group(q, g)) break; b.push_back(g); p = q; } } }
	if (!comp && a.size() < 8) return r; r.ok = true; r.e = p; size_t i = 0; for (auto& y : a) { r.w[i] = static_cast<uint16_t>(y[0]); r.s[i] = y[1]; r.t[i++] = y[2]; } if (comp) { for (; i + b.size() < 8; i++) r.s[i] = r.t[i] = r.comp; for (auto& y : b) { r.w[i] = static_cast<uint16_t>(y[0]); r.s[i] = y[1]; r.t[i++] = y[2]; } } return r;
}
template<class T> static auto parser6(const style<T>& st, bool scope, std::shared_ptr<sp::basic_parser<T>>& sc)
{
	if (scope) { std::shared_ptr<sp::basic_parser<T>> c; if constexpr (sizeof(T) == 1) { if (st.mode == 2) c = std::make_shared<sp::sgml_ipv6_scope_id_char>(); } if (!c) c = std::make_shared<sp::basic_ipv6_scope_id_char<T>>(); sc = std::make_shared<sp::basic_iterations<T>>(c, 1); }
	return std::make_shared<sp::basic_ipv6_address<T>>(st.digit(0), st.digit(1), st.digit(2), st.digit(3), st.digit(4), st.digit(5), st.digit(6), st.digit(7), st.digit(8), st.digit(9), st.digit(10), st.digit(11), st.digit(12), st.digit(13), st.digit(14), st.digit(15), st.lit(W<T>(":")), scope ? st.lit(W<T>("%")) : nullptr, sc);
}
template<class T> static void ipv6(Src& s)
{
	style<T> st{sizeof(T) == 1 && s.boolean() ? 2u : 0u}; uint16_t w[8]; for (auto& g : w) g = static_cast<uint16_t>(s.weighted({2, 1, 2}) == 0 ? 0 : s.boolean() ? s.draw(0xff) : s.draw(0xffff)); std::string x; bool valid = s.chance(2, 3);
	unsigned form = static_cast<unsigned>(s.draw(3)); std::vector<std::string> g; for (auto v : w) { char b[8]; snprintf(b, 8, form == 1 ? "%04x" : "%x", v); g.push_back(b); }
	bool comp = form >= 2; if (comp) { size_t a = s.draw(7), n = 1 + s.draw(7 - a); for (size_t i = 0; i < 8; i++) { if (i == a) { x += "::"; for (size_t k = 0; k < n; k++) w[a + k] = 0; i = a + n - 1; continue; } if (!x.empty() && x.back() != ':') x += ":"; x += g[i]; } } else for (size_t i = 0; i < 8; i++) x += (i ? ":" : "") + g[i];
	size_t len = x.size(); if (valid) { if (s.chance(1, 2)) x += s.pick(std::vector<std::string>{".", "x", " ", "]", "/64", "-", ": ", ":", "%", "::"}); } else { if (s.chance(1, 4)) { x = ""; s.repeat(14, [&] { x += "012f:::::x"[s.draw(9)]; }); } mutate(s, x, "0123456789abcdef::::.x"); for (size_t i = 0, run = 0; i < x.size(); i++) { run = isxdigit(static_cast<unsigned char>(x[i])) ? run + 1 : 0; if (run > 5) throw discard_t{}; if (run == 5 && x[i - 4] == '0') throw discard_t{}; } } // how many leading zeros a group may have is left open
	bool scope = s.boolean(); std::string id; if (valid && scope && x.size() == len && s.boolean()) { size_t k = 1 + s.draw(5); for (size_t i = 0; i < k; i++) id += "abz09-_:A"[s.draw(8)]; x += "%" + id; }
	std::shared_ptr<sp::basic_parser<T>> sc; auto p = parser6<T>(st, scope, sc); text_<T> t(s, st, x); if (s.chance(1, 3)) { auto o = W<T>(s.pick(std::vector<std::string>{"1:2:3:4:5:6:7:8", "fe80::1%a", "::", "1:2:3"})); p->match(o.data(), 0, o.size()); }
	r6 r = ref6(x); size_t e = r.e; bool has_id = false; if (r.ok && scope && e < x.size() && x[e] == '%') { size_t k = e + 1; while (k < x.size() && (isalnum(static_cast<unsigned char>(x[k])) || x[k] == '-' || x[k] == '_' || x[k] == ':')) k++; if (k > e + 1) { has_id = true; e = k; } }
	if (valid) { PBT_REQUIRE(r.ok, "reference is wrong"); struct in6_addr a; std::string y = x.substr(0, len); if (inet_pton(AF_INET6, y.c_str(), &a) != 1) fail("C library does not take " + y); for (int i = 0; i < 8; i++) if (ntohs(a.s6_addr16[i]) != w[i]) fail("C library disagrees"); if (len == x.size() || x[len] != ':' ) { PBT_EQ(r.e, len, "reference is wrong"); for (int i = 0; i < 8; i++) PBT_EQ(r.w[i], w[i], "reference is wrong"); } }
	else { // the C library takes what the reference found, and nothing longer
		struct in6_addr a; if (r.ok) { std::string y = x.substr(0, r.e); if (inet_pton(AF_INET6, y.c_str(), &a) != 1) fail("reference is wrong: " + y); } for (size_t k = r.ok ? r.e + 1 : 1; k <= x.size(); k++) { std::string y = x.substr(0, k); if (y.find('.') == std::string::npos && inet_pton(AF_INET6, y.c_str(), &a) == 1) fail("reference missed " + y); } }
	PBT_EQ(p->match(t.e->get(), t.pre, t.end), r.ok, "match"); if (!r.ok) { PBT_REQUIRE(!p->interval, "interval after failure"); if (sc) PBT_REQUIRE(!sc->interval); return; }
	t.iv(p->interval, 0, e, "address"); for (unsigned i = 0; i < 8; i++) { if (ntohs(p->value.s6_addr16[i]) != r.w[i]) { char b[INET6_ADDRSTRLEN]; fail(std::string("value ") + inet_ntop(AF_INET6, &p->value, b, sizeof b)); } t.iv(p->components[i], r.s[i], r.t[i], "component " + show(i)); }
	if (scope) { if (has_id) t.iv(sc->interval, r.e + 1, e, "scope"); else PBT_REQUIRE(!sc->interval, "scope reported, though absent"); } s.nontrivial(); s.label_if(comp, "compacted"); s.label_if(has_id, "scope"); s.label_if(!valid, "recognised after mutation");
}
PBT_CHECK(ipv6_address, 80000, 800000) { if (s.boolean()) ipv6<char>(s); else ipv6<wchar_t>(s); }

// --- domain names
struct rn { bool ok = false; size_t e = 0; };
static rn refn(const std::string& x, bool absolute, const std::function<bool(char)>& alnum)
{
	rn r; size_t p = 0; for (unsigned labels = 0; labels < 127; labels++) { if (p >= x.size() || !alnum(x[p])) break; r.ok = true; size_t q = p; while (q < x.size() && (alnum(x[q]) || x[q] == '-')) q++; size_t last = q; while (x[last - 1] == '-') last--; r.e = last; if (last < q || q >= x.size() || x[q] != '.') break; if (absolute) r.e = q + 1; p = q + 1; } return r;
}
template<class T> static void dns(Src& s)
{
	bool absolute = s.boolean(), idn = s.boolean(), sgml = sizeof(T) == 1 && s.chance(1, 3); std::string x; size_t labels = s.chance(1, 20) ? 120 + s.draw(12) : s.draw(5); for (size_t i = 0; i < labels; i++) { if (i) x += s.chance(1, 15) ? ".." : "."; size_t n = s.chance(1, 15) ? 0 : labels > 10 ? 1 + s.draw(1) : 1 + s.draw(8); for (size_t k = 0; k < n; k++) x += "ab0-zAZ9-\xe9"[s.draw(s.chance(1, 4) ? 9 : 3)]; } if (s.chance(1, 3)) x += s.pick(std::vector<std::string>{".", "-", " ", "_", "-.", ":", "..", "/"}); if (s.chance(1, 4)) mutate(s, x, "a-.0 _");
	std::shared_ptr<sp::basic_dns_domain_char<T>> c; static const std::locale utf("C.utf8"), cls = std::locale::classic(); if constexpr (sizeof(T) == 1) { if (sgml) c = std::make_shared<sp::sgml_dns_domain_char>(idn, utf); } if (!c) c = std::make_shared<sp::basic_dns_domain_char<T>>(idn, sizeof(T) > 1 ? utf : cls);
	style<T> st{sgml ? 2u : 0u}; sp::basic_dns_name<T> p(absolute, c, st.lit(W<T>("."))); 
	auto alnum = [&](char ch) { unsigned char u = static_cast<unsigned char>(ch); return (u < 128 && isalnum(u)) || (u == 0xe9 && idn && (sgml || sizeof(T) > 1)); };
	str<T> t; std::vector<size_t> pos; size_t pre = 0; if (s.chance(1, 4)) { t = W<T>("a.b-"); pre = t.size(); } for (char ch : x) { pos.push_back(t.size()); if (static_cast<unsigned char>(ch) == 0xe9) t += sgml ? W<T>("&eacute;") : str<T>(1, static_cast<T>(static_cast<unsigned char>(ch))); else if (sgml && s.chance(1, 8)) t += W<T>("&#" + std::to_string(static_cast<int>(ch)) + ";"); else t += static_cast<T>(ch); } pos.push_back(t.size()); size_t n = t.size(), end = n; if (s.chance(1, 3)) { t += T(0); end = SIZE_MAX; } else if (s.chance(1, 3)) t += W<T>("a.b"); exact<T> e(t.data(), t.size());
	s.note([&] { return show(x) + (absolute ? " absolute" : "") + (idn ? " idn" : "") + (sgml ? " sgml" : sizeof(T) > 1 ? " wide" : "") + " from " + show(pre); });
	if (sgml && x.find('\xe9') != std::string::npos) { /* may decode to two characters, the second of which is a mark */ }
	rn r = refn(x, absolute, alnum); PBT_EQ(p.match(e.get(), pre, end), r.ok, "match"); if (!r.ok) { PBT_REQUIRE(!p.interval); return; } PBT_EQ(p.interval.start, pre); PBT_EQ(p.interval.end, pos[r.e], "end"); s.nontrivial(std::count(x.begin(), x.begin() + static_cast<ptrdiff_t>(r.e), '.') > 0); s.label_if(labels > 100, "long name"); (void)n;
}
PBT_CHECK(domain_names, 60000, 600000) { if (s.boolean()) dns<char>(s); else dns<wchar_t>(s); }
PBT_MAIN("P04", "an address is recognised, or a domain name of several labels")
