// HTTP syntax against reference readers of composed and mutated text, and against the composition.
// SCALE: 4
#include "style.hpp"
using namespace pbt;

using iv = std::pair<size_t, size_t>; static const iv none{1, 0};
using str = std::string; static const size_t no = SIZE_MAX;
static bool sps(char c) { return c && strchr(" \t\r\n\v\f", c); }
// Reference readers: each returns the end of what begins at p, or no.
struct ref
{
	const str& x; size_t n; explicit ref(const str& x_) : x(x_), n(x_.size()) {}
	char at(size_t p) const { return p < n ? x[p] : 0; } bool sp_(size_t p) const { return p < n && sps(x[p]); }
	size_t lb(size_t p) const { if (at(p) == '\n') return p + 1; if (at(p) == '\r' && at(p + 1) == '\n') return p + 2; return no; }
	size_t sps_(size_t p) const { while (sp_(p)) p++; return p; }
	size_t space(size_t p) const { size_t q = lb(p); if (q != no) return sp_(q) ? sps_(q) : no; return sp_(p) ? sps_(p) : no; }
	size_t spaces(size_t p) const { for (size_t q; (q = space(p)) != no; ) p = q; return p; }
	bool tchar(size_t p) const { char c = at(p); return (static_cast<unsigned char>(c) >= 0x80 || (c > 0x20 && c < 0x7f)) && !strchr("()<>@,;:\\\"/[]?={}", c); }
	size_t token(size_t p, iv* r = nullptr) const { size_t q = p; while (tchar(q)) q++; if (q == p) return no; if (r) *r = {p, q}; return q; }
	size_t quoted(size_t p, iv* r = nullptr) const { if (at(p) != '"') return no; size_t q = p + 1; for (;;) { char c = at(q); if (q >= n) return no; if (c == '"') break; if (c == '\\') { if (q + 1 >= n) return no; q += 2; } else if (space(q) != no) q++; else if (static_cast<unsigned char>(c) >= 0x20) q++; else return no; } if (r) *r = {p + 1, q}; return q + 1; }
	struct val { iv s = none, t = none; };
	size_t value(size_t p, val& v) const { v = {}; size_t q = quoted(p, &v.s); if (q != no) return q; return token(p, &v.t); }
	struct par { iv name = none; val v; size_t b = 0, e = 0; };
	size_t param(size_t p, par& r) const { r = {}; r.b = p; size_t q = token(p, &r.name); if (q == no) return no; q = spaces(q); if (at(q) != '=') return no; q = spaces(q + 1); return r.e = value(q, r.v); }
	struct med { iv type = none, sub = none; std::vector<par> p; };
	size_t media(size_t p, med& r) const { r = {}; size_t q = token(p, &r.type); if (q == no) return no; q = spaces(q); if (at(q) != '/') return no; return token(spaces(q + 1), &r.sub); }
	size_t media_type(size_t p, med& r) const { size_t q = media(p, r), e = q; if (q == no) return no; for (;;) { q = spaces(q); if (at(q) != ';') break; q = spaces(q + 1); par a; size_t k = param(q, a); if (k == no) break; r.p.push_back(a); q = e = k; } return e; }
	size_t run(size_t p, const char* stop) const { while (p < n && static_cast<unsigned char>(x[p]) >= 0x20 && x[p] != 0x7f && !sps(x[p]) && !strchr(stop, x[p])) p++; return p; }
	struct url_ { iv server = none, port = none; unsigned port_v = 0; std::vector<iv> seg, pn, pv; iv path = none; };
	size_t path(size_t p, url_& r) const { if (at(p) != '/') return no; size_t a = p; while (at(p) == '/') { size_t q = run(p + 1, "?/"); r.seg.push_back({p + 1, q}); p = q; } r.path = {a, p}; return p; }
	size_t url(size_t p, url_& r) const
	{
		r = {}; str h = x.substr(p, 7); for (char& c : h) c = static_cast<char>(tolower(c)); if (h == "http://") { size_t q = run(p + 7, ":/"); if (q == p + 7) return no; r.server = {p + 7, q}; p = q; if (at(p) == ':') { p++; size_t e = p; uint64_t v = 0; while (at(e) >= '0' && at(e) <= '9' && v <= 65535) v = v * 10 + static_cast<unsigned>(x[e++] - '0'); if (v > 65535) return no; if (e > p) { r.port = {p, e}; r.port_v = static_cast<unsigned>(v); p = e; } } else r.port_v = 80; } else r.port_v = 80;
		p = path(p, r); if (p == no) return no; if (at(p) == '?') { p++; for (;;) { if (at(p) == '&') { p++; continue; } size_t q = run(p, "&="); if (q == p) break; r.pn.push_back({p, q}); p = q; if (at(p) == '=') { q = run(p + 1, "&"); r.pv.push_back({p + 1, q}); p = q; } else r.pv.push_back(none); } } return p;
	}
	size_t language(size_t p, std::vector<iv>& r) const { r.clear(); for (;;) { size_t q = p; while (q < n && isalpha(static_cast<unsigned char>(x[q])) && static_cast<unsigned char>(x[q]) < 128) q++; if (q == p) break; r.push_back({p, q}); if (at(q) != '-') break; p = q + 1; } return r.empty() ? no : r.back().second; }
	size_t weight(size_t p, double& v) const { size_t q = p; uint64_t a = 0, d = 0, m = 1; while (at(q) >= '0' && at(q) <= '9') a = a * 10 + static_cast<unsigned>(x[q++] - '0'); if (at(q) == '.') { q++; while (at(q) >= '0' && at(q) <= '9') { d = d * 10 + static_cast<unsigned>(x[q++] - '0'); m *= 10; } } if (q == p) return no; v = static_cast<double>(a) + static_cast<double>(d) / static_cast<double>(m); return q; }
	struct cook { iv name = none; val v; std::vector<par> p; };
	size_t cookie(size_t p, cook& r) const { r = {}; par a; size_t q = param(p, a), e = q; if (q == no) return no; r.name = a.name; r.v = a.v; for (;;) { q = spaces(q); if (at(q) != ';') break; q = spaces(q + 1); if (at(q) != '$') break; size_t k = param(q + 1, a); if (k == no) break; a.b--; r.p.push_back(a); q = e = k; } return e; }
	size_t agent(size_t p, iv& t, iv& v) const { t = v = none; size_t q = p; while (q < n && x[q] != '/' && !sps(x[q])) q++; t = {p, q}; if (at(q) == '/') { size_t e = q + 1; while (e < n && !sps(x[e])) e++; v = {q + 1, e}; q = e; } if (q == p) { t = v = none; return no; } return q; }
	struct proto { iv type = none, maj = none, min = none; unsigned v = 9; };
	size_t protocol(size_t p, proto& r) const { r = {}; size_t q = p; while (q < n && x[q] != '/' && !sps(x[q])) q++; if (at(q) != '/') return no; proto t; t.type = {p, q}; size_t a = ++q; while (q < n && x[q] != '.' && !sps(x[q])) q++; if (q >= n) return no; t.maj = {a, q}; t.v = static_cast<unsigned>(atoi(x.substr(a, q - a).c_str())) * 256; if (x[q] == '.') { a = ++q; while (q < n && !sps(x[q])) q++; if (q >= n) return no; t.min = {a, q}; t.v += static_cast<unsigned>(atoi(x.substr(a, q - a).c_str())); } r = t; return q; }
	struct req { iv verb = none; url_ u; proto p; iv url = none, pr = none; };
	size_t request(size_t p, req& r) const
	{
		r = {}; auto blanks = [&](size_t q) { while (sp_(q) && lb(q) == no) q++; return q; }; p = blanks(p); if (p >= n || lb(p) != no) return no; size_t q = p; while (q < n && lb(q) == no && !sps(x[q])) q++; if (q >= n || lb(q) != no) return no; r.verb = {p, q}; q = blanks(q); if (q >= n || lb(q) != no) return no;
		size_t u = url(q, r.u); if (u == no) return no; r.url = {q, u}; q = blanks(u); if (lb(q) != no) return lb(q); if (q >= n) return q; size_t e = protocol(q, r.p); if (e == no) return q; r.pr = {q, e}; while (e < n && lb(e) == no) e++; return lb(e) != no ? lb(e) : e;
	}
	size_t header(size_t p, iv& name, iv& value) const
	{
		name = value = none; if (lb(p) != no || sp_(p)) return no; size_t q = p; while (q < n && x[q] != ':' && !sps(x[q])) q++; iv nm = {p, q}; while (sp_(q) && lb(q) == no) q++; if (at(q) != ':') return no; q++; iv v{SIZE_MAX, 0};
		for (;;) { size_t l = lb(q); if (l != no) { q = l; if (lb(q) == no && sp_(q)) { q++; continue; } break; } if (q >= n) break; if (!sps(x[q])) { if (v.first == SIZE_MAX) v.first = q; v.second = q + 1; } q++; } name = nm; value = v.second ? v : none; return q;
	}
};

// Text of any kind, from the grammar.
struct gen
{
	Src& s; str x; size_t mark() const { return x.size(); }
	str tok(size_t k = 8) { str r; for (size_t n = 1 + s.draw(k); n--;) r += "abcxyzABZ019-_.!#$%&'*+^`|~"[s.draw(s.chance(3, 4) ? 11 : 26)]; return r; }
	void sp() { if (s.chance(1, 4)) x += s.pick(std::vector<str>{" ", "\t", "  ", "\r\n ", "\n\t", " \r\n "}); }
	str quo() { str r = "\""; for (size_t n = s.draw(8); n--;) { unsigned k = static_cast<unsigned>(s.draw(7)); if (k == 0) r += "\\\""; else if (k == 1) r += "\\\\"; else if (k == 2) r += s.pick(std::vector<str>{" ", "\t", "\r\n ", ",", ";", "=", "/"}); else if (k == 3) r += static_cast<char>(s.range(0x80, 0xff)); else r += static_cast<char>(s.pick(str("abcXYZ019()<>@'"))); } return r + "\""; }
	str val() { return s.boolean() ? quo() : tok(); }
	void par() { x += tok(); sp(); x += "="; sp(); x += val(); }
	void med() { x += tok(); sp(); x += "/"; sp(); x += s.chance(1, 4) ? "*" : tok(); }
	str pathc(const char* not_) { str r; for (size_t n = s.draw(6); n--;) { char c = "abcXYZ019-_.~%:@!$'()*+,;=&?/#\xc3"[s.draw(s.chance(2, 3) ? 8 : 30)]; if (!strchr(not_, c)) r += c; } return r; }
	void url() { if (s.boolean()) { x += s.pick(std::vector<str>{"http://", "HTTP://", "Http://"}); x += tok(6) + "." + tok(3); if (s.boolean()) x += ":" + (s.chance(1, 6) ? str() : std::to_string(s.chance(1, 6) ? s.range<unsigned>(65530, 65540) : static_cast<unsigned>(s.draw(65535)))); } for (size_t n = 1 + s.draw(3); n--;) x += "/" + pathc("?/"); if (s.boolean()) { x += "?"; for (size_t n = s.draw(3); n--;) { { str w = tok(4); for (char& c : w) if (c == 0x26) c = 0x2e; x += w; } if (s.boolean()) x += "=" + pathc("&"); if (n) x += s.chance(1, 6) ? "&&" : "&"; } } }
	void lang() { for (size_t n = 1 + s.draw(2), i = 0; i < n; i++) { if (i) x += "-"; for (size_t k = 1 + s.draw(3); k--;) x += "abdeENUS"[s.draw(7)]; } }
	void q() { if (s.chance(2, 3)) { auto b = [&] { if (s.chance(1, 4)) x += s.pick(std::vector<str>{" ", "\t", "  "}); }; b(); x += ";"; b(); x += "qQ"[s.chance(1, 5)]; b(); x += "="; b(); x += s.pick(std::vector<str>{"1", "0", "0.5", "0.25", "0.125", "0.001", "1.000", "0.999", "1.0", "0.9", "0.8", "0.50", ".5"}); } }
	void mutate(const str& al) { for (size_t k = 1 + s.draw(2); k--;) switch (s.draw(2)) { case 0: if (x.size()) x.erase(s.draw(x.size() - 1), 1); break; case 1: x.insert(s.draw(x.size()), 1, al[s.draw(al.size() - 1)]); break; default: if (x.size()) x[s.draw(x.size() - 1)] = al[s.draw(al.size() - 1)]; } }
};
static const str junk("a1;=\"\\/,: \t\r\n*?&.-$\x01(");
// Composed text is recognised to its end; then text after it, or mutation.
struct text
{
	gen g; bool mutated, open = false; size_t full; std::unique_ptr<spelled<char>> t;
	text(Src& s) : g{s, {}}, mutated(false), full(0) {}
	const str& done(const std::vector<str>& tails, const char* after) { Src& s = g.s; full = g.x.size(); mutated = s.chance(1, 2); if (mutated) { if (s.chance(1, 3)) g.x.resize(s.draw(g.x.size())); else g.mutate(junk); } else if (s.boolean()) g.x += s.pick(tails); t = std::make_unique<spelled<char>>(s, false, g.x, after); return g.x; }
	void is(const stdex::interval<size_t>& i, const iv& e, const char* what) { if (e == none) { if (i) fail(str(what) + " reported, though absent"); } else t->iv(i, e.first, e.second, what); }
	void val(const sp::http_value& v, const ref::val& r, const char* what) { is(v.string.interval, r.s == none ? none : iv{r.s.first - 1, r.s.second + 1}, what); is(v.string.content, r.s, what); is(v.token.interval, r.t, what); is(v.interval, r.s != none ? iv{r.s.first - 1, r.s.second + 1} : r.t, what); }
	template<class L> void pars(const L& l, const std::vector<ref::par>& r) { PBT_EQ(l.size(), r.size(), "number of parameters"); size_t i = 0; for (auto& p : l) { is(p.interval, {r[i].b, r[i].e}, "parameter"); is(p.name.interval, r[i].name, "parameter name"); val(p.value, r[i].v, "parameter value"); i++; } }
	template<class Q> bool match(Q& p, size_t e) { if (!mutated && !open && e == no) fail("reference does not take " + show(g.x)); if (!mutated && !open && e != full) fail("reference stops at " + show(e) + " of " + show(full)); bool b = p.match(t->e->get(), t->pre, t->end); PBT_EQ(b, e != no, "match"); is(p.interval, e == no ? none : iv{0, e}, "whole"); g.s.nontrivial(b); g.s.label(mutated ? b ? "recognised after mutation" : "rejected after mutation" : "composed"); return b; }
	template<class Q> void before(Q& p, std::function<void(gen&)> f) { if (g.s.boolean()) { gen o{g.s, {}}; f(o); if (g.s.chance(1, 3)) o.mutate(junk); exact<char> e(o.x); p.match(e.get(), 0, o.x.size()); } } // an earlier use
};

PBT_CHECK(quoted_string, 40000, 400000)
{
	text t(s); sp::http_quoted_string p; auto f = [](gen& g) { g.x += g.quo(); }; t.before(p, f); f(t.g); auto& x = t.done({"\"", "x", " ", "\\"}, "\""); ref r(x); iv c = none; size_t e = r.quoted(0, &c); if (!t.match(p, e)) c = none; t.is(p.content, c, "content");
}
PBT_CHECK(token_and_value, 40000, 400000)
{
	text t(s); sp::http_value p; auto f = [](gen& g) { g.x += g.val(); }; t.before(p, f); f(t.g); auto& x = t.done({";", ",", " ", "(", "="}, "x"); ref r(x); ref::val v; size_t e = r.value(0, v); t.match(p, e); t.val(p, v, "value"); sp::http_token k; iv w = none; r.token(0, &w); PBT_EQ(k.match(t.t->e->get(), t.t->pre, t.t->end), w != none, "token"); t.is(k.interval, w, "token");
}
PBT_CHECK(parameter, 40000, 400000)
{
	text t(s); sp::http_parameter p; auto f = [](gen& g) { g.par(); }; t.before(p, f); f(t.g); auto& x = t.done({";", ",", " ", "("}, "x"); ref r(x); ref::par v; size_t e = r.param(0, v); if (!t.match(p, e)) v = {}; t.is(p.name.interval, v.name, "name"); t.val(p.value, v.v, "value");
}
PBT_CHECK(media_type, 60000, 600000)
{
	text t(s); sp::http_media_type p; auto f = [](gen& g) { g.med(); for (size_t n = g.s.draw(3); n--;) { g.sp(); g.x += ";"; g.sp(); g.par(); } }; t.before(p, f); f(t.g); auto& x = t.done({";", ",", " ", "; x", ";;a=b", "\r\n"}, "x"); ref r(x); ref::med m; size_t e = r.media_type(0, m); if (!t.match(p, e)) m = {}; t.is(p.type.interval, m.type, "type"); t.is(p.subtype.interval, m.sub, "subtype"); t.pars(p.params, m.p);
}
static void same_url(text& t, sp::http_url& p, bool ok, const ref::url_& u)
{
	ref::url_ w = ok ? u : ref::url_(); t.is(p.server.interval, w.server, "server"); t.is(p.port.interval, w.port, "port"); if (ok && (w.server == none || w.port != none || t.g.x[u.path.first - 1] != ':')) PBT_EQ(p.port.value, w.port_v, "port"); t.is(p.path.interval, w.path, "path"); PBT_EQ(p.path.segments.size(), w.seg.size(), "number of segments"); for (size_t i = 0; i < w.seg.size(); i++) t.is(p.path.segments[i].interval, w.seg[i], "segment"); PBT_EQ(p.params.size(), w.pn.size(), "number of parameters"); size_t i = 0; for (auto& a : p.params) { t.is(a.name, w.pn[i], "parameter name"); t.is(a.value, w.pv[i], "parameter value"); i++; }
}
PBT_CHECK(url, 60000, 600000)
{
	text t(s); sp::http_url p; auto f = [](gen& g) { g.url(); }; t.before(p, f); f(t.g); t.open = t.g.x.find(":655") != str::npos; auto& x = t.done({" ", "\t", "\r\n", " HTTP/1.1"}, "x");  ref r(x); ref::url_ u; size_t e = r.url(0, u); bool ok = t.match(p, e); same_url(t, p, ok, u);
}
PBT_CHECK(language, 30000, 300000)
{
	text t(s); sp::http_language p; auto f = [](gen& g) { g.lang(); }; t.before(p, f); f(t.g); auto& x = t.done({";", ",", " ", "-", "1", "--a"}, "x"); ref r(x); std::vector<iv> c; size_t e = r.language(0, c); t.match(p, e); PBT_EQ(p.components.size(), c.size()); for (size_t i = 0; i < c.size(); i++) t.is(p.components[i], c[i], "component");
}
PBT_CHECK(cookie, 60000, 600000)
{
	text t(s); sp::http_cookie p; auto f = [](gen& g) { g.par(); for (size_t n = g.s.draw(3); n--;) { g.sp(); g.x += ";"; g.sp(); g.x += "$"; g.par(); } }; t.before(p, f); f(t.g); auto& x = t.done({";", ",", " ", "; x", "; a=b", ";$", "; $x"}, "x"); ref r(x); ref::cook c; size_t e = r.cookie(0, c); if (!t.match(p, e)) c = {}; t.is(p.name.interval, c.name, "name"); t.val(p.value, c.v, "value"); t.pars(p.params, c.p);
}
PBT_CHECK(agent, 30000, 300000)
{
	text t(s); sp::http_agent p; auto f = [](gen& g) { g.x += g.tok(); if (g.s.boolean()) g.x += "/" + g.tok(); }; t.before(p, f); f(t.g); auto& x = t.done({" ", " (x)", "\t", "\r\n"}, "x"); ref r(x); iv a, v; size_t e = r.agent(0, a, v); t.match(p, e); t.is(p.type, a, "type"); t.is(p.version, v, "version");
}
PBT_CHECK(protocol, 30000, 300000)
{
	text t(s); sp::http_protocol p; auto f = [](gen& g) { g.x += g.s.boolean() ? "HTTP" : g.tok(); g.x += "/" + std::to_string(g.s.draw(9)); if (g.s.chance(4, 5)) g.x += "." + std::to_string(g.s.draw(g.s.boolean() ? 255 : 9)); }; t.before(p, [&](gen& g) { f(g); g.x += " "; }); f(t.g); t.full = t.g.x.size(); size_t full = t.full; bool m = s.boolean(); t.g.x += s.pick(std::vector<str>{" ", "\r\n", "\n", " x"}); t.mutated = m; if (m) t.g.mutate(junk); t.full = full; t.t = std::make_unique<spelled<char>>(s, false, t.g.x, " x"); auto& x = t.g.x; ref r(x); ref::proto w; size_t e = r.protocol(0, w); bool ok = t.match(p, e); if (!ok) { t.is(p.type, none, "type"); PBT_EQ(p.version, 9, "version"); return; } t.is(p.type, w.type, "type"); t.is(p.version_maj, w.maj, "major version"); t.is(p.version_min, w.min, "minor version");
	auto num = [&](const iv& i) { if (i == none) return true; for (size_t k = i.first; k < i.second; k++) if (!isdigit(static_cast<unsigned char>(x[k])) || k - i.first > 3) return false; return i.second > i.first; }; if (num(w.maj) && num(w.min)) PBT_EQ(p.version, static_cast<uint16_t>(w.v), "version");
}
PBT_CHECK(request, 60000, 600000)
{
	text t(s); sp::http_request p; auto f = [](gen& g) { if (g.s.chance(1, 5)) g.x += " "; g.x += g.s.boolean() ? "GET" : g.tok(); g.x += g.s.chance(1, 5) ? "  " : " "; g.url(); unsigned k = static_cast<unsigned>(g.s.draw(4)); if (k) { g.x += g.s.chance(1, 5) ? "\t " : " "; g.x += "HTTP/" + std::to_string(g.s.draw(3)) + "." + std::to_string(g.s.draw(9)); if (k == 2) g.x += " x"; } g.x += g.s.boolean() ? "\r\n" : "\n"; };
	t.before(p, f); f(t.g); t.open = t.g.x.find(":655") != str::npos; auto& x = t.done({"Host: x\r\n", "\r\n", " x"}, "x"); ref r(x); ref::req q; size_t e = r.request(0, q); bool ok = t.match(p, e); if (!ok) q = {}; t.is(p.verb, q.verb, "verb"); t.is(p.url.interval, q.url, "URL"); same_url(t, p.url, ok, q.u); t.is(p.protocol.interval, q.pr, "protocol"); if (ok && q.pr == none) PBT_EQ(p.protocol.version, 9, "version"); else if (ok) { t.is(p.protocol.type, q.p.type, "protocol"); if (!t.mutated) PBT_EQ(p.protocol.version, static_cast<uint16_t>(q.p.v), "version"); }
}
PBT_CHECK(header, 60000, 600000)
{
	text t(s); sp::http_header p; auto f = [](gen& g) { g.x += g.tok(); if (g.s.chance(1, 6)) g.x += " "; g.x += ":"; for (size_t n = g.s.draw(4); n--;) { if (g.s.boolean()) g.x += g.s.pick(std::vector<str>{" ", "\t", "\r\n ", "\n\t", "  "}); g.x += g.s.boolean() ? g.tok() : g.quo(); } if (g.s.chance(1, 5)) g.x += " "; g.x += g.s.boolean() ? "\r\n" : "\n"; };
	t.before(p, f); f(t.g); auto& x = t.done({"Host: x\r\n", "\r\n", "x"}, "x"); ref r(x); iv n, v; size_t e = r.header(0, n, v); if (!t.mutated) { if (e != t.full) throw discard_t{}; } bool ok = t.match(p, e); if (!ok) n = v = none; t.is(p.name, n, "name"); if (v == none) PBT_REQUIRE(!p.value || p.value.empty(), "value reported, though absent"); else t.is(p.value, v, "value");
}
// Weighted lists: by descending weight, equal ones in their order.
template<class V, class A> static void weighted(Src& s, const std::function<void(gen&)>& f, const char* any)
{
	gen g{s, {}}; struct el { size_t a, b, e; double w; bool star; }; std::vector<el> l; size_t n = s.draw(6); auto b = [&] { if (s.chance(1, 4)) g.x += s.pick(std::vector<str>{" ", "\t", "  "}); }; for (size_t i = 0; i < n; i++) { if (i) { b(); g.x += ","; b(); } el k; k.a = g.x.size(); k.star = any && s.chance(1, 6); if (k.star) g.x += any; else f(g); k.b = k.e = g.x.size(); g.q(); if (g.x.size() > k.b) k.e = g.x.size(); size_t p = g.x.find_last_of('='); k.w = 1; if (k.e > k.b) { p = g.x.find_first_of("01.", p); k.w = strtod(g.x.c_str() + p, nullptr); } l.push_back(k); }
	size_t cut = g.x.size(); if (s.chance(1, 3)) { g.x += s.pick(std::vector<str>{" ", ",", " (", ";", ", (", ";q", ";x=1", "; q=x"}); } spelled<char> t(s, false, g.x, n ? "(" : "("); (void)cut;
	using item = sp::http_weighted_value<V, A>; sp::http_weighted_collection<item> c; c.insert(t.e->get(), t.pre, t.end); std::stable_sort(l.begin(), l.end(), [](const el& x, const el& y) { return x.w > y.w; }); PBT_EQ(c.size(), l.size(), "number of values"); size_t i = 0;
	for (auto& v : c) { auto& k = l[i++]; t.iv(v.interval, k.a, k.e, "value and weight " + show(i)); if (k.star) { t.iv(v.asterisk.interval, k.a, k.b, "asterisk"); PBT_REQUIRE(!v.value.interval); } else { t.iv(v.value.interval, k.a, k.b, "value"); PBT_REQUIRE(!v.asterisk.interval); } PBT_REQUIRE(std::abs(static_cast<double>(v.factor.value) - k.w) < 1e-6, "weight " + show(static_cast<double>(v.factor.value)) + " instead of " + show(k.w)); PBT_REQUIRE(static_cast<bool>(v.factor.interval) == (k.e > k.b), "weight interval"); } s.nontrivial(n > 1);
}
PBT_CHECK(weighted_lists, 60000, 600000) { switch (s.draw(2)) { case 0: weighted<sp::http_language, sp::http_asterisk>(s, [](gen& g) { g.lang(); }, "*"); break; case 1: weighted<sp::http_token, sp::http_asterisk>(s, [](gen& g) { str t = g.tok(); if (t[0] == '*') t[0] = 'x'; g.x += t; }, "*"); break; default: weighted<sp::http_media_range, sp::http_any_type>(s, [](gen& g) { str t = g.tok(); if (t[0] == '*') t[0] = 'x'; g.x += t + "/" + (g.s.chance(1, 3) ? "*" : g.tok()); }, s.boolean() ? "*/*" : "*"); } }
// One value and its weight, with an earlier use.
PBT_CHECK(weighted_value, 40000, 400000)
{
	text t(s); sp::http_weighted_value<sp::http_language> p; auto f = [](gen& g) { if (g.s.chance(1, 5)) g.x += "*"; else g.lang(); g.q(); }; t.before(p, f); f(t.g); auto& x = t.done({",", " ", ", x", " ;", ";q"}, "x"); ref r(x); size_t q, e; std::vector<iv> c; bool star = r.at(0) == '*'; e = q = star ? 1 : r.language(0, c); double w = 1; iv wi = none; if (q != no) { q = r.sps_(q); if (r.at(q) == ';') { q = r.sps_(q + 1); if (tolower(r.at(q)) == 'q') { q = r.sps_(q + 1); if (r.at(q) == '=') { q = r.sps_(q + 1); size_t k = r.weight(q, w); if (k != no) { wi = {q, k}; e = k; } else w = 1; } } } }
	bool ok = t.match(p, e); t.is(p.factor.interval, ok ? wi : none, "weight"); if (t.mutated && wi != none && wi.second - wi.first > 8) return; PBT_REQUIRE(std::abs(static_cast<double>(p.factor.value) - w) < 1e-6, "weight " + show(static_cast<double>(p.factor.value)) + " instead of " + show(w)); PBT_EQ(static_cast<bool>(p.asterisk.interval), ok && star, "asterisk"); PBT_EQ(static_cast<bool>(p.value.interval), ok && !star, "value");
}
PBT_MAIN("P08", "HTTP messages and their parts composed from the grammar, followed by other text, truncated or mutated; recognised ones count as non-trivial. Oracle: reference readers, and the composition's full extent.")
