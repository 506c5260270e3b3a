// HTML documents: composed by a grammar of their own and mutated; document structure, splitting anyhow, extraction and relinking of text, source positions, reinsertion of tokens.
// SCALE: 2
#include "common.hpp"
#include <mutex>
#include <shared_mutex>
#include <stdex/html.hpp>
using namespace pbt; namespace H = stdex::html; using S = stdex::parser::html_sequence_t; using str = std::string; using iv = std::pair<size_t, size_t>; static const iv none{SIZE_MAX, SIZE_MAX};
template<class T> using bs = std::basic_string<T>;
template<class T> static bs<T> W(const str& x) { return bs<T>(x.begin(), x.end()); }
template<class T> static str A(const bs<T>& x) { return str(x.begin(), x.end()); }
template<class T> struct doc : H::document<T> { using H::document<T>::m_sequences; using H::document<T>::m_charset; void parse(const bs<T>& x) { exact<T> e(x.data(), x.size()); try { this->assign(e.get(), x.size()); } catch (const std::runtime_error& f) { if (str(f.what()) == "undefined entity" && x.find(T('%')) != x.npos) throw discard_t{}; throw; } } };
static str low(str x) { for (char& c : x) c = static_cast<char>(tolower(c)); return x; }
static str rnd_case(Src& s, str x) { if (s.chance(1, 4)) for (char& c : x) if (s.boolean()) c = static_cast<char>(toupper(c)); return x; }

// --- Documents by grammar, with the sequences expected.
struct attr { iv name, value; };
struct seq { S type; size_t b, e; int parent = -1; str name; iv at = none; std::vector<attr> attrs; int end = -1, start = -1; };
struct gen
{
	Src& s; bool canon, cond; str x; std::vector<seq> v; std::vector<int> st; int budget; size_t valid = 0, conds = 0, omitted = 0, raws = 0, entities = 0, strays = 0; str charset; bool meta = false;
	gen(Src& s_, bool canon_, bool cond_, int budget_) : s(s_), canon(canon_), cond(cond_), budget(budget_) {}
	int top() const { return st.empty() ? -1 : st.back(); }
	void put(const str& t) { if (t.empty()) return; if (!v.empty() && v.back().type == S::text && v.back().e == x.size()) v.back().e += t.size(); else { seq q{S::text, x.size(), x.size() + t.size(), top()}; v.push_back(q); } x += t; }
	str word() { str t; for (size_t n = 1 + s.draw(4); n--;) t += static_cast<char>("abcxyzABC019"[s.draw(11)]); return t; }
	str chars(size_t max, const char* special, const std::vector<str>& ents) { str t; for (size_t n = s.len(max); n--;) switch (s.draw(3)) { case 0: case 1: t += word(); break; case 2: t += special[s.draw(strlen(special) - 1)]; break; default: t += s.pick(ents); entities++; } return t; }
	std::vector<str> ents() { if (canon) return {"&amp;", "&lt;", "&gt;", "&nbsp;"}; return {"&amp;", "&lt;", "&gt;", "&nbsp;", "&quot;", "&#39;", "&eacute;", "&#x41;", "&#18;", "&#x13;", "&", "&amp", "&foo;", "&nosuch", "&#18;1F&#19;", "&euro;", "&amp;lt;"}; }
	str pcdata() { return chars(5, " \n\t.,;'\"/=-!?]", ents()); }
	void blank() { if (s.chance(1, 5)) put(s.pick(std::vector<str>{" ", "\n", "\r\n\t"})); }
	str sp(bool need) { if (need || s.chance(1, 6)) return s.pick(std::vector<str>{" ", " ", "\n", "\t "}); return ""; }
	// Attributes of the tag that starts at b.
	void attributes(seq& q, bool& sep)
	{
		sep = true; str names; for (size_t n = s.chance(1, 2) ? 0 : s.draw(4); n--;) {
			str nm = s.pick(std::vector<str>{"id", "class", "title", "alt", "href", "src", "data-x", "cite", "Title", "HREF", "a1", "background", "summary", "content"}); x += sp(sep); attr a; a.name = {x.size(), x.size() + nm.size()}; x += nm; a.value = none; sep = true; unsigned k = static_cast<unsigned>(s.draw(4));
			if (k) { x += sp(false); x += '='; x += sp(false); if (k == 1) { str w = word(); if (s.boolean()) w += s.pick(std::vector<str>{"#", ".x", "/y", "?q=1", canon ? "" : ";"}); a.value = {x.size(), x.size() + w.size()}; x += w; } else { char quote = k == 2 ? '\'' : '"'; std::vector<str> e = canon ? std::vector<str>{"&amp;", "&lt;", "&gt;", "&quot;"} : std::vector<str>{"&amp;", "&lt;", "&quot;", "&#39;", "&nbsp;", "&eacute;", "&", "<b>", "&amp;lt;", "&#65;"}; str w = chars(4, canon ? " /.:?=-" : quote == '"' ? " /.>'<=-:" : " /.>\"<=-:", e); x += quote; a.value = {x.size(), x.size() + w.size()}; x += w; x += quote; sep = s.boolean(); } }
			q.attrs.push_back(a); }
	}
	// Opens an element, ending those above n.
	int open(const str& name, size_t n, int form = 0)
	{
		int i = static_cast<int>(v.size()); for (size_t k = n; k < st.size(); k++) v[st[k]].end = i; st.resize(n); seq q{form == 2 ? S::element : S::element_start, x.size(), 0, top()}; q.name = name; x += '<'; q.at = {x.size(), x.size() + name.size()}; x += rnd_case(s, name); bool sep = true; if (name == "meta" && s.chance(2, 3)) mime(q); else attributes(q, sep); if (form == 2) { if (q.attrs.empty() || q.attrs.back().value == none || x.back() == '"' || x.back() == '\'') x += sp(false); else x += sp(true); x += "/>"; } else { x += sp(false); x += '>'; } q.e = x.size(); if (form == 1) q.end = i; v.push_back(q); if (form == 0) st.push_back(i); return i;
	}
	void mime(seq& q)
	{
		str cs = s.pick(std::vector<str>{"utf-8", "windows-1250", "x-none", "UTF-8", "Windows-1252"}), val = "text/html;" + str(s.boolean() ? " " : "") + "charset=" + cs; bool swap = s.boolean(); for (int k = 0; k < 2; k++) { bool he = (k == 0) != swap; str nm = he ? "http-equiv" : "content", w = he ? s.pick(std::vector<str>{"Content-Type", "content-type"}) : val; x += sp(true); attr a; a.name = {x.size(), x.size() + nm.size()}; x += nm + "=\""; a.value = {x.size(), x.size() + w.size()}; x += w + "\""; q.attrs.push_back(a); } if (!meta && cs != "x-none") { meta = true; charset = cs; }
	}
	void endtag(const str& name, size_t n) { int i = static_cast<int>(v.size()), t = st[n]; seq q{S::element_end, x.size(), 0, v[t].parent}; q.start = t; for (size_t k = n; k < st.size(); k++) v[st[k]].end = i; st.resize(n); finish(q, name); }
	void finish(seq& q, const str& name) { q.name = name; x += "</"; q.at = {x.size(), x.size() + name.size()}; x += rnd_case(s, name); x += sp(false); x += '>'; q.e = x.size(); v.push_back(q); }
	void el(const str& name, bool opt, const std::function<void()>& f) { size_t n = st.size(); el(name, n, opt, f); }
	void el(const str& name, size_t n, bool opt, const std::function<void()>& f) { open(name, n); f(); if (opt && s.chance(1, 2)) omitted++; else endtag(name, n); }
	void empty(const str& name, size_t n) { open(name, n, s.boolean() ? 1 : 2); }
	str hidden(const std::vector<str>& no) { str t = chars(4, " <>-'\"&;=", {"<b>", "</p>", "&amp;", "<br/>", "--", "<!", "?"}); for (auto& z : no) for (size_t p; (p = t.find(z)) != str::npos;) t.erase(p, 1); return t; }
	void markup(S type, const str& t) { seq q{type, x.size(), x.size() + t.size(), top()}; x += t; v.push_back(q); }
	void ignored(int depth) { x += hidden({"]]>"}); while (depth && s.chance(1, 4)) { nested++; x += "<![" + sp(false) + s.pick(std::vector<str>{"IGNORE", "INCLUDE", "CDATA", "%none;", ""}) + "["; ignored(depth - 1); x += "]]>"; x += hidden({"]]>"}); } }
	// The keyword of a conditional section, spelled by parameter entities at times.
	std::vector<std::pair<str, str>> defined; size_t spelled = 0, nested = 0;
	str resolve(const str& t) const { str r; for (size_t i = 0; i < t.size();) if (t[i] == '%') { size_t e = t.find(';', i); str n = t.substr(i + 1, e - i - 1); for (auto& d : defined) if (d.first == n) { r += d.second; break; } i = e + 1; } else r += t[i++]; return r; }
	bool is_defined(const str& n) const { for (auto& d : defined) if (d.first == n) return true; return false; }
	void define()
	{
		str n = s.pick(std::vector<str>{"a", "ab", "HTML.x", "b", "A", "x-1"}), w = s.pick(std::vector<str>{"CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP", "CD", "ATA", "IG", "NORE", "R"}); if (!defined.empty() && s.chance(1, 3)) w = "%" + s.pick(defined).first + ";" + (s.boolean() ? w : "");
		unsigned k = static_cast<unsigned>(s.draw(9)); str value = resolve(w), q = s.pick(std::vector<str>{"\"", "'"}), head = s.pick(std::vector<str>{"ENTITY", "entity", "Entity"}), pc = k == 0 ? "" : "% "; bool external = k == 1; if (k == 0) n = "z" + n;
		markup(S::declaration, "<!" + head + " " + pc + n + " " + (external ? s.pick(std::vector<str>{"SYSTEM", "PUBLIC"}) + " " : "") + q + w + q + (s.chance(1, 4) ? " " : "") + (s.chance(1, 6) ? " -- x --" : "") + ">"); if (k > 1) defined.emplace_back(n, value);
	}
	str key(const str& name)
	{
		if (defined.empty() || s.boolean()) return name; std::vector<str> fit; for (auto& d : defined) { str r = "%" + d.first + ";"; if (resolve(r) == name) fit.push_back(r); for (auto& e : defined) if (resolve(r + "%" + e.first + ";") == name) fit.push_back(r + "%" + e.first + ";"); str v = resolve(r); if (v.size() && name.size() > v.size() && name.compare(0, v.size(), v) == 0) fit.push_back(r + name.substr(v.size())); if (v.size() && name.size() > v.size() && name.compare(name.size() - v.size(), v.size(), v) == 0) fit.push_back(name.substr(0, name.size() - v.size()) + r); }
		if (fit.empty()) return name; spelled++; return s.pick(fit);
	}
	void section(const str& name, const std::function<void()>& f) { x += "<![" + sp(false); x += key(name); x += sp(false) + "["; conds++; f(); x += "]]>"; }
	void misc()
	{
		switch (s.draw(cond ? 6 : 3)) { case 0: { str t = hidden({"-->"}); while (!t.empty() && t.back() == '-') t.pop_back(); size_t b = x.size(); markup(S::comment, "<!--" + t + "-->"); v.back().at = {b + 4, b + 4 + t.size()}; break; } case 1: { str t = "x" + hidden({">"}); bool two = s.boolean(); while (t.size() && t.back() == '?') t.pop_back(); size_t b = x.size(); markup(S::instruction, "<?" + t + (two ? "?>" : ">")); v.back().at = {b + 2, b + 2 + t.size()}; break; } case 2: if (cond && !canon && s.boolean()) { define(); break; } markup(S::declaration, s.pick(std::vector<str>{"<!DOCTYPE html>", "<!doctype html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"x\">", "<!>", "<!ELEMENT a -- x > y -->", "<!x!>"})); break;
		case 3: if (s.chance(1, 2)) { str n; do n = s.pick(std::vector<str>{"em", "baz", "q", "table"}); while (is_open(n)); seq q{S::element_end, x.size(), 0, top()}; finish(q, n); strays++; } break;
		case 4: case 5: { bool r = s.boolean(); section(r ? "RCDATA" : "CDATA", [&] { markup(r ? S::PCDATA : S::CDATA, hidden({"]]>"})); }); break; } default: section("IGNORE", [&] { ignored(3); }); }
	}
	bool is_open(const str& n) { for (int i : st) if (v[i].name == n) return true; return false; }
	void some(size_t max, const std::function<void()>& f) { for (size_t n = s.len(max); n-- && budget > 0;) { budget--; f(); if (s.chance(1, 12)) misc(); } }
	void raw(const str& name)
	{
		raws++; size_t n = st.size(); open(name, n); str t = name == "style" ? chars(4, " {};:.", {"a{b:c}", "url(x.png)", "url('q.gif')", "/* c */", "@import \"z.css\";", "<!--", "-->", "<b>"}) : hidden({"</" + name, "<![", "]]>", "</"}); put(t); if (cond && !canon && name == "script" && s.chance(1, 3)) { section("CDATA", [&] { markup(S::CDATA, hidden({"]]>"})); }); put(s.boolean() ? "//" : ""); } endtag(name, n);
	}
	void inl(bool pre = false)
	{
		size_t n = st.size(); switch (s.weighted({8, 4, 3, 2, 1, 1, 1, 1})) { case 0: put(pcdata()); if (!canon && !valid && s.chance(1, 12)) { put("]]>"); put(word()); } break;
		case 1: { str nm = s.pick(std::vector<str>{"b", "i", "em", "strong", "tt", "u", "kbd", "cite", "samp", "var", "q", "span", "xmp", "abbr", "bdo"}); el(nm, false, [&] { some(4, [&] { inl(pre); }); }); break; }
		case 2: { if (pre) { empty("br", n); break; } str nm = s.pick(std::vector<str>{"img", "br", "input", "basefont", "wbr", "meta0"}); if (nm == "meta0") nm = "br"; empty(nm, n); break; }
		case 3: if (is_open("a") || pre) put(pcdata()); else el("a", false, [&] { some(3, [&] { inl(pre); }); }); break;
		case 4: raw(s.pick(std::vector<str>{"script", "code", "comment"})); break;
		case 5: if (pre) put(word()); else { str nm = s.pick(std::vector<str>{"foo", "x-y", "blah", "section"}); el(nm, false, [&] { some(4, [&] { inl(); }); }); } break;
		case 6: if (pre || is_open("select")) put(word()); else el("select", false, [&] { size_t m = st.size(); some(3, [&] { el("option", m, true, [&] { put(pcdata()); }); }); }); break;
		case 7: { str nm = s.pick(std::vector<str>{"span", "b", "q"}); open(nm, n, 2); break; } }
		if (s.chance(1, 15)) misc();
	}
	void inlines(size_t max) { some(max, [&] { inl(); }); }
	void list(const str& nm, size_t k) { el(nm, k, false, [&] { size_t m = st.size(); some(4, [&] { blank(); el("li", m, true, [&] { flow(3); }); blank(); }); }); }
	void row(size_t m) { el("tr", m, true, [&] { size_t k = st.size(); some(3, [&] { blank(); el(s.boolean() ? "td" : "th", k, true, [&] { flow(2); }); }); }); }
	// A block within the container whose children start at depth m.
	void block(size_t m)
	{
		if (cond && s.chance(1, 12) && valid < 2) { valid++; conds++; str n = s.pick(std::vector<str>{"INCLUDE", "TEMP", ""}); if (n.empty()) { x += "<![["; } else { x += "<!["; x += key(n); x += "["; } some(2, [&] { block(m); }); if (s.boolean() && st.size() == m) put(word()); x += "]]>"; valid--; return; }
		switch (s.weighted({6, 2, 2, 2, 1, 1, 1, 1, 1, 1})) { case 0: el("p", m, true, [&] { inlines(4); }); break; case 1: el(s.pick(std::vector<str>{"h1", "h2", "h6"}), m, false, [&] { inlines(3); }); break; case 2: el(s.pick(std::vector<str>{"div", "center", "blockquote", "noscript"}), m, false, [&] { flow(4); }); break;
		case 3: list(s.pick(std::vector<str>{"ul", "ol", "dir", "menu"}), m); break; case 4: el("pre", m, false, [&] { some(3, [&] { inl(true); }); }); break; case 5: empty("hr", m); break; case 6: el("address", m, false, [&] { inlines(3); }); break;
		case 7: el("dl", m, false, [&] { size_t k = st.size(); some(4, [&] { if (s.boolean()) el("dt", k, true, [&] { inlines(2); }); else el("dd", k, true, [&] { flow(2); }); }); }); break;
		case 8: el("table", m, false, [&] { size_t k = st.size(); if (s.boolean()) el("caption", k, false, [&] { inlines(2); }); if (s.chance(1, 3)) empty("col", k); some(2, [&] { el(s.pick(std::vector<str>{"tbody", "thead", "tfoot"}), k, true, [&] { size_t r = st.size(); some(3, [&] { row(r); }); }); }); }); break;
		case 9: if (is_open("form")) { el("div", m, false, [&] { flow(2); }); break; } el("form", m, false, [&] { flow(3); }); break; }
	}
	void flow(size_t max) { size_t m = st.size(); some(max, [&] { if (st.size() > m || s.boolean()) block(m); else inl(); }); }
	void document()
	{
		if (s.boolean()) { markup(S::declaration, "<!DOCTYPE html>"); blank(); } if (cond && !canon && s.boolean()) for (size_t n = 1 + s.draw(4); n--;) { define(); blank(); } if (s.chance(1, 4)) misc(); if (s.chance(1, 4)) { flow(8); return; }
		el("html", true, [&] { size_t m = st.size(); blank(); el("head", m, true, [&] { size_t k = st.size(); if (s.boolean()) el("title", k, false, [&] { put(pcdata()); }); some(3, [&] { blank(); switch (s.draw(4)) { case 0: case 1: empty("meta", k); break; case 2: empty("link", k); break; case 3: raw("style"); break; default: raw("script"); } }); }); blank(); el("body", m, true, [&] { flow(8); }); blank(); });
	}
};

// --- What was parsed.
template<class D> static int index_of(const D& d, const H::sequence* q) { if (!q) return -1; for (size_t i = 0; i < d.m_sequences.size(); i++) if (d.m_sequences[i].get() == q) return static_cast<int>(i); fail("pointer to a sequence not of this document"); }
static iv I(const stdex::interval<size_t>& i) { return {i.start, i.end}; }
template<class D> static std::vector<seq> take(const D& d)
{
	std::map<const H::sequence*, int> ix; for (size_t i = 0; i < d.m_sequences.size(); i++) ix[d.m_sequences[i].get()] = static_cast<int>(i); auto of = [&](const H::sequence* q) { if (!q) return -1; auto i = ix.find(q); PBT_REQUIRE(i != ix.end(), "pointer to a sequence not of this document"); return i->second; };
	std::vector<seq> r; auto x = A(d.source()); auto sub = [&](const stdex::interval<size_t>& i) { PBT_REQUIRE(i.start <= i.end && i.end <= x.size(), "interval out of the document"); return low(x.substr(i.start, i.end - i.start)); }; auto attrs = [&](const std::vector<stdex::parser::html_attribute>& v, seq& q) { for (auto& a : v) { sub(a.name); attr k{I(a.name), a.value ? I(a.value) : none}; if (a.value) sub(a.value); q.attrs.push_back(k); } };
	for (auto& p : d.m_sequences) { seq q{p->type, p->interval.start, p->interval.end, of(p->parent)}; sub(p->interval); switch (p->type) { case S::element: case S::element_start: { auto e = dynamic_cast<H::element*>(p.get()); PBT_REQUIRE(e, "class of an element"); q.at = I(e->name); q.name = sub(e->name); attrs(e->attributes, q); auto st = dynamic_cast<H::element_start*>(p.get()); PBT_REQUIRE((st != nullptr) == (p->type == S::element_start), "class of a start tag"); if (st) q.end = of(st->end); break; } case S::element_end: { auto e = dynamic_cast<H::element_end*>(p.get()); PBT_REQUIRE(e, "class of an end tag"); q.at = I(e->name); q.name = sub(e->name); q.start = of(e->start); break; } case S::comment: { auto e = dynamic_cast<H::comment*>(p.get()); PBT_REQUIRE(e, "class of a comment"); q.at = I(e->content); sub(e->content); break; } case S::instruction: { auto e = dynamic_cast<H::instruction*>(p.get()); PBT_REQUIRE(e, "class of an instruction"); q.at = I(e->content); sub(e->content); break; } case S::declaration: { auto e = dynamic_cast<H::declaration*>(p.get()); PBT_REQUIRE(e, "class of a declaration"); seq z{S::declaration, 0, 0}; attrs(e->attributes, z); break; } default:; } r.push_back(q); } return r;
}
static str line(const seq& q) { return "type " + std::to_string(static_cast<int>(q.type)) + " [" + std::to_string(q.b) + "," + std::to_string(q.e) + ") parent " + std::to_string(q.parent) + " " + q.name + " end " + std::to_string(q.end) + " start " + std::to_string(q.start) + " attributes " + std::to_string(q.attrs.size()); }
static void same(const std::vector<seq>& a, const std::vector<seq>& b, const char* what)
{
	for (size_t i = 0; i < a.size() && i < b.size(); i++) { PBT_EQ(line(a[i]), line(b[i]), str(what) + ", sequence " + std::to_string(i)); PBT_REQUIRE(a[i].at == b[i].at, str(what) + ": name or content of sequence " + std::to_string(i)); for (size_t k = 0; k < a[i].attrs.size(); k++) PBT_REQUIRE(a[i].attrs[k].name == b[i].attrs[k].name && a[i].attrs[k].value == b[i].attrs[k].value, str(what) + ": attribute " + std::to_string(k) + " of sequence " + std::to_string(i)); } PBT_EQ(a.size(), b.size(), str(what) + ", number of sequences");
}
static H::element_t code(const str& n) { static const std::map<str, H::element_t> m{{"b", H::element_t::b}, {"p", H::element_t::p}, {"script", H::element_t::script}, {"html", H::element_t::html}, {"body", H::element_t::body}, {"li", H::element_t::li}, {"td", H::element_t::td}, {"a", H::element_t::a}, {"xmp", H::element_t::xmp}, {"address", H::element_t::address}, {"h6", H::element_t::h6}, {"wbr", H::element_t::wbr}, {"foo", H::element_t::unknown}, {"x-y", H::element_t::unknown}, {"img", H::element_t::img}, {"table", H::element_t::table}}; auto i = m.find(n); return i == m.end() ? H::element_t::empty : i->second; }
template<class T> static void composed(Src& s)
{
	gen g(s, false, s.boolean(), 60); g.document(); s.note([&] { return g.x; }); doc<T> d; { bool unknown = false; try { exact<T> e(W<T>(g.x)); doc<T> q; q.assign(e.get(), g.x.size()); } catch (const std::runtime_error&) { unknown = true; } PBT_REQUIRE(!unknown, "entities that are defined are not known"); } if (s.chance(1, 4)) d.parse(W<T>(s.pick(std::vector<str>{"<script><![CDATA[x", "<p><b>", "<![IGNORE[", "<p><![RCDATA[x", "<!ENTITY % x y><![INCLUDE[", "<!ENTITY % a 'IGNORE'><!ENTITY % ab 'CDATA'><!ENTITY % b 'x'><!ENTITY % A 'CDATA'><!ENTITY % x-1 'RCDATA'><!ENTITY % HTML.x 'TEMP'>", "<meta http-equiv=content-type content='text/html;charset=windows-1252'>"}))); d.parse(W<T>(g.x)); PBT_EQ(A(d.source()), g.x, "source"); auto v = take(d); same(v, g.v, "composed");
	for (size_t i = 0; i < v.size(); i++) { auto c = code(v[i].name); if (c == H::element_t::empty) continue; if (auto e = dynamic_cast<H::element*>(d.m_sequences[i].get())) PBT_REQUIRE(e->code == c, "code of " + v[i].name); if (auto e = dynamic_cast<H::element_end*>(d.m_sequences[i].get())) PBT_REQUIRE(e->code == c, "code of /" + v[i].name); }
	PBT_REQUIRE(d.m_charset == (!g.meta ? stdex::charset_id::system : low(g.charset) == "utf-8" ? stdex::charset_id::utf8 : g.charset == "windows-1250" ? stdex::charset_id::windows1250 : stdex::charset_id::windows1252), "charset"); s.nontrivial(v.size() > 3); s.label_if(g.omitted > 0, "omitted end tags"); s.label_if(g.conds > 0, "conditional sections"); s.label_if(g.raws > 0, "script, style, code"); s.label_if(g.strays > 0, "stray end tags"); s.label_if(g.spelled > 0, "keywords spelled by entities"); s.label_if(g.nested > 0, "sections within ignored ones"); s.label_if(g.meta, "charset");
}
PBT_CHECK(composed_, 12000, 150000) { if (s.boolean()) composed<char>(s); else composed<wchar_t>(s); }

// --- Documents of any kind.
static str soup(Src& s)
{
	str x; if (s.chance(1, 3)) { gen g(s, false, s.chance(1, 4), 25); g.document(); x = g.x; for (size_t k = 1 + s.draw(3); k--;) switch (s.draw(3)) { case 0: if (x.size()) x.erase(s.draw(x.size() - 1), 1 + s.draw(3)); break; case 1: x.insert(s.draw(x.size()), 1, "<>/!-=\"' xb&;"[s.draw(12)]); break; case 2: if (x.size()) { size_t b = s.draw(x.size() - 1), n = 1 + s.draw(20); x.insert(s.draw(x.size()), x.substr(b, n)); } break; default: x.resize(s.draw(x.size())); } return x; }
	static const std::vector<str> w{"<p>", "</p>", "<b>", "</b>", "<div>", "</div>", "<li>", "<ul>", "</ul>", "<address>", "</address>", "<cite>", "</cite>", "<script>", "</script>", "<style>", "</style>", "<foo>", "</foo>", "<bar>", "</bar>", "<br>", "<hr/>", "<table>", "<td>", "</table>", "<a href=\"", "\">", "<img alt='", "'>", "x y", "&amp;", "&lt;b&gt;", "<!--", "-->", "<?", "?>", "<!x", "<![CDATA[", "<![IGNORE[", "<![INCLUDE[", "]]>", "<", ">", "<a title=x>", "</a>", "url(a.b)", "<title>", "</title>", "<html>", "<body>", "</html>", "<comment>", "</comment>", "<code>", "</code>", "/>", "<h1>", "</h1>", "<dt>", "<dl>", "<select>", "<option>", "<meta http-equiv=content-type content=text/html;charset=utf-8>", "&eacute;", "</", "<center/>", "<kbd>", "</kbd>", "\"", "'", "="};
	for (size_t n = s.len(14); n--;) { auto& y = s.pick(w); size_t k = s.chance(1, 60) ? 1 + s.draw(300) : 1; while (k--) x += y; } return x;
}
static bool has(const str& x, const char* w) { return x.find(w) != str::npos; }
template<class T> static void any(Src& s)
{
	str x = soup(s); s.note([&] { return x; }); doc<T> d; d.parse(W<T>(x)); auto v = take(d); size_t p = 0; bool whole = !has(x, "<![");
	for (size_t i = 0; i < v.size(); i++) { auto& q = v[i]; str w = "sequence " + std::to_string(i) + ": "; PBT_REQUIRE(q.b <= q.e && q.b >= p, w + "out of order"); if (whole) PBT_REQUIRE(q.b == p && q.e > q.b, w + "does not continue where the one before ends"); p = q.e; if (q.type != S::text && q.type != S::CDATA && q.type != S::PCDATA) PBT_REQUIRE(x[q.b] == '<' && x[q.e - 1] == '>', w + "not a tag"); else if (whole && i) PBT_REQUIRE(v[i - 1].type != S::text, w + "text split");
		if (q.parent >= 0) { auto& t = v[q.parent]; PBT_REQUIRE(q.parent < static_cast<int>(i) && t.type == S::element_start && t.end != q.parent, w + "parent"); PBT_REQUIRE(t.end < 0 || t.end > static_cast<int>(i), w + "after its parent's end"); }
		if (q.type == S::element_start && q.end >= 0) { PBT_REQUIRE(q.end >= static_cast<int>(i), w + "ends before it starts"); for (int k = q.parent; k >= 0; k = v[k].parent) PBT_REQUIRE(v[k].end < 0 || v[k].end >= q.end, w + "ends after its parent"); if (q.end > static_cast<int>(i)) PBT_REQUIRE(v[q.end].type == S::element || v[q.end].type == S::element_start || v[q.end].type == S::element_end, w + "ended by no tag"); }
		if (q.type == S::element_start && q.end < 0) for (int k = q.parent; k >= 0; k = v[k].parent) PBT_REQUIRE(v[k].end < 0, w + "never ended, though its parent is");
		if (q.type == S::element_end && q.start >= 0) { auto& t = v[q.start]; PBT_REQUIRE(q.start < static_cast<int>(i) && t.type == S::element_start && t.end == static_cast<int>(i) && t.name == q.name && t.parent == q.parent, w + "start"); }
		if (q.type == S::element_end && q.start < 0) for (int k = q.parent; k >= 0; k = v[k].parent) PBT_REQUIRE(v[k].name != q.name, w + "unmatched, though started"); }
	if (whole) PBT_EQ(p, x.size(), "end of the last sequence"); s.nontrivial(v.size() > 2); s.label_if(whole && v.size() > 2, "no conditional sections");
}
PBT_CHECK(any_document, 30000, 400000, 5) { if (s.boolean()) any<char>(s); else any<wchar_t>(s); }

// Appended by chunks, cut where no tag, comment or section can be mistaken for finished.
template<class T> static void chunks(Src& s)
{
	str x; if (s.boolean()) { gen g(s, false, s.chance(1, 3), 25); g.document(); x = g.x; } else { x = soup(s); for (char& c : x) if (c == '"' || c == '\'') c = 'z'; } doc<T> a, b; auto w = W<T>(x); a.parse(w); auto v = take(a); std::set<size_t> cuts; for (size_t k = 1 + s.draw(3); k--;) { size_t c = s.draw(x.size()), f = 0; for (auto& q : v) if (q.e <= c) f = q.e; str part = x.substr(f, c - f); if (part.find_first_of(">[]") == str::npos) cuts.insert(c); } s.note([&] { str t; size_t p = 0; for (size_t c : cuts) { t += x.substr(p, c - p) + "|"; p = c; } return t + x.substr(p); });
	size_t p = 0; bool inside = false; for (size_t c : cuts) { exact<T> e(w.data() + p, c - p); b.append(e.get(), c - p); p = c; bool edge = c == 0; for (auto& q : v) edge |= q.e == c; inside |= !edge; } { exact<T> e(w.data() + p, w.size() - p); b.append(e.get(), w.size() - p); } b.finalize(); same(take(b), v, "by chunks"); PBT_EQ(A(b.source()), x, "source"); PBT_REQUIRE(a.m_charset == b.m_charset, "charset"); s.nontrivial(!cuts.empty() && v.size() > 2); s.label_if(inside, "cut inside a sequence");
}
PBT_CHECK(by_chunks, 15000, 200000, 5) { if (s.boolean()) chunks<char>(s); else chunks<wchar_t>(s); }

// A tag within a comment whose end arrives with the next chunk.
PBT_KNOWN(comment_split, "document appended as \"<!-- <b>\" and \" -->\" yields a text, an element and a text instead of a comment")
{
	doc<char> a, b; str x = "<!-- <b> -->"; a.parse(x); b.append(x.data(), 8); b.append(x.data() + 8, x.size() - 8); b.finalize(); PBT_EQ(a.m_sequences.size(), size_t(1), "parsed at once"); return b.m_sequences.size() != 1;
}

// --- Extraction and relinking.
using D = doc<wchar_t>; using P = H::parser<wchar_t>; using tok = H::text_token<wchar_t>;
static str dec(const str& x) { auto w = stdex::sgml2str(x); str r; for (wchar_t c : w) { uint32_t u = static_cast<uint32_t>(c); if (u == 0x12 || u == 0x13) u = ' '; r += static_cast<char>(u & 0xff); r += static_cast<char>(u >> 8 & 0xff); } return r; }
static str link(const tok* t) { std::wstring o = L"?"; P::link(o, t); PBT_REQUIRE(o[0] == L'?', "what was there before is gone"); o.erase(0, 1); str r; for (wchar_t c : o) if (static_cast<uint32_t>(c) < 0x80) r += static_cast<char>(c); else { char u[16]; snprintf(u, sizeof u, "&#x%x;", static_cast<unsigned>(c)); r += u; } return r; }
static void equivalent(const str& x, const std::vector<seq>& a, const str& y, const std::vector<seq>& b)
{
	for (size_t i = 0; i < a.size() && i < b.size(); i++) { auto p = a[i], q = b[i]; str w = "relinked, sequence " + std::to_string(i); str s1 = x.substr(p.b, p.e - p.b), s2 = y.substr(q.b, q.e - q.b); if (p.type == S::text && (dec(s1) == dec(s2) || !has(s1, "url("))) PBT_EQ(dec(s1), dec(s2), w); else if (p.type == S::text) { str u1, u2; H::css_unescape(u1, s1); H::css_unescape(u2, s2); PBT_EQ(u1, u2, w); } p.b = q.b = p.e = q.e = 0; PBT_EQ(line(q), line(p), w); if (p.type == S::element || p.type == S::element_start) for (size_t k = 0; k < p.attrs.size(); k++) { auto get = [](const str& z, const iv& i) { return i == none ? str("(none)") : z.substr(i.first, i.second - i.first); }; PBT_EQ(get(x, p.attrs[k].name), get(y, q.attrs[k].name), w + " attribute name"); PBT_EQ(dec(get(x, p.attrs[k].value)), dec(get(y, q.attrs[k].value)), w + " attribute value"); } else if (p.type != S::text) PBT_EQ(s2, s1, w); } PBT_EQ(b.size(), a.size(), "relinked, number of sequences");
}
static void relink(Src& s)
{
	unsigned k = static_cast<unsigned>(s.draw(3)); bool canon = k < 2; str x; if (k < 3) { gen g(s, canon, false, 50); g.document(); x = g.x; s.label_if(g.entities > 0, "entities"); } else { x = soup(s); if (has(x, "<![") || has(x, "&#") || has(x, "&quot")) throw discard_t{}; } s.note([&] { return x; }); D d; auto wx = W<wchar_t>(x); if (k > 1 && x.find_first_of("\"'") == str::npos && s.boolean()) { D f; f.parse(wx); size_t cut = 0; if (!f.m_sequences.empty()) cut = s.pick(f.m_sequences)->interval.end; d.append(wx.data(), cut); d.append(wx.data() + cut, wx.size() - cut); d.finalize(); s.label("appended"); } else d.parse(wx); stdex::progress<size_t> pr; P p(d, nullptr, 0, true, s.boolean() ? &pr : nullptr); auto t = p.parse(); PBT_REQUIRE(t, "nothing parsed"); str y = link(t); if (canon) PBT_EQ(y, x, "canonical document relinked"); D e; e.parse(W<wchar_t>(y)); auto v = take(d); equivalent(x, v, y, take(e)); P q(e, nullptr, 0, true); PBT_EQ(link(q.parse()), y, "relinked again"); s.nontrivial(v.size() > 3); s.label_if(x != y, "spelled otherwise"); s.label_if(k == 3, "any document");
}
PBT_CHECK(relink_, 12000, 150000, 5) { relink(s); }

// Every character of extracted text comes from where its mapping says, each place of the document at most once.
PBT_CHECK(positions, 10000, 100000, 5)
{
	gen g(s, false, false, 40); g.document(); const str& x = g.x; s.note([&] { return x; }); D d; d.parse(W<wchar_t>(x)); P p(d, nullptr, 0, true); p.parse(); std::map<size_t, size_t> seen; size_t decoded = 0; str all; std::vector<std::pair<size_t, char>> got; std::map<const H::sequence*, size_t> ix; size_t tags = 0; static const std::set<str> raw{"address", "code", "comment", "cite", "kbd", "samp", "script", "style"}; for (size_t i = 0; i < d.m_sequences.size(); i++) ix[d.m_sequences[i].get()] = i;
	for (auto& k : p.tokens()) { auto t = dynamic_cast<tok*>(k.get()); if (!t || t->mapping.empty()) continue; size_t hint = 0, last = 0; for (size_t j = 0; j < t->text.size(); j++) { if (t->text[j] == L'\x12') { size_t o = j; auto c = H::token::parse_tag(t->text.c_str(), o); PBT_REQUIRE(c, "token tag"); if (c->sequence) { auto ct = dynamic_cast<const tok*>(c); bool content = c->sequence->type == S::text || (ct && !ct->mapping.empty()); auto at = ix.find(c->sequence); if (at != ix.end() && at->second) if (auto e = dynamic_cast<const H::element_start*>(d.m_sequences[at->second - 1].get())) content |= raw.count(low(x.substr(e->name.start, e->name.end - e->name.start))) && e->end != c->sequence; size_t place = content && at != ix.end() && at->second ? d.m_sequences[at->second - 1]->interval.start : c->sequence->interval.start; PBT_EQ(stdex::dst2src(t->mapping, j), place, "place of token " + std::to_string(j)); tags++; } j = o - 1; continue; } size_t from = stdex::dst2src(t->mapping, j), h = stdex::dst2src(t->mapping, j, hint); PBT_EQ(h, from, "position with and without a hint"); PBT_REQUIRE(from < x.size() && from >= last, "position " + std::to_string(from) + " of character " + std::to_string(j) + " out of order"); last = from + 1; size_t semi = x.find(';', from); wchar_t c = static_cast<wchar_t>(static_cast<unsigned char>(x[from])); if (c == L'&' && semi != str::npos) { auto w = stdex::sgml2str(x.substr(from, semi + 1 - from)); if (w[0] != L'&' || w.size() == 1) { decoded++; c = w[0]; } } if (c == 0x12 || c == 0x13) c = L' '; PBT_EQ(static_cast<uint32_t>(t->text[j]), static_cast<uint32_t>(c), "character " + std::to_string(j) + " mapped to " + std::to_string(from)); PBT_REQUIRE(seen.emplace(from, 1).second, "a place of the document extracted twice"); } }
	// All text that is not within elements left as they are is extracted.
	auto v = take(d); static const std::set<str> left{"address", "code", "comment", "cite", "kbd", "samp", "script", "style"}; for (size_t i = 0; i < v.size(); i++) if (v[i].type == S::text) { bool in = false; for (int k = v[i].parent; k >= 0; k = v[k].parent) in |= left.count(v[k].name) > 0; for (size_t o = v[i].b; o < v[i].e; o++) if (x[o] != ';' && isalpha(static_cast<unsigned char>(x[o])) && x.rfind('&', o) == str::npos) PBT_REQUIRE((seen.count(o) > 0) == !in, in ? "text of an element to leave alone was extracted" : "text not extracted at " + std::to_string(o)); }
	s.nontrivial(seen.size() > 3); s.label_if(decoded > 0, "entities");
}

// What extracted text is said to be: title, bullet, attribute, with text of its own, with tokens.
PBT_CHECK(flags, 8000, 80000, 5)
{
	gen g(s, false, false, 40); g.document(); const str& x = g.x; s.note([&] { return x; }); D d; d.parse(W<wchar_t>(x)); P p(d, nullptr, 0, true); p.parse(); size_t titles = 0, bullets = 0, atts = 0; std::map<const H::sequence*, size_t> ix; for (size_t i = 0; i < d.m_sequences.size(); i++) ix[d.m_sequences[i].get()] = i; static const std::set<str> title{"h1", "h2", "h3", "h4", "h5", "h6", "dt", "title"}, list{"ul", "ol", "dir", "menu"};
	// Text belongs to the innermost group it stands in.
	auto v = take(d); std::vector<int> group(v.size(), -1); { std::vector<std::pair<int, size_t>> open; for (size_t i = 0; i < v.size(); i++) { while (!open.empty() && open.back().second <= i) open.pop_back(); if (!open.empty()) group[i] = open.back().first; if (v[i].type != S::element_start) continue; auto e = static_cast<const H::element_start*>(d.m_sequences[i].get()); if (!H::element_traits::is_group(e->code)) continue; size_t limit = open.empty() ? v.size() : open.back().second; auto z = ix.find(e->end); if (z != ix.end() && z->second > i) limit = std::min(limit, z->second); open.push_back({static_cast<int>(i), limit}); } }
	auto within = [&](size_t o, size_t q, const str& w) { size_t i = 0; while (i < v.size() && v[i].e <= o) i++; if (i < v.size() && v[i].type == S::text) PBT_EQ(group[i], static_cast<int>(q) - 1, w + "holds text of another group, at " + std::to_string(o)); };
	for (auto& k : p.tokens()) { auto t = dynamic_cast<tok*>(k.get()); if (!t) continue; str w = "token \"" + show(A(t->text)) + "\" "; PBT_EQ((t->text_type & H::has_tokens) != 0, t->text.find(L'\x12') != std::wstring::npos, w + "has tokens"); unsigned f = t->text_type & ~static_cast<unsigned>(H::has_tokens); if (t->text.empty()) { PBT_REQUIRE(!(f & (H::has_text | H::is_attribute)), w + "flags of nothing"); continue; } if (t->mapping.empty() || t->type != H::token_t::complete) { PBT_EQ(f, 0u, w + "flags of a tag"); continue; }
		auto q = t->sequence; PBT_REQUIRE(q, w + "without a sequence"); size_t from = t->mapping.front().from; if ((q->type == S::element || q->type == S::element_start) && from > q->interval.start && from < q->interval.end) { PBT_EQ(f, static_cast<unsigned>(H::has_text | H::is_title | H::is_attribute), w + "flags of an attribute"); atts++; continue; }
		bool text = false; for (size_t j = 0; j < t->text.size(); j++) { if (t->text[j] == L'\x12') { PBT_REQUIRE(H::token::parse_tag(t->text.c_str(), j), "token tag"); j--; continue; } size_t o = stdex::dst2src(t->mapping, j); PBT_REQUIRE(o < x.size(), "position"); within(o, ix.at(q), w); if (!strchr(" \t\r\n\v\f", x[o])) text = true; }
		str parent; if (size_t o = ix.at(q)) { auto e = dynamic_cast<const H::element_start*>(d.m_sequences[o - 1].get()); PBT_REQUIRE(e, w + "group not after a start tag"); parent = low(x.substr(e->name.start, e->name.end - e->name.start)); } unsigned want = (text ? H::has_text : 0u) | (title.count(parent) ? H::is_title : 0u) | (list.count(parent) ? H::is_bullet : 0u); titles += title.count(parent); bullets += list.count(parent); PBT_EQ(f, want, w + "flags of text within " + parent); }
	s.nontrivial(titles + bullets + atts > 0); s.label_if(titles > 0, "titles"); s.label_if(bullets > 0, "bullets"); s.label_if(atts > 0, "attributes");
}
// Tokens inserted at words with the tags that should be active there: well nested, in order, nothing else changed.
PBT_CHECK(inserted, 8000, 80000)
{
	std::vector<str> names{"b", "i", "span", "q"}; str x = "<p>"; for (auto& n : names) x += "<" + n + ">"; x += "w<br>v<img src=a>"; for (auto i = names.rbegin(); i != names.rend(); ++i) x += "</" + *i + ">"; x += "</p>"; D d; d.parse(W<wchar_t>(x)); P p(d); p.parse(); std::vector<H::token*> open, other; for (auto& k : p.tokens()) if (k->type == H::token_t::starting && dynamic_cast<H::starting_token<wchar_t>*>(k.get())->name != L"p") open.push_back(k.get()); else if (k->type == H::token_t::complete && k->sequence && k->sequence->type != S::text) if (auto e = dynamic_cast<H::element*>(k->sequence)) if (e->code == H::element_t::br || e->code == H::element_t::img) other.push_back(k.get()); PBT_EQ(open.size(), names.size(), "starting tokens"); PBT_EQ(other.size(), size_t(2), "empty elements");
	auto text = [&](const H::token* t) { return A(dynamic_cast<const tok*>(t)->text); }; H::inserted_token_list list; struct ins { H::token* t; std::vector<size_t> act; size_t word; bool after; }; std::vector<ins> in; for (size_t n = s.len(6); n--;) { ins q{other[s.draw(1)], {}, s.draw(2), s.boolean()}; for (size_t i = 0; i < open.size(); i++) if (s.boolean()) q.act.push_back(i); if (s.boolean()) std::reverse(q.act.begin(), q.act.end()); in.push_back(q); H::inserted_token t{q.t, {}, q.word, q.after}; for (size_t i : q.act) t.active_tokens.push_back(open[i]); list.push_back(t); }
	std::wstring out; H::token_list active; str r; std::vector<size_t> act; size_t words = 1 + s.draw(3), changes = 0; for (size_t w = 0; w < words; w++) for (int after = 0; after < 2; after++) { if (after) { out += static_cast<wchar_t>('0' + w); r += static_cast<char>('0' + w); } p.append_inserted_tokens(out, list, w, after != 0, active); for (auto& q : in) if (q.word == w && q.after == (after != 0)) { size_t c = 0; while (c < act.size() && c < q.act.size() && act[c] == q.act[c]) c++; while (act.size() > c) { r += "</" + names[act.back()] + ">"; act.pop_back(); changes++; } for (; c < q.act.size(); c++) { act.push_back(q.act[c]); r += "<" + names[act.back()] + ">"; changes++; } r += q.t == other[0] ? "<br>" : "<img src=a>"; } }
	size_t rest = 0; for (auto& q : in) rest += q.word >= words; PBT_EQ(list.size(), rest, "tokens left in the list"); PBT_EQ(active.size(), act.size(), "active tokens"); { size_t k = 0; for (auto t : active) PBT_REQUIRE(t == open[act[k++]], "active token"); } p.end_tokens(out, active, {}); while (!act.empty()) { r += "</" + names[act.back()] + ">"; act.pop_back(); } PBT_REQUIRE(active.empty(), "tokens left active"); str got; for (size_t i = 0; i < out.size();) if (auto t = H::token::parse_tag(out.c_str(), i)) { if (t == other[1]) got += "<img src=a>"; else got += text(t); } else got += static_cast<char>(out[i++]); PBT_EQ(got, r); s.nontrivial(changes > 2);
	H::token_list a, b, u; for (auto l : {&a, &b}) for (size_t i = 0; i < open.size(); i++) if (s.boolean()) l->push_back(open[i]); u = a; for (auto t : b) if (std::find(u.begin(), u.end(), t) == u.end()) u.push_back(t); P::merge(a, b); PBT_REQUIRE(a == u, "union of token lists: " + std::to_string(a.size()) + " instead of " + std::to_string(u.size()));
}
PBT_CHECK(frames, 500, 2000)
{
	str x = "<html><frameset><frame src=a></frameset></html>"; if (s.boolean()) x = "<html><body>" + x; bool allow = s.boolean(); D d; d.parse(W<wchar_t>(x)); P p(d, nullptr, 0, allow); bool thrown = false; try { auto t = p.parse(); PBT_EQ(link(t), x); } catch (const std::invalid_argument&) { thrown = true; } PBT_EQ(thrown, !allow, "frames refused"); s.nontrivial();
}
PBT_MAIN("W01", "Documents composed by a grammar of HTML 4 with optional end tags, raw elements, comments, declarations and conditional sections, documents mutated from them and soups of tags; those of more than a few sequences count as non-trivial. Oracle: the sequences composed, nesting invariants, the whole document against its chunks, the document relinked.")
