// What is known of HTML elements: their names, end tags, content, and the attributes that hold addresses or text. Oracle: the HTML 4.01 DTD, written down as content models.
// SCALE: 20
#include "common.hpp"
#include <mutex>
#include <shared_mutex>
#include <stdex/html.hpp>
using namespace pbt; namespace H = stdex::html; using S = stdex::parser::html_sequence_t; using str = std::string; using E = H::element_t; using X = H::element_traits;
template<class T> static std::basic_string<T> W(const str& x) { return std::basic_string<T>(x.begin(), x.end()); }
template<class T> struct doc : H::document<T> { using H::document<T>::m_sequences; void parse(const str& y) { auto x = W<T>(y); exact<T> e(x.data(), x.size()); this->assign(e.get(), x.size()); } };

#define HTML4 N(a) N(abbr) N(acronym) N(address) N(applet) N(area) N(b) N(base) N(basefont) N(bdo) N(big) N(blockquote) N(body) N(br) N(button) N(caption) N(center) N(cite) N(code) N(col) N(colgroup) N(dd) N(del) N(dfn) N(dir) N(div) N(dl) N(dt) N(em) N(fieldset) N(font) N(form) N(frame) N(frameset) N(h1) N(h2) N(h3) N(h4) N(h5) N(h6) N(head) N(hr) N(html) N(i) N(iframe) N(img) N(input) N(ins) N(isindex) N(kbd) N(label) N(legend) N(li) N(link) N(map) N(menu) N(meta) N(noframes) N(noscript) N(object) N(ol) N(optgroup) N(option) N(p) N(param) N(pre) N(q) N(s) N(samp) N(script) N(select) N(small) N(span) N(strike) N(strong) N(style) N(sub) N(sup) N(table) N(tbody) N(td) N(textarea) N(tfoot) N(th) N(thead) N(title) N(tr) N(tt) N(u) N(ul) N(var)
#define OTHER N(bgsound) N(blink) N(comment) N(embed) N(listing) N(marquee) N(nextid) N(nobr) N(noembed) N(plaintext) N(rt) N(ruby) N(wbr) N(xmp)
#define N(x) {#x, E::x},
static const std::vector<std::pair<str, E>> html4{HTML4}, other{OTHER};
#undef N
static const std::map<str, E>& all() { static const std::map<str, E> m = [] { std::map<str, E> r(html4.begin(), html4.end()); r.insert(other.begin(), other.end()); return r; }(); return m; }
static str low(str x) { for (char& c : x) c = static_cast<char>(tolower(c)); return x; }
static str rnd_case(Src& s, str x) { switch (s.draw(3)) { case 0: for (char& c : x) c = static_cast<char>(toupper(c)); break; case 1: for (char& c : x) if (s.boolean()) c = static_cast<char>(toupper(c)); } return x; }

// --- The DTD. Entities in %; each element with its content model (exclusions after '-').
using names = std::set<str>;
static names words(const str& x)
{
	static const std::map<str, str> entity{
		{"%fontstyle", "tt i b u s strike big small"}, {"%phrase", "em strong dfn code samp kbd var cite abbr acronym"}, {"%special", "a img applet object font basefont br script map q sub sup span bdo iframe"}, {"%formctrl", "input select textarea label button"},
		{"%inline", "#PCDATA %fontstyle %phrase %special %formctrl"}, {"%heading", "h1 h2 h3 h4 h5 h6"}, {"%list", "ul ol dir menu"}, {"%block", "p %heading %list pre dl div center noscript noframes blockquote form isindex hr table fieldset address"}, {"%flow", "%block %inline"},
		{"%head.content", "title isindex base"}, {"%head.misc", "script style meta link object"}};
	names r; std::istringstream in(x); str w; while (in >> w) if (w[0] == '%') { auto y = words(entity.at(w)); r.insert(y.begin(), y.end()); } else r.insert(w); return r;
}
static const std::map<str, names>& dtd()
{
	static const std::map<str, names> m = [] {
		std::map<str, names> r; auto put = [&](const char* elements, const char* content, const char* without = "") { names c = words(content); for (auto& w : words(without)) c.erase(w); for (auto& e : words(elements)) { PBT_REQUIRE(!r.count(e), e); r[e] = c; } };
		put("%fontstyle %phrase sub sup span bdo font p %heading q dt caption legend", "%inline"); put("basefont br area link img param hr input col frame isindex base meta", "");
		put("a", "%inline", "a"); put("label", "%inline", "label"); put("pre", "%inline", "img object applet big small sub sup font basefont"); put("address", "%inline p"); put("body", "%flow ins del");
		put("div center blockquote dd li th td iframe noscript ins del", "%flow"); put("map", "%block area"); put("object applet", "param %flow"); put("dl", "dt dd"); put("ul ol dir menu", "li"); put("form", "%flow", "form"); put("select", "optgroup option"); put("optgroup", "option"); put("option textarea title", "#PCDATA");
		put("fieldset", "#PCDATA legend %flow"); put("button", "%flow", "a %formctrl form isindex fieldset iframe"); put("table", "caption col colgroup thead tfoot tbody"); put("thead tfoot tbody", "tr"); put("colgroup", "col"); put("tr", "th td"); put("frameset", "frameset frame noframes"); put("noframes", "%flow body", "noframes");
		put("head", "%head.content %head.misc"); put("script style", "#CDATA"); put("html", "head body frameset"); return r;
	}();
	return m;
}
// Insertions and deletions are allowed anywhere in a body by an SGML inclusion, which is left open here.
static bool open_question(const str& p, const str& c) { return (c == "ins" || c == "del") && p != "body"; }
static bool contains(const str& p, const str& c) { return dtd().at(p).count(c) > 0; }
static bool is_empty(const str& x) { static const names e = words("area base basefont br col frame hr img input isindex link meta param"); return e.count(x) > 0; }

template<class T> static void named(Src& s)
{
	str n = s.boolean() ? s.pick(html4).first : s.pick(other).first; if (s.boolean()) switch (s.draw(4)) { case 0: n += s.pick<char>({'a', 's', '1', '6', 't', 'e'}); break; case 1: if (n.size() > 1) n.pop_back(); break; case 2: n[s.draw(n.size() - 1)] = static_cast<char>('a' + s.draw(25)); break; case 3: n += s.pick(html4).first; break; default: n = str(1, static_cast<char>('a' + s.draw(25))) + n; }
	auto i = all().find(n); E want = i == all().end() ? E::unknown : i->second; str x = "<" + rnd_case(s, n) + ">", y = "</" + rnd_case(s, n) + ">", z = "<" + rnd_case(s, n) + "/>"; s.note([&] { return x + y; }); s.nontrivial(); s.label_if(want == E::unknown, "unknown name");
	doc<T> d; d.parse(x); PBT_EQ(d.m_sequences.size(), size_t(1)); auto e = dynamic_cast<H::element_start*>(d.m_sequences[0].get()); PBT_REQUIRE(e, "not a start tag"); PBT_REQUIRE(e->code == want, "code of the start tag"); PBT_REQUIRE(e->type == S::element_start);
	bool none = X::span(want) == H::element_span_t::immediate; PBT_REQUIRE((e->end == e) == none && (none || !e->end), "end of a start tag alone"); if (dtd().count(n) || want == E::unknown) PBT_REQUIRE(none == is_empty(n), "elements that never span"); if (n == "bgsound" || n == "embed" || n == "wbr" || n == "nextid") PBT_REQUIRE(none, "elements that never span");
	doc<T> f; f.parse(y); PBT_EQ(f.m_sequences.size(), size_t(1)); auto g = dynamic_cast<H::element_end*>(f.m_sequences[0].get()); PBT_REQUIRE(g && g->code == want && !g->start, "an end tag alone"); doc<T> h; h.parse(z); PBT_EQ(h.m_sequences.size(), size_t(1)); auto k = dynamic_cast<H::element*>(h.m_sequences[0].get()); PBT_REQUIRE(k && k->type == S::element && k->code == want, "element in one tag");
	if (!none) { doc<T> p; p.parse(x + y); PBT_EQ(p.m_sequences.size(), size_t(2)); auto a = dynamic_cast<H::element_start*>(p.m_sequences[0].get()); auto b = dynamic_cast<H::element_end*>(p.m_sequences[1].get()); PBT_REQUIRE(a && b && a->end == b && b->start == a, "start and end are not paired"); }
}
PBT_CHECK(names_, 20000, 200000) { if (s.boolean()) named<char>(s); else named<wchar_t>(s); }

PBT_CHECK(end_tags, 3000, 30000)
{
	auto& e = s.pick(html4); s.nontrivial(); s.note([&] { return e.first; }); static const names optional = words("body colgroup dd dt head html li option p tbody td tfoot th thead tr");
	PBT_REQUIRE(X::span(e.second) == (is_empty(e.first) ? H::element_span_t::immediate : optional.count(e.first) ? H::element_span_t::end_optional : H::element_span_t::needs_end), "end tag");
	static const names block = words("%block"), inl = words("%inline"), phrase = words("%phrase"), font = words("%fontstyle"), list = words("%list"), head = words("%heading"), form = words("%formctrl"), hc = words("%head.content"), hm = words("%head.misc"), content = words("head body frameset"), flow = words("%flow");
	auto in = [&](const names& n) { return n.count(e.first) > 0; }; E c = e.second; PBT_REQUIRE(X::is_block(c) == in(block), "block"); PBT_REQUIRE(X::is_inline(c) == in(inl), "inline"); PBT_REQUIRE(X::is_flow(c) == in(flow), "flow"); PBT_REQUIRE(X::is_phrase(c) == in(phrase), "phrase"); PBT_REQUIRE(X::is_fontstyle(c) == in(font), "font style"); PBT_REQUIRE(X::is_list(c) == in(list), "list"); PBT_REQUIRE(X::is_heading(c) == in(head), "heading"); PBT_REQUIRE(X::is_formctrl(c) == in(form), "form control"); PBT_REQUIRE(X::is_head_content(c) == in(hc), "head content"); PBT_REQUIRE(X::is_head_misc(c) == in(hm), "head miscellany"); PBT_REQUIRE(X::is_html_content(c) == in(content), "content of html"); PBT_REQUIRE(X::is_preformatted(c) == (e.first == "pre"), "preformatted"); if (in(block) || in(content) || in(hc)) PBT_REQUIRE(X::is_group(c), "group");
}

PBT_CHECK(content, 60000, 300000)
{
	auto& p = s.pick(html4); size_t k = s.draw(html4.size() + 2); str c = k < html4.size() ? html4[k].first : k == html4.size() ? "#PCDATA" : k == html4.size() + 1 ? "#CDATA" : "unknown"; E e = k < html4.size() ? html4[k].second : k == html4.size() ? E::PCDATA : k == html4.size() + 1 ? E::CDATA : E::unknown; s.note([&] { return c + " in " + p.first; });
	if (c == "unknown") { PBT_REQUIRE(X::may_contain(p.second, e) && X::may_contain(e, p.second), "unknown elements nest anywhere"); return; } if (open_question(p.first, c)) return; s.nontrivial(contains(p.first, c)); PBT_EQ(X::may_contain(p.second, e), contains(p.first, c));
}

// Start tags only: each becomes a child of the innermost open element that may hold it, and ends those inside.
template<class T> static void starts(Src& s)
{
	str x; struct el { str n; int parent = -1, end = -1; }; std::vector<el> v; std::vector<int> st; size_t ended = 0;
	for (size_t n = s.len(10); n--;) {
		str c = s.pick(html4).first; if (!st.empty() && s.boolean()) { auto& m = dtd().at(v[st.back()].n); if (!m.empty()) { c = *std::next(m.begin(), static_cast<ptrdiff_t>(s.draw(m.size() - 1))); if (c[0] == '#') c = "p"; } } if (c == "script" || c == "style" || c == "code" || c == "ins" || c == "del") c = "b";
		int me = static_cast<int>(v.size()); x += "<" + rnd_case(s, c) + s.pick(std::vector<str>{"", " id=x", " "}) + ">"; v.push_back({c}); while (!st.empty() && !contains(v[st.back()].n, c)) { v[st.back()].end = me; st.pop_back(); ended++; } if (!st.empty()) v[me].parent = st.back(); if (is_empty(c)) v[me].end = me; else st.push_back(me);
	}
	s.note([&] { return x; }); s.nontrivial(v.size() > 2); s.label_if(ended > 0, "ended by another"); s.label_if(st.size() > 3, "deep"); doc<T> d; d.parse(x); PBT_EQ(d.m_sequences.size(), v.size());
	auto at = [&](const H::sequence* q) { if (!q) return -1; for (size_t i = 0; i < v.size(); i++) if (d.m_sequences[i].get() == q) return static_cast<int>(i); fail("sequence not of this document"); };
	for (size_t i = 0; i < v.size(); i++) { auto e = dynamic_cast<H::element_start*>(d.m_sequences[i].get()); str w = std::to_string(i) + ": " + v[i].n; PBT_REQUIRE(e, w); PBT_EQ(at(e->parent), v[i].parent, "parent of " + w); PBT_EQ(at(e->end), v[i].end, "end of " + w); }
}
PBT_CHECK(start_tags, 20000, 300000) { if (s.boolean()) starts<char>(s); else starts<wchar_t>(s); }

// --- Attributes.
PBT_CHECK(attributes, 60000, 600000)
{
	static const std::map<str, names> uri{{"a", {"href"}}, {"applet", {"codebase"}}, {"area", {"href"}}, {"base", {"href"}}, {"blockquote", {"cite"}}, {"body", {"background"}}, {"del", {"cite"}}, {"form", {"action"}}, {"frame", {"src", "longdesc"}}, {"head", {"profile"}}, {"iframe", {"src", "longdesc"}}, {"img", {"src", "longdesc", "usemap"}}, {"input", {"src", "usemap"}}, {"ins", {"cite"}}, {"link", {"href"}}, {"object", {"classid", "codebase", "data", "usemap"}}, {"q", {"cite"}}, {"script", {"src"}}, {"bgsound", {"src"}}, {"embed", {"src", "pluginspage"}}};
	static const std::map<str, names> text{{"applet", {"alt"}}, {"area", {"alt"}}, {"img", {"alt"}}, {"input", {"alt"}}, {"table", {"summary"}}, {"td", {"abbr"}}, {"th", {"abbr"}}};
	static const std::map<str, names> left{{"applet", {"code", "src", "archive", "object"}}, {"comment", {"data"}}, {"img", {"lowsrc"}}, {"input", {"lowsrc"}}, {"object", {"basehref", "code", "archive", "alt", "standby"}}, {"table", {"background"}}, {"td", {"background"}}, {"th", {"background"}}, {"script", {"for"}}, {"option", {"label"}}, {"optgroup", {"label"}}, {"isindex", {"prompt"}}, {"form", {"data"}}};
	static const std::vector<str> any{"href", "src", "cite", "background", "action", "longdesc", "profile", "usemap", "classid", "codebase", "data", "code", "alt", "title", "summary", "abbr", "id", "class", "style", "lang", "name", "value", "type", "rel", "content", "http-equiv", "width", "height", "align", "bgcolor", "target", "onclick", "pluginspage", "charset", "media", "shape", "coords", "label", "prompt", "for", "standby", "archive"};
	str n = s.chance(1, 8) ? s.pick(other).first : s.pick(html4).first; auto of = [&](const std::map<str, names>& m, const str& a) { auto i = m.find(n); return i != m.end() && i->second.count(a); }; str a; if (s.boolean()) { n = std::next(uri.begin(), static_cast<ptrdiff_t>(s.draw(uri.size() - 1)))->first; a = *uri.at(n).begin(); } if (s.boolean()) { auto i = uri.find(n); if (i != uri.end()) a = *std::next(i->second.begin(), static_cast<ptrdiff_t>(s.draw(i->second.size() - 1))); } if (s.chance(1, 4)) { auto i = std::next(text.begin(), static_cast<ptrdiff_t>(s.draw(text.size() - 1))); n = i->first; a = *i->second.begin(); } else if (a.empty() || s.chance(1, 3)) a = s.pick(any); if (s.chance(1, 6)) { if (s.boolean()) a.pop_back(); else a += s.pick<char>({'x', 's', '-', 'e'}); }
	if (of(left, a)) return; bool u = of(uri, a), t = a == "title" || of(text, a); str c = rnd_case(s, a); E e = all().at(n); s.note([&] { return n + " " + c; }); s.nontrivial(u || t); s.label_if(u, "address"); s.label_if(t, "text"); auto w = W<wchar_t>(c); exact<char> x(c.data(), c.size()); exact<wchar_t> y(w.data(), w.size());
	bool z = s.chance(1, 3); if (z) { PBT_EQ(X::is_uri(e, c.c_str(), SIZE_MAX), u); PBT_EQ(X::is_localizable(e, w.c_str(), SIZE_MAX), t); return; } PBT_EQ(X::is_uri(e, x.get(), x.n), u, "address"); PBT_EQ(X::is_uri(e, y.get(), y.n), u, "address, wide"); PBT_EQ(X::is_localizable(e, x.get(), x.n), t, "text"); PBT_EQ(X::is_localizable(e, y.get(), y.n), t, "text, wide");
}
PBT_MAIN("W03", "Element names in any letter case, near misses, pairs of elements, sequences of start tags, attribute names with near misses; non-trivial: several start tags, allowed content, attributes that hold an address or text. Oracle: the HTML 4.01 (loose and frameset) DTD written down as content models.")
