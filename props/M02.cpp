// Position mappings: translation against a linear reference; mappings emitted by SGML conversion against conversion of prefixes.
// SCALE: 4
#include "pbt.hpp"
#include <stdex/mapping.hpp>
#include <stdex/sgml.hpp>
using namespace pbt;

using M = stdex::mapping<size_t>;
static size_t ref(const std::vector<M>& v, size_t p, bool src)
{
	if (v.empty()) return p;
	const M* best = nullptr;
	for (auto& e : v) { size_t k = src ? e.from : e.to; if (k <= p) best = &e; }
	if (!best) return std::min(p, src ? v[0].to : v[0].from);
	return src ? best->to + (p - best->from) : best->from + (p - best->to);
}
static std::vector<M> gen(Src& s)
{
	std::vector<M> v; size_t f = s.draw(6), t = s.draw(6); bool tight = s.boolean();
	s.repeat(60, [&] { v.emplace_back(f, t); f += 1 + s.draw(tight ? 1 : 9); t += 1 + s.draw(tight ? 1 : 9); });
	return v;
}
static std::string show(const std::vector<M>& v) { std::string r; for (auto& e : v) r += "(" + pbt::show(e.from) + "," + pbt::show(e.to) + ")"; return r; }
PBT_CHECK(translate, 60000, 400000)
{
	{ M fresh; PBT_REQUIRE(fresh.from == 0 && fresh.to == 0, "default mapping"); }
	auto v = gen(s); size_t lim = v.empty() ? 20 : std::max(v.back().from, v.back().to) + 8, hint_s = v.empty() ? 0 : s.draw(v.size() - 1), hint_d = hint_s; size_t n = 0;
	s.note([&] { return show(v); });
	auto one = [&](size_t p) {
		size_t a = ref(v, p, true), b = ref(v, p, false); n++;
		std::string w = "position " + pbt::show(p) + ", hint " + pbt::show(hint_s);
		PBT_EQ(stdex::src2dst<size_t>(v, p), a, w); PBT_EQ(stdex::dst2src<size_t>(v, p), b, w);
		PBT_EQ(stdex::src2dst<size_t>(v, p, hint_s), a, w); PBT_REQUIRE(v.empty() || hint_s < v.size(), "hint left the list");
		PBT_EQ(stdex::dst2src<size_t>(v, p, hint_d), b, w); PBT_REQUIRE(v.empty() || hint_d < v.size(), "hint left the list");
	};
	if (s.boolean()) s.repeat(30, [&] { one(s.draw(lim)); }); // hints carried over
	else for (size_t p = 0; p <= lim; p++) { if (s.chance(1, 4) && !v.empty()) { hint_s = s.draw(v.size() - 1); hint_d = s.draw(v.size() - 1); } one(p); }
	s.nontrivial(v.size() > 1 && n > 1);
}
// Translating there and back at the correspondences themselves.
PBT_CHECK(back_and_forth, 60000, 400000)
{
	auto v = gen(s);
	for (auto& e : v) { PBT_EQ(stdex::src2dst<size_t>(v, e.from), e.to); PBT_EQ(stdex::dst2src<size_t>(v, e.to), e.from); for (size_t h = 0; h < v.size(); h++) { size_t k = h; PBT_EQ(stdex::src2dst<size_t>(v, e.from, k), e.to); k = h; PBT_EQ(stdex::dst2src<size_t>(v, e.to, k), e.from); } }
	auto inv = v; for (auto& e : inv) { M o = e; e.invert(); PBT_EQ(e.from, o.to); PBT_EQ(e.to, o.from); PBT_REQUIRE(e != o || o.from == o.to); }
	for (size_t p = 0; p < 30; p++) { PBT_EQ(stdex::src2dst<size_t>(inv, p), stdex::dst2src<size_t>(v, p)); }
	if (v.size() > 1) { M a = v[0], b = v[1], c = a + b; PBT_EQ(c.from, a.from + b.from); PBT_EQ(c.to, a.to + b.to); PBT_REQUIRE(!(a == b)); }
	s.nontrivial(v.size() > 1);
}
PBT_CHECK(signed_positions, 30000, 200000)
{
	using I = stdex::mapping<int>; std::vector<I> v; int f = s.range(-9, 9), t = s.range(-9, 9); s.repeat(20, [&] { v.emplace_back(f, t); f += 1 + static_cast<int>(s.draw(4)); t += 1 + static_cast<int>(s.draw(4)); });
	int p = s.range(-20, 90), w; const I* b = nullptr; for (auto& e : v) if (e.from <= p) b = &e;
	w = v.empty() ? p : b ? b->to + (p - b->from) : std::min(p, v[0].to); PBT_EQ(stdex::src2dst<int>(v, p), w); size_t h = v.empty() ? 0 : s.draw(v.size() - 1); PBT_EQ(stdex::src2dst<int>(v, p, h), w);
	s.nontrivial(v.size() > 1);
}

static const char* const entities[] = { "&amp;", "&lt;", "&scaron;", "&Zcaron;", "&aacute;", "&nbsp;", "&hellip;", "&#38;", "&#x1F600;", "&#233;", "&bogus;", "&", "&;", "&NotEqualTilde;", "&rarr;", "&#x10FFFF;" };
// Decoding: every correspondence splits source and result into parts that belong together.
PBT_CHECK(sgml_decoding, 30000, 200000)
{
	std::string src; size_t ents = 0;
	static const std::vector<std::string> refs(std::begin(entities), std::end(entities));
	s.repeat(40, [&] { if (s.chance(1, 3)) { src += s.pick(refs); ents++; } else src += s.pick(std::string("abc ;#x1")); });
	s.note([&] { return pbt::show(src); });
	std::wstring pre = s.boolean() ? L"zz" : L"", dst = pre; std::vector<M> map; M off(s.draw(5), s.draw(5));
	exact<char> e(src);
	stdex::sgml2strcat(dst, e.get(), e.n, 0, off, &map);
	std::wstring full; stdex::sgml2strcat(full, e.get(), e.n, 0);
	PBT_REQUIRE(dst == pre + full, "mapping changes the result");
	size_t lf = 0, lt = 0; bool first = true;
	for (auto& m : map) {
		PBT_REQUIRE(m.from >= off.from && m.to >= off.to + pre.size(), "before the start"); size_t f = m.from - off.from, t = m.to - off.to - pre.size();
		PBT_REQUIRE(f <= src.size() && t <= full.size(), "outside the texts"); PBT_REQUIRE(first || (f >= lf && t >= lt), "not sorted: " + show(map)); first = false; lf = f; lt = t;
		std::wstring head; stdex::sgml2strcat(head, src.data(), f, 0);
		PBT_REQUIRE(head == full.substr(0, t), "correspondence " + pbt::show(f) + "," + pbt::show(t) + " does not pair: " + show(map));
	}
	// Wherever the text can be cut without cutting a reference, translating follows the cut, both ways.
	std::vector<M> rel; for (auto& m : map) rel.emplace_back(m.from - off.from, m.to - off.to - pre.size());
	bool vanished = false; for (size_t i = 1; i < rel.size(); i++) vanished |= rel[i].to == rel[i - 1].to && rel[i].from != rel[i - 1].from; // &#0; stands for nothing
	for (size_t p = 0; p <= src.size(); p++) {
		std::wstring head, tail; stdex::sgml2strcat(head, src.data(), p, 0); stdex::sgml2strcat(tail, src.data() + p, src.size() - p, 0);
		if (head + tail == full) { PBT_EQ(stdex::src2dst<size_t>(rel, p), head.size(), "cut at " + pbt::show(p) + ": " + show(rel)); if (!vanished) PBT_EQ(stdex::dst2src<size_t>(rel, head.size()), p, "cut at " + pbt::show(p) + ": " + show(rel)); }
	}
	// Into a fixed buffer: the same list.
	exact<wchar_t> buf(dst.size() + 1, L'?'); std::copy(pre.begin(), pre.end(), buf.get()); buf[pre.size()] = 0; std::vector<M> map2;
	size_t n = stdex::sgml2strcat(buf.get(), buf.n, e.get(), e.n, 0, off, &map2); PBT_EQ(n, dst.size()); PBT_REQUIRE(map == map2, "fixed buffer: " + show(map2) + " instead of " + show(map));
	// Replacing what was there: the list starts anew.
	std::vector<M> want; for (auto& m : map) want.emplace_back(m.from, m.to - pre.size());
	std::vector<M> map3 = map; std::wstring d3 = dst; stdex::sgml2strcpy(d3, e.get(), e.n, 0, off, &map3); PBT_REQUIRE(d3 == full && map3 == want, "replaced: " + show(map3) + " instead of " + show(want));
	map3 = map; d3 = dst; stdex::sgml2strcpy(d3, src, 0, off, &map3); PBT_REQUIRE(d3 == full && map3 == want, "replaced, of a string: " + show(map3) + " instead of " + show(want));
	map3 = map; n = stdex::sgml2strcpy(buf.get(), buf.n, e.get(), e.n, 0, off, &map3); PBT_EQ(n, full.size()); PBT_REQUIRE(map3 == want, "fixed buffer replaced: " + show(map3) + " instead of " + show(want));
	map3 = map; d3 = stdex::sgml2str(e.get(), e.n, 0, off, &map3); PBT_REQUIRE(d3 == full, "converted"); PBT_REQUIRE(map3.size() == map.size() + want.size() || map3 == want, "list of the converted");
	s.nontrivial(ents > 0 && map.size() > 0);
}
PBT_MAIN("M02", "Random strictly increasing lists, every position in and around them, carried-over or random hints; random SGML texts with their mappings; non-trivial: at least two correspondences (or one from a reference). Oracle: linear search; conversion of prefixes.")
