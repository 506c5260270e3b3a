// Emoticons and chemical formulae against reference readers over pieces of them and other text.
// SCALE: 16
#include "style.hpp"
using namespace pbt;
using str = std::string; static const size_t no = SIZE_MAX;
static bool at(const str& x, size_t p, const str& w) { return x.compare(p, w.size(), w) == 0; }
static size_t first(const str& x, size_t p, const std::vector<str>& v, size_t* hit = nullptr) { for (size_t i = 0; i < v.size(); i++) if (p <= x.size() && at(x, p, v[i])) { if (hit) *hit = i; return p + v[i].size(); } if (hit) *hit = no; return no; }
template<class T> static std::shared_ptr<sp::basic_parser<T>> alts(const style<T>& st, const std::vector<str>& v) { std::vector<std::shared_ptr<sp::basic_parser<T>>> p; for (auto& x : v) p.push_back(st.lit(style<T>::w(x))); return std::make_shared<sp::basic_branch<T>>(std::move(p)); }
template<class T> static void absent(const std::shared_ptr<T>& p, const char* what) { if (p && p->interval) fail(str(what) + " reported, though absent"); }
static str gen(Src& s, const std::vector<str>& v, size_t max) { str x; for (size_t n = s.len(max); n--;) x += s.pick(v); return x; }

template<class T> static void emoticon(Src& s)
{
	bool sgml = sizeof(T) == 1 && s.chance(1, 3); style<T> st{sgml ? 2u : 0u}; bool we = s.chance(2, 3), wa = s.chance(2, 3), wn = s.chance(2, 3); const std::vector<str> whole{"<3", ":-*", "O_o"}, apex{"O", ">"}, eyes{":", ";", "8", "=-"}, nose{"-", "o"}; const str mouth = s.boolean() ? ")(P" : "-)o";
	auto pe = alts(st, whole), pa = alts(st, apex), py = alts(st, eyes), pn = alts(st, nose); std::shared_ptr<sp::basic_set<T>> pm; if constexpr (sizeof(T) == 1) if (sgml) pm = std::make_shared<sp::sgml_cp_set>(mouth.c_str()); if (!pm) pm = std::make_shared<sp::basic_cu_set<T>>(style<T>::w(mouth).c_str()); if (!we) pe = nullptr; if (!wa) pa = nullptr; if (!wn) pn = nullptr;
	sp::basic_emoticon<T> p(pe, pa, py, pn, pm); std::vector<str> all{"<3", ":-*", "O", ">", ":", ";", "8", "=-", "-", "o", ")", "(", "P", ")))", ":-)", "O:-(", " ", "_o", "x"}; if (s.boolean()) { str y = gen(s, all, 5); auto w = style<T>::w(y); p.match(w.data(), 0, w.size()); }
	str x; if (s.chance(2, 3)) { if (s.boolean()) x += s.pick(apex); x += s.pick(eyes); if (s.boolean()) x += s.pick(nose); x += str(1 + s.draw(3), mouth[s.draw(2)]); } x += gen(s, all, 4); spelled<T> t(s, sgml, x, ")x"); bool ok = p.match(t.e->get(), t.pre, t.end);
	size_t q; if (we && (q = first(x, 0, whole)) != no) { PBT_REQUIRE(ok, "not recognised"); t.iv(p.interval, 0, q, "whole"); t.iv(pe->interval, 0, q, "emoticon"); absent(pa, "apex"); absent(py, "eyes"); absent(pn, "nose"); absent(pm, "mouth"); s.nontrivial(); s.label("as a whole"); return; }
	size_t a = wa ? first(x, 0, apex) : no, b = a == no ? 0 : a, y = first(x, b, eyes), n = no, m = no; auto is_mouth = [&](size_t i) { return i < x.size() && mouth.find(x[i]) != no; }; if (y != no) { n = wn ? first(x, y, nose) : no; if (n != no && is_mouth(n)) m = n; else { n = no; if (is_mouth(y)) m = y; } }
	PBT_EQ(ok, m != no, "match"); if (!ok) { PBT_REQUIRE(!p.interval, "interval after failure"); absent(pe, "emoticon"); absent(pa, "apex"); absent(py, "eyes"); absent(pn, "nose"); absent(pm, "mouth"); return; }
	size_t e = m; while (e < x.size() && x[e] == x[m]) e++; t.iv(p.interval, 0, e, "whole"); if (a == no) absent(pa, "apex"); else t.iv(pa->interval, 0, a, "apex"); t.iv(py->interval, b, y, "eyes"); if (n == no) absent(pn, "nose"); else t.iv(pn->interval, y, n, "nose"); t.iv(pm->interval, m, e, "mouth"); PBT_EQ(pm->hit_offset, mouth.find(x[m]), "which mouth"); s.nontrivial(); s.label_if(e - m > 1, "repeated mouth"); s.label_if(n != no, "nose"); s.label_if(a != no, "apex");
}
PBT_CHECK(emoticon_, 60000, 600000) { if (s.chance(2, 3)) emoticon<char>(s); else emoticon<wchar_t>(s); }
template<class T> static void chemical(Src& s)
{
	bool sgml = sizeof(T) == 1 && s.chance(1, 3); style<T> st{sgml ? 2u : 0u}; const std::vector<str> el{"He", "H", "Na", "N", "O", "Cl", "C", "Uue"}, dig{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}, sign{"+", "-"}; sp::basic_chemical_formula<T> p(alts(st, el), alts(st, dig), alts(st, sign)); int flags = s.boolean() ? sp::match_case_insensitive : 0;
	std::vector<str> all{"He", "H", "Na", "N", "O", "Cl", "C", "Uue", "2", "10", "3", "+", "-", "h", "cl", "X", " "}; if (s.boolean()) { str y = gen(s, all, 5); auto w = style<T>::w(y); p.match(w.data(), 0, w.size()); } str x; for (size_t n = s.draw(4); n--;) { x += s.pick(el); if (s.boolean()) x += std::to_string(s.draw(12)); } if (s.chance(1, 3)) x += s.pick(sign); x += gen(s, all, 3); spelled<T> t(s, sgml, x, "H2"); bool ok = p.match(t.e->get(), t.pre, t.end, flags);
	size_t e = 0, q; bool digits = false, charge = false; while ((q = first(x, e, el)) != no) { e = q; while (e < x.size() && isdigit(static_cast<unsigned char>(x[e]))) { e++; digits = true; } } if (e && e < x.size() && (x[e] == '+' || x[e] == '-')) { e++; charge = true; }
	PBT_EQ(ok, e > 0, "match"); if (!ok) { PBT_REQUIRE(!p.interval && !p.has_digits && !p.has_charge, "left-overs after failure"); return; } t.iv(p.interval, 0, e, "whole"); PBT_EQ(p.has_digits, digits, "digits"); PBT_EQ(p.has_charge, charge, "charge"); s.nontrivial(); s.label_if(charge, "charge");
}
PBT_CHECK(chemical_formula_, 60000, 600000) { if (s.chance(2, 3)) chemical<char>(s); else chemical<wchar_t>(s); }
PBT_MAIN("P10", "Emoticons and formulae composed from their parts, every part optional, followed by other pieces; recognised ones count as non-trivial. Oracle: reference readers.")
