// Random compositions of parser combinators against a reference matcher built from the same description, for narrow, wide and SGML text.
// SCALE: 8
#include "common.hpp"
#include <stdex/parser.hpp>
#include <wctype.h>
using namespace pbt;
namespace sp = stdex::parser;

enum kind { k_noop, k_any, k_cu, k_space, k_punct, k_sp, k_bol, k_eol, k_set, k_string, k_iter, k_seq, k_branch, k_sbranch, k_perm };
struct node { kind k; bool inv = false, greedy = true; size_t lo = 0, hi = 0; std::vector<std::wstring> str; std::vector<node> el; };
struct res { bool ok = false; size_t s = 0, e = 0, hit = SIZE_MAX; std::vector<res> ch; };
static const std::locale& loc(bool utf8) { static const std::locale c = std::locale::classic(), u("C.utf8"); return utf8 ? u : c; }
static locale_t cloc(bool utf8) { static locale_t c = newlocale(LC_ALL_MASK, "C", nullptr), u = newlocale(LC_ALL_MASK, "C.utf8", nullptr); return utf8 ? u : c; }

// Text as the reference sees it: characters with their extent.
struct chr { std::wstring v; size_t at, end; bool entity; };
struct ref
{
	std::vector<chr> dummy; std::function<bool(size_t, chr&)> at; std::function<wchar_t(size_t)> raw; size_t end; bool icase, multi, utf8, wide, sgml; 
	wchar_t low(wchar_t c) const { if (wide || sgml) return static_cast<wchar_t>(towlower_l(static_cast<wint_t>(c), cloc(utf8))); return c >= 'A' && c <= 'Z' ? c + 32 : c; }
	bool eq(wchar_t a, wchar_t b) const { return icase ? low(a) == low(b) : a == b; }
	bool eq(const std::wstring& a, const std::wstring& b) const { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false; return true; }
	bool is(wchar_t c, bool sp, bool pu) const { if (!wide && !sgml) return c < 128 && ((sp && isspace_l(c, cloc(false))) || (pu && ispunct_l(c, cloc(false)))); return (sp && iswspace_l(static_cast<wint_t>(c), cloc(utf8))) || (pu && iswpunct_l(static_cast<wint_t>(c), cloc(utf8))); }
	static bool lb(wchar_t c) { return c == '\n' || c == '\r'; }
	res one(size_t s, const std::function<bool(const chr&)>& f, bool inv) const { res r; chr c; if (s < end && at(s, c) && f(c) != inv) { r.ok = true; r.s = s; r.e = c.end; } return r; }
	bool str(const std::wstring& w, size_t s, size_t& e) const { size_t k = 0; e = s; while (k < w.size()) { chr c; if (e >= end || !at(e, c)) return false; for (auto x : c.v) if (k >= w.size() || !eq(w[k++], x)) return false; e = c.end; } return true; }
	res match(const node& n, size_t s) const
	{
		res r; r.s = r.e = s;
		switch (n.k) {
		case k_noop: r.ok = s < end; return r;
		case k_any: return one(s, [](const chr&) { return true; }, false);
		case k_cu: return one(s, [&](const chr& c) { return eq(c.v, n.str[0]); }, n.inv);
		case k_space: case k_sp: return one(s, [&](const chr& c) { if (!multi && lb(c.v[0])) return false; for (auto x : c.v) if (!is(x, true, n.k == k_sp)) return false; return true; }, n.inv);
		case k_punct: return one(s, [&](const chr& c) { for (auto x : c.v) if (!is(x, false, true)) return false; return true; }, n.inv);
		case k_bol: r.ok = (s == 0 || lb(raw(s - 1))) != n.inv; return r;
		case k_eol: r.ok = (s >= end || lb(raw(s))) != n.inv; return r;
		case k_set: { chr c; if (s < end && at(s, c)) { size_t h = SIZE_MAX; for (size_t i = 0; i + c.v.size() <= n.str[0].size() && h == SIZE_MAX; i++) if (eq(n.str[0].substr(i, c.v.size()), c.v)) h = i; if ((h != SIZE_MAX) != n.inv) { r.ok = true; r.e = c.end; r.hit = h; } } return r; }
		case k_string: r.ok = str(n.str[0], s, r.e); return r;
		case k_iter: for (size_t i = 0;; i++) { if ((!n.greedy && i >= n.lo) || i >= n.hi) { r.ok = true; return r; } auto m = match(n.el[0], r.e); if (!m.ok) { r.ok = i >= n.lo; return r; } if (m.e == r.e) { r.ok = true; return r; } r.e = m.e; }
		case k_seq: for (auto& x : n.el) { auto m = match(x, r.e); r.ch.push_back(m); if (!m.ok) return r; r.e = m.e; } r.ok = true; return r;
		case k_branch: for (size_t i = 0; i < n.el.size(); i++) { auto m = match(n.el[i], s); r.ch.push_back(m); if (m.ok) { r.ok = true; r.e = m.e; r.hit = i; return r; } } return r;
		case k_sbranch: for (size_t i = 0; i < n.str.size(); i++) { size_t e; if (str(n.str[i], s, e)) { r.ok = true; r.e = e; r.hit = i; return r; } } return r;
		case k_perm: { std::vector<res> got(n.el.size()); std::function<bool(size_t)> rec = [&](size_t p) { bool all = true; for (size_t i = 0; i < n.el.size(); i++) if (!got[i].ok) { all = false; auto m = match(n.el[i], p); if (m.ok) { got[i] = m; if (rec(m.e)) return true; got[i] = res(); } } if (all) r.e = p; return all; }; r.ok = rec(s); r.ch = got; return r; }
		}
		return r;
	}
};

template<class T, bool SGML> struct world
{
	using P = std::shared_ptr<sp::basic_parser<T>>; using str = std::basic_string<T>; bool utf8; 
	str spell(Src* s, const std::wstring& w) const // in SGML text some characters have to and others may be spelled as entities
	{
		str o; for (auto c : w) { if (!SGML) { o += static_cast<T>(c); continue; } std::string e; switch (c) { case '&': e = s && s->boolean() ? "&#38;" : "&amp;"; break; case '<': e = s && s->boolean() ? "<" : "&lt;"; break; case 0x3b1: e = "&alpha;"; break; case 0x391: e = s && s->boolean() ? "&#x391;" : "&Alpha;"; break; case 0xa0: e = "&nbsp;"; break; default: if (c > 126) e = "&#" + std::to_string(static_cast<uint32_t>(c)) + ";"; else if (s && s->chance(1, 5)) { char b[16]; snprintf(b, 16, s->boolean() ? "&#%d;" : "&#x%x;", static_cast<int>(c)); e = b; } else e = std::string(1, static_cast<char>(c)); } for (char x : e) o += static_cast<T>(x); }
		return o;
	}
	P make(Src& s, const node& n) const
	{
		auto& L = loc(utf8); std::vector<P> el; for (auto& x : n.el) el.push_back(make(s, x)); std::vector<str> st; for (auto& w : n.str) st.push_back(spell(&s, w));
		auto keep = [](const str& x, bool z) { return z ? str(x).append(1, T(0)) : x; }; bool z = s.boolean();
		switch (n.k) {
		case k_noop: return std::make_shared<sp::basic_noop<T>>();
		case k_any: if constexpr (SGML) return std::make_shared<sp::sgml_any_cp>(L); else return std::make_shared<sp::basic_any_cu<T>>(L);
		case k_cu: if constexpr (SGML) { auto q = keep(st[0], z); exact<char> e(q); return std::make_shared<sp::sgml_cp>(e.get(), z ? SIZE_MAX : q.size(), n.inv, L); } else return std::make_shared<sp::basic_cu<T>>(static_cast<T>(n.str[0][0]), n.inv, L);
		case k_space: if constexpr (SGML) return std::make_shared<sp::sgml_space_cp>(n.inv, L); else return std::make_shared<sp::basic_space_cu<T>>(n.inv, L);
		case k_punct: if constexpr (SGML) return std::make_shared<sp::sgml_punct_cp>(n.inv, L); else return std::make_shared<sp::basic_punct_cu<T>>(n.inv, L);
		case k_sp: if constexpr (SGML) return std::make_shared<sp::sgml_space_or_punct_cp>(n.inv, L); else return std::make_shared<sp::basic_space_or_punct_cu<T>>(n.inv, L);
		case k_bol: return std::make_shared<sp::basic_bol<T>>(n.inv);
		case k_eol: return std::make_shared<sp::basic_eol<T>>(n.inv);
		case k_set: { auto q = keep(st[0], z); exact<T> e(q); if constexpr (SGML) return std::make_shared<sp::sgml_cp_set>(e.get(), z ? SIZE_MAX : q.size(), n.inv, L); else return std::make_shared<sp::basic_cu_set<T>>(e.get(), z ? SIZE_MAX : q.size(), n.inv, L); }
		case k_string: { auto q = keep(st[0], z); exact<T> e(q); if constexpr (SGML) return std::make_shared<sp::sgml_string>(e.get(), z ? SIZE_MAX : q.size(), L); else return std::make_shared<sp::basic_string<T>>(e.get(), z ? SIZE_MAX : q.size(), L); }
		case k_iter: return std::make_shared<sp::basic_iterations<T>>(el[0], n.lo, n.hi, n.greedy);
		case k_seq: if (z) return std::make_shared<sp::basic_sequence<T>>(el.data(), el.size(), L); return std::make_shared<sp::basic_sequence<T>>(std::move(el), L);
		case k_branch: if (z) return std::make_shared<sp::basic_branch<T>>(el.data(), el.size(), L); return std::make_shared<sp::basic_branch<T>>(std::move(el), L);
		case k_perm: if (z) return std::make_shared<sp::basic_permutation<T>>(el.data(), el.size(), L); return std::make_shared<sp::basic_permutation<T>>(std::move(el), L);
		default: {
			using B = std::conditional_t<SGML, sp::basic_string_branch<char, sp::sgml_string>, sp::basic_string_branch<T>>;
			if (st.size() == 3 && s.boolean()) return std::make_shared<B>(L, st[0].c_str(), st[1].c_str(), st[2].c_str(), static_cast<const T*>(nullptr));
			str q; for (auto& x : st) q += keep(x, true); if (s.boolean()) q.pop_back(); else if (s.boolean()) q += T(0); exact<T> e(q); return std::make_shared<B>(e.get(), q.size(), L); }
		}
	}
	bool lookup(const std::string& e, std::wstring& v) const { static const std::map<std::string, wchar_t> m = {{"amp", '&'}, {"lt", '<'}, {"alpha", 0x3b1}, {"Alpha", 0x391}, {"nbsp", 0xa0}, {"quot", '"'}}; auto i = m.find(e); if (i != m.end()) { v = i->second; return true; } if (e.size() > 1 && e[0] == '#') { char* end; long n = e[1] == 'x' ? strtol(e.c_str() + 2, &end, 16) : strtol(e.c_str() + 1, &end, 10); if (!*end && n > 0 && isxdigit(static_cast<unsigned char>(e[1] == 'x' ? e[2] : e[1]))) { v = static_cast<wchar_t>(n); return true; } } return false; }
	void verify(const node& n, const res& want, const sp::basic_parser<T>& p, bool top) const
	{
		if (n.k == k_set) { PBT_EQ(static_cast<const sp::basic_set<T>&>(p).hit_offset, want.ok ? want.hit : SIZE_MAX, "hit_offset of a set"); }
		if (n.k == k_branch || n.k == k_sbranch) { auto& b = static_cast<const sp::basic_branch<T>&>(p); PBT_EQ(b.hit_offset, want.ok ? want.hit : SIZE_MAX, "hit_offset of a branch"); }
		PBT_EQ(static_cast<bool>(p.interval), want.ok, top ? "interval valid" : "interval of a part valid");
		if (!want.ok) return; PBT_EQ(p.interval.start, want.s, "start"); PBT_EQ(p.interval.end, want.e, "end");
	}
};

static std::wstring alphabet(bool wide, bool sgml) { std::wstring a = L"aAbB1 \n\r.<&;\t"; if (wide || sgml) a += L"\x3b1\x391\xa0"; else a += L"\xe1"; return a; }
struct gen
{
	Src& s; std::wstring al; bool sgml; unsigned budget = 14;
	wchar_t c() { return al[s.draw(al.size() - 1)]; }
	std::wstring w(size_t lo, size_t hi) { std::wstring r; for (size_t n = lo + s.draw(hi - lo); n--;) r += c(); return r; }
	node any(unsigned depth)
	{
		node n; n.k = static_cast<kind>(depth && budget ? s.weighted({1, 2, 4, 2, 2, 2, 1, 1, 4, 4, 6, 8, 6, 3, 4}) : s.weighted({1, 2, 6, 2, 2, 2, 1, 1, 5, 5})); if (budget) budget--; n.inv = s.chance(1, 4);
		switch (n.k) {
		case k_cu: n.str = {w(1, 1)}; break;
		case k_set: n.str = {w(s.chance(1, 8) ? 0 : 1, 5)}; break;
		case k_string: n.str = {w(s.chance(1, 8) ? 0 : 1, 4)}; break;
		case k_iter: n.el = {any(depth - 1)}; n.lo = s.draw(3); n.hi = s.boolean() ? SIZE_MAX : n.lo + s.draw(3); n.greedy = !s.chance(1, 4); break;
		case k_seq: case k_branch: case k_perm: for (size_t i = s.draw(4); i--;) n.el.push_back(any(depth - 1)); break;
		case k_sbranch: for (size_t i = 1 + s.draw(3); i--;) n.str.push_back(w(1, 4)); break;
		default:;
		}
		return n;
	}
	wchar_t flip(wchar_t x) { if (!s.chance(1, 4)) return x; if (x < 128) return iswalpha(static_cast<wint_t>(x)) ? x ^ 0x20 : x; return x == 0x3b1 ? 0x391 : x == 0x391 ? 0x3b1 : x; }
	std::wstring flip(std::wstring x) { for (auto& y : x) y = flip(y); return x; }
	// A text the description likely matches.
	std::wstring sample(const node& n)
	{
		switch (n.k) {
		case k_any: return std::wstring(1, c()); case k_cu: return n.inv ? std::wstring(1, c()) : flip(n.str[0]); case k_space: return n.inv ? L"a" : std::wstring(1, s.pick(std::wstring(L" \t\n"))); case k_punct: return n.inv ? L"b" : L"."; case k_sp: return n.inv ? L"1" : s.boolean() ? L" " : L"<";
		case k_eol: return n.inv || s.boolean() ? L"" : L"\n"; case k_set: return n.inv || n.str[0].empty() ? std::wstring(1, c()) : std::wstring(1, flip(n.str[0][s.draw(n.str[0].size() - 1)])); case k_string: return flip(n.str[0]);
		case k_iter: { std::wstring r; for (size_t i = n.lo + s.draw(std::min<size_t>(n.hi - n.lo, 3)); i--;) r += sample(n.el[0]); return r; }
		case k_seq: { std::wstring r; for (auto& x : n.el) r += sample(x); return r; } case k_branch: return n.el.empty() ? L"" : sample(n.el[s.draw(n.el.size() - 1)]); case k_sbranch: return flip(n.str[s.draw(n.str.size() - 1)]);
		case k_perm: { std::vector<std::wstring> v; for (auto& x : n.el) v.push_back(sample(x)); std::wstring r; while (v.size()) { size_t i = s.draw(v.size() - 1); r += v[i]; v.erase(v.begin() + static_cast<ptrdiff_t>(i)); } return r; }
		default: return L"";
		}
	}
};
static std::string describe(const node& n)
{
	static const char* names[] = {"noop", "any", "cu", "space", "punct", "space_or_punct", "bol", "eol", "set", "string", "iterations", "sequence", "branch", "string_branch", "permutation"};
	std::string r = std::string(n.inv ? "!" : "") + names[n.k]; for (auto& w : n.str) { r += "'"; for (auto c : w) { if (c > 32 && c < 127) r += static_cast<char>(c); else { char b[16]; snprintf(b, 16, "\\x%x", static_cast<unsigned>(c)); r += b; } } r += "'"; }
	if (n.k == k_iter) r += "{" + show(n.lo) + "," + (n.hi == SIZE_MAX ? "" : show(n.hi)) + (n.greedy ? "}" : "}?"); if (n.el.size()) { r += "("; for (auto& x : n.el) r += describe(x) + " "; r.back() = ')'; } return r;
}

template<class T, bool SGML> static void run(Src& s)
{
	bool wide = sizeof(T) > 1; world<T, SGML> w{(wide || SGML) && s.boolean()}; gen g{s, alphabet(wide, SGML), SGML}; node n = g.any(static_cast<unsigned>(s.draw(3))); auto p = w.make(s, n); auto twin = w.make(s, n);
	std::string log = describe(n) + (w.utf8 ? " C.utf8" : "") + (SGML ? " sgml" : wide ? " wide" : ""); s.note([&] { return log; }); bool interesting = false;
	for (unsigned round = 0, rounds = 1 + static_cast<unsigned>(s.draw(3)); round < rounds; round++) {
		std::wstring src = s.chance(1, 5) ? g.w(0, 8) : g.w(0, s.boolean() ? 0 : 3) + g.sample(n) + g.w(0, s.boolean() ? 0 : 3); if (src.size() && s.chance(1, 5)) src.erase(s.draw(src.size() - 1), 1); if (s.chance(1, 6)) src.insert(s.draw(src.size()), 1, g.c());
		std::basic_string<T> text = w.spell(&s, src); if (SGML && s.chance(1, 4)) { static const char* odd[] = {"&", "&bogus;", "&amp", "&a b;", "&&lt;", ";", "& ", "&;", "&#;", "&#x;"}; std::string o = odd[s.draw(9)]; std::basic_string<T> oo(o.begin(), o.end()); text.insert(s.draw(text.size()), oo); }
		size_t n_chars = text.size(); bool z = s.chance(1, 3); size_t end = z ? (s.boolean() ? SIZE_MAX : n_chars + s.draw(3)) : n_chars; if (z) text += T(0); size_t start = s.boolean() ? 0 : s.draw(n_chars); if (!z && s.chance(1, 6)) { n_chars = end = start + s.draw(n_chars - start); text.resize(end); }
		int flags = (s.boolean() ? sp::match_case_insensitive : 0) | (s.boolean() ? sp::match_multiline : 0); exact<T> e(text);
		log += "\n    "; { for (size_t i = 0; i < n_chars; i++) { uint32_t c = static_cast<uint32_t>(text[i]); if (c > 32 && c < 127) log += static_cast<char>(c); else { char b[16]; snprintf(b, 16, "\\x%x", sizeof(T) == 1 ? c & 255 : c); log += b; } } log += " from " + show(start) + (z ? " terminated" : "") + (flags & 1 ? " icase" : "") + (flags & 2 ? " multiline" : ""); }
		ref r; r.end = n_chars; r.icase = flags & 1; r.multi = flags & 2; r.utf8 = w.utf8; r.wide = wide; r.sgml = SGML;
		auto u = [&](size_t i) { return sizeof(T) == 1 ? static_cast<wchar_t>(static_cast<unsigned char>(text[i])) : static_cast<wchar_t>(text[i]); }; r.raw = u;
		bool only_any = n.k == k_any; (void)only_any; bool ambiguous = false;
		r.at = [&](size_t i, chr& c) {
			if (i >= n_chars) return false; c.at = i; c.end = i + 1; c.v.assign(1, u(i)); c.entity = false;
			if (SGML && text[i] == '&') for (size_t k = i + 1; k < n_chars; k++) { if (text[k] == ';') { std::wstring v; if (w.lookup(std::string(text.begin() + static_cast<ptrdiff_t>(i) + 1, text.begin() + static_cast<ptrdiff_t>(k)), v)) { c.v = v; c.end = k + 1; } else ambiguous = true; break; } if (text[k] == '&' || isspace_l(text[k] & 255, cloc(false))) break; }
			return true; };
		if (s.chance(1, 3)) {
			// Search: the first position where it matches.
			size_t k = start; res m; while (k < n_chars && !(m = r.match(n, k)).ok) k++; if (k >= n_chars) m = res(); if (ambiguous) throw discard_t{};
			bool got = p->search(e.get(), start, end, flags); PBT_EQ(got, m.ok, "search"); if (m.ok) w.verify(n, m, *p, true); else PBT_REQUIRE(!p->interval, "interval after an unsuccessful search"); log += " search"; if (m.ok && k > start) interesting = true;
		} else {
			res m = r.match(n, start); if (ambiguous) throw discard_t{};
			bool got = !z && s.chance(1, 4) ? p->match(std::basic_string_view<T>(e.get(), n_chars), start, s.boolean() ? SIZE_MAX : end, flags) : p->match(e.get(), start, end, flags); PBT_EQ(got, m.ok, "match"); w.verify(n, m, *p, true); if (m.ok && m.e > start + 1) interesting = true;
			// A parser that has not been used before agrees.
			if (round) { auto fresh = twin; PBT_EQ(fresh->match(e.get(), start, end, flags), m.ok, "match of the other parser"); w.verify(n, m, *fresh, true); }
		}
	}
	s.nontrivial(interesting); s.label_if(interesting, "matched more than one unit");
}
PBT_CHECK(narrow, 30000, 300000) { run<char, false>(s); }
PBT_CHECK(wide, 30000, 300000) { run<wchar_t, false>(s); }
PBT_CHECK(sgml, 30000, 300000) { run<char, true>(s); }
// Parts of a sequence, alternatives of a branch and members of a permutation report where they matched.
PBT_CHECK(parts, 40000, 400000)
{
	using P = std::shared_ptr<sp::parser>; world<char, false> w{false}; gen g{s, alphabet(false, false), false}; node n; n.k = s.pick<kind>({k_seq, k_branch, k_perm}); for (size_t i = 1 + s.draw(3); i--;) n.el.push_back(g.any(1)); std::vector<P> el; for (auto& x : n.el) el.push_back(w.make(s, x)); P p; auto q = el;
	switch (n.k) { case k_seq: p = std::make_shared<sp::sequence>(std::move(q)); break; case k_branch: p = std::make_shared<sp::branch>(std::move(q)); break; default: p = std::make_shared<sp::permutation>(std::move(q)); }
	std::string log = describe(n); s.note([&] { return log; });
	for (unsigned round = 0; round < 3; round++) {
		std::wstring src = g.sample(n) + g.w(0, 2); auto text = w.spell(nullptr, src); if (text.size() && s.chance(1, 5)) text.erase(s.draw(text.size() - 1), 1); exact<char> e(text); log += " | " + show(text);
		ref r; r.end = text.size(); r.icase = r.multi = r.utf8 = r.wide = r.sgml = false; r.raw = [&](size_t i) { return static_cast<wchar_t>(static_cast<unsigned char>(text[i])); }; r.at = [&](size_t i, chr& c) { if (i >= text.size()) return false; c.at = i; c.end = i + 1; c.v.assign(1, r.raw(i)); return true; };
		res m = r.match(n, 0); PBT_EQ(p->match(e.get(), 0, text.size()), m.ok, "match"); w.verify(n, m, *p, true);
		if (m.ok) for (size_t i = 0; i < el.size(); i++) { if (i < m.ch.size() && m.ch[i].ok) w.verify(n.el[i], m.ch[i], *el[i], false); else PBT_REQUIRE(!el[i]->interval, "alternative " + show(i) + " reported, though another matched"); }
		else if (n.k != k_seq) for (auto& x : el) PBT_REQUIRE(!x->interval, "a part is reported after failure");
		else for (size_t i = m.ch.size() - 1; i < el.size(); i++) PBT_REQUIRE(!el[i]->interval, "a part is reported after failure");
		if (m.ok && el.size() > 1 && m.e > 1) s.nontrivial();
		if (round == 1) { p->invalidate(); PBT_REQUIRE(!p->interval); for (auto& x : el) PBT_REQUIRE(!x->interval, "part still reported after invalidation"); }
	}
}
PBT_MAIN("P02", "the match is longer than one unit, or found after the start")
