// Locale objects against the locale the C library sets for the process.
#include "reftext.hpp"
#include <functional>
#include <map>
#include <locale.h>
#include <langinfo.h>
#include <stdex/locale.hpp>
#include <stdex/string.hpp>
using namespace pbt;
static const char* const names[] = {"C", "POSIX", "C.utf8", "de_DE.utf8", "sl_SI.utf8", "en_US.utf8", "fr_FR.utf8", "ja_JP.utf8", "ru_RU.koi8r", "ar_SA.utf8", "de_DE", "en_GB.iso885915", "tr_TR.utf8", "no_such", "xx_YY.utf8"};
static const int cats[] = {LC_ALL, LC_COLLATE, LC_CTYPE, LC_MESSAGES, LC_MONETARY, LC_NUMERIC, LC_TIME};
// What tells the locales of a category apart.
static std::string facts(int cat, const std::function<const char*(nl_item)>& q, const std::function<std::string()>& coll)
{
	std::string o; auto add = [&](std::initializer_list<nl_item> l) { for (auto i : l) { const char* t = q(i); o += t ? t : "(none)"; o += '\x1f'; } };
	if (cat == LC_ALL || cat == LC_CTYPE) add({CODESET}); if (cat == LC_ALL || cat == LC_NUMERIC) add({RADIXCHAR, THOUSEP}); if (cat == LC_ALL || cat == LC_TIME) add({DAY_1, DAY_4, MON_3, ABMON_12, D_T_FMT, D_FMT, T_FMT});
	if (cat == LC_ALL || cat == LC_MESSAGES) add({YESEXPR, NOEXPR}); if (cat == LC_ALL || cat == LC_MONETARY) add({CRNCYSTR}); if (cat == LC_ALL || cat == LC_COLLATE) o += coll();
	return o;
}
struct known { bool exists; std::string facts; };
static const std::string words[] = {"a", "B", "b", "A", "-a", "z"};
static std::string order(const std::function<int(const char*, const char*)>& f) { std::string o; for (auto& a : words) for (auto& b : words) { int r = f(a.c_str(), b.c_str()); o += r < 0 ? '<' : r > 0 ? '>' : '='; } return o; }
static const known& of_process(size_t cat, size_t name)
{
	static std::map<std::pair<size_t, size_t>, known> m; auto it = m.find({cat, name}); if (it != m.end()) return it->second;
	known k{}; std::string was = setlocale(LC_ALL, nullptr); k.exists = setlocale(cats[cat], names[name]) != nullptr; if (k.exists) k.facts = facts(cats[cat], [](nl_item i) { return nl_langinfo(i); }, [] { return order(strcoll); }); setlocale(LC_ALL, was.c_str()); return m[{cat, name}] = k;
}
PBT_CHECK(objects, 20000, 200000)
{
	struct obj { size_t cat, name; stdex::locale l; }; std::vector<obj> v; std::string hist;
	struct back { ~back() { setlocale(LC_ALL, "C"); } } b; bool interesting = false; s.note([&] { return hist; });
	auto verify = [&](obj& o) {
		auto& k = of_process(o.cat, o.name); if (!k.exists) { PBT_REQUIRE(!o.l); return; } PBT_REQUIRE(!!o.l); locale_t l = o.l; PBT_REQUIRE(l == o.l.get());
		PBT_EQ(facts(cats[o.cat], [&](nl_item i) { return nl_langinfo_l(i, l); }, [&] { return order([&](const char* a, const char* b) { return strcoll_l(a, b, l); }); }), k.facts, std::string(names[o.name]) + " in category " + show(cats[o.cat])); };
	s.repeat(12, [&] {
		switch (s.weighted({5, 2, 2, 2, 1, 2})) {
		case 0: case 5: { size_t c = s.draw(6), n = s.draw(14); hist += "create(" + show(cats[c]) + "," + names[n] + ") "; if (s.boolean()) v.push_back({c, n, stdex::locale(cats[c], names[n])}); else v.push_back({c, n, stdex::locale(stdex::create_locale(cats[c], names[n]))}); verify(v.back()); interesting |= of_process(c, n).exists && n > 1; break; }
		case 1: if (!v.empty()) { size_t i = s.draw(v.size() - 1); hist += "destroy " + show(i) + " "; v.erase(v.begin() + static_cast<ptrdiff_t>(i)); } break;
		case 2: if (v.size() > 1) { size_t i = s.draw(v.size() - 1), j = s.draw(v.size() - 1); if (i == j) break; hist += "move " + show(i) + " to " + show(j) + " "; v[j].l = std::move(v[i].l); v[j].cat = v[i].cat; v[j].name = v[i].name; PBT_REQUIRE(!v[i].l); v.erase(v.begin() + static_cast<ptrdiff_t>(i)); } break;
		case 3: { size_t n = s.draw(12); hist += std::string("process ") + names[n] + " "; setlocale(LC_ALL, names[n]); break; }
		default: if (!v.empty()) { size_t i = s.draw(v.size() - 1); obj o{v[i].cat, v[i].name, stdex::locale(v[i].l.release())}; hist += "release " + show(i) + " "; PBT_REQUIRE(!v[i].l); verify(o); v.erase(v.begin() + static_cast<ptrdiff_t>(i)); }
		}
		for (auto& o : v) verify(o);
	});
	s.nontrivial(interesting); s.label_if(v.size() > 3, "several");
}

// The ready ones: "C" and UTF-8 mean just that in any locale of the process.
PBT_CHECK(ready, 40000, 400000)
{
	struct back { ~back() { setlocale(LC_ALL, "C"); } } b; size_t n = s.draw(12); setlocale(LC_ALL, names[n]);
	PBT_REQUIRE(!stdex::locale_default); PBT_REQUIRE(!!stdex::locale_C); PBT_EQ(std::string(nl_langinfo_l(RADIXCHAR, stdex::locale_C)), "."); PBT_EQ(std::string(nl_langinfo_l(CODESET, stdex::locale_C)), "ANSI_X3.4-1968");
	PBT_REQUIRE(!!stdex::locale_utf8); PBT_EQ(std::string(nl_langinfo_l(CODESET, stdex::locale_utf8)), "UTF-8");
	std::u32string t; s.repeat(20, [&] { t += s.chance(1, 3) ? static_cast<char32_t>(s.range(1u, 127u)) : static_cast<char32_t>(s.boolean() ? s.range(0xa0u, 0xd7ffu) : s.range(0xe000u, 0x10ffffu)); });
	std::wstring w = rt::wide(t); s.note([&] { return show(rt::utf8(t)) + " with " + names[n] + " in the process"; });
	auto got = stdex::sprintf("%ls|%.2f", stdex::locale_utf8, w.c_str(), 1.5); PBT_EQ(got, rt::utf8(t) + "|1.50"); PBT_EQ(stdex::sprintf("%.3f", stdex::locale_C, 1234.5), std::string("1234.500"));
	std::string e = rt::utf8(t); auto wide = stdex::sprintf(L"%s|", stdex::locale_utf8, e.c_str()); PBT_REQUIRE(wide == w + L"|"); s.nontrivial(!t.empty());
}
PBT_MAIN("L02", "a locale other than that of C was made, or a text converted")
