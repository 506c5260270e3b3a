// Language tags and identifiers against the published table.
// SCALE: 12
#include "pbt.hpp"
#include <stdex/langid.hpp>
#include "langid.inc"
using namespace pbt;

static std::string fold(const std::string& t) { std::string r; for (char c : t) { if (!c) break; r += c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c > 32 && c < 127 && !isalnum(static_cast<unsigned char>(c)) ? '-' : c; } return r; }
static const std::map<std::string, std::vector<unsigned>>& table() { static const auto m = [] { std::map<std::string, std::vector<unsigned>> r; for (auto& x : by_tag) r[fold(x.tag)].push_back(x.id); return r; }(); return m; }
static void check(const std::string& t)
{
	std::vector<char> e(t.begin(), t.end()); e.push_back(0); exact<char> z(e.data(), e.size());
	unsigned r = stdex::langid_from_rfc1766(z.get()); auto it = table().find(fold(t));
	if (it == table().end()) PBT_EQ(r, unsigned(stdex::langid_unknown), "unknown tag " + show(t)); else PBT_EQ(r, it->second.front(), "tag " + show(t));
	PBT_EQ(stdex::langid_from_rfc1766(z.get()), r, "second time");
}
static const std::string punct = "-_/.:!#+~ \t"; // the last two are not punctuation
PBT_CHECK(known, 60000, 400000)
{
	std::string t = by_tag[s.enumerate(std::size(by_tag))].tag; bool changed = false;
	for (auto& c : t) { if (isalpha(static_cast<unsigned char>(c))) { if (s.boolean()) { c = static_cast<char>(c ^ 32); changed = true; } } else if (!isdigit(static_cast<unsigned char>(c)) && s.boolean()) { c = punct[s.draw(8)]; changed = true; } }
	s.note([&] { return show(t); }); PBT_REQUIRE(table().count(fold(t))); check(t); s.nontrivial(changed);
}
PBT_CHECK(near_miss, 100000, 800000)
{
	std::string t = by_tag[s.draw(std::size(by_tag) - 1)].tag;
	switch (s.draw(5)) {
	case 0: t = t.substr(0, s.draw(t.size())); break;
	case 1: t.erase(s.draw(t.size() - 1), 1); break;
	case 2: t.insert(s.draw(t.size()), 1, static_cast<char>(s.draw(254) + 1)); break;
	case 3: t[s.draw(t.size() - 1)] = static_cast<char>(s.draw(254) + 1); break;
	case 4: t += s.pick({"-", "_", "-x", "x", "-US", " "}); break;
	default: t += std::string("-") + by_tag[s.draw(std::size(by_tag) - 1)].tag; }
	s.note([&] { return show(t); }); check(t); s.nontrivial(!t.empty()); s.label_if(table().count(fold(t)), "still a tag");
}
PBT_CHECK(garbage, 60000, 400000) { std::string t = s.bytes(40); check(t); s.nontrivial(t.size() > 1); s.note([&] { return show(t); }); }
PBT_CHECK(ids, 131072, 131072)
{
	unsigned id = static_cast<unsigned>(s.enumerate(65536)); const char* want = nullptr; for (auto& x : by_id) if (x.id == id) { want = x.tag; break; }
	s.note([&] { return "identifier " + show(id); });
	static const char fallback[] = "(none)"; const char* r = stdex::rfc1766_from_langid(static_cast<stdex::langid>(id)); const char* f = stdex::rfc1766_from_langid(static_cast<stdex::langid>(id), fallback);
	if (!want) { PBT_REQUIRE(!r && f == fallback, "unknown identifier"); }
	else {
		PBT_REQUIRE(r && f); PBT_EQ(std::string(r), std::string(want)); PBT_EQ(std::string(f), std::string(want));
		auto& ids = table().at(fold(want)); unsigned back = stdex::langid_from_rfc1766(r);
		PBT_REQUIRE(ids.size() == 1 ? back == id : std::find(ids.begin(), ids.end(), back) != ids.end(), "back to " + show(back));
	}
	PBT_EQ(unsigned(stdex::primary_langid(static_cast<stdex::langid>(id))), id % 1024); PBT_EQ(unsigned(stdex::sub_langid(static_cast<stdex::langid>(id))), id / 1024 * 1024);
	PBT_EQ(stdex::primary_langid(static_cast<stdex::langid>(id)) | stdex::sub_langid(static_cast<stdex::langid>(id)), static_cast<int>(id)); s.nontrivial(want);
}
PBT_MAIN("L01", "Every tag of the table with letters and separators varied, near misses, garbage, every identifier; non-trivial: changed spelling, at least one character, identifiers in the table. Oracle: the published table and its folding.")
