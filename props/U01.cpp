// UUID text against a direct formatter and a grammar of the canonical form.
// SCALE: 6
#include "pbt.hpp"
#include <stdex/uuid.hpp>
using namespace pbt;

struct id_t_ { unsigned char b[16]; };
static id_t_ gen(Src& s)
{
	id_t_ u; unsigned k = static_cast<unsigned>(s.draw(3));
	for (auto& x : u.b) x = static_cast<unsigned char>(k == 0 ? s.draw(255) : k == 1 ? 0 : k == 2 ? 0xff : s.draw(15));
	if (k == 1 || k == 2) u.b[s.draw(15)] = static_cast<unsigned char>(s.draw(255));
	return u;
}
static std::string ref(const id_t_& u)
{
	static const int order[] = {3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1, 10, 11, 12, 13, 14, 15}; // first three fields are numbers in host order
	std::string r = "{";
	for (int i : order) { if (i < 0) r += '-'; else { r += "0123456789ABCDEF"[u.b[i] >> 4]; r += "0123456789ABCDEF"[u.b[i] & 15]; } }
	return r + "}";
}
template<class C> static bool read(const std::basic_string<C>& t, size_t count, id_t_& u)
{
	uuid_t id; memset(id, 0xcc, 16); exact<C> e(t); bool r = stdex::strtouuid(e.get(), count, id); memcpy(u.b, id, 16); return r;
}
template<class C> static std::basic_string<C> W(const std::string& s) { return std::basic_string<C>(s.begin(), s.end()); }
static std::string hex(const id_t_& u) { std::string r; for (auto x : u.b) { char b[4]; snprintf(b, 4, "%02x", x); r += b; } return r; }

template<class C> static void trip(Src& s)
{
	id_t_ u = gen(s), v; s.note([&] { return ref(u); });
	uuid_t id; memcpy(id, u.b, 16);
	exact<C> buf(stdex::uuid_str_max, C('#')); stdex::uuidtostr(buf.get(), id);
	std::basic_string<C> t(buf.get(), stdex::uuid_str_max - 1);
	PBT_EQ(t, W<C>(ref(u))); PBT_REQUIRE(buf[stdex::uuid_str_max - 1] == 0, "not terminated"); PBT_EQ(memcmp(id, u.b, 16), 0);
	PBT_REQUIRE(read<C>(t, t.size(), v), "not read back"); PBT_EQ(hex(v), hex(u));
	// Either case, terminated, with text after the count.
	for (auto& c : t) if (s.boolean() && c >= 'A' && c <= 'F') c = static_cast<C>(c + 32);
	PBT_REQUIRE(read<C>(t, t.size(), v) && hex(v) == hex(u), "mixed case " + show(t));
	PBT_REQUIRE(read<C>(t + C(0) + W<C>("x"), SIZE_MAX, v) && hex(v) == hex(u), "terminated");
	PBT_REQUIRE(read<C>(t + W<C>("junk"), t.size(), v) && hex(v) == hex(u), "counted");
	PBT_REQUIRE(!read<C>(t + W<C>("x"), t.size() + 1, v), "text after the closing brace");
	for (size_t n = 0; n < t.size(); n++) { PBT_REQUIRE(!read<C>(t.substr(0, n), n, v), "accepted the first " + show(n)); PBT_REQUIRE(!read<C>(t.substr(0, n) + C(0), SIZE_MAX, v), "accepted the first " + show(n) + ", terminated"); PBT_REQUIRE(!read<C>(t, n, v), "accepted count " + show(n)); }
	s.nontrivial();
}
PBT_CHECK(trip_narrow, 10000, 100000) { trip<char>(s); }
PBT_CHECK(trip_wide, 10000, 100000) { trip<wchar_t>(s); }

// One character of a canonical text removed, doubled or exchanged for one that cannot stand there. Blanks between the parts are let through.
template<class C> static void mutate(Src& s)
{
	id_t_ u = gen(s), v; std::string t = ref(u); size_t p = s.draw(t.size() - 1); bool digit = isxdigit(static_cast<unsigned char>(t[p]));
	std::string m = t; char c = 0; bool reject = true;
	switch (s.draw(3)) {
	case 0: m.erase(p, 1); reject = !digit; break;
	case 1: m.insert(p, 1, t[p]); break;
	case 2: c = s.pick(std::string("GgZz!_.{}()/:@`+\x7f")); if (c == t[p]) c = '!'; m[p] = c; break;
	default: c = s.pick(std::string("GgZz!_.{}()/:@`\x7f")); m.insert(p, 1, c); }
	if (!reject) return;
	if (isxdigit(static_cast<unsigned char>(t[p])) && m.size() == t.size() + 1 && c == 0) { // a group one digit longer: only rejected when its value grows out of the field
		size_t b = t.find_last_of("{-", p) + 1; if (t[b] == '0') return;
	}
	s.note([&] { return show(m); });
	bool r = read<C>(W<C>(m), m.size(), v); PBT_REQUIRE(!r, "accepted " + show(m)); s.nontrivial();
}
PBT_CHECK(mutate_narrow, 100000, 600000) { mutate<char>(s); }
PBT_CHECK(mutate_wide, 60000, 300000) { mutate<wchar_t>(s); }
PBT_CHECK(blanks, 40000, 200000)
{
	id_t_ u = gen(s), v; std::string t = ref(u), m; auto gap = [&] { if (s.chance(1, 3)) m += s.pick({" ", "\t", "\r\n", "  "}); };
	for (size_t i = 0; i < t.size(); i++) { bool sep = !isxdigit(static_cast<unsigned char>(t[i])); if (sep) gap(); m += t[i]; if (sep) gap(); }
	PBT_REQUIRE(read<char>(m, m.size(), v) && hex(v) == hex(u), "with blanks " + show(m)); PBT_REQUIRE(read<wchar_t>(W<wchar_t>(m), m.size(), v) && hex(v) == hex(u), "with blanks"); s.nontrivial(m.size() > t.size());
	s.note([&] { return show(m); });
}
// Anything: no read outside; whatever is accepted has braces and dashes in order.
PBT_CHECK(garbage, 100000, 600000)
{
	id_t_ u = gen(s), v; std::string t = s.chance(1, 2) ? ref(u) : std::string();
	s.repeat(12, [&] { size_t p = t.empty() ? 0 : s.draw(t.size()); if (s.boolean()) t.insert(p, 1, s.pick(std::string("{}-0fA \0x", 9))); else if (p < t.size()) t.erase(p, 1); });
	bool r = read<char>(t, t.size(), v), w = read<wchar_t>(W<wchar_t>(t), t.size(), v); PBT_EQ(r, w);
	std::string k; for (char c : t) { if (!c) break; if (c == '{' || c == '}' || c == '-') k += c; }
	if (r) PBT_REQUIRE(k == "{----}", "accepted " + show(t));
	s.nontrivial(t.size() > 4); s.label_if(r, "accepted"); s.note([&] { return show(t); });
}
PBT_MAIN("U01", "Random and sparse 128-bit values, their canonical texts, one-character mutations, truncations, blanks, garbage; non-trivial: canonical texts, real mutations, garbage over four characters. Oracle: direct formatter and the canonical grammar.")
