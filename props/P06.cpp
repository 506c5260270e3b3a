// IBAN, creditor references and Slovenian payment references against a reference reading, with checksums done digit by digit.
// SCALE: 8
#include "style.hpp"
using namespace pbt;

template<class T> using str = std::basic_string<T>;
template<class T> static str<T> W(const std::string& x) { return str<T>(x.begin(), x.end()); }
template<class T> static std::string N(const T* x) { std::string r; for (; *x; x++) r += static_cast<char>(*x); return r; }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool upper(char c) { return c >= 'A' && c <= 'Z'; }
static unsigned mod97(const std::string& x) { unsigned m = 0; for (char c : x) { if (digit(c)) m = (m * 10 + static_cast<unsigned>(c - '0')) % 97; else m = (m * 100 + static_cast<unsigned>(c - 'A') + 10) % 97; } return m; }
// Where characters of the text lie, when blanks are spelled in one of several ways.
template<class T> struct text_
{
	str<T> t; std::vector<size_t> pos; size_t pre = 0, n, end; std::unique_ptr<exact<T>> e; std::string plain;
	text_(Src& s, bool sgml, const std::string& p) : plain(p)
	{
		if (s.chance(1, 4)) { t = W<T>("RF SI "); pre = t.size(); } for (char c : p) { pos.push_back(t.size()); if (c == ' ' && sgml && s.boolean()) t += W<T>(s.pick(std::vector<std::string>{"&#32;", "&#9;"})); else t += static_cast<T>(c); }
		pos.push_back(t.size()); n = end = t.size(); if (s.chance(1, 3)) { t += T(0); end = s.boolean() ? SIZE_MAX : n + 1; } else if (s.chance(1, 2)) t += W<T>("12-3 A");
		e = std::make_unique<exact<T>>(t.data(), t.size()); s.note([&] { return show(plain) + (sgml ? " SGML" : sizeof(T) > 1 ? " wide" : "") + " from " + show(pre); });
	}
	void iv(const stdex::interval<size_t>& i, size_t a, size_t b, const std::string& what) const { if (!i) fail(what + " not reported"); PBT_EQ(i.start, pos[a], what + " start"); PBT_EQ(i.end, pos[b], what + " end"); }
};
template<class T> static std::shared_ptr<sp::basic_parser<T>> blank(unsigned kind) { if (!kind) return nullptr; if constexpr (sizeof(T) == 1) if (kind == 2) return std::make_shared<sp::sgml_space_cp>(); return std::make_shared<sp::basic_space_cu<T>>(); }
static void mutate(Src& s, std::string& x, const char* al) { size_t k = strlen(al) - 1; for (size_t n = 1 + s.draw(2); n--;) switch (s.draw(2)) { case 0: if (x.size()) x.erase(s.draw(x.size() - 1), 1); break; case 1: x.insert(s.draw(x.size()), 1, al[s.draw(k)]); break; default: if (x.size()) x[s.draw(x.size() - 1)] = al[s.draw(k)]; } }
// Change one character into another of the same kind: no single such change goes by unnoticed.
static bool change(Src& s, std::string& x, size_t from) { size_t p = from + s.draw(x.size() - 1 - from); if (digit(x[p])) { x[p] = static_cast<char>('0' + (x[p] - '0' + 1 + static_cast<int>(s.draw(8))) % 10); return true; } if (upper(x[p])) { x[p] = static_cast<char>('A' + (x[p] - 'A' + 1 + static_cast<int>(s.draw(24))) % 26); return true; } return false; }

// --- IBAN
struct country { char c[3]; unsigned len; const char* check; };
static const country lands[] = {{"AD", 24, ""}, {"AE", 23, ""}, {"AL", 28, ""}, {"AT", 20, ""}, {"AZ", 28, ""}, {"BA", 20, "39"}, {"BE", 16, ""}, {"BG", 22, ""}, {"BH", 22, ""}, {"BI", 27, ""}, {"BR", 29, ""}, {"BY", 28, ""}, {"CH", 21, ""}, {"CR", 22, ""}, {"CY", 28, ""}, {"CZ", 24, ""}, {"DE", 22, ""}, {"DJ", 27, ""}, {"DK", 18, ""}, {"DO", 28, ""}, {"EE", 20, ""}, {"EG", 29, ""}, {"ES", 24, ""}, {"FI", 18, ""}, {"FO", 18, ""}, {"FR", 27, ""}, {"GB", 22, ""}, {"GE", 22, ""}, {"GI", 23, ""}, {"GL", 18, ""}, {"GR", 27, ""}, {"GT", 28, ""}, {"HR", 21, ""}, {"HU", 28, ""}, {"IE", 22, ""}, {"IL", 23, ""}, {"IQ", 23, ""}, {"IS", 26, ""}, {"IT", 27, ""}, {"JO", 30, ""}, {"KW", 30, ""}, {"KZ", 20, ""}, {"LB", 28, ""}, {"LC", 32, ""}, {"LI", 21, ""}, {"LT", 20, ""}, {"LU", 20, ""}, {"LV", 21, ""}, {"LY", 25, ""}, {"MC", 27, ""}, {"MD", 24, ""}, {"ME", 22, "25"}, {"MK", 19, "07"}, {"MR", 27, "13"}, {"MT", 31, ""}, {"MU", 30, ""}, {"NL", 18, ""}, {"NO", 15, ""}, {"PK", 24, ""}, {"PL", 28, ""}, {"PS", 29, ""}, {"PT", 25, "50"}, {"QA", 29, ""}, {"RO", 24, ""}, {"RS", 22, "35"}, {"RU", 33, ""}, {"SA", 24, ""}, {"SC", 31, ""}, {"SD", 18, ""}, {"SE", 24, ""}, {"SI", 19, "56"}, {"SK", 24, ""}, {"SM", 27, ""}, {"ST", 25, ""}, {"SV", 28, ""}, {"TL", 23, "38"}, {"TN", 24, "59"}, {"TR", 26, ""}, {"UA", 29, ""}, {"VA", 22, ""}, {"VG", 24, ""}, {"XK", 20, ""}};
static const char* others = "AO BF BJ CF CG CI CM CV DZ GA GQ GW HN IR JO KM MA MG ML MZ NE NI SN TD TG"; // lengths used by partners, but not in the registry: unspecified
static const country* land(const std::string& x) { for (auto& l : lands) if (x.compare(0, 2, l.c) == 0) return &l; return nullptr; }
struct iban_ { bool ok = false, valid = false; std::string c, k, b; size_t e = 0; };
static iban_ ref_iban(std::string x, bool fold, bool spaces)
{
	iban_ r; if (fold) for (char& c : x) c = static_cast<char>(toupper(c)); if (x.size() < 4 || !upper(x[0]) || !upper(x[1]) || !digit(x[2]) || !digit(x[3])) return r; auto l = land(x); if (!l) return r;
	r.c = x.substr(0, 2); r.k = x.substr(2, 2); if (*l->check && r.k != l->check) return iban_(); size_t p = 4; while (r.b.size() < l->len - 4) { if (p >= x.size()) return iban_(); if (spaces && x[p] == ' ') { p++; continue; } if (!digit(x[p]) && !upper(x[p])) return iban_(); r.b += x[p++]; } r.e = p; r.ok = true; r.valid = mod97(r.b + r.c + r.k) == 1; return r;
}
static std::string spaced(Src& s, const std::string& x, unsigned kind) { std::string r; for (size_t i = 0; i < x.size(); i++) { if (kind == 1 ? i && i % 4 == 0 : kind == 2 && i >= 4 && s.chance(1, 4)) r += ' '; r += x[i]; } return r; }
static std::string make_iban(Src& s)
{
	const country& l = lands[s.draw(std::size(lands) - 1)]; bool letters = s.boolean(); std::string b; for (unsigned i = 4; i < l.len; i++) b += letters && s.chance(1, 3) ? static_cast<char>('A' + s.draw(25)) : s.chance(1, 4) ? '0' : static_cast<char>('0' + s.draw(9));
	char k[3]; if (*l.check) { memcpy(k, l.check, 3); for (int n = 0; n < 100; n++) { b[b.size() - 2] = static_cast<char>('0' + n / 10); b.back() = static_cast<char>('0' + n % 10); if (mod97(b + l.c + k) == 1) break; } } else snprintf(k, 3, "%02u", 98 - mod97(b + l.c + "00"));
	return l.c + std::string(k) + b;
}
template<class T> static void iban(Src& s)
{
	std::string x = make_iban(s); PBT_EQ(mod97(x.substr(4) + x.substr(0, 4)), 1u, "reference is wrong"); size_t how = s.draw(3); bool same = false; if (how == 1) same = change(s, x, 4); unsigned sk = static_cast<unsigned>(s.draw(2)); x = spaced(s, x, sk); if (how == 2) mutate(s, x, "0A1Z 9-B"); if (how == 3 && s.boolean()) { size_t p = s.draw(3); x[p] = s.pick(std::string("AISZ059 ")); } if (x.find(std::string(others)) == 0) throw discard_t{};
	bool fold = s.chance(1, 3); if (fold) for (char& c : x) if (s.boolean()) c = static_cast<char>(tolower(c)); std::string u = x.substr(0, 2); for (char& c : u) c = static_cast<char>(toupper(c)); for (size_t i = 0; others[i]; i += 3) { if (u == std::string(others + i, 2) && !land(u)) throw discard_t{}; if (!others[i + 2]) break; }
	if (s.boolean()) x += s.pick(std::vector<std::string>{" ", ".", "1", "A", " 2", "-"}); unsigned kind = static_cast<unsigned>(s.weighted({1, 4, sizeof(T) == 1 ? 2u : 0u})); sp::basic_iban<T> p(blank<T>(kind)); if (s.chance(1, 2)) { auto o = W<T>(s.boolean() ? make_iban(s) : "MT31MALT011000012345MTLCAST001S"); p.match(o.data(), 0, o.size()); }
	iban_ r = ref_iban(x, fold, kind > 0); if (how == 0) PBT_REQUIRE(r.ok == (kind > 0 || x.find(' ') >= 4 + land(u)->len - 4) && (!r.ok || r.valid), "reference is wrong"); if (same && r.ok) PBT_REQUIRE(!r.valid, "reference is wrong");
	text_<T> t(s, kind == 2, x); bool b = p.match(t.e->get(), t.pre, t.end, fold ? sp::match_case_insensitive : sp::match_default); PBT_EQ(b, r.ok, "match"); PBT_EQ(p.is_valid, r.valid, "validity"); PBT_EQ(N(p.country), r.c); PBT_EQ(N(p.check_digits), r.k); PBT_EQ(N(p.bban), r.b); if (r.ok) t.iv(p.interval, 0, r.e, "account"); else PBT_REQUIRE(!p.interval, "interval after failure");
	s.nontrivial(r.ok); s.label(!r.ok ? "not recognised" : r.valid ? "valid" : "invalid");
}
PBT_CHECK(iban, 100000, 1000000) { if (s.boolean()) iban<char>(s); else iban<wchar_t>(s); }

// --- creditor references
struct rf_ { bool ok = false, valid = false; std::string k, b; size_t e = 0; };
static rf_ ref_rf(std::string x, bool fold, bool spaces)
{
	rf_ r; if (fold) for (char& c : x) c = static_cast<char>(toupper(c)); if (x.size() < 4 || x[0] != 'R' || x[1] != 'F' || !digit(x[2]) || !digit(x[3])) return r; r.k = x.substr(2, 2);
	size_t p = 4, n = 4; std::string b; while (p < x.size()) { size_t q = p; if (n % 4 == 0 && spaces && x[q] == ' ') q++; if (q >= x.size() || (!digit(x[q]) && !upper(x[q]))) break; b += x[q]; n++; p = r.e = q + 1; } // a blank between groups of four, followed by more of it
	if (b.empty() || b.size() > 21) return rf_(); r.ok = true; r.b = std::string(21 - b.size(), '0') + b; r.valid = mod97(b + "RF" + r.k) == 1; return r;
}
static std::string make_rf(Src& s) { std::string b; size_t n = 1 + s.draw(20); bool letters = s.boolean(); for (size_t i = 0; i < n; i++) b += letters && s.chance(1, 3) ? static_cast<char>('A' + s.draw(25)) : static_cast<char>('0' + s.draw(9)); char k[3]; snprintf(k, 3, "%02u", 98 - mod97(b + "RF00")); return std::string("RF") + k + b; }
template<class T> static void rf(Src& s)
{
	std::string x = make_rf(s); size_t how = s.draw(3); bool same = false; if (how == 1) same = change(s, x, 2); if (how == 2 && s.chance(1, 3)) for (int i = 0; i < 20; i++) x += "0A"[s.draw(1)]; x = spaced(s, x, static_cast<unsigned>(s.draw(2) == 1)); if (how == 2) mutate(s, x, "0A1Z 9-B"); bool fold = s.chance(1, 3); if (fold) for (char& c : x) if (s.boolean()) c = static_cast<char>(tolower(c)); if (s.boolean()) x += s.pick(std::vector<std::string>{" ", ".", "  1", " -", "-", "\xff", "/1"});
	if (sizeof(T) > 1) for (char& c : x) if (c == '\xff') c = '!'; unsigned kind = static_cast<unsigned>(s.weighted({1, 4, sizeof(T) == 1 ? 2u : 0u})); sp::basic_creditor_reference<T> p(blank<T>(kind)); if (s.chance(1, 2)) { auto o = W<T>(s.boolean() ? make_rf(s) : "RF18ABCDEFGHIJKLMNOPQRSTU"); p.match(o.data(), 0, o.size()); }
	rf_ r = ref_rf(x, fold, kind > 0); if (same && r.ok) PBT_REQUIRE(!r.valid || x.find(' ') < x.size(), "reference is wrong"); text_<T> t(s, kind == 2, x); bool b = p.match(t.e->get(), t.pre, t.end, fold ? sp::match_case_insensitive : sp::match_default); PBT_EQ(b, r.ok, "match"); PBT_EQ(p.is_valid, r.valid, "validity"); PBT_EQ(N(p.check_digits), r.k); PBT_EQ(N(p.reference), r.b); if (r.ok) t.iv(p.interval, 0, r.e, "reference"); else PBT_REQUIRE(!p.interval, "interval after failure");
	s.nontrivial(r.ok); s.label(!r.ok ? "not recognised" : r.valid ? "valid" : "invalid");
}
PBT_CHECK(creditor_reference, 100000, 1000000) { if (s.boolean()) rf<char>(s); else rf<wchar_t>(s); }

// --- Slovenian references: what each model has a control digit over, by number of parts ("-" no control, "x" never valid)
static const struct { const char* models; const char* rule[3]; } models[] = {
	{"00", {"-", "-", "-"}}, {"01", {"1", "12", "123"}}, {"02", {"x", "x", "2,3"}}, {"03", {"x", "x", "1,2,3"}}, {"04", {"x", "x", "1,3"}}, {"05 55", {"1", "1", "1"}}, {"06", {"x", "2", "23"}}, {"07", {"x", "2", "2"}}, {"08", {"x", "x", "12,3"}}, {"09", {"1", "12", "12"}}, {"10", {"x", "1,2", "1,23"}},
	{"11 18 19 28 38 40 41 48 49 51 58", {"x", "1,2", "1,2"}}, {"12", {"1", "x", "x"}}, {"21 31", {"x", "1", "x"}}};
static bool mod11(const std::string& x) { unsigned n = 0; for (size_t i = 1; i < x.size(); i++) n += static_cast<unsigned>(x[x.size() - 1 - i] - '0') * static_cast<unsigned>(i + 1); unsigned c = 11 - n % 11; if (c > 9) c = 0; return c == static_cast<unsigned>(x.back() - '0'); }
static const char* const* rules(const std::string& m) { for (auto& r : models) for (size_t i = 0; ; i += 3) { if (m == std::string(r.models + i, 2)) return r.rule; if (!r.models[i + 2]) break; } return nullptr; }
struct si_ { bool ok = false, valid = false, open = false; std::string m; std::vector<std::pair<size_t, size_t>> part; size_t e = 0; };
static si_ ref_si(std::string x, bool fold, bool spaces)
{
	si_ r; if (x.size() < 4 || !digit(x[2]) || !digit(x[3])) return r; if (fold) for (int i = 0; i < 2; i++) x[static_cast<size_t>(i)] = static_cast<char>(toupper(x[static_cast<size_t>(i)])); if (x[0] != 'S' || x[1] != 'I') return r; r.ok = true; r.m = x.substr(2, 2); r.e = 4; if (r.m == "99") { r.valid = true; return r; }
	size_t p = 4; if (spaces && p < x.size() && x[p] == ' ') p++; std::string all; for (int i = 0; i < 3; i++) { if (i) { if (p >= x.size() || x[p] != '-') break; p++; } size_t q = p; while (q < x.size() && digit(x[q])) q++; if (q == p) break; r.part.push_back({p, q}); r.e = p = q; }
	auto rule = rules(r.m); if (!rule) { r.open = true; return r; } if (r.part.empty()) return r; size_t sum = 0; bool fit = true; for (auto& a : r.part) { sum += a.second - a.first; if (a.second - a.first > (r.m == "12" ? 13u : 12u)) fit = false; } if (sum > 20) fit = false; std::string w = rule[r.part.size() - 1]; if (w == "x" || !fit) return r; if (w == "-") { r.valid = true; return r; }
	r.valid = true; std::string d; for (char c : w + ",") { if (c == ',') { if (!mod11(d)) r.valid = false; d.clear(); continue; } auto& a = r.part[static_cast<size_t>(c - '1')]; d += x.substr(a.first, a.second - a.first); } return r;
}
// Make the control digits right.
static std::string make_si(Src& s, bool right)
{
	std::string m = s.chance(1, 12) ? s.pick(std::vector<std::string>{"99", "13", "64", "98"}) : [&] { auto& r = models[s.draw(std::size(models) - 1)]; size_t n = (strlen(r.models) + 1) / 3; return std::string(r.models + 3 * s.draw(n - 1), 2); }(); auto rule = rules(m); size_t n = 1 + s.draw(2); if (rule && *rule[n - 1] == 'x' && s.chance(3, 4)) for (n = 3; *rule[n - 1] == 'x' && n > 1;) n--; std::vector<std::string> p(n); for (auto& a : p) { size_t k = 1 + (s.chance(1, 4) ? s.draw(m == "12" ? 12 : 11) : s.draw(5)); if (s.chance(1, 12)) k = 12 + s.draw(1); for (size_t i = 0; i < k; i++) a += static_cast<char>('0' + s.draw(9)); }
	if (right && rule && *rule[n - 1] != 'x' && *rule[n - 1] != '-') { std::string w = rule[n - 1], d; size_t last = 0; for (char c : w + ",") { if (c == ',') { for (char k = '0'; k <= '9'; k++) { d.back() = k; if (mod11(d)) break; } p[last].back() = d.back(); d.clear(); continue; } last = static_cast<size_t>(c - '1'); d += p[last]; } }
	std::string x = "SI" + m + (s.boolean() ? " " : ""); for (size_t i = 0; i < n; i++) x += (i ? "-" : "") + p[i]; return x;
}
template<class T> static void si(Src& s)
{
	bool right = s.chance(2, 3); std::string x = make_si(s, right); if (s.chance(1, 4)) mutate(s, x, "0123456789- "); if (s.boolean()) x += s.pick(std::vector<std::string>{"-", " ", "-1", "a", " 2", "--1", "-x"}); bool fold = s.chance(1, 4); if (fold && x.size() > 1) { if (s.boolean()) x[0] = static_cast<char>(tolower(x[0])); if (s.boolean()) x[1] = static_cast<char>(tolower(x[1])); }
	unsigned kind = static_cast<unsigned>(s.weighted({1, 4, sizeof(T) == 1 ? 2u : 0u})); sp::basic_si_reference<T> p(blank<T>(kind)); if (s.boolean()) { auto o = W<T>(make_si(s, true)); p.match(o.data(), 0, o.size()); }
	si_ r = ref_si(x, fold, kind > 0); text_<T> t(s, kind == 2, x); bool b = p.match(t.e->get(), t.pre, t.end, fold ? sp::match_case_insensitive : sp::match_default); PBT_EQ(b, r.ok, "match"); PBT_EQ(N(p.model), r.m, "model"); if (!r.open) PBT_EQ(p.is_valid, r.valid, "validity"); const stdex::interval<size_t>* part[] = {&p.part1.interval, &p.part2.interval, &p.part3.interval}; for (size_t i = 0; i < 3; i++) if (i < r.part.size()) t.iv(*part[i], r.part[i].first, r.part[i].second, "part"); else PBT_REQUIRE(!*part[i], "part reported, though absent"); if (r.ok) t.iv(p.interval, 0, r.e, "reference"); else PBT_REQUIRE(!p.interval, "interval after failure");
	s.nontrivial(!r.part.empty()); s.label(!r.ok ? "not recognised" : r.open ? "other model" : r.valid ? "valid" : "invalid");
}
PBT_CHECK(si_reference, 120000, 1200000) { if (s.boolean()) si<char>(s); else si<wchar_t>(s); }
PBT_MAIN("P06", "References composed with right or wrong control digits, spaced, mutated; recognised ones count as non-trivial. Oracle: reference readers and checksums computed digit by digit.")
