// Numerals of every kind: tokens (digits, signs, separators, …) spelled in several ways against a reference reading of the tokens.
// SCALE: 6
#include "style.hpp"
#include <math.h>
using namespace pbt;

static std::vector<tok> tokens(Src& s, const std::string& shape_alphabet, const std::function<void(std::string&)>& grammar, int base = 10)
{
	std::string k; if (s.chance(1, 5)) s.repeat(10, [&] { k += shape_alphabet[s.draw(shape_alphabet.size() - 1)]; }); else { if (s.chance(1, 6)) k += 'x'; grammar(k); if (s.boolean()) s.repeat(4, [&] { k += shape_alphabet[s.draw(shape_alphabet.size() - 1)]; }); }
	if (k.size() && s.chance(1, 6)) k.erase(s.draw(k.size() - 1), 1); if (s.chance(1, 6)) k.insert(s.draw(k.size()), 1, shape_alphabet[s.draw(shape_alphabet.size() - 1)]);
	std::vector<tok> t; for (char c : k) t.push_back({c, c == 'd' ? static_cast<int>(s.draw(static_cast<uint64_t>(base - 1))) : 0, 0, 0}); return t;
}
static std::string digits(Src& s, size_t lo, size_t hi) { return std::string(lo + s.draw(hi - lo), 'd'); }

// Reference reading of tokens, in token positions.
struct rd { bool ok = false; size_t e = 0; uint64_t v = 0; size_t n = 0; bool sep = false; };
struct R
{
	std::vector<tok> t; std::set<char> spaces{' '};
	char k(size_t i) const { return i < t.size() ? t[i].k : 0; }
	rd integer(size_t i, int base = 10) const { rd r; r.e = i; while (k(r.e) == 'd' && t[r.e].v < base) { r.v = r.v * static_cast<uint64_t>(base) + static_cast<uint64_t>(t[r.e].v); r.n++; r.e++; } r.ok = r.n > 0; return r; }
	rd grouped(size_t i) const { rd r = integer(i); if (!r.ok || r.n > 3) return r; char used = 0; for (;;) { char c = k(r.e); if (!c || !strchr(".,'_", c) || (used && c != used)) break; rd g = integer(r.e + 1); if (!g.ok || g.n != 3) break; r.v = r.v * 1000 + g.v; r.n += 3; r.e = g.e; r.sep = true; used = c; } return r; }
	size_t skip(size_t i) const { while (spaces.count(k(i))) i++; return i; }
};
template<class T> struct run
{
	Src& s; style<T> st; R r; std::basic_string<T> text; size_t pre = 0, end, n; int flags; std::unique_ptr<exact<T>> e; std::vector<size_t> pos;
	run(Src& src, std::vector<tok> t) : s(src)
	{
		st.mode = static_cast<unsigned>(s.draw(sizeof(T) == 1 ? 2 : 1)); flags = s.boolean() ? sp::match_multiline : 0; r.t = t; (void)0;
		if (s.chance(1, 4)) { text = style<T>::w("12+ "); pre = text.size(); }
		for (auto& x : r.t) { pos.push_back(text.size()); auto y = st.spell(s, x); text += y; } pos.push_back(text.size());
		n = text.size(); end = n; if (s.chance(1, 3)) { text += T(0); end = s.boolean() ? SIZE_MAX : n + 1; } else if (s.chance(1, 4)) { text += style<T>::w("1234"); } // what follows the range must not matter
		e = std::make_unique<exact<T>>(text.data(), text.size());
		s.note([&] { std::string o = "\""; for (size_t i = 0; i < n; i++) { uint32_t c = static_cast<uint32_t>(text[i]); if (c >= 32 && c < 127) o += static_cast<char>(c); else { char b[16]; snprintf(b, 16, "\\x%x", sizeof(T) == 1 ? c & 255 : c); o += b; } } return o + "\" from " + show(pre) + " spelled " + show(st.mode) + (sizeof(T) > 1 ? " wide" : ""); });
	}
	template<class P> bool match(P& p) { return p->match(e->get(), pre, end, flags); }
	template<class P> bool again(P& p) { return p->match(e->get(), pre, end, flags); }
	void iv(const stdex::interval<size_t>& i, bool ok, size_t a, size_t b, const char* what) { if (!ok) { if (i) fail(std::string(what) + " reported, though absent"); return; } if (!i) fail(std::string(what) + " not reported"); PBT_EQ(i.start, pos[a], std::string(what) + " start"); PBT_EQ(i.end, pos[b], std::string(what) + " end"); }
};
// The parser has read something else before.
template<class T, class P> static void use_before(Src& s, P& p, const style<T>& st) { if (!s.chance(1, 3)) return; static const char* old[] = {"7", "-1.5E-3", "$3", "12,345,678", "+1 1/2", "3:2", "XIV", "~9E+9", "MMCD"}; auto o = style<T>::w(old[s.draw(8)]); (void)st; p->match(o.c_str(), 0, o.size()); }
static bool fits(size_t n, int base = 10) { return n <= (base == 10 ? 19u : 16u); }

template<class T> static void integer10(Src& s)
{
	run<T> c(s, tokens(s, "dddx.e-", [&](std::string& k) { k += digits(s, 1, s.chance(1, 6) ? 30 : 19); })); auto p = c.st.int10(); use_before(s, p, c.st); rd w = c.r.integer(0); PBT_EQ(c.match(p), w.ok, "match"); c.iv(p->interval, w.ok, 0, w.e, "number"); if (w.ok && fits(w.n)) { PBT_EQ(p->value, w.v, "value"); PBT_EQ(p->digit_count, w.n); if (w.n > 1) s.nontrivial(); }
}
PBT_CHECK(decimal, 20000, 200000) { if (s.boolean()) integer10<char>(s); else integer10<wchar_t>(s); }
template<class T> static void integer16(Src& s)
{
	run<T> c(s, tokens(s, "dddx.-", [&](std::string& k) { k += digits(s, 1, s.chance(1, 6) ? 20 : 16); }, 16)); auto p = c.st.int16(); use_before(s, p, c.st); rd w = c.r.integer(0, 16); PBT_EQ(c.match(p), w.ok, "match"); c.iv(p->interval, w.ok, 0, w.e, "number"); if (w.ok && fits(w.n, 16)) { PBT_EQ(p->value, w.v, "value"); if (w.n > 1) s.nontrivial(); }
}
PBT_CHECK(hexadecimal, 20000, 200000) { if (s.boolean()) integer16<char>(s); else integer16<wchar_t>(s); }
static void groups(Src& s, std::string& k) { k += digits(s, 1, s.chance(1, 5) ? 5 : 3); char sep = ".,'_"[s.draw(3)]; s.repeat(4, [&] { k += s.chance(1, 8) ? ".,'_"[s.draw(3)] : sep; k += s.chance(1, 6) ? digits(s, 1, 5) : "ddd"; }); }
template<class T> static void integer10ts(Src& s)
{
	run<T> c(s, tokens(s, "dddd.,'_x", [&](std::string& k) { groups(s, k); })); auto p = c.st.int10ts(); use_before(s, p, c.st); rd w = c.r.grouped(0); PBT_EQ(c.match(p), w.ok, "match"); c.iv(p->interval, w.ok, 0, w.e, "number"); if (w.ok) { if (fits(w.n)) PBT_EQ(p->value, w.v, "value"); PBT_EQ(p->has_separators, w.sep); PBT_EQ(p->digit_count, w.n, "digit_count"); s.nontrivial(w.sep); }
}
PBT_CHECK(grouped, 40000, 400000) { if (s.boolean()) integer10ts<char>(s); else integer10ts<wchar_t>(s); }

// --- fractions, scores, signed
template<class T> static void fraction(Src& s)
{
	run<T> c(s, tokens(s, "ddd/x ", [&](std::string& k) { k += digits(s, 1, 4) + "/" + digits(s, 1, 4); })); auto num = c.st.int10(), den = c.st.int10(); auto p = std::make_shared<sp::basic_fraction<T>>(num, c.st.lit(style<T>::w("/")), den); use_before(s, p, c.st);
	rd a = c.r.integer(0), b; if (a.ok && c.r.k(a.e) == '/') b = c.r.integer(a.e + 1); PBT_EQ(c.match(p), b.ok, "match"); c.iv(p->interval, b.ok, 0, b.e, "fraction"); c.iv(p->numerator->interval, b.ok, 0, a.e, "numerator"); c.iv(p->fraction_line->interval, b.ok, a.e, a.e + 1, "fraction line"); c.iv(p->denominator->interval, b.ok, a.e + 1, b.e, "denominator"); if (b.ok) { PBT_EQ(num->value, a.v); PBT_EQ(den->value, b.v); s.nontrivial(); }
}
PBT_CHECK(fractions, 20000, 200000) { if (s.boolean()) fraction<char>(s); else fraction<wchar_t>(s); }
template<class T> static void score(Src& s)
{
	run<T> c(s, tokens(s, "ddd:x  n", [&](std::string& k) { auto sp = [&] { s.repeat(2, [&] { k += s.chance(1, 8) ? 'n' : ' '; }); }; k += digits(s, 1, 3); sp(); k += ':'; sp(); k += digits(s, 1, 3); })); auto h = c.st.int10(), g = c.st.int10(); auto p = std::make_shared<sp::basic_score<T>>(h, c.st.lit(style<T>::w(":")), g, c.st.space()); use_before(s, p, c.st);
	rd a = c.r.integer(0), b; size_t i = 0; if (a.ok) { i = c.r.skip(a.e); if (c.r.k(i) == ':') b = c.r.integer(c.r.skip(i + 1)); } size_t bs = c.r.skip(i + 1); PBT_EQ(c.match(p), b.ok, "match"); c.iv(p->interval, b.ok, 0, b.e, "score"); c.iv(p->home->interval, b.ok, 0, a.e, "home"); c.iv(p->separator->interval, b.ok, i, i + 1, "separator"); c.iv(p->guest->interval, b.ok, bs, b.e, "guest"); if (b.ok) { PBT_EQ(h->value, a.v); PBT_EQ(g->value, b.v); s.nontrivial(); }
}
PBT_CHECK(scores, 20000, 200000) { if (s.boolean()) score<char>(s); else score<wchar_t>(s); }
template<class T> struct signs { std::shared_ptr<sp::basic_parser<T>> p, m, x; signs(Src& s, const style<T>& st) { if (!s.chance(1, 5)) p = st.sign('p'); if (!s.chance(1, 5)) m = st.sign('m'); if (!s.chance(1, 5)) x = st.sign('s'); } char at(char k) const { return (k == 'p' && p) || (k == 'm' && m) || (k == 's' && x) ? k : 0; } };
template<class T, class P> static void check_signs(run<T>& c, P& p, char k, bool ok) { if (p->positive_sign) c.iv(p->positive_sign->interval, ok && k == 'p', 0, 1, "positive sign"); if (p->negative_sign) c.iv(p->negative_sign->interval, ok && k == 'm', 0, 1, "negative sign"); if (p->special_sign) c.iv(p->special_sign->interval, ok && k == 's', 0, 1, "special sign"); }
static void sign(Src& s, std::string& k) { if (s.chance(2, 3)) k += "pms"[s.draw(2)]; }
template<class T> static void signed_numeral2(Src& s)
{
	run<T> c(s, tokens(s, "dddpms.,x", [&](std::string& k) { sign(s, k); k += digits(s, 1, 6); })); signs<T> g(s, c.st); auto num = c.st.int10(); auto p = std::make_shared<sp::basic_signed_numeral<T>>(g.p, g.m, g.x, num); use_before(s, p, c.st);
	char k = g.at(c.r.k(0)); rd w = c.r.integer(k ? 1 : 0); PBT_EQ(c.match(p), w.ok, "match"); c.iv(p->interval, w.ok, 0, w.e, "numeral"); check_signs(c, p, k, w.ok); c.iv(p->number->interval, w.ok, k ? 1 : 0, w.e, "number"); if (w.ok) { PBT_EQ(num->value, w.v); s.nontrivial(k != 0); }
}
PBT_CHECK(signed_, 20000, 200000) { if (s.boolean()) signed_numeral2<char>(s); else signed_numeral2<wchar_t>(s); }
template<class T> static void mixed(Src& s)
{
	run<T> c(s, tokens(s, "ddd/pms  nx", [&](std::string& k) { sign(s, k); bool i = s.chance(3, 4); if (i) { k += digits(s, 1, 3); s.repeat(3, [&] { k += s.chance(1, 10) ? 'n' : ' '; }); } if (!i || s.chance(3, 4)) k += digits(s, 1, 3) + "/" + digits(s, 1, 3); })); signs<T> g(s, c.st);
	auto in = c.st.int10(), num = c.st.int10(), den = c.st.int10(); auto fr = std::make_shared<sp::basic_fraction<T>>(num, c.st.lit(style<T>::w("/")), den); auto p = std::make_shared<sp::basic_mixed_numeral<T>>(g.p, g.m, g.x, in, c.st.space(), fr); use_before(s, p, c.st);
	char k = g.at(c.r.k(0)); size_t b = k ? 1 : 0; auto frac = [&](size_t i, rd& n, rd& d) { n = c.r.integer(i); if (!n.ok || c.r.k(n.e) != '/') return false; d = c.r.integer(n.e + 1); return d.ok; };
	rd i = c.r.integer(b), n, d; bool has_i = false, has_f = false; size_t fs = b; if (i.ok && c.r.skip(i.e) > i.e) { has_i = true; fs = c.r.skip(i.e); has_f = frac(fs, n, d); } else if (frac(b, n, d)) has_f = true; else has_i = i.ok; bool ok = has_i || has_f;
	PBT_EQ(c.match(p), ok, "match"); c.iv(p->interval, ok, 0, has_f ? d.e : i.e, "numeral"); check_signs(c, p, k, ok); c.iv(p->integer->interval, has_i, b, i.e, "integer"); c.iv(p->fraction->interval, has_f, fs, d.e, "fraction"); if (has_i) PBT_EQ(in->value, i.v); if (has_f) { PBT_EQ(num->value, n.v); PBT_EQ(den->value, d.v); } s.nontrivial(has_i && has_f); s.label_if(has_i && has_f, "integer and fraction");
}
PBT_CHECK(mixed_, 40000, 400000) { if (s.boolean()) mixed<char>(s); else mixed<wchar_t>(s); }

// --- scientific, monetary
static bool near(double a, double b) { if (isnan(a) || isnan(b)) return isnan(a) == isnan(b); if (a == b) return true; return fabs(a - b) <= 4e-15 * std::max(fabs(a), fabs(b)); }
template<class T> static void scientific(Src& s)
{
	run<T> c(s, tokens(s, "dddd..epm,x", [&](std::string& k) { sign(s, k); if (s.chance(5, 6)) { if (s.boolean()) groups(s, k); else k += digits(s, 1, 8); } if (s.chance(3, 4)) k += "." + digits(s, s.chance(1, 6) ? 0 : 1, 9); if (s.boolean()) { k += 'e'; if (s.chance(2, 3)) k += "pm"[s.draw(1)]; k += digits(s, s.chance(1, 6) ? 0 : 1, 2); } })); signs<T> g(s, c.st); bool grouped = s.chance(1, 3), exps = !s.chance(1, 6), has_e = !s.chance(1, 8), pes = !s.chance(1, 6), nes = !s.chance(1, 6); 
	auto i = std::static_pointer_cast<sp::basic_integer<T>>(c.st.int10()); if (grouped) { auto sep = s.boolean() ? ",'_" : ","; (void)sep; i = std::make_shared<sp::basic_integer10ts<T>>(c.st.int10(), std::make_shared<sp::basic_cu_set<T>>(style<T>::w(",").c_str())); }
	auto d = std::static_pointer_cast<sp::basic_integer<T>>(c.st.int10()); auto x = std::static_pointer_cast<sp::basic_integer<T>>(c.st.int10()); auto dot = c.st.lit(style<T>::w("."));
	auto p = std::make_shared<sp::basic_scientific_numeral<T>>(g.p, g.m, g.x, i, dot, d, exps ? c.st.lit(style<T>::w("E")) : nullptr, pes ? c.st.sign('p') : nullptr, nes ? c.st.sign('m') : nullptr, has_e ? x : nullptr); use_before(s, p, c.st);
	char k = g.at(c.r.k(0)); size_t at = k ? 1 : 0, e = at; rd w = c.r.integer(at); 
	if (grouped && w.ok && w.n <= 3) for (;;) { if (c.r.k(w.e) != ',') break; rd q = c.r.integer(w.e + 1); if (!q.ok || q.n != 3) break; w.v = w.v * 1000 + q.v; w.n += 3; w.e = q.e; }
	if (w.ok) e = w.e; size_t dp = e; rd f; if (c.r.k(e) == '.') { f = c.r.integer(e + 1); if (f.ok) e = f.e; } bool ok = w.ok || f.ok; rd z; char zs = 0; size_t ep = e; if (ok && exps && has_e && c.r.k(e) == 'e') { size_t q = e + 1; if (c.r.k(q) == 'p' && pes) zs = 'p'; else if (c.r.k(q) == 'm' && nes) zs = 'm'; z = c.r.integer(q + (zs ? 1 : 0)); if (z.ok) e = z.e; else zs = 0; }
	PBT_EQ(c.match(p), ok, "match"); c.iv(p->interval, ok, 0, e, "numeral"); check_signs(c, p, k, ok); c.iv(p->integer->interval, ok && w.ok, at, w.e, "integer"); c.iv(p->decimal_separator->interval, ok && f.ok, dp, dp + 1, "decimal separator"); c.iv(p->decimal->interval, ok && f.ok, dp + 1, f.e, "decimals");
	if (p->exponent_symbol) c.iv(p->exponent_symbol->interval, z.ok, ep, ep + 1, "exponent symbol"); if (p->positive_exp_sign) c.iv(p->positive_exp_sign->interval, z.ok && zs == 'p', ep + 1, ep + 2, "positive exponent sign"); if (p->negative_exp_sign) c.iv(p->negative_exp_sign->interval, z.ok && zs == 'm', ep + 1, ep + 2, "negative exponent sign"); if (p->exponent) c.iv(p->exponent->interval, z.ok, ep + 1 + (zs ? 1 : 0), z.e, "exponent");
	if (!ok || !fits(w.n) || !fits(f.n) || z.n > 4) return;
	std::string num; if (k == 'm') num += '-'; num += std::to_string(w.v) + "."; for (size_t j = dp + 1; f.ok && j < f.e; j++) num += static_cast<char>('0' + c.r.t[j].v); num += "0e"; if (zs == 'm') num += '-'; num += std::to_string(z.v); double want = strtod(num.c_str(), nullptr); if (fabs(want) < 1e-290 && want != 0) return; if (!near(p->value, want)) { char b[128]; snprintf(b, sizeof b, "value %.17g instead of %.17g", p->value, want); fail(b); } s.nontrivial(f.ok && z.ok); s.label_if(f.ok && z.ok, "decimals and exponent"); s.label_if(grouped && w.n > 3, "grouped");
}
PBT_CHECK(scientific_, 40000, 400000) { if (s.boolean()) scientific<char>(s); else scientific<wchar_t>(s); }
template<class T> static void monetary(Src& s)
{
	run<T> c(s, tokens(s, "ddd$.pms,x", [&](std::string& k) { sign(s, k); k += '$'; if (s.chance(5, 6)) k += digits(s, 1, 6); if (s.chance(3, 4)) k += "." + digits(s, s.chance(1, 6) ? 0 : 1, 3); })); signs<T> g(s, c.st); auto i = c.st.int10(), d = c.st.int10(); auto p = std::make_shared<sp::basic_monetary_numeral<T>>(g.p, g.m, g.x, c.st.lit(style<T>::w("$")), i, c.st.lit(style<T>::w(".")), d); use_before(s, p, c.st);
	char k = g.at(c.r.k(0)); size_t at = k ? 1 : 0, e = at + 1; bool ok = c.r.k(at) == '$'; rd w, f; size_t dp = e; if (ok) { w = c.r.integer(e); if (w.ok) e = w.e; dp = e; if (c.r.k(e) == '.') { f = c.r.integer(e + 1); if (f.ok) e = f.e; } ok = w.ok || f.ok; }
	PBT_EQ(c.match(p), ok, "match"); c.iv(p->interval, ok, 0, e, "numeral"); check_signs(c, p, k, ok); c.iv(p->currency->interval, ok, at, at + 1, "currency"); c.iv(p->integer->interval, ok && w.ok, at + 1, w.e, "integer"); c.iv(p->decimal_separator->interval, ok && f.ok, dp, dp + 1, "decimal separator"); c.iv(p->decimal->interval, ok && f.ok, dp + 1, f.e, "decimals"); if (ok && w.ok) PBT_EQ(i->value, w.v); if (ok && f.ok) PBT_EQ(d->value, f.v); s.nontrivial(ok && w.ok && f.ok);
}
PBT_CHECK(monetary_, 20000, 200000) { if (s.boolean()) monetary<char>(s); else monetary<wchar_t>(s); }

// --- Roman
static std::string roman(unsigned n)
{
	static const std::pair<unsigned, const char*> d[] = {{10000, "B"}, {9000, "MB"}, {5000, "A"}, {4000, "MA"}, {1000, "M"}, {900, "CM"}, {500, "D"}, {400, "CD"}, {100, "C"}, {90, "XC"}, {50, "L"}, {40, "XL"}, {10, "X"}, {9, "IX"}, {5, "V"}, {4, "IV"}, {1, "I"}};
	std::string r; for (auto& x : d) while (n >= x.first) { r += x.second; n -= x.first; } return r;
}
template<class T> static std::shared_ptr<sp::basic_roman_numeral<T>> roman_parser(bool big) { auto c = [](char x) { return std::make_shared<sp::basic_cu<T>>(static_cast<T>(x)); }; std::shared_ptr<sp::basic_parser<T>> none; return std::make_shared<sp::basic_roman_numeral<T>>(c('I'), c('V'), c('X'), c('L'), c('C'), c('D'), c('M'), big ? c('A') : none, big ? c('B') : none); }
template<class T> static void roman_(Src& s)
{
	bool big = s.boolean(); unsigned n = 1 + static_cast<unsigned>(s.draw(big ? 38999 : 4998)); std::string x; size_t want_e; unsigned want = n; int form = static_cast<int>(s.weighted({6, 2, 2}));
	switch (form) {
	case 0: x = roman(n); if (!big && n >= 4000) { x = std::string(n / 1000, 'M') + roman(n % 1000); } want_e = x.size(); break; // the usual form
	case 1: { static const char d[] = "IXCM"; static const unsigned v[] = {1, 10, 100, 1000}; unsigned i = static_cast<unsigned>(s.draw(3)), k = 1 + static_cast<unsigned>(s.draw(11)); x = std::string(k, d[i]); want = k * v[i]; want_e = x.size(); break; } // the first digit over and over
	default: { static const std::pair<const char*, std::pair<unsigned, size_t>> bad[] = {{"VX", {5, 1}}, {"VIX", {6, 2}}, {"IC", {1, 1}}, {"IM", {1, 1}}, {"XM", {10, 1}}, {"XD", {10, 1}}, {"IL", {1, 1}}, {"VL", {5, 1}}, {"LC", {50, 1}}, {"DM", {500, 1}}, {"XIIII", {13, 4}}, {"IIX", {2, 2}}, {"LXXXX", {80, 4}}, {"CXXXX", {130, 4}}, {"MXIIII", {1013, 5}}, {"VV", {0, 0}}}; auto& b = bad[s.draw(14)]; x = b.first; want = b.second.first; want_e = b.second.second; } } // malformed: only the part before the fault
	std::string follow = s.chance(1, 3) ? s.pick(std::vector<std::string>{"", ".", " I", "x", "1", "i", "-X"}) : ""; std::string lead = s.chance(1, 4) ? "MX " : ""; int flags = s.chance(1, 4) ? sp::match_case_insensitive : 0; if (flags) { if (follow == "i" || follow == "x") follow = ""; for (auto& q : x) if (s.boolean()) q = static_cast<char>(q | 0x20); }
	std::string all = lead + x + follow; std::basic_string<T> t(all.begin(), all.end()); bool z = s.boolean(); if (z) t += T(0); exact<T> e(t.data(), t.size()); s.note([&] { return all; }); auto p = roman_parser<T>(big); use_before(s, p, style<T>{0});
	PBT_REQUIRE(p->match(e.get(), lead.size(), z ? SIZE_MAX : t.size(), flags), "not recognised"); PBT_EQ(p->interval.start, lead.size()); PBT_EQ(p->interval.end, lead.size() + want_e, "extent"); PBT_EQ(p->value, want, "value"); s.nontrivial(x.size() > 1); s.label_if(form == 2, "malformed");
	// Nothing to recognise
	std::basic_string<T> q(1, static_cast<T>(s.pick(std::string("x1. -i")))); if (!flags) PBT_REQUIRE(!p->match(q.data(), 0, 1, 0) && !p->interval, "recognised something else");
}
PBT_CHECK(roman_numerals, 40000, 400000) { if (s.boolean()) roman_<char>(s); else roman_<wchar_t>(s); }
PBT_CHECK(roman_all, 2, 2, 60) { auto p = roman_parser<char>(true); for (unsigned n = 1 + (s.boolean() ? 1 : 0); n < 39999; n++) { auto x = roman(n); if (!p->match(x.c_str()) || p->interval.end != x.size() || p->value != n) fail(x + " gives " + std::to_string(p->value)); } s.nontrivial(); }

// Decimals of more digits than an integer of the machine has.
PBT_KNOWN(long_decimals, "scientific numeral with 21 decimals: 0.100000000000000000000 has a value other than 0.1 (the decimal part is an integer of 64 bits that wraps)")
{
	style<char> st{0}; auto p = std::make_shared<sp::scientific_numeral>(nullptr, nullptr, nullptr, st.int10(), st.lit("."), st.int10(), nullptr, nullptr, nullptr, nullptr); return p->match("0.100000000000000000000") && !near(p->value, 0.1);
}
PBT_MAIN("P03", "the numeral has more than one digit and, where its kind has parts, all of the parts")
