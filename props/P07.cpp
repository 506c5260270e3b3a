// Dates, times, angles and phone numbers against reference readings of composed and mutated text.
// SCALE: 4
#include "style.hpp"
#include <cinttypes>
using namespace pbt;

template<class T> using str = std::basic_string<T>;
template<class T> static str<T> W(const std::string& x) { return str<T>(x.begin(), x.end()); }
template<class T> struct text_
{
	str<T> t; std::vector<size_t> pos; size_t pre = 0, n, end; std::unique_ptr<exact<T>> e; std::string plain;
	text_(Src& s, const style<T>& st, const std::string& p, const char* after) : plain(p)
	{
		if (s.chance(1, 4)) { t = W<T>("1.2 "); pre = t.size(); } for (char c : p) { pos.push_back(t.size()); tok k{c, 0, 0, 0}; if (c >= '0' && c <= '9') { k.k = 'd'; k.v = c - '0'; } if (k.k == 'd' || c == ' ' || c == '.') t += st.spell(s, k); else t += static_cast<T>(c); }
		pos.push_back(t.size()); n = end = t.size(); if (s.chance(1, 3)) { t += T(0); end = s.boolean() ? SIZE_MAX : n + 1; } else if (s.chance(1, 2)) t += W<T>(after);
		e = std::make_unique<exact<T>>(t.data(), t.size()); s.note([&] { return show(plain) + " spelled " + show(st.mode) + (sizeof(T) > 1 ? " wide" : "") + " from " + show(pre); });
	}
	void iv(const stdex::interval<size_t>& i, size_t a, size_t b, const std::string& what) const { if (!i) fail(what + " not reported"); PBT_EQ(i.start, pos[a], what + " start"); PBT_EQ(i.end, pos[b], what + " end"); }
};
static void mutate(Src& s, std::string& x, const char* al) { size_t k = strlen(al) - 1; for (size_t n = 1 + s.draw(2); n--;) switch (s.draw(2)) { case 0: if (x.size()) x.erase(s.draw(x.size() - 1), 1); break; case 1: x.insert(s.draw(x.size()), 1, al[s.draw(k)]); break; default: if (x.size()) x[s.draw(x.size() - 1)] = al[s.draw(k)]; } }
struct num { size_t a, b; uint64_t v; };
static bool number(const std::string& x, size_t p, num& r) { r = {p, p, 0}; while (r.b < x.size() && isdigit(static_cast<unsigned char>(x[r.b]))) r.v = r.v * 10 + static_cast<uint64_t>(x[r.b++] - '0'); return r.b > p; }
static void too_long(const std::string& x) { size_t n = 0; for (char c : x) { n = isdigit(static_cast<unsigned char>(c)) ? n + 1 : 0; if (n > 19 && x.find("18446744073709551615") == std::string::npos) throw discard_t{}; if (n > 20) throw discard_t{}; } }

// --- dates
static const struct { int mask; const char* fields; bool tail; } formats[] = {{sp::date_format_dmy, "dmy", false}, {sp::date_format_mdy, "mdy", false}, {sp::date_format_ymd, "ymd", false}, {sp::date_format_ym, "ym", false}, {sp::date_format_my, "my", false}, {sp::date_format_dm, "dm", true}, {sp::date_format_md, "md", true}};
static unsigned days(uint64_t m) { return m < 1 || m > 12 ? 0u : m == 2 ? 29u : m == 4 || m == 6 || m == 9 || m == 11 ? 30u : 31u; }
struct date_ { int format = 0; size_t e = 0; bool has[3] = {}; num f[3]; }; // d, m, y
static date_ ref_date(const std::string& x, int mask, const std::string& seps)
{
	for (auto& f : formats) if (mask & f.mask)
	{
		date_ r; size_t p = 0; char sep = 0; bool ok = true; auto blanks = [&] { while (p < x.size() && x[p] == ' ') p++; };
		for (const char* c = f.fields; *c && ok; c++) { if (c != f.fields) { blanks(); if (p >= x.size() || seps.find(x[p]) == std::string::npos || (sep && sep != x[p])) { ok = false; break; } sep = x[p++]; blanks(); } size_t i = *c == 'd' ? 0 : *c == 'm' ? 1 : 2; if (!number(x, p, r.f[i])) ok = false; else { r.has[i] = true; r.e = p = r.f[i].b; } }
		if (!ok) continue; unsigned n = days(r.f[1].v); if (!n || (r.has[0] && (r.f[0].v < 1 || r.f[0].v > n))) continue; if (f.tail) { blanks(); if (p < x.size() && x[p] == sep) r.e = p + 1; } r.format = f.mask; return r;
	}
	return {};
}
template<class T> static void date(Src& s)
{
	style<T> st{static_cast<unsigned>(s.draw(sizeof(T) == 1 ? 2 : 1))}; auto& f = formats[s.draw(6)]; int mask = s.chance(1, 2) ? f.mask : static_cast<int>(s.draw(127)) | (s.chance(3, 4) ? f.mask : 0); std::string x; char sep = ".,'"[s.draw(2)]; auto gap = [&] { for (int k = 0; k < 2 && s.chance(1, 4); k++) x += ' '; };
	for (const char* c = f.fields; *c; c++) { if (c != f.fields) { gap(); x += s.chance(1, 20) ? '_' : sep; gap(); } uint64_t v = *c == 'd' ? s.draw(s.boolean() ? 33 : 31) : *c == 'm' ? s.draw(s.boolean() ? 14 : 12) : s.boolean() ? s.draw(2100) : s.draw(99); if (s.chance(1, 60)) v = SIZE_MAX; char b[24]; snprintf(b, sizeof b, s.chance(1, 3) ? "%02" PRIu64 : "%" PRIu64, v); x += b; }
	if (s.chance(1, 4)) { gap(); x += s.boolean() ? sep : '_'; } if (s.chance(1, 4)) mutate(s, x, ".,'_ 019\n"); else if (s.chance(1, 4)) x += s.pick(std::vector<std::string>{" ", "x", ". 1", ",,", "\n"}); too_long(x);
	auto d = st.int10(), m = st.int10(), y = st.int10(); bool nod = !(mask & (sp::date_format_dmy | sp::date_format_mdy | sp::date_format_ymd | sp::date_format_dm | sp::date_format_md)), noy = !(mask & ~(sp::date_format_dm | sp::date_format_md)); nod = nod && s.boolean(); noy = noy && s.boolean();
	sp::basic_date<T> p(mask, nod ? nullptr : d, m, noy ? nullptr : y, st.seps(), st.space()); if (s.boolean()) { auto o = W<T>(s.pick(std::vector<std::string>{"1.2.2003", "12.31.1999", "1999.12.31", "5.5", "1.13.", "30.2.2000"})); p.match(o.data(), 0, o.size()); }
	int flags = s.chance(1, 3) ? sp::match_multiline : sp::match_default; date_ r = ref_date(x, mask, ".,'_"); text_<T> t(s, st, x, "1.2.3"); s.note([&] { return "format mask " + show(mask) + " in " + show(x); }); bool b = p.match(t.e->get(), t.pre, t.end, flags); PBT_EQ(b, r.format != 0, "match"); PBT_EQ(static_cast<int>(p.format), r.format, "format"); std::shared_ptr<sp::basic_integer10<T>> v[] = {d, m, y};
	for (size_t i = 0; i < 3; i++) { if ((i == 0 && nod) || (i == 2 && noy)) continue; if (r.format && r.has[i]) { t.iv(v[i]->interval, r.f[i].a, r.f[i].b, i == 0 ? "day" : i == 1 ? "month" : "year"); PBT_EQ(v[i]->value, r.f[i].v, "value"); } else PBT_REQUIRE(!v[i]->interval, "field reported, though absent"); } if (b) t.iv(p.interval, 0, r.e, "date"); else PBT_REQUIRE(!p.interval, "interval after failure"); s.nontrivial(b); s.label(b ? "recognised" : "not recognised");
}
PBT_CHECK(date, 100000, 1000000) { if (s.boolean()) date<char>(s); else date<wchar_t>(s); }
// Every day and month, in and out of range.
PBT_CHECK(calendar, 600, 600)
{
	unsigned k = static_cast<unsigned>(s.enumerate(16 * 34)); unsigned m = k / 34, d = k % 34; style<char> st{0}; bool ok = d >= 1 && d <= days(m); char b[40];
	for (auto& f : formats) { if (!strchr(f.fields, 'd')) continue; auto pd = st.int10(), pm = st.int10(), py = st.int10(); sp::basic_date<char> p(f.mask, pd, pm, py, st.seps(), st.space()); std::string x; for (const char* c = f.fields; *c; c++) { if (c != f.fields) x += '.'; snprintf(b, sizeof b, "%u", *c == 'd' ? d : *c == 'm' ? m : 2024u); x += b; } exact<char> e(x); PBT_EQ(p.match(e.get(), 0, x.size()), ok, "in " + x); if (ok) { PBT_EQ(p.interval.end, x.size()); PBT_EQ(pd->value, size_t(d)); PBT_EQ(pm->value, size_t(m)); } } s.nontrivial(); s.note([&] { return show(d) + " of month " + show(m); });
}

// --- times
template<class T> static void time_(Src& s)
{
	style<T> st{static_cast<unsigned>(s.draw(sizeof(T) == 1 ? 2 : 1))}; std::string x; char sep = ".,'_"[s.draw(3)], ms = s.boolean() ? ':' : '.'; unsigned n = 2 + static_cast<unsigned>(s.draw(2)); for (unsigned i = 0; i < n; i++) { if (i) x += i == 3 ? ms : s.chance(1, 20) ? '_' : sep; unsigned v = static_cast<unsigned>(i == 0 ? s.draw(25) : i == 3 ? s.draw(1001) : s.draw(s.chance(1, 3) ? 62 : 59)); char b[16]; snprintf(b, sizeof b, s.boolean() ? "%02u" : "%u", v); x += b; }
	if (s.chance(1, 4)) mutate(s, x, ".,'_: 019"); else if (s.chance(1, 4)) x += s.pick(std::vector<std::string>{" ", "x", ".1", ":5", ":", "."}); too_long(x); bool hs = s.chance(4, 5), hm = s.chance(4, 5), hsep = s.chance(9, 10);
	auto h = st.int10(), m = st.int10(), sec = st.int10(), mil = st.int10(); sp::basic_time<T> p(h, m, hs ? sec : nullptr, hm ? mil : nullptr, st.seps(), hsep ? st.lit(W<T>(std::string(1, ms))) : nullptr); if (s.boolean()) { auto o = W<T>(s.pick(std::vector<std::string>{"1.2.3:4", "1.2.3.4", "1.2", "1.99", "7"})); p.match(o.data(), 0, o.size()); }
	auto is_sep = [&](size_t q) { return q < x.size() && strchr(".,'_", x[q]) && x[q]; }; num f[4]; unsigned k = 0; size_t e = 0; if (number(x, 0, f[0]) && is_sep(f[0].b) && number(x, f[0].b + 1, f[1]) && f[1].v < 60) { k = 2; e = f[1].b; if (hs && is_sep(e) && x[e] == x[f[0].b] && number(x, e + 1, f[2]) && f[2].v < 60) { k = 3; e = f[2].b; if (hm && hsep && e < x.size() && x[e] == ms && number(x, e + 1, f[3]) && f[3].v < 1000) { k = 4; e = f[3].b; } } }
	text_<T> t(s, st, x, ".5:9"); bool b = p.match(t.e->get(), t.pre, t.end); PBT_EQ(b, k > 0, "match"); std::shared_ptr<sp::basic_integer10<T>> v[] = {h, m, sec, mil}; for (unsigned i = 0; i < 4; i++) { if ((i == 2 && !hs) || (i == 3 && !hm)) continue; if (i < k) { t.iv(v[i]->interval, f[i].a, f[i].b, "field " + show(i)); PBT_EQ(v[i]->value, f[i].v, "value"); } else PBT_REQUIRE(!v[i]->interval, "field reported, though absent"); } if (b) t.iv(p.interval, 0, e, "time"); else PBT_REQUIRE(!p.interval, "interval after failure"); s.nontrivial(b); s.label(show(k) + " fields");
}
PBT_CHECK(time, 80000, 800000) { if (s.boolean()) time_<char>(s); else time_<wchar_t>(s); }

// --- angles
template<class T> static void angle(Src& s)
{
	style<T> st{static_cast<unsigned>(s.draw(sizeof(T) == 1 ? 2 : 1))}; std::string x; unsigned parts = 1 + static_cast<unsigned>(s.draw(6)); auto n = [&](unsigned top) { char b[16]; snprintf(b, sizeof b, s.boolean() ? "%02u" : "%u", static_cast<unsigned>(s.draw(top))); x += b; }; if (parts & 1) { n(400); x += '*'; } if (parts & 2) { n(61); x += '\''; } if (parts & 4) { n(61); if (s.boolean()) x += '"'; } if (s.chance(1, 3)) { x += '.'; n(999); }
	if (s.chance(1, 4)) mutate(s, x, "*'\". 019"); else if (s.chance(1, 4)) x += s.pick(std::vector<std::string>{" ", "x", ".1", ".", "*", "\""}); too_long(x); bool hs = s.chance(4, 5), hss = s.chance(4, 5), hd = s.chance(4, 5);
	auto d = st.int10(), m = st.int10(), sec = st.int10(); auto ds = st.lit(W<T>("*")), ms = st.lit(W<T>("'")), ss = st.lit(W<T>("\"")); std::vector<typename style<T>::P> dv{st.lit(W<T>(".")), st.int10()}; std::shared_ptr<sp::basic_parser<T>> dec = std::make_shared<sp::basic_sequence<T>>(std::move(dv));
	sp::basic_angle<T> p(d, ds, m, ms, hs ? sec : nullptr, hss ? ss : nullptr, hd ? dec : nullptr); if (s.boolean()) { auto o = W<T>(s.pick(std::vector<std::string>{"1*2'3\".4", "1*", "2'", "3", "x"})); p.match(o.data(), 0, o.size()); }
	size_t e = 0; num f[4]; bool has[4] = {}, hq = false; auto at = [&](size_t q, char c) { return q < x.size() && x[q] == c; }; if (number(x, e, f[0]) && at(f[0].b, '*')) { has[0] = true; e = f[0].b + 1; } if (number(x, e, f[1]) && f[1].v < 60 && at(f[1].b, '\'')) { has[1] = true; e = f[1].b + 1; } if (hs && number(x, e, f[2]) && f[2].v < 60) { has[2] = true; e = f[2].b; if (hss && at(e, '"')) { hq = true; e++; } } bool ok = has[0] || has[1] || has[2]; size_t e0 = e; if (ok && hd && at(e, '.') && number(x, e + 1, f[3])) { has[3] = true; e = f[3].b; }
	text_<T> t(s, st, x, "5'9"); bool b = p.match(t.e->get(), t.pre, t.end); PBT_EQ(b, ok, "match"); std::shared_ptr<sp::basic_integer10<T>> v[] = {d, m, sec}; std::shared_ptr<sp::basic_parser<T>> q[] = {ds, ms, ss};
	for (unsigned i = 0; i < 3; i++) { if (has[i]) { t.iv(v[i]->interval, f[i].a, f[i].b, "field " + show(i)); PBT_EQ(v[i]->value, f[i].v, "value"); } else if (i < 2 || hs) PBT_REQUIRE(!v[i]->interval, "field reported, though absent"); bool h = i < 2 ? has[i] : hq; if (h) t.iv(q[i]->interval, f[i].b, f[i].b + 1, "sign"); else if (i < 2 || hss) PBT_REQUIRE(!q[i]->interval, "sign reported, though absent"); }
	if (hd) { if (has[3]) t.iv(dec->interval, e0, e, "decimals"); else PBT_REQUIRE(!dec->interval, "decimals reported, though absent"); } if (b) t.iv(p.interval, 0, e, "angle"); else PBT_REQUIRE(!p.interval, "interval after failure"); s.nontrivial(b); s.label(b ? "recognised" : "not recognised");
}
PBT_CHECK(angle, 80000, 800000) { if (s.boolean()) angle<char>(s); else angle<wchar_t>(s); }

// --- phone numbers
template<class T> static void phone(Src& s)
{
	bool wide = sizeof(T) > 1; style<T> st{!wide && s.boolean() ? 2u : 0u}; bool hp = s.chance(4, 5), hb = s.chance(4, 5), hsep = s.chance(4, 5), hsp = s.chance(4, 5); std::string x, v; size_t e = 0; bool plus = hp && s.boolean();
	if (plus) { x = v = "+"; } auto digits = [&](size_t k) { for (size_t n = 1 + s.draw(k); n--;) { char c = static_cast<char>('0' + s.draw(9)); x += c; v += c; } }; size_t groups = 1 + s.draw(4), paren = hb && s.boolean() ? s.draw(groups) : SIZE_MAX; if (groups == 1 && paren == 0) groups = 2; bool closed = false, after = false; char open = "(["[s.draw(1)], close = open == '(' ? ')' : ']', kinds[] = {open, close}; (void)kinds; bool outside = false;
	for (size_t g = 0; g <= groups; g++) { if (g == paren) { if (outside && hsp && s.boolean() && x.back() != ' ') { if (isdigit(static_cast<unsigned char>(x.back()))) x += ' '; } x += open; v += open; digits(2); if (hsp && s.chance(1, 4)) { x += ' '; digits(1); } x += close; v += close; e = x.size(); closed = after = true; continue; } if (g == groups) break; if (after) { if (hsp && s.boolean()) x += ' '; } else if (outside) { unsigned k = static_cast<unsigned>(s.draw(2)); if (k == 1 && hsep) x += '-'; if (k == 2 && hsp) x += ' '; } digits(3); e = x.size(); outside = true; after = false; }
	size_t keep = v.size(); std::vector<std::string> tails{"", "", "x", "+1", "/", "*5", "--1", "-", "- 1", " -1", " ", "-+"}; if (after) { tails = {"", "x", "-1", "--", " -1", " x", "- 1", "+"}; if (hsep) tails.push_back("-5"); if (!hsp) tails.push_back(" 5"); } else { if (!hsep) tails.push_back("-5"); if (!hsp) tails.push_back(" 5"); } if (hb && !closed) for (auto y : {"(", "(12", "(1]", "(1)", "( 1)", "[)", "(x", "(1 - 2)"}) if (std::string(y) != "(1)") tails.push_back(y); if (!hb || closed) tails.push_back("(1)"); x += s.pick(tails);
	auto set = [&](const char* a) -> typename style<T>::S { if constexpr (sizeof(T) == 1) if (st.mode == 2) return std::make_shared<sp::sgml_cp_set>(a); return std::make_shared<sp::basic_cu_set<T>>(W<T>(a).c_str()); };
	std::vector<typename style<T>::P> dv; for (int i = 0; i < 10; i++) dv.push_back(st.digit(i)); auto dig = std::make_shared<sp::basic_branch<T>>(std::move(dv)); style<T> plain{0}; sp::basic_phone_number<T> p(dig, hp ? st.lit(W<T>("+")) : nullptr, hb ? set("([") : nullptr, hb ? set(")]") : nullptr, hsep ? st.lit(W<T>("-")) : nullptr, hsp ? st.space() : nullptr);
	if (s.boolean()) { auto o = W<T>(s.pick(std::vector<std::string>{"+386 (0)1 123-456", "(01", "1 (2] 3", "+", "(1) 2"})); p.match(o.data(), 0, o.size()); } int flags = s.chance(1, 4) ? sp::match_multiline : sp::match_default; bool brk = s.chance(1, 6) && x.find(' ') < e; if (brk && !hsp) brk = false;
	if (brk) { // a line break in place of a blank ends the number
		throw discard_t{}; }
	text_<T> t(s, st, x, " 5"); bool b = p.match(t.e->get(), t.pre, t.end, flags); PBT_EQ(b, true, "match"); t.iv(p.interval, 0, e, "number"); str<T> want; size_t k = 0; for (size_t i = 0; i < x.size() && k < keep; i++) if (x[i] == v[k]) { want.append(t.t, t.pos[i], t.pos[i + 1] - t.pos[i]); k++; } PBT_EQ(p.value, want, "normalised"); s.nontrivial(x.size() > 4); s.label_if(closed, "parentheses");
}
PBT_CHECK(phone_number, 80000, 800000) { if (s.boolean()) phone<char>(s); else phone<wchar_t>(s); }
// Nothing but signs, or digits in parentheses only, are no number; a line break ends one.
PBT_CHECK(no_phone_number, 20000, 100000)
{
	style<char> st{0}; std::vector<style<char>::P> dv; for (int i = 0; i < 10; i++) dv.push_back(st.digit(i)); auto dig = std::make_shared<sp::basic_branch<char>>(std::move(dv)); sp::basic_phone_number<char> p(dig, st.lit("+"), std::make_shared<sp::basic_cu_set<char>>("(["), std::make_shared<sp::basic_cu_set<char>>(")]"), st.lit("-"), st.space()); if (s.boolean()) p.match("+1 (2) 3", 0, 8); std::string x;
	if (s.boolean()) { x = s.pick(std::vector<std::string>{"", "+", "(1)", "+(386)", "-1", " 1", "(1", "+(1", ")1", "(1)x", "()", "+ 1", "x", "(-1)1", "++1"}); exact<char> e(x); PBT_REQUIRE(!p.match(e.get(), 0, x.size()), "took " + show(x)); PBT_REQUIRE(!p.interval && p.value.empty(), "left-overs after failure"); s.nontrivial(); return; }
	x = s.pick(std::vector<std::string>{"12\n34", "1 (2)\n3", "1\n(2) 3"}); exact<char> e(x); PBT_REQUIRE(p.match(e.get(), 0, x.size(), sp::match_multiline), "match"); PBT_EQ(p.interval.end, x.find('\n'), "across a line break"); s.nontrivial();
}
PBT_MAIN("P07", "Dates, times, angles and phone numbers in every notation, near-misses and mutations; recognised ones count as non-trivial. Oracle: reference readers of the plain text, the composition for phone numbers, the calendar.")
