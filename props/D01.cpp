// Calendar and clock against the days-from-civil algorithm and the C library.
// SCALE: 4
#include "pbt.hpp"
#include <chrono>
#include <stdint.h>
#include <stdex/locale.hpp>
#include <stdexcept>
#include <stdex/chrono.hpp>
using namespace pbt; using namespace stdex::chrono;

struct civil { int64_t y; unsigned m, d; };
static int64_t to_days(int64_t y, unsigned m, unsigned d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = static_cast<unsigned>(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + static_cast<int64_t>(doe) - 719468; }
static bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static unsigned mdays(int64_t y, unsigned m) { static const unsigned t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : t[m - 1]; }
constexpr int64_t epoch = 2440588; // day number of 1970-01-01
constexpr int64_t max_year = 1000000;
static civil gen(Src& s)
{
	civil c; switch (s.weighted({4, 2, 1, 1})) { case 0: c.y = s.range<int64_t>(1900, 2100); break; case 1: c.y = s.range<int64_t>(1, 9999); break; case 2: c.y = 100 * s.range<int64_t>(1, 100) + s.range<int64_t>(-1, 1); break; default: c.y = s.range<int64_t>(1, max_year); }
	c.m = 1 + static_cast<unsigned>(s.draw(11)); unsigned n = mdays(c.y, c.m); c.d = s.chance(1, 3) ? n : s.chance(1, 4) ? 1 : 1 + static_cast<unsigned>(s.draw(n - 1)); return c;
}
static std::string show(const civil& c) { return std::to_string(c.y) + "-" + std::to_string(c.m) + "-" + std::to_string(c.d); }

PBT_CHECK(days, 400000, 3000000)
{
	civil c = gen(s); s.note([&] { return show(c); }); int64_t want = to_days(c.y, c.m, c.d) + epoch;
	auto tp = aosn_date::from_dmy(static_cast<uint8_t>(c.d), static_cast<uint8_t>(c.m), static_cast<int32_t>(c.y));
	PBT_EQ(tp.time_since_epoch().count(), want, show(c));
	uint8_t d = 0, m = 0; int32_t y = 0; aosn_date::to_dmy(tp, &d, &m, &y);
	PBT_REQUIRE(d == c.d && m == c.m && y == c.y, show(c) + " comes back as " + std::to_string(y) + "-" + std::to_string(m) + "-" + std::to_string(d));
	unsigned mask = static_cast<unsigned>(s.draw(7)); uint8_t d2 = 77, m2 = 77; int32_t y2 = 77; aosn_date::to_dmy(tp, mask & 1 ? &d2 : nullptr, mask & 2 ? &m2 : nullptr, mask & 4 ? &y2 : nullptr);
	PBT_REQUIRE(d2 == (mask & 1 ? d : 77) && m2 == (mask & 2 ? m : 77) && y2 == (mask & 4 ? y : 77));
	unsigned wd = static_cast<unsigned>(((want - epoch) % 7 + 7 + 3) % 7); // Monday is 0
	PBT_EQ(aosn_date::day_of_week(tp), wd); PBT_EQ(aosn_date::day_of_week(static_cast<uint8_t>(c.d), static_cast<uint8_t>(c.m), static_cast<int32_t>(c.y)), wd);
	// Next day is one more.
	civil n = c; if (++n.d > mdays(n.y, n.m)) { n.d = 1; if (++n.m > 12) { n.m = 1; n.y++; } }
	PBT_EQ(aosn_date::from_dmy(static_cast<uint8_t>(n.d), static_cast<uint8_t>(n.m), static_cast<int32_t>(n.y)).time_since_epoch().count(), want + 1);
	std::time_t t = (want - epoch) * 86400; PBT_EQ(aosn_date::to_time_t(tp), t); PBT_REQUIRE(aosn_date::from_time_t(t) == tp); std::time_t in_day = static_cast<std::time_t>(s.draw(86399)); PBT_REQUIRE(aosn_date::from_time_t(t + in_day) == tp, "second " + pbt::show(static_cast<int64_t>(in_day)) + " of the day");
	struct timespec ts = { t + in_day, static_cast<long>(s.draw(999999999)) }; PBT_REQUIRE(aosn_date::from_system(ts) == tp);
	s.nontrivial(c.d >= 28 || c.d == 1 || c.m == 2 || c.y % 100 == 0); s.label_if(c.m == 2 && c.d == 29, "leap day");
}
// Every day of the years around: no day is skipped or doubled.
PBT_CHECK(all_days, 3000, 60000)
{
	int32_t y0 = static_cast<int32_t>(s.enumerate(3000)) + 1; int64_t prev = to_days(y0, 1, 1) - 1 + epoch;
	for (unsigned m = 1; m <= 12; m++) for (unsigned d = 1; d <= mdays(y0, m); d++) { auto tp = aosn_date::from_dmy(static_cast<uint8_t>(d), static_cast<uint8_t>(m), y0); PBT_EQ(tp.time_since_epoch().count(), prev + 1, show(civil{y0, m, d})); prev++; uint8_t d2, m2; int32_t y2; aosn_date::to_dmy(tp, &d2, &m2, &y2); PBT_REQUIRE(d2 == d && m2 == m && y2 == y0, show(civil{y0, m, d})); }
	s.nontrivial(leap(y0) || y0 % 100 == 0); s.note([&] { return "year " + pbt::show(y0); });
}
PBT_CHECK(stamps, 400000, 3000000)
{
	civil c = gen(s); unsigned h = static_cast<unsigned>(s.draw(23)), mi = static_cast<unsigned>(s.draw(59)), se = static_cast<unsigned>(s.draw(59)), ms = static_cast<unsigned>(s.draw(999));
	if (s.chance(1, 4)) { h = 23; mi = se = 59; ms = 999; }
	s.note([&] { return show(c) + " " + std::to_string(h) + ":" + std::to_string(mi) + ":" + std::to_string(se) + "." + std::to_string(ms); });
	int64_t day = to_days(c.y, c.m, c.d) + epoch, want = day * 86400000 + ((h * 60ll + mi) * 60 + se) * 1000 + ms;
	auto tp = aosn_timestamp::from_dmy(static_cast<uint8_t>(c.d), static_cast<uint8_t>(c.m), static_cast<int32_t>(c.y), static_cast<uint8_t>(h), static_cast<uint8_t>(mi), static_cast<uint8_t>(se), static_cast<uint16_t>(ms));
	PBT_EQ(tp.time_since_epoch().count(), want);
	uint8_t d = 99, m = 99, h2 = 99, mi2 = 99, se2 = 99; int32_t y = 0; uint16_t ms2 = 9999; aosn_timestamp::to_dmy(tp, &d, &m, &y, &h2, &mi2, &se2, &ms2);
	PBT_REQUIRE(d == c.d && m == c.m && y == c.y); PBT_EQ(h2, h); PBT_EQ(mi2, mi); PBT_EQ(se2, se); PBT_EQ(ms2, ms);
	aosn_timestamp::to_dmy(tp, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); uint8_t only = 99; aosn_timestamp::to_dmy(tp, nullptr, nullptr, nullptr, &only, nullptr, nullptr, nullptr); PBT_EQ(only, h);
	PBT_EQ(aosn_timestamp::to_date(tp).time_since_epoch().count(), day); PBT_EQ(aosn_timestamp::from_date(aosn_timestamp::to_date(tp)).time_since_epoch().count(), day * 86400000);
	std::time_t t = (day - epoch) * 86400 + (h * 60 + mi) * 60 + se; PBT_EQ(aosn_timestamp::to_time_t(tp), t); PBT_EQ(aosn_timestamp::from_time_t(t).time_since_epoch().count(), want - ms);
	// System time in nanoseconds.
	struct timespec ts = { t, static_cast<long>(ms) * 1000000 + static_cast<long>(s.draw(999999)) }; PBT_EQ(aosn_timestamp::from_system(ts).time_since_epoch().count(), want, "from system time " + pbt::show(static_cast<int64_t>(ts.tv_nsec)) + " ns");
	struct tm a, b; memset(&a, 0xcd, sizeof a); aosn_timestamp::to_system(tp, a); gmtime_r(&t, &b);
	PBT_REQUIRE(a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon && a.tm_year == b.tm_year, "broken-down time"); PBT_EQ(a.tm_wday, b.tm_wday); PBT_EQ(a.tm_yday, b.tm_yday); PBT_EQ(a.tm_isdst, 0);
	s.nontrivial(ms && (c.d >= 28 || c.d == 1));
}
PBT_CHECK(text, 60000, 400000)
{
	civil c = gen(s); if (c.y > 9999) { c.y = 1 + c.y % 9999; c.d = std::min(c.d, mdays(c.y, c.m)); } int64_t sec = static_cast<int64_t>(s.draw(86399)); std::time_t t = to_days(c.y, c.m, c.d) * 86400 + sec; auto tp = aosn_timestamp::from_time_t(t);
	static const std::vector<std::string> parts = { "%Y", "%m", "%d", "%H", "%M", "%S", "%a", "%A", "%b", "%B", "%j", "%w", "%u", "%y", "%D", "%T", "%F", "%%", "%U", "%V", "%p", "%I", "%e", "%c", "x", " ", "-", "%n", "%C", "%G" };
	std::string f; if (s.chance(1, 12)) f = std::string(s.pick({250u, 255u, 256u, 257u, 1022u, 1023u, 1024u, 1025u, 2047u, 2048u, 5000u}) - static_cast<unsigned>(s.draw(3)), 'z'); // around internal buffers
	s.repeat(12, [&] { f += s.pick(parts); }); s.note([&] { return show(c) + " by " + pbt::show(f.size() > 80 ? f.substr(0, 80) : f); });
	struct tm b; gmtime_r(&t, &b); std::vector<char> big(20000); size_t n = strftime(big.data(), big.size(), ("|" + f).c_str(), &b); std::string want(big.data() + 1, n - 1);
	PBT_EQ(aosn_timestamp::to_str(tp, f.c_str(), stdex::locale_C), want);
	std::wstring wf(f.begin(), f.end()), ww(want.begin(), want.end()); PBT_EQ(aosn_timestamp::to_str(tp, wf.c_str(), stdex::locale_C), ww);
	PBT_EQ(aosn_timestamp::to_str(tp, f.c_str(), nullptr), want, "locale of the process"); PBT_EQ(aosn_timestamp::to_str(tp, wf.c_str(), nullptr), ww, "locale of the process");
	static const char* const dn[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char* const mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	char r[64]; if (c.y >= 1000) { snprintf(r, sizeof r, "%s, %02u %s %lld %02d:%02d:%02d GMT", dn[b.tm_wday], c.d, mn[c.m - 1], static_cast<long long>(c.y), int(sec / 3600), int(sec / 60 % 60), int(sec % 60)); PBT_EQ(aosn_timestamp::to_rfc822(tp), std::string(r)); }
	s.nontrivial(f.size() > 4); s.label_if(f.size() > 1000, "long"); s.label_if(want.empty(), "empty");
}
PBT_CHECK(now, 200, 2000)
{
	std::time_t a = time(nullptr); auto d = aosn_date::now(); auto t = aosn_timestamp::now(); std::time_t b = time(nullptr); s.nontrivial();
	PBT_REQUIRE(aosn_timestamp::to_time_t(t) >= a && aosn_timestamp::to_time_t(t) <= b); auto n = d.time_since_epoch().count(); PBT_REQUIRE(n >= a / 86400 + epoch && n <= b / 86400 + epoch);
}
PBT_MAIN("D01", "Years 1 to 1000000 with emphasis on 1900-2100, century years, month ends and leap days, times with emphasis on the last millisecond of the day, formats around internal buffer sizes; non-trivial: first or last days of a month, February, century years, formats of several parts. Oracle: days-from-civil, gmtime_r, strftime.")
