// Interval algebra against plain endpoint arithmetic.
// SCALE: 8
#include "pbt.hpp"
#include <stdex/interval.hpp>
using namespace pbt;

template<class T> static bool fits(__int128 v) { return v >= static_cast<__int128>(std::numeric_limits<T>::min()) && v <= static_cast<__int128>(std::numeric_limits<T>::max()); }

template<class T> static void predicates(Src& s)
{
	using I = stdex::interval<T>;
	T a = s.integer<T>(), b = s.chance(1, 3) ? static_cast<T>(a) : s.chance(1, 2) ? static_cast<T>(s.integer<T>()) : static_cast<T>(static_cast<std::make_unsigned_t<T>>(a) + s.draw(8) - 4);
	s.note([&] { return "[" + show(a) + "," + show(b) + ")"; });
	I i(a, b); const I& c = i;
	PBT_EQ(i.start, a); PBT_EQ(i.end, b);
	PBT_EQ(c.empty(), a >= b); PBT_EQ(static_cast<bool>(c), a <= b);
	__int128 n = static_cast<__int128>(b) - a;
	if (n <= 0) { PBT_EQ(c.size(), T(0)); }
	else if (fits<T>(n)) { PBT_EQ(c.size(), static_cast<T>(n)); }
	// Positions at and next to both ends, and anywhere.
	for (unsigned k = 0; k < 7; k++) {
		__int128 x = k < 3 ? static_cast<__int128>(a) + int(k) - 1 : k < 6 ? static_cast<__int128>(b) + int(k) - 4 : static_cast<__int128>(s.integer<T>());
		if (fits<T>(x)) PBT_EQ(c.contains(static_cast<T>(x)), a <= x && x < b, "position " + show(static_cast<long long>(x)));
	}
	s.nontrivial(a != b);
	I d(i); d.invalidate(); PBT_REQUIRE(!d && d.empty()); PBT_EQ(d.size(), T(0));
	I e; PBT_REQUIRE(!e && e.empty() && e == d);
	I p(a); PBT_REQUIRE(p && p.empty() && p.start == a && p.end == a && p.size() == 0);
	T a2 = s.boolean() ? a : s.integer<T>(), b2 = s.boolean() ? b : s.integer<T>();
	I o(a2, b2); PBT_EQ(c == o, a == a2 && b == b2); PBT_EQ(c != o, !(a == a2 && b == b2));
}
template<class T> static void shift(Src& s)
{
	using I = stdex::interval<T>;
	T a = s.integer<T>(), b = s.integer<T>(), x = s.integer<T>(), y = s.integer<T>();
	s.note([&] { return "[" + show(a) + "," + show(b) + ") by " + show(x) + "/" + show(y); });
	auto F = [](__int128 v) { return fits<T>(v); };
	const I i(a, b); __int128 A = a, B = b; int done = 0;
	auto ends = [&](const I& r, __int128 u, __int128 v) { PBT_EQ(r.start, static_cast<T>(u)); PBT_EQ(r.end, static_cast<T>(v)); done++; };
	if (F(A + x) && F(B + x)) { ends(i + x, A + x, B + x); I m(i); I r = (m += x); ends(m, A + x, B + x); ends(r, A + x, B + x); }
	if (F(A - x) && F(B - x)) { ends(i - x, A - x, B - x); I m(i); I r = (m -= x); ends(m, A - x, B - x); ends(r, A - x, B - x); }
	if (F(A + x) && F(B + y)) ends(i + I(x, y), A + x, B + y);
	if (F(A - x) && F(B - y)) ends(i - I(x, y), A - x, B - y);
	if (F(A + 1) && F(B + 1)) { I m(i); ends(++m, A + 1, B + 1); ends(m, A + 1, B + 1); I q(i); ends(q++, A, B); ends(q, A + 1, B + 1); }
	if (F(A - 1) && F(B - 1)) { I m(i); ends(--m, A - 1, B - 1); ends(m, A - 1, B - 1); I q(i); ends(q--, A, B); ends(q, A - 1, B - 1); }
	ends(i, A, B); s.nontrivial(done > 3);
}
PBT_CHECK(predicates_size_t, 100000, 500000) { predicates<size_t>(s); }
PBT_CHECK(predicates_int, 100000, 500000) { predicates<int>(s); }
PBT_CHECK(predicates_int64, 100000, 500000) { predicates<int64_t>(s); }
PBT_CHECK(predicates_char, 100000, 500000) { predicates<signed char>(s); }
PBT_CHECK(shift_size_t, 100000, 500000) { shift<size_t>(s); }
PBT_CHECK(shift_int, 100000, 500000) { shift<int>(s); }
PBT_CHECK(shift_int64, 100000, 500000) { shift<int64_t>(s); }
PBT_CHECK(shift_u32, 100000, 500000) { shift<uint32_t>(s); }
PBT_CHECK(floating, 100000, 500000)
{
	using I = stdex::interval<double>;
	auto v = [&] { return static_cast<double>(s.range<int64_t>(-1000, 1000)) / 4; };
	double a = v(), b = v(), x = v(); I i(a, b);
	PBT_EQ(i.empty(), a >= b); PBT_EQ(static_cast<bool>(i), a <= b); PBT_EQ(i.contains(x), a <= x && x < b); PBT_EQ(i.size(), a <= b ? b - a : 0.0);
	PBT_REQUIRE(i + x == I(a + x, b + x) && i - x == I(a - x, b - x)); s.nontrivial(a < b);
}
// A history of moves on one interval.
PBT_CHECK(history, 60000, 300000)
{
	int64_t a = s.range(-50, 50), b = s.range(-50, 50); stdex::interval<int64_t> i(a, b); size_t n = 0; std::string h;
	s.repeat(40, [&] {
		int64_t x = s.range(-9, 9); n++; stdex::interval<int64_t> r, w(a, b);
		switch (s.draw(5)) {
		case 0: r = i += x; a += x; b += x; break;
		case 1: r = i -= x; a -= x; b -= x; break;
		case 2: r = ++i; ++a; ++b; break;
		case 3: r = --i; --a; --b; break;
		case 4: r = i++; PBT_REQUIRE(r == w, "postfix yields the original"); a++; b++; r = i; break;
		default: r = i--; PBT_REQUIRE(r == w, "postfix yields the original"); a--; b--; r = i; }
		PBT_EQ(r.start, a); PBT_EQ(r.end, b); PBT_EQ(i.start, a); PBT_EQ(i.end, b);
	});
	s.nontrivial(n > 2);
}
PBT_MAIN("M01", "Random endpoints with emphasis on equal, reversed, adjacent and extreme ones; non-trivial: different ends, or at least four shifts that do not overflow. Oracle: 128-bit endpoint arithmetic.")
