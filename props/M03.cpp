// Arithmetic helpers against 128-bit arithmetic.
// SCALE: 3
#include "pbt.hpp"
#include <stdex/math.hpp>
using namespace pbt;
typedef __int128 W; typedef unsigned __int128 UW;

template<class F> static void checked(Src& s, F f, UW want, const char* what)
{
	bool threw = false; size_t r = 0;
	try { r = f(); } catch (const std::invalid_argument&) { threw = true; }
	if (want > SIZE_MAX) PBT_REQUIRE(threw, std::string(what) + " wrapped to " + show(r)); else { PBT_REQUIRE(!threw, std::string(what) + " refused"); PBT_EQ(r, static_cast<size_t>(want)); }
	s.label_if(want > SIZE_MAX, "overflow"); s.nontrivial(want > UINT32_MAX);
}
PBT_CHECK(mul_add, 200000, 2000000)
{
	size_t a = s.integer<size_t>(), b = s.integer<size_t>();
	switch (s.draw(3)) { case 1: if (a) b = SIZE_MAX / a + s.draw(2) - 1; break; case 2: b = SIZE_MAX - a + s.draw(2) - 1; break; default:; } // at the limit
	s.note([&] { return show(a) + ", " + show(b); });
	checked(s, [&] { return stdex::mul(a, b); }, static_cast<UW>(a) * b, "mul"); checked(s, [&] { return stdex::mul(b, a); }, static_cast<UW>(a) * b, "mul");
	checked(s, [&] { return stdex::add(a, b); }, static_cast<UW>(a) + b, "add"); checked(s, [&] { return stdex::add(b, a); }, static_cast<UW>(a) + b, "add");
}
PBT_CHECK(rotate, 200000, 1000000)
{
	uint32_t v = s.integer<uint32_t>(), w = v; int n = static_cast<int>(s.draw(31));
	for (int i = 0; i < n; i++) w = (w << 1) | (w >> 31);
	PBT_EQ(stdex::rol(v, n), w, "by " + show(n)); s.nontrivial(v && v != UINT32_MAX && n);
}
template<class T> static void md(Src& s)
{
	using X = std::conditional_t<std::is_signed<T>::value, W, UW>;
	T n = s.integer<T>(), k = s.integer<T>(), q = s.integer<T>();
	if (s.boolean()) q = s.boolean() ? n : k; // result always representable
	if (!q) q = 1;
	s.note([&] { return show(n) + "*" + show(k) + "/" + show(q); });
	X r = static_cast<X>(n) * static_cast<X>(k) / static_cast<X>(q);
	if (r < static_cast<X>(std::numeric_limits<T>::min()) || r > static_cast<X>(std::numeric_limits<T>::max())) throw discard_t{};
	PBT_EQ(stdex::muldiv(n, k, q), static_cast<T>(r)); s.nontrivial(n && k && q != 1);
}
PBT_CHECK(muldiv_i32, 200000, 1000000) { md<int32_t>(s); }
PBT_CHECK(muldiv_u32, 200000, 1000000) { md<uint32_t>(s); }
PBT_CHECK(muldiv_i64, 200000, 1000000) { md<int64_t>(s); }
PBT_CHECK(muldiv_u64, 200000, 1000000) { md<uint64_t>(s); }
PBT_MAIN("M03", "Operands with emphasis on powers of two, extremes and the exact limit of overflow; non-trivial: results above 32 bits, real rotations, non-zero products. Oracle: 128-bit arithmetic.")
