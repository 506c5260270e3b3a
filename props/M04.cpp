// Byte order: byteswap and host conversions against reversing the bytes.
// SCALE: 8
#include "pbt.hpp"
#include <stdex/endian.hpp>
#include <limits>
using namespace pbt;

template<class T> static T reversed(T v) { unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof b); std::reverse(b, b + sizeof b); memcpy(&v, b, sizeof b); return v; }
template<class T> static bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template<class T> static T value(Src& s)
{
	T v; uint64_t x = s.integer<uint64_t>();
	if constexpr (std::is_floating_point<T>::value) {
		memcpy(&v, &x, sizeof v); if (s.boolean()) v = s.pick({T(0), T(-0.0), T(1), T(-2.5), T(1e30), std::numeric_limits<T>::quiet_NaN(), reversed(std::numeric_limits<T>::quiet_NaN()), std::numeric_limits<T>::infinity()});
#if !defined(__x86_64__) && !defined(__aarch64__)
		if (v != v || reversed(v) != reversed(v)) v = T(3.25); // signalling NaNs do not survive being passed by value on some machines
#endif
	}
	else v = static_cast<T>(x);
	return v;
}
template<class T> static void one(Src& s)
{
	T v = value<T>(s), w = reversed(v);
	s.note([&] { return pbt::show(sizeof(T)) + " bytes: " + pbt::show(v); });
	T r = stdex::byteswap(v); PBT_REQUIRE(same(r, w), "by value gives " + pbt::show(r));
	T back = stdex::byteswap(r); PBT_REQUIRE(same(back, v), "twice");
	struct { T a, b, c; } mem{v, v, v}; stdex::byteswap(&mem.b);
	PBT_REQUIRE(same(mem.b, w), "in place"); PBT_REQUIRE(same(mem.a, v) && same(mem.c, v), "neighbours changed");
	// On this machine.
	const unsigned one_ = 1; bool little = *reinterpret_cast<const unsigned char*>(&one_) == 1;
	T le = HE2LE(v), be = HE2BE(v), le2 = LE2HE(v), be2 = BE2HE(v);
	PBT_REQUIRE(same(le, little ? v : w) && same(le2, little ? v : w), "little-endian"); PBT_REQUIRE(same(be, little ? w : v) && same(be2, little ? w : v), "big-endian");
	if constexpr (std::is_integral<T>::value) {
		unsigned char b[sizeof(T)]; memcpy(b, &be, sizeof b); uint64_t x = 0; for (unsigned char k : b) x = x << 8 | k;
		PBT_REQUIRE(same(static_cast<T>(x), v), "big-endian bytes"); memcpy(b, &le, sizeof b); x = 0; for (size_t i = sizeof b; i--;) x = x << 8 | b[i]; PBT_REQUIRE(same(static_cast<T>(x), v), "little-endian bytes");
	}
	s.nontrivial(sizeof(T) == 1 ? v != 0 : !same(v, w));
}
PBT_CHECK(u8, 5000, 20000) { one<uint8_t>(s); }
PBT_CHECK(i8, 5000, 20000) { one<int8_t>(s); }
PBT_CHECK(chr, 5000, 20000) { one<char>(s); }
PBT_CHECK(u16, 60000, 300000) { one<uint16_t>(s); }
PBT_CHECK(i16, 60000, 300000) { one<int16_t>(s); }
PBT_CHECK(u32, 60000, 300000) { one<uint32_t>(s); }
PBT_CHECK(i32, 60000, 300000) { one<int32_t>(s); }
PBT_CHECK(u64, 60000, 300000) { one<uint64_t>(s); }
PBT_CHECK(i64, 60000, 300000) { one<int64_t>(s); }
PBT_CHECK(f32, 60000, 300000) { one<float>(s); }
PBT_CHECK(f64, 60000, 300000) { one<double>(s); }
PBT_MAIN("M04", "Values of every width with emphasis on powers of two and extremes; non-trivial: not a byte palindrome. Oracle: reversal of the byte representation.")
