// Reference MD5 and SHA-1, written from RFC 1321 and FIPS 180 (sine table computed, not copied).
#pragma once
#include <cmath>
#include <cstdint>
#include <string>
namespace ref
{
	inline uint32_t rotl(uint32_t x, unsigned n) { return x << n | x >> (32 - n); }
	inline std::string pad(std::string m, bool big)
	{
		uint64_t bits = static_cast<uint64_t>(m.size()) * 8;
		m += '\x80'; while (m.size() % 64 != 56) m += '\0';
		for (int i = 0; i < 8; i++) m += static_cast<char>(bits >> (big ? 56 - 8 * i : 8 * i));
		return m;
	}
	inline std::string md5(const std::string& msg)
	{
		static const unsigned r[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
		static uint32_t k[64]; static bool init = false;
		if (!init) { for (int i = 0; i < 64; i++) k[i] = static_cast<uint32_t>(static_cast<int64_t>(std::floor(std::fabs(std::sin(static_cast<double>(i + 1))) * 4294967296.0))); init = true; }
		uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
		std::string m = pad(msg, false);
		for (size_t o = 0; o < m.size(); o += 64) {
			uint32_t w[16]; for (int i = 0; i < 16; i++) { w[i] = 0; for (int b = 3; b >= 0; b--) w[i] = w[i] << 8 | static_cast<uint8_t>(m[o + static_cast<size_t>(i * 4 + b)]); }
			uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
			for (int i = 0; i < 64; i++) {
				uint32_t f; int g;
				if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
				else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = 7 * i % 16; }
				uint32_t t = d; d = c; c = b; b += rotl(a + f + k[i] + w[g], r[i / 16][i % 4]); a = t;
			}
			h[0] += a; h[1] += b; h[2] += c; h[3] += d;
		}
		std::string out; for (uint32_t x : h) for (int i = 0; i < 4; i++) out += static_cast<char>(x >> (8 * i));
		return out;
	}
	inline std::string sha1(const std::string& msg)
	{
		uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
		std::string m = pad(msg, true);
		for (size_t o = 0; o < m.size(); o += 64) {
			uint32_t w[80]; for (int i = 0; i < 16; i++) { w[i] = 0; for (int b = 0; b < 4; b++) w[i] = w[i] << 8 | static_cast<uint8_t>(m[o + static_cast<size_t>(i * 4 + b)]); }
			for (int i = 16; i < 80; i++) w[i] = rotl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
			uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
			for (int i = 0; i < 80; i++) {
				uint32_t f, k;
				if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
				else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; } else { f = b ^ c ^ d; k = 0xca62c1d6; }
				uint32_t t = rotl(a, 5) + f + e + k + w[i]; e = d; d = c; c = rotl(b, 30); b = a; a = t;
			}
			h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
		}
		std::string out; for (uint32_t x : h) for (int i = 3; i >= 0; i--) out += static_cast<char>(x >> (8 * i));
		return out;
	}
}
