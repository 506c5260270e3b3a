// Checksums against zlib and reference implementations, over arbitrary splits, object reuse and streams.
// CXXFLAGS: -O2
#include "streams.hpp"
#include "ref_hash.hpp"
#include <stdex/hash.hpp>
#include <zlib.h>
using namespace pbt;

enum { CRC, MD5, SHA1 };
static std::string expected(int kind, const std::string& d)
{
	switch (kind) {
	case CRC: { uint32_t c = static_cast<uint32_t>(::crc32_z(0, reinterpret_cast<const Bytef*>(d.data()), d.size())); return std::string(reinterpret_cast<char*>(&c), 4); }
	case MD5: return ref::md5(d);
	default: return ref::sha1(d);
	}
}
template<class H> static std::string value(H& h) { std::string r(reinterpret_cast<const char*>(&h.data()), sizeof(h.data())); PBT_EQ(H::size(), r.size()); auto v = static_cast<const std::decay_t<decltype(h.data())>&>(h); PBT_REQUIRE(!memcmp(&v, r.data(), r.size())); return r; }
static std::string hex(const std::string& s) { std::string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }

static std::string gen_data(Src& s)
{
	std::string d = s.bytes(700);
	if (s.chance(1, 3)) { // lengths around the block and padding limits
		size_t n = s.draw(5) * 64 + s.pick<size_t>({0, 1, 54, 55, 56, 57, 62, 63, 64 });
		uint64_t x = s.draw(255); d.resize(n); for (size_t i = 0; i < n; i++) d[i] = static_cast<char>(mix(x + i));
	}
	return d;
}
static std::vector<size_t> cuts_of(Src& s, size_t n)
{
	std::vector<size_t> r; size_t done = 0;
	unsigned style = static_cast<unsigned>(s.draw(3));
	while (done < n && r.size() < 400) {
		size_t k;
		switch (style) { case 0: k = n - done; break; case 1: k = s.draw(9); break; case 2: k = s.draw(140); break; default: k = 60 + s.draw(8); }
		k = std::min(k, n - done); r.push_back(k); done += k;
	}
	if (done < n) r.push_back(n - done);
	if (s.chance(1, 6)) r.push_back(0);
	return r;
}
template<class H> static void feed(H& h, const std::string& d, const std::vector<size_t>& cuts)
{
	size_t pos = 0;
	for (size_t k : cuts) { exact<char> b(d.data() + pos, k); h.hash(b.get(), k); pos += k; }
}
template<class H> static void blocks(Src& s, int kind)
{
	H h;
	unsigned rounds = static_cast<unsigned>(s.range(1, 3));
	std::string prev;
	for (unsigned r = 0; r < rounds; r++) {
		if (r) {
			if (s.chance(1, 2)) { std::string junk = s.bytes(200); h.hash(junk.data(), junk.size()); if (s.boolean()) h.finalize(); }
			h.clear();
		}
		std::string d = gen_data(s); auto cuts = cuts_of(s, d.size());
		s.nontrivial(cuts.size() >= 2 && d.size() > 0); s.label_if(d.size() >= 64, "a block or more"); s.label_if(r > 0, "reused"); s.label_if(d.size() % 64 >= 56, "padding takes a block");
		s.note([&] { return "hash kind " + show(kind) + " of " + show(d) + " in blocks " + show(cuts); });
		feed(h, d, cuts);
		if (kind == CRC && s.chance(1, 3)) {
			// The value so far continues in a new object.
			std::string e = s.bytes(100); H g = h; g.finalize();
			stdex::crc32_hash c(*reinterpret_cast<const stdex::crc32_t*>(&g.data())); c.hash(e.data(), e.size()); c.finalize();
			PBT_EQ(hex(value(c)), hex(expected(CRC, d + e)), "continued");
		}
		h.finalize();
		PBT_EQ(hex(value(h)), hex(expected(kind, d)), "length " + std::to_string(d.size()));
	}
}
PBT_CHECK(crc32_blocks, 60000, 600000) { blocks<stdex::crc32_hash>(s, CRC); }
PBT_CHECK(md5_blocks, 60000, 600000) { blocks<stdex::md5_hash>(s, MD5); }
PBT_CHECK(sha1_blocks, 60000, 600000) { blocks<stdex::sha1_hash>(s, SHA1); }

// Every length up to a few blocks, one piece.
PBT_CHECK(every_length, 3 * 400, 3 * 2000)
{
	uint64_t n = s.enumerate(s.thorough ? 6000 : 1200); int kind = static_cast<int>(n % 3); n /= 3;
	std::string d(n, 0); for (size_t i = 0; i < n; i++) d[i] = static_cast<char>(mix(i * 7 + n));
	s.nontrivial();
	if (kind == CRC) { stdex::crc32_hash h; h.hash(d.data(), n); h.finalize(); PBT_EQ(hex(value(h)), hex(expected(kind, d))); }
	else if (kind == MD5) { stdex::md5_hash h; h.hash(d.data(), n); h.finalize(); PBT_EQ(hex(value(h)), hex(expected(kind, d))); }
	else { stdex::sha1_hash h; h.hash(d.data(), n); h.finalize(); PBT_EQ(hex(value(h)), hex(expected(kind, d))); }
}

// Exactly what went through the stream is hashed, and it is not changed.
template<class T, class H> static void through(Src& s, int kind)
{
	std::string d = gen_data(s);
	ts::pipe p(d, ts::gen_plan(s, true, d.size()));
	H h; stdex::stream_hasher<T> st(h, p);
	std::string plan = ts::show(p.p);
	if (s.boolean()) {
		std::string got;
		s.repeat(60, [&] {
			size_t n = s.len(300); exact<char> b(n, 'x');
			size_t k = st.read(b.get(), n);
			PBT_REQUIRE(k <= n); PBT_REQUIRE(st.state() == p.state());
			got.append(b.get(), k);
		});
		s.note([&] { return "read through: " + show(d) + " " + plan; });
		s.nontrivial(p.reads >= 2 && !got.empty());
		PBT_EQ(got, d.substr(0, p.pos));
		h.finalize(); PBT_EQ(hex(value(h)), hex(expected(kind, got)));
	}
	else {
		std::string given;
		s.repeat(60, [&] {
			std::string x = s.bytes(200);
			size_t k = st.write(x.data(), x.size());
			PBT_REQUIRE(k <= x.size()); PBT_REQUIRE(st.state() == p.state());
			given += x.substr(0, k);
		});
		s.note([&] { return "write through: " + show(given) + " " + plan; });
		s.nontrivial(p.writes >= 2 && !given.empty());
		PBT_EQ(given, p.out);
		h.finalize(); PBT_EQ(hex(value(h)), hex(expected(kind, given)));
	}
}
PBT_CHECK(stream_crc32, 20000, 200000) { through<stdex::crc32_t, stdex::crc32_hash>(s, CRC); }
PBT_CHECK(stream_md5, 20000, 200000) { through<stdex::md5_t, stdex::md5_hash>(s, MD5); }
PBT_CHECK(stream_sha1, 20000, 200000) { through<stdex::sha1_t, stdex::sha1_hash>(s, SHA1); }

// Stored hash values compare and serialise by their bytes.
PBT_CHECK(values, 30000, 200000)
{
	stdex::md5_t a, b; for (auto& x : a.data8) x = static_cast<uint8_t>(s.draw(255));
	b = a; size_t i = s.draw(15); uint8_t d = static_cast<uint8_t>(s.draw(255)); b.data8[i] ^= d;
	s.nontrivial(d != 0);
	PBT_EQ(a == b, d == 0); PBT_EQ(a != b, d != 0);
	ts::pipe p; p << b; PBT_EQ(p.out, std::string(reinterpret_cast<char*>(b.data8), 16)); p.in = p.out; stdex::md5_t c; p >> c; PBT_REQUIRE(c == b && p.ok());
	stdex::sha1_t e, f; for (auto& x : e.data8) x = static_cast<uint8_t>(s.draw(255));
	f = e; i = s.draw(19); f.data8[i] ^= d; PBT_EQ(e == f, d == 0); PBT_EQ(e != f, d != 0);
	ts::pipe q; q << f; PBT_EQ(q.out, std::string(reinterpret_cast<char*>(f.data8), 20)); q.in = q.out; stdex::sha1_t g; q >> g; PBT_REQUIRE(g == f && q.ok());
	stdex::sha256_t u, v; for (auto& x : u.data8) x = static_cast<uint8_t>(s.draw(255));
	v = u; i = s.draw(31); v.data8[i] ^= d; PBT_EQ(u == v, d == 0); PBT_EQ(u != v, d != 0);
	ts::pipe r; r << v; PBT_EQ(r.out, std::string(reinterpret_cast<char*>(v.data8), 32)); r.in = r.out; stdex::sha256_t w; r >> w; PBT_REQUIRE(w == v && r.ok());
}

// Large inputs: one 1 MiB pattern mapped over and over. Digests of the whole were computed with Python's hashlib.
static const uint8_t* big(size_t mib)
{
	static uint8_t* base = nullptr;
	if (base) return base;
	int fd = memfd_create("pattern", 0); if (fd < 0) throw discard_t{};
	std::vector<uint8_t> pat(1 << 20); for (size_t i = 0; i < pat.size(); i++) pat[i] = static_cast<uint8_t>(i * 31 + (i >> 8) * 7 + (i >> 16));
	if (write(fd, pat.data(), pat.size()) != static_cast<ssize_t>(pat.size())) throw discard_t{};
	base = static_cast<uint8_t*>(mmap(nullptr, mib << 20, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (base == MAP_FAILED) { base = nullptr; throw discard_t{}; }
	for (size_t i = 0; i < mib; i++) if (mmap(base + (i << 20), 1 << 20, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw discard_t{};
	close(fd);
	return base;
}
struct bigcase { const char* md5; const char* sha1; uint64_t size; bool pieces; };
#include "H01_big.inc"
PBT_CHECK(large, 8, 8, 400)
{
	// Over 4 GiB at once, and over 512 MiB (the carry of the 32-bit bit counter) in pieces.
	uint64_t i = s.enumerate(8); const bigcase& c = bigs[i % 4]; bool md5 = i < 4;
	const uint8_t* p = big(4097);
	s.nontrivial(); s.note([&] { return std::to_string(c.size) + " bytes" + (c.pieces ? " in pieces" : ""); });
	auto go = [&](auto& h, const char* want) {
		for (uint64_t o = 0; o < c.size;) { uint64_t n = c.pieces ? std::min<uint64_t>(c.size - o, 10000019) : c.size; h.hash(p + o, n); o += n; }
		h.finalize(); PBT_EQ(hex(value(h)), std::string(want));
	};
	if (md5) { stdex::md5_hash h; go(h, c.md5); } else { stdex::sha1_hash h; go(h, c.sha1); }
}

PBT_MAIN("H01", "Random byte sequences (biased to lengths around the 64-byte block and its padding) cut into blocks, several messages per object, streams that transfer short and fail, and sizes over 512 MiB and 4 GiB; non-trivial: at least two blocks or transfers of non-empty data. Oracle: zlib crc32, own MD5 and SHA-1 from the RFCs, hashlib for the large ones.")
