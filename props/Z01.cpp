// Compressing and decompressing streams against zlib itself.
// SCALE: 1
#include "streams.hpp"
#include <sanitizer/allocator_interface.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdex/zlib.hpp>
using namespace pbt;

static std::string inflate_all(const std::string& z, bool& complete, size_t& used)
{
	z_stream st{}; inflateInit(&st); std::string out; char b[4096]; int r = Z_OK;
	st.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(z.data())); st.avail_in = static_cast<uInt>(z.size());
	while (r == Z_OK) { st.next_out = reinterpret_cast<Bytef*>(b); st.avail_out = sizeof(b); r = inflate(&st, Z_NO_FLUSH); out.append(b, sizeof(b) - st.avail_out); if (r == Z_BUF_ERROR) break; }
	complete = r == Z_STREAM_END; used = z.size() - st.avail_in; inflateEnd(&st);
	return out;
}
static std::string deflate_all(const std::string& d, int level)
{
	uLongf n = compressBound(static_cast<uLong>(d.size())); std::string o(n, 0);
	compress2(reinterpret_cast<Bytef*>(&o[0]), &n, reinterpret_cast<const Bytef*>(d.data()), static_cast<uLong>(d.size()), level); o.resize(n); return o;
}
static std::string gen(Src& s)
{
	std::string d; unsigned parts = static_cast<unsigned>(s.draw(4));
	while (parts--) switch (s.draw(3)) {
	case 0: d += s.bytes(300); break;
	case 1: d.append(s.draw(3000), static_cast<char>(s.draw(255))); break;
	case 2: { std::string w = s.bytes(20); size_t n = s.draw(200); while (n--) d += w; break; }
	default: { size_t n = s.draw(3000); uint64_t x = s.draw(UINT32_MAX); for (size_t i = 0; i < n; i++) d += static_cast<char>(mix(x + i)); } // incompressible
	}
	return d;
}
static uInt block(Src& s) { return s.pick<uInt>({0x10000, 1, 2, 3, 7, 64, 100, 1000, 4096}); }
static size_t amount(Src& s) { return s.chance(1, 3) ? s.draw(5) : s.len(5000); }

// Reads until nothing more comes; the reader must end.
struct got_t { std::string data; size_t first = 0; bool threw = false; stdex::stream::state_t state; };
static got_t drain(Src& s, stdex::zlib_reader& r, size_t most)
{
	got_t g; size_t style = s.draw(2), zeros = 0;
	for (;;) {
		size_t n = style == 0 ? 65536 : style == 1 ? amount(s) : most;
		if (!n && ++zeros > 20) n = 1;
		if (g.data.empty()) g.first = std::max(g.first, n); exact<char> b(n, '!');
		if (g.data.size() > most + 1000000) fail("delivers without end");
		try {
			size_t k = r.read(b.get(), b.n); PBT_REQUIRE(k <= b.n); g.data.append(b.get(), k);
			if (b.n && !k) { PBT_REQUIRE(!r.ok(), "nothing delivered, but ok"); break; }
			if (!b.n) PBT_REQUIRE(r.ok());
		}
		catch (const std::runtime_error&) { g.threw = true; break; }
	}
	g.state = r.state();
	return g;
}

PBT_CHECK(write_read, 64000, 640000)
{
	std::string d = gen(s); int level = static_cast<int>(s.range(-1, 9)); uInt wb = block(s), rb = block(s); ts::pipe p; size_t calls = 0;
	{
		stdex::zlib_writer w(p, level, wb); size_t pos = 0; bool whole = s.chance(1, 3);
		while (pos < d.size()) { size_t n = whole ? d.size() : amount(s); n = std::min(n, d.size() - pos); if (++calls > 300) n = d.size() - pos; exact<char> b(d.data() + pos, n); PBT_EQ(w.write(b.get(), n), n); PBT_REQUIRE(w.ok()); pos += n; }
		if (s.boolean()) { w.flush(); PBT_REQUIRE(w.ok()); }
	}
	s.note([&] { return show(d.size()) + " bytes at level " + show(level) + ", blocks " + show(wb) + "/" + show(rb) + " in " + show(calls) + " writes"; });
	s.nontrivial(d.size() > 10 && calls > 1); s.label_if(d.size() > 3000, "long"); s.label_if(p.out.size() > wb, "more output than a block");
	bool complete; size_t used; std::string o = inflate_all(p.out, complete, used);
	PBT_REQUIRE(complete && used == p.out.size(), "not one complete zlib stream"); PBT_REQUIRE(o == d, "zlib reads other data");
	ts::pipe q(p.out, ts::gen_plan(s, false, 0)); stdex::zlib_reader r(q, rb);
	got_t g = drain(s, r, d.size()); PBT_REQUIRE(g.data == d && !g.threw, "read back " + std::to_string(g.data.size()) + " of " + std::to_string(d.size())); PBT_REQUIRE(g.state == stdex::stream::state_t::eof);
}
PBT_CHECK(foreign_stream, 64000, 640000)
{
	std::string d = gen(s), z = deflate_all(d, static_cast<int>(s.range(0, 9))); ts::pipe q(z, ts::gen_plan(s, false, 0)); uInt rb = block(s);
	s.nontrivial(d.size() > 10); s.note([&] { return show(d.size()) + " bytes compressed to " + show(z.size()) + ", block " + show(rb) + " " + ts::show(q.p); });
	stdex::zlib_reader r(q, rb); got_t g = drain(s, r, d.size()); PBT_REQUIRE(g.data == d && !g.threw); PBT_REQUIRE(g.state == stdex::stream::state_t::eof);
}
PBT_CHECK(damaged, 190000, 1900000)
{
	std::string d = gen(s), z = deflate_all(d, static_cast<int>(s.range(0, 9))), m = z; size_t kind = s.draw(4), at = 0;
	switch (kind) {
	case 0: at = s.draw(z.size()); m.resize(at); break;
	case 1: at = s.draw(z.size() - 1); m[at] = static_cast<char>(m[at] ^ static_cast<char>(1 << s.draw(7))); break;
	case 2: at = m.size(); m += s.boolean() ? s.bytes(60) : z; break;
	case 3: { m = s.bytes(100); break; }
	default: at = 2; m = std::string("\x78\xbb", 2) + s.bytes(40); // asks for a dictionary
	}
	bool complete; size_t used; std::string o = inflate_all(m, complete, used);
	s.nontrivial(m != z && m.size() > 2); s.label_if(m.size() > used && complete, "trailing data"); s.label_if(complete && kind == 1, "corruption decodes");
	ts::pipe q(m, ts::gen_plan(s, false, 0)); uInt rb = block(s); s.note([&] { return "kind " + show(kind) + " at " + show(at) + " of " + show(z.size()) + " (data " + show(d.size()) + "), now " + show(m.size() > 60 ? m.substr(0, 60) : m) + " block " + show(rb) + " " + ts::show(q.p); });
	stdex::zlib_reader r(q, rb); got_t g = drain(s, r, d.size());
	if (complete) { PBT_REQUIRE(!g.threw && g.data == o, "delivered " + std::to_string(g.data.size()) + " expected " + std::to_string(o.size())); PBT_REQUIRE(g.state == stdex::stream::state_t::eof); }
	else PBT_EQ(g.data, o.substr(0, g.data.size()), "made-up data");
	if (kind == 0 && g.first > d.size() && !g.threw) PBT_EQ(g.data.size(), o.size(), "amount in front of the truncation delivered to one who asks for all");
	if (kind == 0 && m.size() < z.size()) { PBT_EQ(g.data, d.substr(0, g.data.size())); if (!g.threw) PBT_REQUIRE(g.state != stdex::stream::state_t::ok); }
	// Asking again after the end delivers nothing.
	if (!g.threw) { char b[8]; size_t k = 0; try { k = r.read(b, 8); } catch (const std::runtime_error&) {} PBT_EQ(k, size_t(0)); }
}
PBT_CHECK(failing_streams, 96000, 960000)
{
	std::string d = gen(s);
	if (s.boolean()) {
		std::string z = deflate_all(d, 6); ts::pipe q(z); q.p.fail_read = s.draw(z.size()); stdex::zlib_reader r(q, block(s)); got_t g = drain(s, r, d.size());
		PBT_EQ(g.data, d.substr(0, g.data.size())); if (q.failed_read && g.data.size() < d.size()) PBT_REQUIRE(g.threw || g.state == stdex::stream::state_t::fail);
		s.nontrivial(q.failed_read && z.size() > 20);
	}
	else {
		ts::pipe p; p.p.fail_write = s.draw(400); bool reported = false; std::string taken;
		try {
			stdex::zlib_writer w(p, 6, block(s));
			for (size_t pos = 0; pos < d.size();) { size_t n = std::min<size_t>(d.size() - pos, 1 + amount(s)), k = w.write(d.data() + pos, n); PBT_REQUIRE(k <= n); if (k < n || !w.ok()) { PBT_REQUIRE(!w.ok()); reported = true; break; } pos += n; }
		}
		catch (const std::exception&) { reported = true; } // destruction tells of data lost
		PBT_EQ(reported, p.failed_write); s.nontrivial(p.failed_write);
	}
}
// Whatever becomes of the end of a stream, nothing is left behind.
PBT_CHECK(nothing_left, 12000, 120000)
{
	std::string d = gen(s); size_t limit = s.draw(400), piece = 1 + amount(s); uInt b = block(s); bool reader = s.chance(1, 4), failed = false; s.note([&] { return show(d.size()) + " bytes, fails after " + std::to_string(limit); });
	auto run = [&] { ts::pipe p; if (reader) { p.in = d; p.p.fail_read = limit; try { stdex::zlib_reader r(p, b); char x[64]; for (size_t i = 0; i < 100 && r.read(x, 64); i++); } catch (const std::exception&) { failed = true; } } else { p.p.fail_write = limit; try { stdex::zlib_writer w(p, 6, b); for (size_t pos = 0; pos < d.size() && w.ok(); pos += piece) w.write(d.data() + pos, std::min(piece, d.size() - pos)); } catch (const std::exception&) { failed = true; } } };
	run(); size_t before = __sanitizer_get_current_allocated_bytes(); run(); PBT_EQ(static_cast<long>(__sanitizer_get_current_allocated_bytes() - before), 0l, "bytes left behind"); s.nontrivial(failed);
}
// One piece of memory of 16 MiB seen over and over: requests above 4 GiB without having as much memory.
struct repeated
{
	static constexpr size_t unit = size_t(16) << 20; char* p; size_t total; int fd;
	repeated(size_t length) : total((length + unit - 1) / unit * unit)
	{
		fd = memfd_create("z01", 0); if (fd < 0 || ftruncate(fd, unit)) throw discard_t{};
		p = static_cast<char*>(mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (p == MAP_FAILED) { close(fd); throw discard_t{}; }
		for (size_t i = 0; i < total; i += unit) if (mmap(p + i, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(p, total); close(fd); throw discard_t{}; }
	}
	~repeated() { munmap(p, total); close(fd); }
};
PBT_CHECK(huge, 2, 12, 300)
{
	size_t length = (size_t(1) << 32) - 1 + s.draw(3 << 20) - (s.chance(1, 8) ? 100 : 0); s.note([&] { return show(length) + " bytes in one write and one read"; });
	repeated src(length), dst(length); uint64_t x = s.draw(UINT32_MAX);
	for (size_t i = 0; i < 4000; ++i) { size_t at = static_cast<size_t>(mix(x + i) % (repeated::unit - 8)); memcpy(src.p + at, &x, 8); x = mix(x); }
	ts::pipe p;
	{ stdex::zlib_writer w(p, 1); PBT_EQ(w.write(src.p, length), length, "written"); PBT_REQUIRE(w.ok()); }
	ts::pipe q(p.out); stdex::zlib_reader r(q); memset(dst.p, '!', repeated::unit);
	PBT_EQ(r.read(dst.p, length), length, "read"); PBT_REQUIRE(r.ok());
	// What was written last remains: the end of the data, and the 16 MiB before it.
	PBT_REQUIRE(!memcmp(src.p, dst.p, repeated::unit), "other data"); char c; PBT_EQ(r.read(&c, 1), size_t(0)); PBT_REQUIRE(!r.ok());
	s.nontrivial(length > UINT32_MAX); s.label("above 4 GiB");
}
PBT_MAIN("Z01", "Mixtures of repetitive and random data written and read in random portions with all levels and many block sizes, damaged (truncated, one bit changed, extended, random, dictionary) and failing streams; non-trivial: more than 10 bytes in more than one call, or really damaged input. Oracle: zlib's own inflate/compress2.")
