// Asynchronous reader and writer over streams that transfer short, end and fail; memory FIFO against a string. Built with ThreadSanitizer.
// SANITIZE: -fsanitize=thread
// NOFUZZ: 1
// SCALE: 4
#include "streams.hpp"
#include "threads.hpp"
#include <stdex/ring.hpp>
using namespace pbt;
using stdex::stream::state_t;

// The stream underneath: takes its time, and tells whether it is used by two threads at once.
struct slow : ts::pipe
{
	thr::jitter j; std::atomic<int> inside{0}; bool clash = false; uint64_t fail_flush = UINT64_MAX; std::vector<size_t> at_flush, at_close;
	slow(std::string i, ts::plan p, uint64_t seed, unsigned level) : pipe(std::move(i), std::move(p)), j(seed, level) {}
	struct guard { slow& o; guard(slow& x) : o(x) { if (o.inside++) o.clash = true; o.j(); } ~guard() { o.j(); o.inside--; } };
	size_t read(void* d, size_t n) override { guard g(*this); return pipe::read(d, n); }
	size_t write(const void* d, size_t n) override { guard g(*this); return pipe::write(d, n); }
	void flush() override { guard g(*this); at_flush.push_back(out.size()); flushes++; m_state = flushes > fail_flush ? state_t::fail : state_t::ok; }
	void close() override { guard g(*this); at_close.push_back(out.size()); pipe::close(); }
};
static std::string content(size_t n, uint64_t seed) { std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = static_cast<char>(mix(seed + i)); return r; }
static std::vector<uint32_t> portions(Src& s, size_t cap) { std::vector<uint32_t> p; s.repeat(8, [&] { p.push_back(static_cast<uint32_t>(s.weighted({3, 2, 1}) == 0 ? s.draw(4) : s.draw(cap * 3 + 2))); }); if (std::all_of(p.begin(), p.end(), [](uint32_t x) { return !x; })) p.push_back(static_cast<uint32_t>(1 + s.draw(cap * 2))); return p; }

template<size_t N> static void reading(Src& s)
{
	size_t n = s.chance(1, 4) ? s.draw(3 * N) : s.len(N > 4096 ? N * 3 : 3000); auto data = content(n, s.draw(1000)); ts::plan p = ts::gen_plan(s, false, n); bool failing = s.chance(1, 3); if (failing) p.fail_read = s.draw(n);
	slow src(data, p, s.draw(UINT32_MAX), static_cast<unsigned>(s.draw(3))); thr::jitter j(s.draw(UINT32_MAX), static_cast<unsigned>(s.draw(3))); auto por = portions(s, N); if (n > 100) por.push_back(static_cast<uint32_t>(n / 20 + 1)); size_t stop = s.chance(1, 4) ? s.draw(n) : SIZE_MAX; bool twice = s.boolean(); size_t k = 0; 
	s.note([&] { return "read-ahead " + show(N) + " of " + show(n) + ", " + ts::show(p) + ", portions " + show(por) + (stop == SIZE_MAX ? "" : ", stops at " + show(stop)); });
	size_t avail = failing ? static_cast<size_t>(std::min<uint64_t>(p.fail_read, n)) : n; std::string got;
	{
		stdex::stream::async_reader<N> r(src);
		for (;;) {
			size_t want = por[k++ % por.size()]; if (stop != SIZE_MAX) want = std::min(want, stop - got.size()); if (stop != SIZE_MAX && got.size() >= stop) break;
			std::string b(want + 1, '#'); size_t m = r.read(&b[0], want); PBT_REQUIRE(m <= want && b[want] == '#', "read past the given length"); got.append(b, 0, m); j();
			if (got.size() > data.size() || memcmp(got.data() + got.size() - m, data.data() + got.size() - m, m)) fail("different data after " + show(got.size() - m));
			if (m == want) { PBT_REQUIRE(r.ok() || !want, "a complete read is ok"); continue; }
			PBT_EQ(got.size(), avail, "ended early");
			if (m) { PBT_REQUIRE(r.ok(), "a shortened read that gave data is ok"); continue; }
			PBT_REQUIRE(r.state() == (failing ? state_t::fail : state_t::eof), failing ? "failure did not reach the user" : "end did not reach the user");
			if (!twice) break; twice = false;
		}
		if (stop == SIZE_MAX || stop > avail) PBT_EQ(got.size(), avail, "total");
	}
	PBT_REQUIRE(!src.clash, "stream used by two threads at once"); s.nontrivial(n > N || failing); s.label_if(failing, "failing"); s.label_if(stop != SIZE_MAX, "abandoned");
}
PBT_CHECK(reader_1, 600, 6000, 15, 20) { reading<1>(s); }
PBT_CHECK(reader_3, 600, 6000, 15, 20) { reading<3>(s); }
PBT_CHECK(reader_7, 600, 6000, 15, 20) { reading<7>(s); }
PBT_CHECK(reader_64, 600, 6000, 15, 20) { reading<64>(s); }
PBT_CHECK(reader_4096, 300, 3000, 15, 20) { reading<4096>(s); }
PBT_CHECK(reader_65536, 100, 1000, 15, 20) { reading<65536>(s); }

template<size_t N> static void writing(Src& s)
{
	size_t n = s.chance(1, 4) ? s.draw(3 * N) : s.len(N > 4096 ? N * 3 : 3000); auto data = content(n, s.draw(1000)); ts::plan p; bool failing = s.chance(1, 3); if (failing) p.fail_write = s.draw(n);
	slow dst("", p, s.draw(UINT32_MAX), static_cast<unsigned>(s.draw(3))); if (s.chance(1, 8)) dst.fail_flush = s.draw(3); thr::jitter j(s.draw(UINT32_MAX), static_cast<unsigned>(s.draw(3))); auto por = portions(s, N); if (n > 100) por.push_back(static_cast<uint32_t>(n / 20 + 1)); unsigned fl = static_cast<unsigned>(s.draw(3)); int last = static_cast<int>(s.draw(2)); size_t k = 0, sent = 0; 
	s.note([&] { return "write-back " + show(N) + " of " + show(n) + ", " + ts::show(p) + ", portions " + show(por) + ", flushing " + show(fl) + ", ended by " + (last == 0 ? "destruction" : last == 1 ? "flush" : "close"); });
	bool refused = false;
	{
		stdex::stream::async_writer<N> w(dst);
		auto flush = [&] { size_t before = dst.fail_flush != UINT64_MAX ? 0 : 0; (void)before; w.flush(); if (sent > p.fail_write) { PBT_REQUIRE(w.state() == state_t::fail, "flush does not tell that writing failed"); refused = true; } else { PBT_EQ(dst.out.size(), sent, "flush left something behind"); PBT_REQUIRE(dst.flushes > dst.fail_flush ? w.state() == state_t::fail : w.ok(), "state after flush"); PBT_REQUIRE(!dst.at_flush.empty() && dst.at_flush.back() == sent, "stream underneath not flushed after the data"); } };
		while (sent < n && !refused) {
			size_t want = std::min<size_t>(por[k++ % por.size()], n - sent); exact<char> e(data.data() + sent, want); size_t m = w.write(e.get(), want); PBT_REQUIRE(m <= want); sent += m; j();
			if (m < want) { PBT_REQUIRE(failing, "refused without a failure"); PBT_REQUIRE(w.state() == state_t::fail, "short write without failure"); refused = true; break; }
			PBT_REQUIRE(w.ok() || !want, "a complete write is ok");
			if (fl && j.next() % (fl * 4) == 0) flush();
		}
		if (refused) { char c = 1; PBT_EQ(w.write(&c, 1), 0u, "write after failure"); PBT_REQUIRE(w.state() == state_t::fail); w.flush(); PBT_REQUIRE(w.state() == state_t::fail, "flush after failure"); }
		if (last == 1) { if (!refused) flush(); }
		else if (last == 2) { w.close(); PBT_EQ(dst.closes, 1u, "stream underneath closed"); PBT_EQ(dst.at_close.back(), std::min<uint64_t>(sent, p.fail_write), "closed before the data was written"); PBT_REQUIRE((sent > p.fail_write || refused) ? w.state() == state_t::fail : w.ok(), "state after close"); }
	}
	size_t want = static_cast<size_t>(std::min<uint64_t>(sent, p.fail_write)); PBT_EQ(dst.out.size(), want, "amount written"); PBT_REQUIRE(dst.out == data.substr(0, want), "different data written");
	PBT_REQUIRE(!dst.clash, "stream used by two threads at once"); s.nontrivial(n > N || failing); s.label_if(failing, "failing"); s.label_if(refused, "failure met");
}
PBT_CHECK(writer_1, 600, 6000, 15, 20) { writing<1>(s); }
PBT_CHECK(writer_3, 600, 6000, 15, 20) { writing<3>(s); }
PBT_CHECK(writer_7, 600, 6000, 15, 20) { writing<7>(s); }
PBT_CHECK(writer_64, 600, 6000, 15, 20) { writing<64>(s); }
PBT_CHECK(writer_4096, 300, 3000, 15, 20) { writing<4096>(s); }
PBT_CHECK(writer_65536, 100, 1000, 15, 20) { writing<65536>(s); }

// Failing exactly at the end of what was written, over and over: the failure must reach the user.
PBT_CHECK(fails_at_end, 3000, 30000, 15, 20)
{
	size_t n = 1 + s.draw(6); ts::plan p; p.fail_write = s.draw(n - 1); slow dst("", p, s.draw(UINT32_MAX), static_cast<unsigned>(s.draw(3))); auto data = content(n, 7); bool close = s.boolean();
	stdex::stream::async_writer<8> w(dst); size_t m = w.write(data.data(), n); if (s.boolean()) sched_yield(); if (close) w.close(); else w.flush();
	PBT_REQUIRE(w.state() == state_t::fail, "failure did not reach the user"); PBT_REQUIRE(m == n, "refused before"); s.nontrivial();
}

// A stream underneath that fails by an exception: what came before arrives, and the failure reaches the user.
struct thrower : slow
{
	using slow::slow;
	size_t read(void* d, size_t n) override { size_t k = slow::read(d, n); if (!ok() && n) { m_state = state_t::ok; throw std::runtime_error("failed to read"); } return k; }
	size_t write(const void* d, size_t n) override { size_t k = slow::write(d, n); if (k < n) { m_state = state_t::ok; throw std::runtime_error("failed to write"); } return k; }
};
PBT_CHECK(exceptions, 2000, 20000, 15, 20)
{
	size_t n = s.len(200); auto data = content(n, 3); ts::plan p = ts::gen_plan(s, false, n); bool reading = s.boolean(); size_t limit = s.draw(n); p.fail_read = reading ? limit : UINT64_MAX; p.fail_write = reading ? UINT64_MAX : limit; thrower t(reading ? data : std::string(), p, s.draw(UINT32_MAX), static_cast<unsigned>(s.draw(3))); size_t piece = 1 + s.draw(30); bool close = s.boolean(); s.note([&] { return std::string(reading ? "reading " : "writing ") + std::to_string(n) + ", throws at " + std::to_string(limit); });
	if (reading) {
		stdex::stream::async_reader<16> r(t); std::string got; for (size_t i = 0; i < 1000; i++) { std::string b(piece, '#'); size_t k = r.read(&b[0], piece); got.append(b, 0, k); if (!k) break; if (k == piece) PBT_REQUIRE(r.ok()); } PBT_REQUIRE(r.state() == state_t::fail, "failure did not reach the user"); PBT_REQUIRE(got == data.substr(0, limit), "read before the failure"); s.nontrivial(limit > 0);
	}
	else {
		{ stdex::stream::async_writer<16> w(t); bool bad = false; for (size_t at = 0; at < n && !bad; at += piece) { size_t m = std::min(piece, n - at), k = w.write(data.data() + at, m); PBT_REQUIRE(k <= m); bad = !w.ok(); } if (close) w.close(); else w.flush(); PBT_EQ(w.state(), limit < n ? state_t::fail : state_t::ok, "state at the end"); }
		PBT_REQUIRE(t.out == data.substr(0, limit), "written before the failure"); s.nontrivial(limit < n);
	}
}

// From a reader to a writer.
PBT_CHECK(through, 600, 6000, 15, 20)
{
	size_t n = s.len(2000); auto data = content(n, s.draw(1000)); slow src(data, ts::gen_plan(s, false, n), s.draw(UINT32_MAX), static_cast<unsigned>(s.draw(3))), dst("", ts::plan(), s.draw(UINT32_MAX), static_cast<unsigned>(s.draw(3)));
	s.note([&] { return show(n) + " bytes, " + ts::show(src.p); });
	{ stdex::stream::async_reader<13> r(src); stdex::stream::async_writer<31> w(dst); PBT_EQ(w.write_stream(r), n, "write_stream"); w.flush(); PBT_REQUIRE(w.ok()); PBT_EQ(dst.out.size(), n); }
	PBT_REQUIRE(dst.out == data, "different data"); s.nontrivial(n > 31);
}

// Memory FIFO against a string.
PBT_CHECK(fifo, 20000, 200000)
{
	stdex::stream::fifo f; std::string q; uint64_t c = 0; std::string log; s.note([&] { return log; }); size_t crossed = 0;
	s.repeat(40, [&] {
		switch (s.weighted({5, 5, 1, 1, 1})) {
		case 0: { size_t n = s.draw(s.chance(1, 8) ? 5000 : 12); auto d = content(n, c); c += n; log += "w" + std::to_string(n) + " "; exact<char> e(d.data(), n); PBT_EQ(f.write(e.get(), n), n, "write"); PBT_REQUIRE(f.ok()); q += d; break; }
		case 1: { size_t n = s.chance(1, 4) ? q.size() + s.draw(2) : s.draw(s.chance(1, 8) ? 6000 : 16); log += "r" + std::to_string(n) + " "; exact<char> e(std::string(n, '#').data(), n); size_t m = f.read(e.get(), n), want = std::min(n, q.size()); PBT_EQ(m, want, "read"); PBT_REQUIRE(std::string(e.get(), m) == q.substr(0, m), "different data"); for (size_t i = m; i < n; i++) if (e.get()[i] != '#') fail("wrote past the data delivered"); q.erase(0, m); if (m) crossed++; PBT_REQUIRE(f.state() == (m || !n ? state_t::ok : state_t::eof), "state"); break; }
		case 2: PBT_EQ(f.size(), q.size(), "size"); break;
		case 3: if (s.chance(1, 3)) { log += "close "; f.close(); q.clear(); PBT_REQUIRE(f.ok()); } break;
		default: { log += "all "; auto r = f.read_remainder(); PBT_REQUIRE(std::string(r.begin(), r.end()) == q, "read_remainder"); q.clear(); } }
		PBT_EQ(f.size(), q.size(), "size");
	});
	s.nontrivial(crossed > 2);
}
PBT_MAIN("S06", "the data is larger than the buffer between the threads, the stream fails, or the queue was read three times")
