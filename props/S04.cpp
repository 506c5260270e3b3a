// Cached files against a byte-array model, for every cache size, over memory, files, short-reading and failing sources.
// SCALE: 5
#include "fileops.hpp"
#include "scripted.hpp"
using namespace fo;
using namespace stdex::stream;

// A file in memory whose transfers may be short, and that fails on demand.
class source : public basic_file
{
public:
	std::string data; uint64_t pos = 0; ts::plan p; uint64_t countdown = UINT64_MAX; unsigned what = 0; bool failed = false, closed = false, throws = false; size_t ops = 0, flushes = 0; mutable bool in_size = false;
	bool bad(unsigned kind) { ops++; if (countdown == UINT64_MAX || !(what & kind)) return false; if (countdown) { countdown--; return false; } failed = true; if (throws) { countdown = UINT64_MAX; throw std::runtime_error("source"); } m_state = state_t::fail; return true; }
	size_t read(void* d, size_t n) override
	{
		if (bad(1)) return 0;
		if (!n) { m_state = state_t::ok; return 0; }
		if (pos >= data.size()) { m_state = state_t::eof; return 0; }
		n = p.cap(static_cast<size_t>(std::min<uint64_t>(n, data.size() - pos))); memcpy(d, data.data() + pos, n); pos += n; m_state = state_t::ok; return n;
	}
	size_t write(const void* d, size_t n) override
	{
		if (bad(2)) return 0;
		if (data.size() < pos + n) data.resize(pos + n, '\0'); data.replace(pos, n, static_cast<const char*>(d), n); pos += n; m_state = state_t::ok; return n;
	}
	uint64_t seek(foff_t o, seek_t how) override { if (bad(4)) return fpos_max; pos = static_cast<uint64_t>(how == seek_t::beg ? o : how == seek_t::cur ? static_cast<foff_t>(pos) + o : static_cast<foff_t>(data.size()) + o); m_state = state_t::ok; return pos; }
	uint64_t tell() const override { return pos; }
	fsize_t size() const override { return data.size(); }
	void truncate() override { if (bad(8)) return; data.resize(pos, '\0'); m_state = state_t::ok; }
	void flush() override { flushes++; if (bad(16)) return; m_state = state_t::ok; }
	void close() override { closed = true; m_state = state_t::ok; }
};
static size_t gen_capacity(Src& s) { return s.chance(1, 6) ? 1 + static_cast<size_t>(s.draw(200)) : s.pick({16, 16, 1, 2, 3, 7, 16, 33, 64}); }

template<class C, class SRC> static void run(Src& s, C& c, SRC& flushed, model& m, opts o, size_t max)
{
	size_t done = 0; std::set<std::string> kinds;
	s.repeat(max, [&] {
		const char* op = step(s, c, m, o); if (*op) { done++; kinds.insert(op); }
		if (!strcmp(op, "flush")) PBT_REQUIRE(flushed() == m.data, "file after a flush");
		s.label_if(m.pos > m.data.size(), "beyond the end"); s.label_if(m.pos % o.unit == 0, "on the boundary of blocks");
	});
	s.nontrivial(done >= 4 && kinds.size() >= 3);
}
PBT_CHECK(over_memory, 60000, 600000)
{
	size_t cap = gen_capacity(s); s.note([&] { return "cache of " + std::to_string(cap); }); opts o; o.unit = cap; o.limit = std::max<size_t>(cap * 6, 60);
	model m; memory_file f; m.data = gen_data(s, static_cast<size_t>(s.draw(o.limit))); f.write(m.data.data(), m.data.size()); m.pos = s.draw(o.limit); f.seekbeg(m.pos);
	auto now = [&] { memory_file c(f); return contents(c); };
	{ cache c(f, cap); compare(c, m, "start"); run(s, c, now, m, o, 50); PBT_REQUIRE(s.boolean() || contents(c) == m.data, "contents"); if (!s.boolean()) { m.pos = s.draw(o.limit); c.seekbeg(m.pos); } else m.pos = c.tell(); }
	PBT_EQ(f.tell(), m.pos, "position of the file afterwards"); PBT_REQUIRE(now() == m.data, "file afterwards");
}
PBT_CHECK(over_short_reads, 30000, 300000)
{
	size_t cap = gen_capacity(s); s.note([&] { return "cache of " + std::to_string(cap); }); opts o; o.unit = cap; o.limit = std::max<size_t>(cap * 6, 60);
	model m; source f; f.p = ts::gen_plan(s, false, 0); m.data = f.data = gen_data(s, static_cast<size_t>(s.draw(o.limit))); auto now = [&] { return f.data; };
	{ cache c(f, cap); run(s, c, now, m, o, 40); PBT_REQUIRE(contents(c) == m.data, "contents"); if (s.boolean()) { c.close(); PBT_REQUIRE(f.closed); PBT_REQUIRE(f.data == m.data, "after closing"); } }
	PBT_REQUIRE(f.data == m.data, "file afterwards");
}
// The default cache size and sizes around it.
PBT_CHECK(large, 3000, 30000)
{
	size_t cap = s.boolean() ? default_cache_size : static_cast<size_t>(1000 + s.draw(9000)); opts o; o.unit = cap; o.limit = 60000; model m; memory_file f; m.data = gen_data(s, static_cast<size_t>(s.draw(30000))); f.write(m.data.data(), m.data.size()); f.seek(0);
	auto now = [&] { memory_file c(f); return contents(c); };
	{ cache c(f, cap); run(s, c, now, m, o, 25); }
	PBT_REQUIRE(now() == m.data, "file afterwards");
}
static scratch& dir() { static scratch d; return d; }
PBT_CHECK(on_disk, 6000, 60000)
{
	auto p = dir() / "f"; size_t cap = gen_capacity(s); opts o; o.unit = cap; o.limit = std::max<size_t>(cap * 6, 60); bool exists = s.boolean(); std::string disk; ::unlink(p.c_str()); if (exists) { disk = gen_data(s, static_cast<size_t>(s.draw(o.limit))); spit(p, disk); }
	s.note([&] { return "cache of " + std::to_string(cap) + " over a file of " + std::to_string(disk.size()); });
	auto now = [&] { return slurp(p); }; bool at_end = s.boolean(); unsigned sessions = 1 + static_cast<unsigned>(s.draw(2));
	{
		cached_file c(p.c_str(), mode_for_reading | mode_for_writing | mode_preserve_existing, cap);
		for (unsigned k = 0; k < sessions; k++) {
			if (k) { bool wr = s.boolean(), app = s.boolean(); int disp = s.boolean() ? mode_open_existing : mode_create; if (!wr) disp = mode_open_existing; if (disp == mode_create) disk.clear(); s.note([&] { return std::string("reopen") + (wr ? " for writing" : " for reading") + (app ? ", append" : ""); });
				c.open(stdex::sstring(p), (wr ? mode_for_writing : mode_for_reading) | disp | (app ? mode_append : 0)); PBT_REQUIRE(c.ok()); o.writable = wr; model m; m.data = disk; if (app) m.pos = disk.size(); compare(c, m, "open"); run(s, c, now, m, o, 25); disk = m.data; }
			else { PBT_REQUIRE(c.ok()); model m; m.data = disk; run(s, c, now, m, o, 25); disk = m.data; }
			if (s.boolean()) { c.close(); PBT_REQUIRE(c.ok()); PBT_REQUIRE(now() == disk, "after closing"); }
		}
		(void)at_end;
	}
	PBT_REQUIRE(now() == disk, "file afterwards");
}
// Something fails underneath: until the flush (or the end) the failure is known, and nothing that came out was wrong.
PBT_CHECK(failures, 40000, 400000)
{
	size_t cap = gen_capacity(s); opts o; o.unit = cap; size_t limit = std::max<size_t>(cap * 6, 60); model m; source f; m.data = f.data = gen_data(s, static_cast<size_t>(s.draw(limit))); f.p = ts::gen_plan(s, false, 0);
	f.what = s.pick({2u, 1u, 4u, 16u, 31u, 3u, 6u}); f.countdown = s.draw(12); bool told = false, writing = false, uncertain = false; auto fw = f.what;
	s.note([&] { return "cache of " + std::to_string(cap) + ", kind " + std::to_string(fw) + " fails after " + std::to_string(f.countdown); });
	auto c = std::make_unique<cache>(f, cap); size_t n = 0; std::string written(limit * 2, '.'), before = m.data; // bytes somebody tried to write
	s.repeat(25, [&] {
		if (told) return;
		n++; bool was = f.failed;
		switch (s.weighted({4, 4, 3, 1, 1})) {
		case 0: { size_t k = gen_size(s, o, limit); exact<char> b(k, '~'); s.note([&] { return "read " + std::to_string(k); }); size_t r = c->read(b.get(), k); std::string e = m.pos < m.data.size() ? m.data.substr(m.pos, k) : "";
			PBT_REQUIRE(r <= e.size(), "more than there is"); PBT_REQUIRE(std::string(b.get(), r) == e.substr(0, r), "wrong data"); m.pos += r; PBT_EQ(c->tell(), m.pos);
			if (r == 0 && k) { if (!e.empty()) { PBT_EQ(c->state(), state_t::fail, "failure reported as something else"); told = true; } else if (c->state() == state_t::fail) told = true; else PBT_EQ(c->state(), state_t::eof); }
			if (r < e.size() && r) PBT_REQUIRE(f.failed, "short for no reason");
			break; }
		case 1: { size_t k = gen_size(s, o, m.pos < limit ? static_cast<size_t>(limit - m.pos) : 0); auto d = gen_data(s, k); s.note([&] { return "write " + std::to_string(k); }); size_t r = c->write(d.data(), k); PBT_REQUIRE(r <= k);
			if (r < k) { PBT_EQ(c->state(), state_t::fail, "short write without failure"); told = true; } else PBT_REQUIRE(c->ok(), "failed though complete"); m.write(d.substr(0, r)); writing |= r > 0; PBT_EQ(c->tell(), m.pos); break; }
		case 2: m.pos = s.draw(limit); s.note([&] { return "seek " + std::to_string(m.pos); }); c->seekbeg(m.pos); break;
		case 3: s.note([] { return std::string("flush"); }); c->flush(); if (!c->ok()) told = true; else PBT_REQUIRE(f.data == m.data, "flush succeeded, but the file differs"); break;
		default: if (f.what & 12) { PBT_EQ(c->size(), m.data.size()); break; } s.note([&] { return "truncate"; }); if (m.pos <= limit) { c->truncate(); if (c->ok()) m.truncate(); else told = true; } }
		if (told) PBT_REQUIRE(f.failed || was, "failed though nothing did");
		(void)uncertain;
	});
	s.nontrivial(n >= 3 && f.failed); s.label_if(told, "told");
	// The end: it was told before, is told now, or all is well.
	bool thrown = false;
	if (s.boolean()) { try { c->close(); } catch (const std::system_error&) { thrown = true; } if (!thrown && !told) PBT_REQUIRE(f.data == m.data, "closed, but the file differs"); if (thrown) { f.countdown = UINT64_MAX; PBT_REQUIRE(f.failed); } }
	else if (s.boolean()) { c->flush(); if (c->ok()) { if (!told) PBT_REQUIRE(f.data == m.data, "flushed, but the file differs"); } else PBT_REQUIRE(f.failed); f.countdown = UINT64_MAX; }
	cache* raw = c.release(); try { delete raw; } catch (const std::system_error&) { thrown = true; PBT_REQUIRE(f.failed); return; }
	if (!told && !thrown) PBT_REQUIRE(f.data == m.data, "the end did not tell of a failure, but the file differs");
}
// A file that fails by an exception, and works again afterwards: the position tells how much of the transfer was made, and nothing else is lost, repeated or made up.
PBT_CHECK(exceptions, 30000, 300000)
{
	size_t cap = gen_capacity(s); opts o; o.unit = cap; size_t limit = std::max<size_t>(cap * 6, 60); model m; source f; m.data = f.data = gen_data(s, static_cast<size_t>(s.draw(limit))); f.p = ts::gen_plan(s, false, 0); f.throws = true;
	f.what = s.pick({1u, 2u, 4u, 16u, 23u, 3u, 5u, 6u}); auto arm = [&] { f.countdown = s.draw(8); }; arm(); size_t n = 0, thrown = 0; auto fw = f.what;
	s.note([&] { return "cache of " + std::to_string(cap) + ", kind " + std::to_string(fw) + " throws"; });
	{
		cache c(f, cap); struct disarm { source& f; ~disarm() { f.countdown = UINT64_MAX; } } end{f};
		s.repeat(25, [&] {
			n++; bool caught = false;
			switch (s.weighted({5, 5, 3, 1})) {
			case 0: { size_t k = gen_size(s, o, limit); exact<char> b(k, '~'); s.note([&] { return "read " + std::to_string(k); }); size_t r = 0; auto was = m.pos; try { r = c.read(b.get(), k); } catch (const std::runtime_error&) { caught = true; r = static_cast<size_t>(c.tell() - was); }
				std::string e = was < m.data.size() ? m.data.substr(was, k) : ""; PBT_REQUIRE(r <= e.size(), "more than there is"); PBT_REQUIRE(std::string(b.get(), r) == e.substr(0, r), "wrong data"); if (!caught) PBT_EQ(r, e.size(), "less than there is"); m.pos += r; PBT_EQ(c.tell(), m.pos); break; }
			case 1: { size_t k = gen_size(s, o, m.pos < limit ? static_cast<size_t>(limit - m.pos) : 0); auto d = gen_data(s, k); s.note([&] { return "write " + std::to_string(k); }); size_t r = 0; auto was = m.pos; try { r = c.write(d.data(), k); PBT_EQ(r, k); } catch (const std::runtime_error&) { caught = true; r = static_cast<size_t>(c.tell() - was); }
				PBT_REQUIRE(r <= k); m.write(d.substr(0, r)); PBT_EQ(c.tell(), m.pos); break; }
			case 2: m.pos = s.draw(limit); s.note([&] { return "seek " + std::to_string(m.pos); }); c.seekbeg(m.pos); break;
			default: s.note([] { return std::string("flush"); }); try { c.flush(); PBT_REQUIRE(c.ok()); PBT_REQUIRE(f.data == m.data, "flushed, but the file differs"); } catch (const std::runtime_error&) { caught = true; } }
			if (caught) { thrown++; s.note([] { return std::string("exception"); }); arm(); }
			PBT_EQ(c.size(), m.data.size(), "size");
		});
	}
	s.nontrivial(n >= 3 && thrown); s.label_if(thrown > 1, "more than one exception"); PBT_REQUIRE(f.data == m.data, "the file differs");
}
// After a failure that passes, a retried flush makes the file whole.
PBT_CHECK(recovery, 20000, 200000)
{
	size_t cap = gen_capacity(s); source f; f.data = gen_data(s, static_cast<size_t>(s.draw(60))); std::string m = f.data; f.what = 2 | (s.boolean() ? 4 : 0); cache c(f, cap); size_t at = static_cast<size_t>(s.draw(80)), k = 1 + static_cast<size_t>(s.draw(cap - 1));
	k = std::min<size_t>(k, cap - 1 - at % cap); if (!k) throw discard_t{}; auto d = gen_data(s, k); s.nontrivial(); c.seekbeg(at); PBT_EQ(c.write(d.data(), k), k); if (m.size() < at + k) m.resize(at + k, '\0'); m.replace(at, k, d);
	f.countdown = 0; c.flush(); PBT_EQ(c.state(), state_t::fail, "flush that could not write"); f.countdown = UINT64_MAX;
	if (s.boolean()) { std::string b(k, '?'); c.seekbeg(at); PBT_EQ(c.read(&b[0], k), k); PBT_EQ(b, d); }
	c.flush(); PBT_REQUIRE(c.ok()); PBT_REQUIRE(f.data == m, "after a repeated flush");
}
// A file that cannot be flushed when the cached file ends: one exception, and the program goes on.
PBT_CHECK(end_of_a_cached_file, 300, 1000)
{
	auto p = dir() / "e"; spit(p, "0123456789"); bool thrown = false; s.nontrivial(); size_t k = 1 + static_cast<size_t>(s.draw(9));
	try { cached_file c(p.c_str(), mode_for_reading | mode_for_writing, 64); PBT_REQUIRE(c.ok()); c.write("abcdefghijkl", k);
		// The handle is replaced by one open for reading only.
		int h = -1; for (int i = 3; i < 200; i++) { char link[300]; ssize_t n = readlink(("/proc/self/fd/" + std::to_string(i)).c_str(), link, sizeof(link) - 1); if (n > 0 && std::string(link, static_cast<size_t>(n)) == p) h = i; }
		if (h < 0) throw discard_t{}; int ro = ::open(p.c_str(), O_RDONLY); dup2(ro, h); ::close(ro); }
	catch (const std::system_error&) { thrown = true; }
	PBT_REQUIRE(thrown, "the end of a cached file that cannot be written went unnoticed"); PBT_EQ(slurp(p), std::string("0123456789"));
}
// Locks and times are those of the file.
PBT_CHECK(locks_and_times, 20000, 200000)
{
	scripted f; for (auto& t : f.t) t = stdex::stream::time_point(stdex::stream::time_point::duration(static_cast<int64_t>(s.draw(1ull << 62)))); cache c(f, gen_capacity(s)); f.log.clear(); s.nontrivial();
	s.repeat(6, [&] {
		f.answer = s.pick({state_t::ok, state_t::eof, state_t::fail}); f.log.clear(); uint64_t o = s.integer<uint64_t>(), l = s.integer<uint64_t>(); auto t = stdex::stream::time_point(stdex::stream::time_point::duration(static_cast<int64_t>(s.draw(1ull << 62)))); size_t op = static_cast<size_t>(s.draw(4)); s.note([&] { return "operation " + std::to_string(op); });
		switch (op) { case 0: c.lock(o, l); PBT_EQ(f.log, "lock " + std::to_string(o) + "+" + std::to_string(l) + ";"); PBT_EQ(c.state(), f.answer); break; case 1: c.unlock(o, l); PBT_EQ(f.log, "unlock " + std::to_string(o) + "+" + std::to_string(l) + ";"); PBT_EQ(c.state(), f.answer); break; case 2: c.set_ctime(t); PBT_EQ(f.log, std::string("ctime;")); PBT_REQUIRE(f.t[0] == t); break; case 3: c.set_atime(t); PBT_EQ(f.log, std::string("atime;")); PBT_REQUIRE(f.t[1] == t); break; default: c.set_mtime(t); PBT_EQ(f.log, std::string("mtime;")); PBT_REQUIRE(f.t[2] == t); }
		PBT_REQUIRE(c.ctime() == f.t[0] && c.atime() == f.t[1] && c.mtime() == f.t[2], "times differ from those of the file");
	});
	f.answer = state_t::ok;
}
PBT_MAIN("S04", "histories of up to 50 operations with sizes and positions around the boundaries of blocks, caches of 1 to 10000 bytes over memory files, files on disk (with reopening), sources with short reads and sources whose reading, writing, seeking, truncating or flushing fails at a random moment; non-trivial: at least 4 operations of 3 kinds, or a failure that happened. Oracle: byte array and position; what the source holds after flush, close and end; failure must have been told if the source differs.")
