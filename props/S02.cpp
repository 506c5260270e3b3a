// Memory files against a byte-array model and against files of the operating system.
// SCALE: 5
#include "fileops.hpp"
using namespace fo;
using stdex::stream::memory_file;

static void history(Src& s, memory_file& f, model& m, const opts& o, size_t max)
{
	size_t done = 0; std::set<std::string> kinds;
	s.repeat(max, [&] { const char* op = step(s, f, m, o); if (*op) { done++; kinds.insert(op); } if (m.pos > m.data.size()) s.label("beyond the end"); if (m.state == state_t::eof) s.label("met the end"); });
	s.nontrivial(done >= 4 && kinds.size() >= 3);
	PBT_REQUIRE(contents(f) == m.data, "contents");
}
PBT_CHECK(operations, 60000, 600000)
{
	opts o; model m; memory_file f = s.chance(1, 4) ? memory_file(static_cast<size_t>(1 + s.draw(300))) : memory_file();
	history(s, f, m, o, 60);
}
// Around the steps in which memory grows.
PBT_CHECK(growth, 1500, 15000)
{
	opts o; o.unit = 0x10000; o.limit = 400000; model m; memory_file f; history(s, f, m, o, 25);
}
// Memory of someone else: cannot grow.
PBT_CHECK(borrowed, 20000, 200000)
{
	size_t size = static_cast<size_t>(s.draw(200)), extra = static_cast<size_t>(s.draw(40)); exact<char> mem(size + extra, 'x'); auto d = gen_data(s, size); memcpy(mem.get(), d.data(), size);
	memory_file f(mem.get(), size, size + extra); model m; m.data = d; opts o; o.limit = size + extra; o.growing = false;
	size_t done = 0; s.repeat(30, [&] { done += *step(s, f, m, o) != 0 && m.pos <= size + extra; if (m.data.size() > size + extra) fail("grown"); });
	// Past the end of the memory nothing is written.
	f.seek(static_cast<int64_t>(s.draw(size + extra))); size_t at = static_cast<size_t>(f.tell()); std::string more(size + extra - at + 1 + static_cast<size_t>(s.draw(20)), 'y'); auto before = f.size();
	switch (s.draw(3)) { case 0: PBT_EQ(f.write(more.data(), more.size()), 0u); break; case 1: f.write_byte('y', more.size()); break; case 2: f.write_str(std::string(more)); break; default: { f.seek(static_cast<int64_t>(size + extra)); at = size + extra; f.write_data(uint32_t(7)); } }
	PBT_EQ(f.state(), state_t::fail); PBT_EQ(f.tell(), at); PBT_EQ(f.size(), before); PBT_REQUIRE(contents(f) == m.data); s.nontrivial(done > 2);
}
// The same operations on a file of the operating system.
PBT_CHECK(as_a_file, 6000, 60000)
{
	static scratch dir; auto p = dir / "f"; ::unlink(p.c_str());
	memory_file a; stdex::stream::file b(p.c_str(), stdex::stream::mode_for_reading | stdex::stream::mode_for_writing | stdex::stream::mode_create_new); PBT_REQUIRE(b.ok());
	opts o; o.limit = 500; size_t n = 0; int kind = 0;
	s.repeat(30, [&] {
		n++; size_t len = static_cast<size_t>(s.draw(60)); exact<char> x(len, '~'), y(len, '~'); uint64_t to = s.draw(400);
		switch (kind = static_cast<int>(s.draw(7))) {
		case 0: PBT_EQ(a.read(x.get(), len), b.read(y.get(), len)); PBT_REQUIRE(x.str() == y.str(), "data"); break;
		case 1: { auto d = gen_data(s, len); PBT_EQ(a.write(d.data(), len), b.write(d.data(), len)); break; }
		case 2: PBT_EQ(a.seek(static_cast<int64_t>(to)), b.seek(static_cast<int64_t>(to))); break;
		case 3: a.truncate(); b.truncate(); break;
		case 4: { uint32_t v = 1, w = 2; a.read_data(v); b.read_data(w); PBT_EQ(v, w); break; }
		case 5: { std::string v("q"), w("r"); uint32_t l = 0; auto at = b.tell(); b.read_array(&l, 4, 1); b.seekbeg(at); a.seekbeg(at); if (l < 2000) { a.read_str(v); b.read_str(w); PBT_EQ(v, w); } break; }
		case 6: a.write_data(uint16_t(to)); b.write_data(uint16_t(to)); break;
		default: { auto v = a.read_remainder(len), w = b.read_remainder(len); PBT_REQUIRE(v == w, "remainder"); } }
		PBT_EQ(a.state(), b.state(), show(kind)); PBT_EQ(a.tell(), b.tell(), show(kind)); PBT_EQ(a.size(), b.size(), show(kind));
	});
	s.nontrivial(n >= 4);
	a.save(p.c_str(), stdex::stream::mode_create); PBT_REQUIRE(a.ok()); auto disk = slurp(p); PBT_REQUIRE(disk == contents(a), "saved");
}
// Saving, loading, copying, moving, closing.
PBT_CHECK(whole, 6000, 60000)
{
	static scratch dir; auto p = dir / "g"; opts o; model m; memory_file f; size_t n = 0;
	spit(p, std::string(static_cast<size_t>(s.draw(300)), 'z'));
	s.repeat(8, [&] {
		n++; s.repeat(6, [&] { step(s, f, m, o); });
		switch (s.draw(8)) {
		case 0: s.note([] { return std::string("save"); }); f.save(p.c_str(), s.boolean() ? stdex::stream::mode_create : stdex::stream::mode_preserve_existing); PBT_EQ(f.state(), state_t::ok); m.state = state_t::ok; PBT_EQ(f.tell(), m.pos); PBT_REQUIRE(slurp(p) == m.data, "saved"); break;
		case 1: s.note([] { return std::string("load"); }); f.load(p.c_str(), stdex::stream::mode_open_existing); m.data = slurp(p); m.pos = 0; m.state = state_t::ok; compare(f, m, "load"); break;
		case 2: { memory_file c(f); PBT_EQ(c.tell(), m.pos); PBT_EQ(c.size(), m.data.size()); PBT_REQUIRE(contents(c) == m.data, "copy"); c.seek(0); c.write("QQQQ", 4); c.truncate(); break; }
		case 3: { memory_file c; c.write("old", 3); c = f; PBT_EQ(c.tell(), m.pos); PBT_REQUIRE(contents(c) == m.data, "assigned"); c = static_cast<const memory_file&>(c); PBT_REQUIRE(contents(c) == m.data); break; }
		case 4: { memory_file c(std::move(f)); PBT_EQ(f.size(), 0u); PBT_EQ(f.tell(), 0u); PBT_EQ(c.tell(), m.pos); PBT_EQ(c.size(), m.data.size()); if (s.boolean()) { PBT_EQ(f.write("left", 4), 4u, "what was moved can be used"); PBT_REQUIRE(f.ok() && contents(f) == "left"); } f = std::move(c); PBT_EQ(c.size(), 0u); PBT_EQ(c.write("again", 5), 5u, "what was moved can be used"); PBT_REQUIRE(c.ok() && contents(c) == "again"); m.state = f.state(); compare(f, m, "move"); break; }
		case 5: s.note([] { return std::string("close"); }); f.close(); m = model(); compare(f, m, "close"); break;
		case 6: { bool tight = s.boolean(); size_t k = s.boolean() ? m.data.size() + static_cast<size_t>(s.draw(100)) : static_cast<size_t>(s.draw(m.data.size())); s.note([&] { return "reserve " + std::to_string(k); }); f.reserve(k, tight); if (tight && k < m.data.size()) m.data.resize(k); m.state = state_t::ok; compare(f, m, "reserve"); break; }
		case 7: { if (m.data.size() < 8) break; uint64_t off = s.draw(m.data.size() - 8); uint32_t v = static_cast<uint32_t>(s.draw(UINT32_MAX)), w = 0; f.set(off, v); m.data.replace(off, 4, std::string(reinterpret_cast<char*>(&v), 4)); f.get(off, w); PBT_EQ(v, w);
			int64_t q = 0, e; f.get(off, q); memcpy(&e, m.data.data() + off, 8); PBT_EQ(q, e); compare(f, m, "set"); break; }
		default: { f.load((dir / "absent").c_str(), stdex::stream::mode_open_existing); PBT_EQ(f.state(), state_t::fail); m.state = state_t::fail; compare(f, m, "load of an absent file"); f.seek(static_cast<int64_t>(m.pos)); m.state = state_t::ok; } }
	});
	PBT_REQUIRE(contents(f) == m.data, "contents"); s.nontrivial(n >= 2);
}
// Positions that cannot be.
PBT_CHECK(bad_seeks, 3000, 10000)
{
	memory_file f; std::string d(static_cast<size_t>(s.draw(50)), 'd'); f.write(d.data(), d.size()); auto at = s.draw(60); f.seekbeg(at); s.nontrivial(); auto over = static_cast<int64_t>(1 + s.draw(100));
	bool refused = false; try { uint64_t r = s.draw(2) == 0 ? f.seekcur(-static_cast<int64_t>(at) - over) : s.boolean() ? f.seekend(-static_cast<int64_t>(d.size()) - over) : f.seek(-over); refused = r == stdex::stream::fpos_max && !f.ok(); } catch (const std::exception&) { refused = true; }
	PBT_REQUIRE(refused, "negative position accepted"); PBT_EQ(f.tell(), at);
}
// Values set and got anywhere in the contents, up to their very end.
template<class T> static void cell(Src& s, memory_file& f, std::string& d, uint64_t at)
{
	if (d.size() < sizeof(T)) return; uint64_t off = s.chance(1, 3) ? d.size() - sizeof(T) : s.draw(d.size() - sizeof(T)); T v, w{}; std::string x = s.bytes(sizeof(T)); x.resize(sizeof(T), '\x5a'); memcpy(&v, x.data(), sizeof(T));
	if (s.boolean()) { f.set(off, v); memcpy(&d[static_cast<size_t>(off)], x.data(), sizeof(T)); } f.get(off, w); PBT_REQUIRE(!memcmp(&w, d.data() + off, sizeof(T)), "value of " + std::to_string(sizeof(T)) + " bytes at " + std::to_string(off)); PBT_EQ(f.tell(), at, "position moved"); PBT_REQUIRE(contents(f) == d, "contents"); f.seekbeg(at);
}
PBT_CHECK(values_in_place, 40000, 400000)
{
	std::string d = s.bytes(40); exact<char> e(d); bool own = s.boolean(); memory_file o; if (own) o.write(d.data(), d.size()); memory_file b(e.get(), d.size(), d.size(), false); memory_file& f = own ? o : b; uint64_t at = s.draw(50); f.seekbeg(at); size_t n = 0;
	s.repeat(8, [&] { n++; switch (s.draw(10)) { case 0: cell<int8_t>(s, f, d, at); break; case 1: cell<int16_t>(s, f, d, at); break; case 2: cell<int32_t>(s, f, d, at); break; case 3: cell<int64_t>(s, f, d, at); break; case 4: cell<uint8_t>(s, f, d, at); break; case 5: cell<uint16_t>(s, f, d, at); break; case 6: cell<uint32_t>(s, f, d, at); break; case 7: cell<uint64_t>(s, f, d, at); break; case 8: cell<float>(s, f, d, at); break; case 9: cell<double>(s, f, d, at); break; default: cell<char>(s, f, d, at); } });
	s.note([&] { return std::to_string(d.size()) + " bytes"; }); s.nontrivial(n && d.size() > 8);
}
PBT_MAIN("S02", "histories of up to 60 operations (read, write, write of bytes, values, strings, lines, arrays, copies, seek in three ways, skip, truncate, remainder, flush) with sizes around the growth steps, on own and borrowed memory, with saves, loads, copies and moves between; non-trivial: at least 4 operations of 3 kinds. Oracle: a byte array and a position, and the same operations on a file of the operating system.")
