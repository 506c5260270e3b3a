// Default stream methods over streams that transfer short amounts, end and fail.
// SCALE: 3
#include "fileops.hpp"
using namespace fo;
using namespace stdex::stream;

// How a source ends: what can be got from it and how it says so.
struct source_t { std::string data; ts::plan p; uint64_t can() const { return std::min<uint64_t>(data.size(), p.fail_read); } state_t end() const { return p.fail_read <= data.size() ? state_t::fail : state_t::eof; } };
static source_t gen_source(Src& s)
{
	source_t r; size_t n = s.chance(1, 12) ? static_cast<size_t>(s.draw(200000)) : s.chance(1, 8) ? 0x10000 - 2 + static_cast<size_t>(s.draw(4)) : s.len(300); r.data = gen_data(s, n);
	if (s.chance(1, 2)) s.repeat(6, [&] { r.p.shorts.push_back(static_cast<uint32_t>(n > 2000 ? 1000 + s.draw(70000) : s.draw(s.boolean() ? 4 : 300))); });
	if (s.chance(1, 3)) r.p.fail_read = s.draw(n);
	s.note([&] { return "source of " + std::to_string(n) + " bytes, " + ts::show(r.p); });
	return r;
}
static uint64_t gen_amount(Src& s, uint64_t around) { switch (s.weighted({3, 3, 2, 1})) { case 0: return s.draw(around + 20); case 1: return around > 2 ? around - 2 + s.draw(4) : s.draw(4); case 2: return fsize_max; default: return s.draw(40); } }

PBT_CHECK(copy, 60000, 600000)
{
	auto so = gen_source(s); uint64_t amount = gen_amount(s, so.data.size()); ts::plan dp; if (s.chance(1, 3)) dp.fail_write = s.draw(so.data.size() + 1); ts::pipe in(so.data, so.p), out("", dp); s.note([&] { return "copy " + std::to_string(amount) + ", writing fails at " + std::to_string(dp.fail_write); });
	uint64_t moved = out.write_stream(in, amount), want = std::min({amount, so.can(), dp.fail_write});
	PBT_EQ(moved, out.out.size(), "amount reported"); PBT_EQ(moved, want, "amount moved"); PBT_REQUIRE(so.data.compare(0, out.out.size(), out.out) == 0, "other bytes"); if (!out.failed_write) PBT_EQ(in.pos, moved, "taken from the source, but not written");
	if (out.failed_write) PBT_EQ(out.state(), state_t::fail, "failed write"); else if (in.failed_read) PBT_EQ(out.state(), state_t::fail, "failed read"); else PBT_EQ(out.state(), state_t::ok, "orderly end");
	PBT_REQUIRE(moved == amount || out.failed_write || in.failed_read || in.saw_eof); if (moved == amount && moved < dp.fail_write) PBT_EQ(out.state(), state_t::ok);
	s.nontrivial(want > 0); s.label_if(out.failed_write, "write failed"); s.label_if(in.failed_read, "read failed"); s.label_if(in.saw_eof, "source ended"); s.label_if(want > 0x10000, "more than a block");
}
// The same into a memory file, which reads straight into its memory.
PBT_CHECK(copy_to_memory, 40000, 400000)
{
	auto so = gen_source(s); uint64_t amount = gen_amount(s, so.data.size()); if (amount != fsize_max && amount > 300000) throw discard_t{}; ts::pipe in(so.data, so.p); std::string old = gen_data(s, s.len(60)), buf; size_t pos = static_cast<size_t>(s.draw(old.size() + 10)); bool own = s.boolean(), fixed = s.chance(1, 4); memory_file f;
	size_t room = SIZE_MAX; if (fixed) room = old.size() + static_cast<size_t>(s.draw(so.data.size() + 40)); exact<uint8_t> mem(fixed ? room : 0, 0xee);
	if (fixed) { if (!old.empty()) memcpy(mem.get(), old.data(), old.size()); new (&f) memory_file(mem.get(), old.size(), room); } else f.write(old.data(), old.size());
	if (pos > room) throw discard_t{};
	f.seekbeg(pos); s.note([&] { return "copy " + std::to_string(amount) + " to " + std::to_string(pos) + " of " + std::to_string(old.size()) + (fixed ? " with room for " + std::to_string(room) : ""); });
	uint64_t want = std::min<uint64_t>(amount, so.can()), moved = own ? f.write_stream(in, amount == fsize_max ? SIZE_MAX : static_cast<size_t>(amount)) : static_cast<basic&>(f).write_stream(in, amount);
	bool fits = pos + want <= room;
	if (fits) {
		// Without room for everything asked for, nothing may be moved, but that is a failure.
		if (fixed && amount != fsize_max && pos + amount > room && !f.ok() && !moved) { s.label("no room for all that was asked for"); return; }
		PBT_EQ(moved, want, "amount moved"); PBT_EQ(f.state(), in.failed_read ? state_t::fail : state_t::ok);
	} else { PBT_EQ(f.state(), state_t::fail, "overflow not reported"); PBT_REQUIRE(moved <= room - pos); s.label("no room"); }
	std::string e = old; if (moved) { if (e.size() < pos + moved) e.resize(pos + static_cast<size_t>(moved)); e.replace(pos, static_cast<size_t>(moved), so.data, 0, static_cast<size_t>(moved)); }
	PBT_EQ(f.size(), e.size(), "size"); PBT_EQ(f.tell(), pos + moved, "position"); PBT_REQUIRE(e.empty() || !memcmp(f.data(), e.data(), e.size()), "contents"); s.nontrivial(want > 0); s.label_if(own, "own method"); s.label_if(fixed, "fixed memory");
}
PBT_CHECK(remainder, 50000, 500000)
{
	auto so = gen_source(s); ts::pipe in(so.data, so.p); size_t skip = s.chance(1, 2) ? static_cast<size_t>(s.draw(std::min<size_t>(30, static_cast<size_t>(so.can())))) : 0; std::string b(skip, ' '); if (skip) PBT_EQ(in.read_array(&b[0], 1, skip), skip); uint64_t max = gen_amount(s, so.data.size() - skip); s.note([&] { return "remainder up to " + std::to_string(max); });
	auto r = in.read_remainder(static_cast<size_t>(max)); size_t want = static_cast<size_t>(std::min<uint64_t>(max, so.can() - skip));
	PBT_EQ(r.size(), want, "amount"); PBT_REQUIRE(!want || !memcmp(r.data(), so.data.data() + skip, want), "other bytes"); PBT_EQ(in.pos, skip + want);
	if (want < max) PBT_EQ(in.state(), so.end()); else if (max) PBT_EQ(in.state(), state_t::ok); s.nontrivial(want > 0); s.label_if(want > 0x10000, "more than a block");
	if (s.chance(1, 3)) { memory_file f; f.write(so.data.data(), so.data.size()); size_t pos = static_cast<size_t>(s.draw(so.data.size() + 3)); f.seekbeg(pos); auto q = f.read_remainder(static_cast<size_t>(max)); size_t w = static_cast<size_t>(std::min<uint64_t>(max, pos < so.data.size() ? so.data.size() - pos : 0)); PBT_EQ(q.size(), w, "of a file"); PBT_REQUIRE(!w || !memcmp(q.data(), so.data.data() + pos, w)); PBT_EQ(f.tell(), pos + w); }
}
PBT_CHECK(arrays, 60000, 600000)
{
	auto so = gen_source(s); ts::pipe in(so.data, so.p); size_t es = 1 + static_cast<size_t>(s.draw(s.boolean() ? 8 : 100)), n = 0; uint64_t at = 0;
	s.repeat(6, [&] {
		size_t k = static_cast<size_t>(s.draw(s.boolean() ? 5 : so.data.size() / es + 3)); s.note([&] { return "read " + std::to_string(k) + " elements of " + std::to_string(es); }); exact<char> b(k * es, '~');
		size_t r = in.read_array(b.get(), es, k); uint64_t want = std::min<uint64_t>((so.can() - at) / es, k), got = std::min<uint64_t>(so.can() - at, k * es); n++;
		PBT_EQ(r, want, "complete elements"); PBT_REQUIRE(!want || !memcmp(b.get(), so.data.data() + at, static_cast<size_t>(want * es)), "other bytes"); at += got; PBT_EQ(in.pos, at, "consumed"); PBT_EQ(in.state(), r == k ? state_t::ok : so.end(), "state");
		s.label_if(got % es, "incomplete element");
	});
	ts::plan dp; if (s.chance(1, 2)) dp.fail_write = s.draw(400); ts::pipe out("", dp); size_t k = static_cast<size_t>(s.draw(400 / es)); auto d = gen_data(s, k * es); size_t w = out.write_array(d.data(), es, k); PBT_REQUIRE(out.out == d.substr(0, static_cast<size_t>(std::min<uint64_t>(d.size(), dp.fail_write)))); PBT_EQ(w, out.out.size() / es, "elements written"); PBT_EQ(out.state(), out.out.size() < d.size() ? state_t::fail : state_t::ok);
	bool threw = false; try { char c; in.read_array(&c, SIZE_MAX / 2, 3); } catch (const std::invalid_argument&) { threw = true; } PBT_REQUIRE(threw, "overflow of the size not reported"); s.nontrivial(n > 0 && so.can() > 0);
}
PBT_CHECK(skipping, 50000, 500000)
{
	auto so = gen_source(s); ts::pipe in(so.data, so.p); uint64_t at = 0; size_t n = 0;
	s.repeat(6, [&] {
		uint64_t k = s.boolean() ? s.draw(20) : s.boolean() ? s.draw(so.data.size() + 5) : 0xfffe + s.draw(4); s.note([&] { return "skip " + std::to_string(k); }); in.skip(k); uint64_t got = std::min<uint64_t>(k, so.can() - at); at += got; n++;
		PBT_EQ(in.pos, at, "skipped"); if (got < k) PBT_EQ(in.state(), so.end()); else if (k) PBT_EQ(in.state(), state_t::ok);
		if (s.boolean()) { bool threw = false; uint8_t b = 0; try { b = in.read_byte(); } catch (const std::system_error&) { threw = true; } PBT_EQ(threw, at >= so.can(), "byte read"); if (!threw) { PBT_EQ(b, static_cast<uint8_t>(so.data[static_cast<size_t>(at)])); at++; } }
	});
	s.nontrivial(n > 0 && at > 0); s.label_if(at > 0x10000, "more than a block");
}
PBT_CHECK(fill, 40000, 400000)
{
	ts::plan dp; if (s.chance(1, 3)) dp.fail_write = s.draw(200); ts::pipe out("", dp); std::string all; bool failed = false;
	s.repeat(5, [&] {
		uint8_t b = static_cast<uint8_t>(s.draw(255)); uint64_t k = s.chance(1, 30) ? 0xfff0 + s.draw(0x20000) : s.draw(40); s.note([&] { return "write " + std::to_string(k) + " times"; }); out.write_byte(b, k); all.append(static_cast<size_t>(k), static_cast<char>(b)); size_t can = static_cast<size_t>(std::min<uint64_t>(all.size(), dp.fail_write));
		PBT_REQUIRE(out.out == all.substr(0, can), "written"); if (can < all.size()) failed = true; if (k) PBT_EQ(out.state(), can < all.size() ? state_t::fail : state_t::ok); if (failed) all.resize(can);
	});
	memory_file f; std::string e; s.repeat(4, [&] { uint8_t b = static_cast<uint8_t>(s.draw(255)); size_t k = static_cast<size_t>(s.draw(40)); f.write_byte(b, k); e.append(k, static_cast<char>(b)); }); PBT_EQ(f.size(), e.size()); PBT_REQUIRE(e.empty() || !memcmp(f.data(), e.data(), e.size()), "memory file"); s.nontrivial(all.size() > 0);
}
PBT_MAIN("S07", "at least one byte can be moved")
