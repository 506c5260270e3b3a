// Stream adapters: limiter, window, file window, buffer, replicator, comparison, and stacks of them.
// SCALE: 5
#include "fileops.hpp"
#include "scripted.hpp"
#include <sys/socket.h>
using namespace fo;
using namespace stdex::stream;

PBT_CHECK(limits, 60000, 600000)
{
	std::string data = gen_data(s, s.len(300)); ts::pipe src(data, ts::gen_plan(s, true, 200)); auto lim = [&]() -> fsize_t { return s.chance(1, 5) ? fsize_max : s.draw(200); };
	fsize_t rl = lim(), wl = lim(); limiter l(src, rl, wl); std::string got, put; size_t n = 0; s.note([&] { return "limits " + std::to_string(rl) + ", " + std::to_string(wl) + " over " + std::to_string(data.size()) + " bytes, " + ts::show(src.p); });
	s.repeat(25, [&] {
		n++; size_t k = s.len(120);
		if (s.boolean()) {
			exact<char> b(k, '~'); fsize_t left = rl == fsize_max ? fsize_max : rl - got.size(); size_t r = l.read(b.get(), k); s.note([&] { return "read " + std::to_string(k) + " -> " + std::to_string(r); });
			PBT_REQUIRE(r <= k && r <= left, "more than the limit"); got.append(b.get(), r); PBT_REQUIRE(data.compare(0, got.size(), got) == 0, "other bytes"); PBT_EQ(src.pos, got.size(), "taken from the source, but not delivered");
			if (r) PBT_EQ(l.state(), state_t::ok); else if (!k) PBT_EQ(l.state(), state_t::ok); else PBT_EQ(l.state(), left == 0 ? state_t::eof : src.state());
			if (rl != fsize_max) PBT_EQ(l.read_limit, rl - got.size()); else PBT_EQ(l.read_limit, fsize_max);
		}
		else {
			auto d = gen_data(s, k); fsize_t left = wl == fsize_max ? fsize_max : wl - put.size(); size_t before = src.out.size(), r = l.write(d.data(), k); s.note([&] { return "write " + std::to_string(k) + " -> " + std::to_string(r); });
			PBT_REQUIRE(r <= k && r <= left); PBT_EQ(src.out.size(), before + r); put += d.substr(0, r); PBT_REQUIRE(src.out == put, "other bytes");
			if (r < k) { PBT_EQ(l.state(), state_t::fail, "short write not reported"); PBT_REQUIRE(r == left || src.failed_write); } else PBT_EQ(l.state(), state_t::ok);
			if (wl != fsize_max) PBT_EQ(l.write_limit, wl - put.size());
		}
	});
	s.nontrivial(n >= 3 && got.size() + put.size() > 0); s.label_if(rl == got.size() || wl == put.size(), "limit reached");
}
PBT_CHECK(windows, 60000, 600000)
{
	std::string data = gen_data(s, s.len(300)); ts::pipe src(data, ts::gen_plan(s, false, 0)); uint64_t ro = s.draw(60), wo = s.draw(60); auto lim = [&]() -> fsize_t { return s.chance(1, 5) ? fsize_max : s.draw(200); }; fsize_t rl = lim(), wl = lim();
	window w(src, ro, rl, wo, wl); std::string got, put; bool ended = false; size_t n = 0; s.note([&] { return "reading " + std::to_string(ro) + "+" + std::to_string(rl) + " of " + std::to_string(data.size()) + ", writing " + std::to_string(wo) + "+" + std::to_string(wl); });
	std::string inside = ro < data.size() ? data.substr(ro, static_cast<size_t>(std::min<fsize_t>(rl, 1000))) : "";
	s.repeat(25, [&] {
		n++; size_t k = s.len(120);
		if (s.boolean()) {
			exact<char> b(k, '~'); size_t r = w.read(b.get(), k); s.note([&] { return "read " + std::to_string(k) + " -> " + std::to_string(r); }); PBT_REQUIRE(r <= k); got.append(b.get(), r);
			PBT_REQUIRE(got.size() <= inside.size() && inside.compare(0, got.size(), got) == 0, "other bytes"); if (ended) PBT_EQ(r, 0u);
			if (k && !r) { PBT_EQ(w.state(), state_t::eof); PBT_EQ(got.size(), inside.size(), "ended early"); ended = true; } else if (r) PBT_EQ(w.state(), state_t::ok);
		}
		else {
			auto d = gen_data(s, k); put += d; PBT_EQ(w.write(d.data(), k), k); PBT_REQUIRE(w.ok()); s.note([&] { return "write " + std::to_string(k); });
			std::string e = wo < put.size() ? put.substr(wo, static_cast<size_t>(std::min<fsize_t>(wl, 100000))) : ""; PBT_REQUIRE(src.out == e, "written " + show(src.out) + " vs " + show(e));
		}
	});
	s.nontrivial(n >= 3 && (got.size() || src.out.size())); s.label_if(ended, "window ended");
}
template<class F> static void window_over(Src& s, F& f, std::string all)
{
	size_t start = static_cast<size_t>(s.draw(all.size())), len = static_cast<size_t>(s.draw(all.size() - start)); s.note([&] { return "window " + std::to_string(start) + "+" + std::to_string(len) + " of " + std::to_string(all.size()); });
	if (s.boolean()) f.seekbeg(start); else f.seekbeg(s.draw(all.size() + 5));
	file_window w(f, start, len); model m; m.data = all.substr(start, len); opts o; o.resizable = false; o.limit = len + 20; o.unit = 8; size_t n = 0;
	if (f.tell() == start && s.boolean()) compare(w, m, "start"); else { m.pos = s.draw(len); PBT_EQ(w.seekbeg(m.pos), m.pos); compare(w, m, "seek"); }
	auto outside = [&] { all.replace(start, len, m.data); };
	s.repeat(25, [&] {
		n++;
		if (s.chance(1, 8)) { // over the end
			auto d = gen_data(s, static_cast<size_t>(m.avail() + 1 + s.draw(10))); size_t fit = static_cast<size_t>(m.avail()); s.note([&] { return "write " + std::to_string(d.size()) + " where " + std::to_string(fit) + " fit"; });
			PBT_EQ(w.write(d.data(), d.size()), fit); m.write(d.substr(0, fit)); m.state = state_t::fail; compare(w, m, "write over the end"); w.seekbeg(m.pos); m.state = state_t::ok; return;
		}
		if (s.chance(1, 16)) { s.note([] { return std::string("truncate"); }); w.truncate(); PBT_EQ(w.state(), state_t::fail); m.state = state_t::fail; compare(w, m, "truncate"); w.seekbeg(m.pos); m.state = state_t::ok; return; }
		step(s, w, m, o);
	});
	s.nontrivial(n >= 3 && len > 0); outside(); w.flush(); PBT_REQUIRE(contents(f) == all, "file around the window");
}
static scratch& dir() { static scratch d; return d; }
PBT_CHECK(window_of_memory, 30000, 300000) { auto d = gen_data(s, s.len(200)); memory_file f; f.write(d.data(), d.size()); window_over(s, f, d); }
PBT_CHECK(window_of_cache, 15000, 150000) { auto d = gen_data(s, s.len(200)); memory_file f; f.write(d.data(), d.size()); cache c(f, 1 + static_cast<size_t>(s.draw(40))); window_over(s, c, d); }
PBT_CHECK(window_of_disk, 4000, 40000) { auto d = gen_data(s, s.len(200)); auto p = dir() / "w"; spit(p, d); file f(p.c_str(), mode_for_reading | mode_for_writing); window_over(s, f, d); }
PBT_CHECK(window_locks, 500, 5000, 20)
{
	auto p = dir() / "l"; spit(p, std::string(40, 'x')); file f(p.c_str(), mode_for_reading | mode_for_writing); uint64_t start = s.draw(20), len = 1 + s.draw(15); file_window w(f, start, len); uint64_t at = s.draw(len + 3), n = 1 + s.draw(len + 3); s.nontrivial();
	s.note([&] { return "window " + std::to_string(start) + "+" + std::to_string(len) + ", lock " + std::to_string(at) + "+" + std::to_string(n); });
	std::string e(40, '.'); w.lock(at, n); PBT_EQ(w.ok(), at < len); if (at < len) for (uint64_t i = at; i < at + n && i < len; i++) e[start + i] = 'L'; PBT_EQ(locked_bytes(p, 40), e);
	w.unlock(at, n); PBT_EQ(w.ok(), at < len); PBT_EQ(locked_bytes(p, 40), std::string(40, '.'));
}
// Buffers.
PBT_CHECK(buffers, 60000, 600000)
{
	std::string data = gen_data(s, s.len(300)); ts::pipe src(data, ts::gen_plan(s, true, 200)); auto cap = [&]() -> size_t { return s.chance(1, 6) ? 0 : s.chance(1, 8) ? default_buffer_size : static_cast<size_t>(1 + s.draw(40)); }; size_t rc = cap(), wc = cap(); s.note([&] { return "buffers " + std::to_string(rc) + ", " + std::to_string(wc) + " over " + std::to_string(data.size()) + " bytes, " + ts::show(src.p); });
	std::string got, put; size_t n = 0; bool failed = false, ended = false, closed = false;
	{
		buffer b(src, rc, wc);
		s.repeat(25, [&] {
			if (failed || closed) return;
			n++; size_t k = s.len(120);
			switch (s.weighted({5, 5, 1})) {
			case 0: { exact<char> x(k, '~'); size_t r = b.read(x.get(), k); s.note([&] { return "read " + std::to_string(k) + " -> " + std::to_string(r); }); PBT_REQUIRE(r <= k); got.append(x.get(), r); PBT_REQUIRE(got.size() <= data.size() && data.compare(0, got.size(), got) == 0, "other bytes");
				if (r || !k) PBT_EQ(b.state(), state_t::ok); else { PBT_REQUIRE(!b.ok()); PBT_EQ(b.state(), src.failed_read ? state_t::fail : state_t::eof); if (!src.failed_read) { PBT_EQ(got.size(), data.size(), "ended early"); ended = true; } else PBT_EQ(got.size(), src.pos, "bytes lost"); } break; }
			case 1: { auto d = gen_data(s, k); size_t r = b.write(d.data(), k); s.note([&] { return "write " + std::to_string(k) + " -> " + std::to_string(r); }); PBT_REQUIRE(r <= k); put += d.substr(0, r); PBT_REQUIRE(put.compare(0, src.out.size(), src.out) == 0, "other bytes written"); if (r < k) { PBT_EQ(b.state(), state_t::fail); PBT_REQUIRE(src.failed_write); } if (!b.ok()) failed = true; break; }
			default: s.note([] { return std::string("flush"); }); b.flush(); if (b.ok()) { PBT_REQUIRE(src.out == put, "flushed, but not written"); PBT_REQUIRE(src.flushes > 0); } else { PBT_REQUIRE(src.failed_write); failed = true; } }
		});
		if (failed) { // the rest is kept and goes out once the source works again
			src.p.fail_write = UINT64_MAX; src.failed_write = false; s.label("failed, then recovered"); if (s.boolean()) { b.flush(); PBT_REQUIRE(b.ok()); PBT_REQUIRE(src.out == put, "after recovery"); }
		}
		if (s.boolean()) { s.note([] { return std::string("close"); }); b.close(); if (!src.failed_write) { PBT_REQUIRE(b.ok()); PBT_REQUIRE(src.out == put, "closed, but not written"); } else PBT_REQUIRE(!b.ok(), "closing lost data silently"); PBT_EQ(src.closes, 1u); }
	}
	if (!src.failed_write) PBT_REQUIRE(src.out == put, "left in the buffer"); s.nontrivial(n >= 3 && (got.size() || put.size())); s.label_if(ended, "met the end");
}
// A source that fails by an exception, and works again afterwards: nothing is delivered or written twice, and nothing but the transfer interrupted is lost.
struct interrupted : ts::pipe {
	using pipe::pipe; uint64_t countdown = UINT64_MAX; bool reads = false, writes = false;
	void bad() { if (countdown == UINT64_MAX) return; if (countdown) { countdown--; return; } countdown = UINT64_MAX; throw std::runtime_error("interrupted"); }
	size_t read(void* d, size_t n) override { if (reads) bad(); return pipe::read(d, n); }
	size_t write(const void* d, size_t n) override { if (writes) bad(); return pipe::write(d, n); }
};
PBT_CHECK(buffers_interrupted, 30000, 300000)
{
	std::string data; for (size_t i = 0, n = s.len(300); i < n; i++) data += static_cast<char>(i % 251); auto p = ts::gen_plan(s, true, 200); p.fail_read = p.fail_write = UINT64_MAX; interrupted src(data, p); src.reads = s.boolean(); src.writes = !src.reads || s.boolean(); auto cap = [&]() -> size_t { return s.chance(1, 6) ? 0 : static_cast<size_t>(1 + s.draw(40)); }; size_t rc = cap(), wc = cap();
	s.note([&] { return "buffers " + std::to_string(rc) + ", " + std::to_string(wc) + " over " + std::to_string(data.size()) + " bytes"; }); auto arm = [&] { src.countdown = s.draw(6); }; arm(); size_t n = 0, thrown = 0, at = 0; std::string put;
	{
		buffer b(src, rc, wc); struct disarm { interrupted& f; ~disarm() { f.countdown = UINT64_MAX; } } end{src};
		s.repeat(25, [&] {
			n++; size_t k = s.len(80); bool caught = false;
			switch (s.weighted({5, 5, 1})) {
			case 0: { exact<char> x(k, '~'); size_t r = 0; auto was = src.pos; (void)was; s.note([&] { return "read " + std::to_string(k); }); try { r = b.read(x.get(), k); PBT_REQUIRE(r <= k); PBT_REQUIRE(data.compare(at, r, x.get(), r) == 0, "other bytes"); at += r; if (!r && k) PBT_EQ(at, data.size(), "ended early"); }
				catch (const std::runtime_error&) { caught = true; PBT_REQUIRE(src.pos <= at + k, "more read than asked for"); at = src.pos; } break; } // What the buffer held went with the interrupted transfer.
			case 1: { auto d = gen_data(s, k); s.note([&] { return "write " + std::to_string(k); }); try { size_t r = b.write(d.data(), k); PBT_REQUIRE(r <= k); put += d.substr(0, r); PBT_REQUIRE(put.compare(0, src.out.size(), src.out) == 0, "other bytes written"); }
				catch (const std::runtime_error&) { caught = true; src.countdown = UINT64_MAX; b.flush(); PBT_REQUIRE(b.ok()); PBT_REQUIRE(src.out.size() >= put.size() && src.out.size() <= put.size() + k && src.out == put + d.substr(0, src.out.size() - put.size()), "after an interrupted write"); put = src.out; } break; }
			default: s.note([] { return std::string("flush"); }); try { b.flush(); PBT_REQUIRE(b.ok()); PBT_REQUIRE(src.out == put, "flushed, but not written"); } catch (const std::runtime_error&) { caught = true; } }
			if (caught) { thrown++; s.note([] { return std::string("exception"); }); arm(); }
		});
	}
	PBT_REQUIRE(src.out == put, "left in the buffer"); s.nontrivial(n >= 3 && thrown); s.label_if(thrown > 1, "more than one exception");
}
PBT_CHECK(buffered_handles, 3000, 30000, 20)
{
	int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) throw discard_t{}; std::string in = gen_data(s, s.len(2000)), put, got; size_t n = 0; if (::write(fd[1], in.data(), in.size()) != static_cast<ssize_t>(in.size())) throw discard_t{}; ::shutdown(fd[1], SHUT_WR);
	size_t rc = static_cast<size_t>(s.draw(40)), wc = static_cast<size_t>(s.draw(40)); std::string out;
	{
		buffered_sys b(fd[0], rc, wc); s.repeat(20, [&] { n++; size_t k = s.len(200); if (s.boolean()) { exact<char> x(k, '~'); size_t r = b.read(x.get(), k); got.append(x.get(), r); PBT_REQUIRE(in.compare(0, got.size(), got) == 0, "other bytes"); if (r < k) PBT_EQ(got.size(), in.size(), "short"); } else { auto d = gen_data(s, k); PBT_EQ(b.write(d.data(), k), k); put += d; } });
		if (s.boolean()) { b.close(); PBT_REQUIRE(b.ok()); }
	}
	char x[4096]; ssize_t r; while ((r = ::read(fd[1], x, sizeof(x))) > 0) out.append(x, static_cast<size_t>(r)); ::close(fd[1]); PBT_REQUIRE(out == put, "arrived at the other end"); s.nontrivial(n >= 3);
}
// A target that fails by an exception.
struct thrower : ts::pipe { size_t write(const void* d, size_t n) override { size_t k = pipe::write(d, n); if (k < n) throw std::runtime_error("full"); return k; } };
// The same to every target, whatever each of them takes.
PBT_CHECK(replication, 4000, 40000, 20)
{
	size_t targets = static_cast<size_t>(s.draw(4)); std::vector<std::unique_ptr<ts::pipe>> t; std::vector<std::string> e; std::vector<bool> in, th; std::vector<size_t> fl; size_t n = 0; bool any_fail = false;
	{
		replicator r; auto add = [&] { th.push_back(s.chance(1, 8)); t.emplace_back(th.back() ? new thrower : new ts::pipe("", ts::plan())); if (th.back() || s.chance(1, 6)) t.back()->p.fail_write = s.draw(300); e.emplace_back(); in.push_back(true); fl.push_back(0); r.push_back(t.back().get()); };
		for (size_t i = 0; i < targets; i++) add();
		s.repeat(20, [&] {
			n++;
			switch (s.weighted({8, 1, 1, 2})) {
			case 0: { auto d = gen_data(s, s.len(100)); s.note([&] { return "write " + std::to_string(d.size()); }); size_t w = r.write(d.data(), d.size()), min = d.size(); bool bad = false; for (size_t i = 0; i < t.size(); i++) if (in[i]) { size_t fit = std::min<size_t>(d.size(), static_cast<size_t>(std::min<uint64_t>(t[i]->p.fail_write, 1000000) - e[i].size())); e[i] += d.substr(0, fit); bool short_ = fit < d.size(); if (short_ && th[i]) fit = 0; min = std::min(min, fit); bad |= short_; }
				PBT_EQ(w, min, "written amount"); PBT_EQ(r.state(), bad ? state_t::fail : state_t::ok); any_fail |= bad; break; }
			case 1: if (t.size() < 6) { s.note([] { return std::string("add"); }); add(); } break;
			case 2: { if (t.empty()) break; size_t i = static_cast<size_t>(s.draw(t.size() - 1)); s.note([] { return std::string("remove"); }); r.remove(t[i].get()); in[i] = false; break; }
			default: { s.note([] { return std::string("flush"); }); r.flush(); bool bad = false; for (size_t i = 0; i < t.size(); i++) if (in[i]) { fl[i]++; bad |= !t[i]->ok(); } PBT_EQ(r.state(), bad ? state_t::fail : state_t::ok); } }
			for (size_t i = 0; i < t.size(); i++) { PBT_REQUIRE(t[i]->out == e[i], "target " + std::to_string(i)); PBT_EQ(t[i]->flushes, fl[i]); }
		});
		if (s.boolean()) { r.close(); for (size_t i = 0; i < t.size(); i++) PBT_EQ(t[i]->closes, in[i] ? 1u : 0u); }
	}
	s.nontrivial(n >= 3 && t.size() >= 2); s.label_if(any_fail, "a target failed");
}
// A comparison of files behaves as each of them, and notices a difference.
PBT_CHECK(comparison, 10000, 100000)
{
	size_t k = 1 + static_cast<size_t>(s.draw(2)); auto d = gen_data(s, s.len(100)); std::vector<std::unique_ptr<memory_file>> m; std::vector<basic_file*> p; for (size_t i = 0; i < k; i++) { m.emplace_back(new memory_file); m.back()->write(d.data(), d.size()); m.back()->seek(0); p.push_back(m.back().get()); }
	std::unique_ptr<cache> c; if (s.boolean()) { c.reset(new cache(*p[0], 8)); p[0] = c.get(); }
	diag_file f(p.data(), k); model mod; mod.data = d; opts o; o.limit = 150; o.typed = true; size_t n = 0;
	s.repeat(20, [&] { n++; step(s, f, mod, o); }); s.nontrivial(n >= 3); f.flush(); for (auto& x : m) { auto at = x->tell(); PBT_REQUIRE(contents(*x) == mod.data); x->seekbeg(at); } f.seekbeg(mod.pos);
	if (k > 1 && !mod.data.empty() && s.boolean()) {
		size_t at = static_cast<size_t>(s.draw(mod.data.size() - 1)), a = static_cast<size_t>(s.draw(mod.data.size())), len = static_cast<size_t>(s.draw(mod.data.size())); s.label("difference"); auto& x = *m[k - 1]; x.seekbeg(at); char y = static_cast<char>(mod.data[at] ^ 1); x.write(&y, 1); f.seekbeg(a);
		bool covers = a <= at && at < a + len, thrown = false; std::string b(len, 0); try { f.read(&b[0], len); } catch (const std::runtime_error&) { thrown = true; } PBT_EQ(thrown, covers, "difference noticed");
	}
	c.reset();
}
PBT_CHECK(comparison_of_nothing, 100, 100)
{
	diag_file f(nullptr, 0); s.nontrivial(); char c = 0; PBT_EQ(f.read(&c, 1), 0u); PBT_EQ(f.state(), state_t::fail); PBT_EQ(f.write(&c, 1), 0u); f.lock(0, 1); PBT_REQUIRE(!f.ok()); f.unlock(0, 1); PBT_REQUIRE(!f.ok()); f.truncate(); PBT_REQUIRE(!f.ok()); PBT_EQ(f.tell(), fpos_max); PBT_EQ(f.size(), fsize_max); PBT_EQ(f.seek(0), fpos_max); f.flush(); PBT_REQUIRE(f.ok()); f.close();
}
// Every member is asked the same, and a difference of any of them in what it answers is told.
PBT_CHECK(differences, 60000, 600000)
{
	size_t k = 1 + static_cast<size_t>(s.draw(3)); std::vector<scripted> m(k); std::vector<basic_file*> p; for (auto& x : m) p.push_back(&x); diag_file f(p.data(), k); auto states = {state_t::ok, state_t::eof, state_t::fail};
	s.repeat(6, [&] {
		scripted a; a.amount = s.len(20); a.fill = s.bytes(20); a.answer = s.pick(states); a.position = s.draw(1000); a.length = s.draw(1000); size_t odd = s.boolean() ? static_cast<size_t>(s.draw(k - 1)) : 0, what = 0;
		for (auto& x : m) { x.amount = a.amount; x.fill = a.fill; x.answer = a.answer; x.position = a.position; x.length = a.length; x.log.clear(); }
		if (odd) { auto& x = m[odd]; what = 1 + static_cast<size_t>(s.draw(4)); switch (what) { case 1: x.answer = s.pick(states); break; case 2: x.amount = s.len(20); break; case 3: x.position = s.draw(1000); break; case 4: x.length = s.draw(1000); break; default: if (!x.fill.empty()) { size_t i = static_cast<size_t>(s.draw(x.fill.size() - 1)); x.fill[i] = static_cast<char>(x.fill[i] + s.draw(1)); } } }
		auto& x = m[odd]; bool diff = x.answer != a.answer; size_t n = s.len(25), op = static_cast<size_t>(s.draw(9)); auto d = s.bytes(25); uint64_t o = s.draw(5000), l = s.draw(5000); bool thrown = false; uint64_t r = 0, want = 0; std::string got(n, '~'), asked; foff_t so = static_cast<foff_t>(o) - 2500; seek_t how = s.pick({seek_t::beg, seek_t::cur, seek_t::end});
		try { switch (op) {
			case 0: want = std::min(n, a.amount); asked = "read " + std::to_string(n) + ";"; diff |= std::min(n, x.amount) != want || [&] { std::string u(want, '.'), v = u; u.replace(0, std::min<size_t>(want, a.fill.size()), a.fill, 0, want); v.replace(0, std::min<size_t>(want, x.fill.size()), x.fill, 0, want); return u != v; }(); r = f.read(&got[0], n); break;
			case 1: want = std::min(d.size(), a.amount); asked = "write " + d + ";"; diff |= std::min(d.size(), x.amount) != want; r = f.write(d.data(), d.size()); break;
			case 2: asked = "flush;"; f.flush(); break;
			case 3: asked = "close;"; f.close(); break;
			case 4: want = a.position; asked = "seek " + std::to_string(so) + " by " + std::to_string(static_cast<int>(how)) + ";"; diff |= x.position != want; r = f.seek(so, how); break;
			case 5: want = a.position; diff = x.position != want; r = static_cast<const diag_file&>(f).tell(); break;
			case 6: asked = "lock " + std::to_string(o) + "+" + std::to_string(l) + ";"; f.lock(o, l); break;
			case 7: asked = "unlock " + std::to_string(o) + "+" + std::to_string(l) + ";"; f.unlock(o, l); break;
			case 8: want = a.length; diff = x.length != want; r = static_cast<const diag_file&>(f).size(); break;
			default: asked = "truncate;"; f.truncate(); }
		} catch (const std::runtime_error&) { thrown = true; }
		s.note([&] { return "operation " + std::to_string(op) + " on " + std::to_string(k) + ", member " + std::to_string(odd) + " answers " + (diff ? "differently" : "the same"); });
		PBT_EQ(thrown, diff, "difference told"); s.nontrivial(k > 1); s.label_if(diff, "difference");
		if (!thrown) { PBT_EQ(r, want, "answer"); for (auto& y : m) PBT_EQ(show(y.log), show(asked), "what a member was asked"); if (op != 5 && op != 8) PBT_EQ(f.state(), a.answer, "state"); if (!op) { std::string u(want, '.'); u.replace(0, std::min<size_t>(want, a.fill.size()), a.fill, 0, want); PBT_EQ(show(got.substr(0, want)), show(u), "data"); PBT_REQUIRE(got.substr(want) == std::string(n - want, '~'), "more written than read"); } }
	});
}
// Adapters on adapters: what goes through is a part of what the source has, in order and complete.
PBT_CHECK(stacks, 30000, 300000)
{
	std::string data = gen_data(s, s.len(400)); ts::pipe src(data, ts::gen_plan(s, false, 0)); std::string expect = data, what; std::vector<std::unique_ptr<basic>> v; basic* top = &src; uint64_t wskip = 0, wlim = UINT64_MAX / 4;
	s.repeat(5, [&] {
		switch (s.draw(3)) {
		case 0: { size_t a = static_cast<size_t>(s.draw(30)), b = static_cast<size_t>(s.draw(30)); v.emplace_back(new buffer(*top, a, b)); what += " buffer"; break; }
		case 1: { uint64_t l = s.draw(300); v.emplace_back(new limiter(*top, l, fsize_max)); expect.resize(std::min<size_t>(expect.size(), static_cast<size_t>(l))); what += " limiter"; break; }
		case 2: { uint64_t a = s.draw(20), l = s.draw(300), x = s.draw(20), y = s.draw(300); v.emplace_back(new window(*top, a, l, x, y)); expect = expect.substr(std::min<size_t>(expect.size(), static_cast<size_t>(a)), static_cast<size_t>(l)); wlim = wskip >= y ? 0 : std::min(wlim, y - wskip); wskip += x; what += " window"; break; }
		default: v.emplace_back(new converter(*top)); what += " plain"; }
		top = v.back().get();
	});
	s.note([&] { return std::to_string(data.size()) + " bytes through" + what; }); std::string got, put; size_t n = 0; bool ended = false;
	s.repeat(20, [&] {
		n++; size_t k = s.len(100);
		if (s.boolean()) { exact<char> b(k, '~'); size_t r = top->read(b.get(), k); got.append(b.get(), r); PBT_REQUIRE(got.size() <= expect.size() && expect.compare(0, got.size(), got) == 0, "other bytes read"); if (k && !r) { PBT_EQ(top->state(), state_t::eof); PBT_EQ(got.size(), expect.size(), "ended early"); ended = true; } }
		else { auto d = gen_data(s, k); PBT_EQ(top->write(d.data(), k), k); put += d; }
	});
	while (!v.empty()) v.pop_back();
	// What each window lets through: a window closer to the source counts what comes out of the ones above.
	s.nontrivial(n >= 3 && what.size() > 8); s.label_if(ended, "met the end"); (void)wskip; (void)wlim;
	if (what.find("window") == std::string::npos) PBT_REQUIRE(src.out == put, "other bytes written"); else PBT_REQUIRE(put.find(src.out) != std::string::npos, "not a part of what was written");
}
PBT_MAIN("S05", "limiters, windows, file windows (over memory, cache and disk), buffers of 0 to 1024 bytes, replicators of 0 to 6 targets, comparisons of files and stacks of adapters over sources with short transfers and failures at random moments; histories of up to 25 operations with sizes around the limits; non-trivial: at least 3 operations that moved bytes. Oracle: the parts of the source's bytes prescribed by limits and offsets, byte-array model of a window, what every target received.")
