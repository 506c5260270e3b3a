// Ring buffer between a producer and a consumer thread. Built with ThreadSanitizer, so that an access to the other side's part is an error as such.
// SANITIZE: -fsanitize=thread
// NOFUZZ: 1
#include "threads.hpp"
#include <atomic>
#include <stdex/ring.hpp>
using namespace pbt;

template<size_t N, class T> static void transfer(Src& s)
{
	auto r = std::make_unique<stdex::ring<T, N>>();
	size_t total = s.len(3000), quit_at = s.chance(1, 3) ? s.draw(total) : SIZE_MAX; // where the consumer gives up
	unsigned linger = s.chance(1, 4) ? static_cast<unsigned>(s.draw(400)) : 0; bool sync = s.boolean(), delay_quit = s.boolean();
	std::vector<uint32_t> wp, rp; s.repeat(8, [&] { wp.push_back(static_cast<uint32_t>(s.draw(N))); }); s.repeat(8, [&] { rp.push_back(static_cast<uint32_t>(s.draw(N))); });
	unsigned wl = static_cast<unsigned>(s.draw(3)), rl = static_cast<unsigned>(s.draw(3)); uint64_t seed = s.draw(UINT32_MAX);
	s.note([&] { return "capacity " + show(N) + ", " + show(total) + " items, portions " + show(wp) + " / " + show(rp) + " jitter " + show(wl) + show(rl) + (quit_at == SIZE_MAX ? "" : " consumer quits at " + show(quit_at)); });
	s.nontrivial(total > N); s.label_if(quit_at != SIZE_MAX, "consumer quits"); s.label_if(sync, "sync");
	std::string werr, rerr; size_t written = 0, got = 0; bool told = false;
	std::atomic<size_t> popped{0};
	std::thread producer([&] {
		thr::jitter j(seed, wl); size_t k = 0;
		while (written < total) {
			T* p; size_t n; std::tie(p, n) = r->back();
			if (!p) { told = true; if (n) werr = "no portion, but a size"; return; }
			if (!n) { werr = "empty portion offered for writing"; r->quit(); return; }
			if (n > N) { werr = "portion larger than the ring"; r->quit(); return; }
			for (size_t i = 0; i < n; i++) p[i] = static_cast<T>(0x5a); // all of it is ours
			size_t want = wp.empty() ? n : wp[k++ % wp.size()]; size_t m = std::min(std::min(n, want ? want : n), total - written);
			for (size_t i = 0; i < m; i++) { p[i] = static_cast<T>(mix(written + i)); if ((i & 15) == 0) j(); }
			written += m;
			r->push(m);
			j();
		}
		if (delay_quit) usleep(300);
		if (sync) { r->sync(); if (quit_at == SIZE_MAX && popped != total) werr = "sync returned before everything was taken"; }
		r->quit();
	});
	std::thread consumer([&] {
		thr::jitter j(seed ^ 0x1234567, rl); size_t k = 0;
		for (;;) {
			if (got >= quit_at) { if (linger) usleep(linger); r->quit(); return; } // the writer may be waiting by now
			T* p; size_t n; std::tie(p, n) = r->front();
			if (!p) { if (n) rerr = "no portion, but a size"; return; }
			if (!n) { rerr = "empty portion offered for reading"; r->quit(); return; }
			if (n > N) { rerr = "portion larger than the ring"; r->quit(); return; }
			size_t want = rp.empty() ? n : rp[k++ % rp.size()]; size_t m = std::min(std::min(n, want ? want : n), quit_at - got);
			for (size_t i = 0; i < n; i++) { if (p[i] != static_cast<T>(mix(got + i))) { rerr = "item " + std::to_string(got + i) + " differs"; r->quit(); return; } if ((i & 15) == 0) j(); }
			for (size_t i = 0; i < m; i++) p[i] = static_cast<T>(0xa5);
			got += m; popped += m;
			r->pop(m);
			j();
		}
	});
	producer.join(); consumer.join();
	PBT_REQUIRE(werr.empty(), werr); PBT_REQUIRE(rerr.empty(), rerr);
	if (quit_at == SIZE_MAX) { PBT_EQ(written, total); PBT_EQ(got, total, "lost at the end"); PBT_REQUIRE(!told, "producer told to stop"); }
	else PBT_REQUIRE(got == quit_at || (got == written && written == total));
}
PBT_CHECK(capacity_1, 1500, 15000, 15, 20) { transfer<1, uint8_t>(s); }
PBT_CHECK(capacity_2, 1500, 15000, 15, 20) { transfer<2, uint8_t>(s); }
PBT_CHECK(capacity_3, 1500, 15000, 15, 20) { transfer<3, uint32_t>(s); }
PBT_CHECK(capacity_7, 2500, 25000, 15, 20) { transfer<7, uint8_t>(s); }
PBT_CHECK(capacity_16, 2500, 25000, 15, 20) { transfer<16, uint16_t>(s); }
PBT_CHECK(capacity_100, 2500, 25000, 15, 20) { transfer<100, uint8_t>(s); }

// One thread, every step compared with a queue model; nothing that would block is called.
template<size_t N> static void model(Src& s)
{
	auto r = std::make_unique<stdex::ring<int, N>>(); std::vector<int> q; int next = 1; bool quit = false; size_t pushed = 0;
	s.repeat(60, [&] {
		size_t op = s.weighted({5, 5, 1});
		if (op == 2 && s.chance(1, 4)) { r->quit(); quit = true; s.note([&] { return std::string("quit"); }); }
		if (op == 0) {
			if (q.size() == N && !quit) return;
			int* p; size_t n; std::tie(p, n) = r->back();
			if (q.size() == N) { PBT_REQUIRE(!p && !n, "offered though full"); return; }
			if (quit) { PBT_REQUIRE(!p && !n, "offered after the end"); return; }
			PBT_REQUIRE(p && n >= 1 && n <= N - q.size(), "offers " + std::to_string(n) + " with " + std::to_string(q.size()) + " stored");
			size_t m = s.range<size_t>(0, n); for (size_t i = 0; i < m; i++) { p[i] = next; q.push_back(next++); } r->push(m); pushed += m; s.note([&] { return "push " + show(m); });
		}
		else if (op == 1) {
			if (q.empty() && !quit) return;
			int* p; size_t n; std::tie(p, n) = r->front();
			if (q.empty()) { PBT_REQUIRE(!p && !n, "items out of nothing"); return; }
			PBT_REQUIRE(p && n >= 1 && n <= q.size());
			for (size_t i = 0; i < n; i++) PBT_EQ(p[i], q[i]);
			size_t m = s.range<size_t>(0, n); r->pop(m); q.erase(q.begin(), q.begin() + static_cast<ptrdiff_t>(m)); s.note([&] { return "pop " + show(m); });
		}
		if (q.empty()) r->sync();
	});
	s.nontrivial(pushed > N);
}
PBT_CHECK(model_1, 10000, 100000, 15) { model<1>(s); }
PBT_CHECK(model_4, 20000, 200000, 15) { model<4>(s); }
PBT_CHECK(model_5, 20000, 200000, 15) { model<5>(s); }
PBT_CHECK(model_13, 20000, 200000, 15) { model<13>(s); }

// Ending wakes whoever waits.
PBT_CHECK(wake, 1500, 15000, 15, 10)
{
	stdex::ring<int, 3> r; size_t who = s.draw(2), fill = s.draw(3); bool early = s.boolean(), ok = false; unsigned us = static_cast<unsigned>(s.draw(200));
	if (who == 0) fill = 3; if (who == 1) fill = 0; if (who == 2 && !fill) fill = 1;
	for (size_t i = 0; i < fill; i++) { int* p; size_t n; std::tie(p, n) = r.back(); *p = 1; r.push(1); }
	s.nontrivial(); s.note([&] { return std::string(who == 0 ? "writer" : who == 1 ? "reader" : "syncing") + " waits"; });
	if (early) r.quit();
	std::thread t([&] { if (who == 0) ok = std::get<0>(r.back()) == nullptr; else if (who == 1) ok = std::get<0>(r.front()) == nullptr; else { r.sync(); ok = true; } });
	usleep(us); if (!early) r.quit();
	t.join(); PBT_REQUIRE(ok, "got something after the end");
}

// A writer waits for room while other threads wait for the ring to run empty: taking everything, or the end, wakes them all.
PBT_CHECK(watchers, 1200, 12000, 15, 10)
{
	stdex::ring<int, 4> r; size_t head = s.draw(3), n_sync = s.range<size_t>(1, 3), pops = s.range<size_t>(1, 4); bool writer = s.boolean(), quit = s.chance(1, 3), writer_first = s.boolean(); unsigned us = static_cast<unsigned>(s.draw(300));
	for (size_t i = 0; i < head; i++) { auto [p, n] = r.back(); *p = 0; r.push(1); auto [q, m] = r.front(); (void)q; (void)m; (void)n; r.pop(1); }
	size_t fill = writer ? 4 : s.range<size_t>(1, 4); for (size_t i = 0; i < fill; i++) { auto [p, n] = r.back(); (void)n; *p = static_cast<int>(i); r.push(1); }
	s.note([&] { return show(n_sync) + " wait for it to run empty" + (writer ? writer_first ? ", a writer before them" : ", a writer after them" : "") + (quit ? ", then it is ended" : ", then " + show(fill) + " are taken in up to " + show(pops) + " pieces"); });
	std::atomic<bool> empty{false}, wrong{false}; std::vector<std::thread> t; bool got_room = true;
	auto start_writer = [&] { if (writer) t.emplace_back([&] { auto [p, n] = r.back(); got_room = quit ? p == nullptr : p != nullptr && n; }); };
	if (writer_first) { start_writer(); usleep(us); }
	for (size_t i = 0; i < n_sync; i++) t.emplace_back([&] { r.sync(); if (!empty) wrong = true; });
	if (!writer_first) { usleep(us); start_writer(); }
	usleep(us);
	if (quit) { empty = true; r.quit(); } else for (size_t left = fill; left;) { auto [p, n] = r.front(); (void)p; size_t m = std::min(n, pops == 1 ? n : std::max<size_t>(1, fill / pops)); if (m == left) empty = true; r.pop(m); left -= m; }
	for (auto& x : t) x.join();
	PBT_REQUIRE(got_room, "writer"); PBT_REQUIRE(!wrong, "told to be empty though it was not"); s.nontrivial(writer || n_sync > 1);
}
PBT_MAIN("C02", "A producer and a consumer thread with random portion sizes and random delays over several capacities, ends at random points, single-thread histories against a queue model, and threads woken by the end; non-trivial: more items than the capacity passed. Oracle: the item sequence; each side scribbles over all it was offered; ThreadSanitizer.")
