// Spin lock exclusion and visibility (ThreadSanitizer), watchdog against its timetable.
// SANITIZE: -fsanitize=thread
// NOFUZZ: 1
#include "threads.hpp"
#include <stdex/spinlock.hpp>
#include <stdex/watchdog.hpp>
using namespace pbt;

PBT_CHECK(exclusion, 1000, 10000, 30, 20)
{
	struct { stdex::spinlock l; uint64_t plain = 0; int inside = 0; } d; std::atomic<const char*> err{nullptr}; std::atomic<uint64_t> done{0}, busy{0};
	unsigned n = 2 + static_cast<unsigned>(s.draw(2)), level = static_cast<unsigned>(s.draw(2)), ops = 10 + static_cast<unsigned>(s.draw(100)), style = static_cast<unsigned>(s.draw(2)); uint64_t seed = s.draw(UINT32_MAX);
	s.note([&] { return show(n) + " threads, " + show(ops) + " entries each, jitter " + show(level) + ", style " + show(style); });
	std::vector<std::thread> t;
	for (unsigned w = 0; w < n; w++) t.emplace_back([&, w] {
		thr::jitter j(seed + w * 104729, level);
		for (unsigned i = 0; i < ops; i++) {
			bool by_try = style == 1 || (style == 2 && j.next() % 2);
			if (by_try) { if (!d.l.try_lock()) { busy++; j(); continue; } } else d.l.lock();
			if (d.inside++ != 0) err = "two threads inside";
			d.plain++; j();
			if (d.inside-- != 1) err = "two threads inside";
			d.l.unlock(); done++; j();
		}
	});
	for (auto& x : t) x.join();
	s.nontrivial(done > n); s.label_if(busy > 0, "tried while held");
	PBT_REQUIRE(!err, err.load()); PBT_EQ(d.plain, done.load(), "entries lost");
}
PBT_CHECK(trying, 20000, 100000)
{
	stdex::spinlock l; bool held = false; size_t steps = 0;
	s.repeat(30, [&] { steps++;
		if (held) { if (s.boolean()) { PBT_REQUIRE(!l.try_lock(), "entered a held lock"); } else { l.unlock(); held = false; } }
		else { if (s.boolean()) { PBT_REQUIRE(l.try_lock(), "refused a free lock"); } else l.lock(); held = true; } });
	s.nontrivial(steps > 2); if (held) l.unlock();
}
// A holder that keeps the lock for a while: others get in afterwards, not before.
PBT_CHECK(handover, 400, 4000, 20, 10)
{
	stdex::spinlock l; int value = 0, seen = -1; unsigned us = static_cast<unsigned>(s.draw(2000)); s.nontrivial();
	l.lock(); std::thread t([&] { l.lock(); seen = value; l.unlock(); }); usleep(us); value = 42; l.unlock(); t.join(); PBT_EQ(seen, 42);
}

// A callback is justified only by a silence of at least the timeout somewhere between consecutive pats (measured from
// before the earlier pat to after the later one, so that a slow machine cannot make a right watchdog look wrong).
using clk = std::chrono::steady_clock;
PBT_CHECK(watchdog_timetable, 160, 1600, 60, 3)
{
	auto timeout = std::chrono::milliseconds(10 + s.draw(40)); struct step { bool silent; unsigned ms; }; std::vector<step> plan;
	s.repeat(12, [&] { bool z = s.chance(1, 3); plan.push_back({z, z ? 0u : static_cast<unsigned>(s.draw(static_cast<uint64_t>(timeout.count()) / 2))}); });
	s.note([&] { std::string r = "timeout " + show(timeout.count()) + " ms:"; for (auto& x : plan) r += x.silent ? " silence" : " pat after " + std::to_string(x.ms); return r; });
	std::atomic<unsigned> calls{0}; bool callback_blocks = s.chance(1, 4); unsigned silences = 0, gaps = 0;
	{
		auto prev = clk::now(); // before the last pat
		auto wd = std::make_unique<stdex::watchdog<clk>>(std::chrono::duration_cast<clk::duration>(timeout), [&] { calls++; if (callback_blocks) usleep(3000); });
		for (auto& x : plan) {
			if (x.silent) {
				// It must call, and only once, however long the silence goes on.
				unsigned base = calls; auto t0 = clk::now();
				while (calls <= base && clk::now() - t0 < std::chrono::seconds(20)) usleep(500);
				PBT_REQUIRE(calls > base, "silence not noticed"); silences++;
				std::this_thread::sleep_for(timeout * 2); PBT_REQUIRE(calls <= gaps + 1, "called more than once in one silence");
			}
			else std::this_thread::sleep_for(std::chrono::milliseconds(x.ms));
			auto b = clk::now(); wd->reset(); auto a = clk::now();
			if (a - prev >= timeout - std::chrono::milliseconds(1)) gaps++;
			PBT_REQUIRE(calls <= gaps, "called though patted in time");
			prev = b;
		}
		if (s.boolean()) usleep(static_cast<useconds_t>(s.draw(3000)));
	}
	unsigned at_end = calls; std::this_thread::sleep_for(timeout * 2); PBT_EQ(calls.load(), at_end, "called after destruction");
	s.nontrivial(plan.size() >= 2 && silences > 0); s.label_if(callback_blocks, "slow callback");
}
// The callback runs unlocked: it may pat the watchdog itself, and others may pat while it runs, without waiting for it.
PBT_CHECK(watchdog_callback_pats, 60, 600, 20, 3)
{
	auto timeout = std::chrono::milliseconds(1 + s.draw(10)); bool own = s.boolean(), other = !own || s.boolean(); unsigned want = 1 + static_cast<unsigned>(s.draw(3)); s.nontrivial(); s.label_if(own, "patted by the callback"); s.label_if(other, "patted during the callback");
	struct { std::mutex m; std::condition_variable cv; bool in = false, patted = false; unsigned calls = 0, done = 0; stdex::watchdog<clk>* wd = nullptr; } d;
	{
		std::unique_lock<std::mutex> k(d.m);
		stdex::watchdog<clk> wd(std::chrono::duration_cast<clk::duration>(timeout), [&] {
			std::unique_lock<std::mutex> l(d.m); d.calls++; if (d.done >= want) return;
			if (other) { d.in = true; d.patted = false; d.cv.notify_all(); if (!d.cv.wait_for(l, std::chrono::seconds(10), [&] { return d.patted; })) return; }
			l.unlock(); if (own) d.wd->reset(); l.lock();
			d.done++; d.cv.notify_all(); });
		d.wd = &wd;
		for (unsigned i = 0; i < want; i++) {
			if (other) { bool got = d.cv.wait_for(k, std::chrono::seconds(15), [&] { return d.in; }); PBT_REQUIRE(got, "silence not noticed after a pat during the callback"); d.in = false; k.unlock(); wd.reset(); k.lock(); d.patted = true; d.cv.notify_all(); }
			PBT_REQUIRE(d.cv.wait_for(k, std::chrono::seconds(15), [&] { return d.done > i; }), "pat during the callback does not get through");
		}
		k.unlock();
	}
	PBT_REQUIRE(d.calls >= want);
}
// Patted steadily from several threads for many timeouts.
PBT_CHECK(watchdog_steady, 60, 600, 60, 3)
{
	auto timeout = std::chrono::milliseconds(30 + s.draw(30)); unsigned n = 1 + static_cast<unsigned>(s.draw(2)); std::atomic<unsigned> calls{0}; std::atomic<bool> stop{false}; s.nontrivial();
	std::mutex m; std::vector<std::pair<clk::time_point, clk::time_point>> pats; pats.emplace_back(clk::now(), clk::now());
	unsigned made;
	{
		stdex::watchdog<clk> wd(std::chrono::duration_cast<clk::duration>(timeout), [&] { calls++; }); std::vector<std::thread> t;
		for (unsigned w = 0; w < n; w++) t.emplace_back([&] { while (!stop) { auto b = clk::now(); wd.reset(); auto a = clk::now(); { std::lock_guard<std::mutex> l(m); pats.emplace_back(b, a); } usleep(1000); } });
		std::this_thread::sleep_for(timeout * 5); stop = true; for (auto& x : t) x.join(); made = calls; pats.emplace_back(clk::now(), clk::now());
	}
	std::sort(pats.begin(), pats.end()); unsigned gaps = 0; for (size_t i = 1; i < pats.size(); i++) if (pats[i].second - pats[i - 1].first >= timeout - std::chrono::milliseconds(1)) gaps++;
	PBT_REQUIRE(made <= gaps, "called " + std::to_string(made) + " times, silences " + std::to_string(gaps));
}
// Destruction at any moment ends the thread, also while it waits for the next pat.
PBT_CHECK(watchdog_end, 200, 2000, 20, 3)
{
	std::atomic<unsigned> calls{0}; auto timeout = s.boolean() ? std::chrono::milliseconds(s.draw(5)) : std::chrono::milliseconds(3600000); unsigned us = static_cast<unsigned>(s.draw(8000)); s.nontrivial();
	{ stdex::watchdog<clk> wd(std::chrono::duration_cast<clk::duration>(timeout), [&] { calls++; }); usleep(us); if (s.boolean()) wd.reset(); }
	unsigned e = calls; usleep(1000); PBT_EQ(calls.load(), e); PBT_REQUIRE(timeout.count() < 1000 || e == 0);
}
PBT_MAIN("C04", "2 to 4 threads entering through lock and try with random delays; timetables of pats and silences around the timeout, steady pats from several threads, pats from within and during the callback, destruction at random moments; non-trivial: more entries than threads, or a timetable with a silence. Oracle: exclusion counters, ThreadSanitizer, silences measured so that a slow machine cannot accuse a right watchdog.")
