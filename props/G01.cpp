// Progress: rate limiting, section mapping, nesting, timeout, aggregation over threads.
// SANITIZE: -fsanitize=thread
// NOFUZZ: 1
// SCALE: 4
#include "threads.hpp"
#include <mutex>
#include <shared_mutex>
#include <stdex/progress.hpp>
using namespace pbt;

template<class T> struct rec : stdex::progress<T>
{
	std::vector<std::string> log; std::vector<T> values; T start{}, end{}, last{}; bool cancelled = false; std::mutex m; size_t asked = 0;
	void set_text(const char* t) override { std::lock_guard<std::mutex> l(m); log.push_back(std::string("text ") + t); }
	void set_range(T a, T b) override { std::lock_guard<std::mutex> l(m); start = a; end = b; log.push_back("range " + pbt::show(a) + " " + pbt::show(b)); }
	void set(T v) override { std::lock_guard<std::mutex> l(m); last = v; values.push_back(v); log.push_back("set " + pbt::show(v)); }
	void show(bool s = true) override { std::lock_guard<std::mutex> l(m); log.push_back(s ? "show" : "hide"); }
	bool cancel() override { std::lock_guard<std::mutex> l(m); asked++; return cancelled; }
};
template<class T> struct lazy : stdex::lazy_progress<T> { using stdex::lazy_progress<T>::lazy_progress; std::vector<T> got; void do_set() override { got.push_back(this->m_value); } };

PBT_CHECK(rate_limit, 60000, 300000)
{
	bool none = s.boolean(); lazy<int> p(none ? std::chrono::nanoseconds(0) : std::chrono::hours(1)); int a = s.range(-20, 20), b = a + s.range(0, 40); p.set_range(a, b);
	std::vector<int> vals; s.repeat(30, [&] { vals.push_back(s.chance(1, 4) ? (s.boolean() ? a : b) : s.range(a, b)); }); s.note([&] { return "range " + show(a) + ".." + show(b) + (none ? ", no limit: " : ", an hour: ") + show(vals); });
	size_t between = 0; bool have = false; int prev = 0; size_t seen = 0;
	for (int v : vals) {
		p.set(v); bool reported = p.got.size() > seen; if (reported) { PBT_EQ(p.got.size(), seen + 1, "reported more than once"); PBT_EQ(p.got.back(), v); }
		bool edge = v == a || v == b;
		if (edge) PBT_REQUIRE(reported, "the first or final position " + show(v) + " was swallowed");
		else if (none) { if (have && v != prev) PBT_REQUIRE(reported, "a new position was swallowed without a limit"); if (have && v == prev) PBT_REQUIRE(!reported, "the same position was reported again"); }
		else if (reported) PBT_REQUIRE(++between <= 1, "reported more often than the limit allows");
		if (reported) { have = true; prev = v; seen = p.got.size(); }
	}
	s.nontrivial(vals.size() > 2 && b > a);
}
// The limit counts from the last report.
PBT_CHECK(rate_limit_in_time, 60, 600, 30, 3)
{
	lazy<int> p(std::chrono::milliseconds(20)); p.set_range(0, 1000); p.set(0); auto t0 = std::chrono::steady_clock::now(); int v = 1; size_t n = 1; s.nontrivial();
	p.set(v); auto t1 = std::chrono::steady_clock::now(); if (t1 - t0 < std::chrono::milliseconds(15)) PBT_EQ(p.got.size(), n, "reported within the limit"); n = p.got.size();
	std::this_thread::sleep_for(std::chrono::milliseconds(25)); p.set(++v + 1); PBT_EQ(p.got.size(), n + 1, "swallowed after the limit");
}

template<class T> static void section(Src& s)
{
	rec<T> host; stdex::global_progress<T> g(s.boolean() ? &host : nullptr); bool attached = false; g.attach(&host); attached = true; size_t mapped = 0;
	T gs = static_cast<T>(s.draw(50)), ge = static_cast<T>(gs + s.draw(1000)); g.set_global_range(gs, ge); PBT_REQUIRE(host.start == gs && host.end == ge, "overall range");
	T ss = gs, se = ge, ls = 0, le = 0; bool have_local = false, have_section = false;
	s.repeat(30, [&] {
		size_t before = host.log.size();
		switch (s.draw(8)) {
		case 0: ss = static_cast<T>(gs + s.draw(static_cast<uint64_t>(ge - gs))); se = static_cast<T>(ss + s.draw(static_cast<uint64_t>(ge - ss))); g.set_section_range(ss, se); have_section = true; PBT_EQ(host.log.size(), before); break;
		case 1: case 2: ls = static_cast<T>(s.draw(100)); le = static_cast<T>(ls + s.draw(s.boolean() ? 5 : 2000)); g.set_range(ls, le); have_local = true; PBT_EQ(host.log.size(), before, "local range reaches the host"); break;
		case 3: g.set_text("abc"); PBT_EQ(host.log.size(), before + attached); if (attached) PBT_EQ(host.log.back(), std::string("text abc")); break;
		case 4: { bool b = s.boolean(); g.show(b); PBT_EQ(host.log.size(), before + attached); if (attached) PBT_EQ(host.log.back(), std::string(b ? "show" : "hide")); break; }
		case 5: host.cancelled = s.boolean(); PBT_EQ(g.cancel(), attached && host.cancelled); break;
		case 6: { auto* k = g.detach(); PBT_REQUIRE(k == (attached ? &host : nullptr), "detach"); attached = false; if (s.chance(2, 3)) { g.attach(&host); attached = true; } break; }
		default: {
			if (!have_local || !have_section) break;
			T v = static_cast<T>(ls + s.draw(static_cast<uint64_t>(le - ls))); g.set(v);
			if (!attached || le == ls) { PBT_EQ(host.log.size(), before, "reported without a range or host"); break; }
			T want = static_cast<T>(static_cast<__int128>(v - ls) * (se - ss) / (le - ls) + ss); PBT_EQ(host.log.size(), before + 1); PBT_EQ(host.last, want, "position " + show(v) + " of " + show(ls) + ".." + show(le) + " in section " + show(ss) + ".." + show(se)); PBT_REQUIRE(want >= gs && want <= ge); if (v == ls) PBT_EQ(host.last, ss); if (v == le) PBT_EQ(host.last, se); mapped++;
		} }
	});
	s.nontrivial(mapped > 0); s.note([&] { return "host saw " + show(host.values); });
}
PBT_CHECK(section_int, 60000, 300000) { section<int>(s); }
PBT_CHECK(section_size, 60000, 300000) { section<size_t>(s); }
PBT_CHECK(section_int64, 60000, 300000) { section<int64_t>(s); }

// Switchers nested in scopes: positions are mapped through every level and the host pointer is restored.
PBT_CHECK(nesting, 60000, 300000)
{
	rec<int64_t> host; stdex::progress<int64_t>* p = &host; size_t depth = 1 + s.draw(4); std::string trace;
	std::function<void(size_t)> level = [&](size_t left) {
		auto* outer = p;
		{
			stdex::progress_switcher<int64_t> sw(p); PBT_REQUIRE(p == &sw, "not switched");
			int64_t lo = s.range<int64_t>(0, 1000), hi = lo + s.range<int64_t>(0, 1000); sw.set_global_range(0, 2000); sw.set_section_range(lo, hi); p->set_range(0, 2000);
			if (left > 1) { p->set_range(0, 2000); level(left - 1); PBT_REQUIRE(p == &sw, "inner scope did not restore"); }
			size_t n = host.values.size(); p->set(s.range<int64_t>(0, 2000)); PBT_EQ(host.values.size(), n + 1); PBT_REQUIRE(host.last >= 0 && host.last <= 2000, "left the range: " + show(host.last));
			if (depth == left && outer == &host) PBT_REQUIRE(host.last >= lo && host.last <= hi, "left the section");
			if (s.chance(1, 5)) { auto* k = sw.detach(); sw.set(5); sw.attach(k); }
		}
		PBT_REQUIRE(p == outer, "host not restored");
	};
	level(depth); PBT_REQUIRE(p == &host); s.nontrivial(depth > 1);
}
PBT_CHECK(timeouts, 400, 4000, 30, 3)
{
	rec<int> host; bool with = s.boolean(), long_ = s.boolean(); s.nontrivial();
	stdex::timeout_progress<int> t(long_ ? std::chrono::nanoseconds(std::chrono::hours(1)) : std::chrono::nanoseconds(std::chrono::milliseconds(1)), with ? &host : nullptr);
	t.set_text("x"); t.set_range(1, 9); t.set(4); t.show(false); PBT_EQ(host.log.size(), size_t(with ? 4 : 0)); if (with) PBT_REQUIRE(host.log[0] == "text x" && host.log[1] == "range 1 9" && host.log[2] == "set 4" && host.log[3] == "hide");
	if (long_) { PBT_EQ(t.cancel(), false); host.cancelled = true; PBT_EQ(t.cancel(), with); } else { usleep(3000); PBT_EQ(t.cancel(), true, "deadline passed"); }
}

PBT_CHECK(aggregate, 60000, 300000)
{
	rec<int64_t> host, other; size_t n = 1 + s.draw(4); bool now = s.boolean(); stdex::aggregate_progress<int64_t> g(n, now ? &host : nullptr); rec<int64_t>* cur = now ? &host : nullptr;
	struct part { int64_t a = 0, b = 0, v = 0; }; std::vector<part> parts(n); size_t sets = 0; auto sum = [&](int64_t part::* f) { int64_t r = 0; for (auto& p : parts) r += p.*f; return r; };
	auto agrees = [&] { if (cur) { PBT_EQ(cur->start, sum(&part::a), "start"); PBT_EQ(cur->end, sum(&part::b), "end"); PBT_EQ(cur->last, sum(&part::v), "position"); } };
	agrees();
	s.repeat(40, [&] {
		size_t i = s.draw(n - 1), before = cur ? cur->log.size() : 0; auto& p = parts[i];
		switch (s.draw(6)) {
		case 0: case 1: p.a = s.range<int64_t>(-50, 50); p.b = p.a + s.range<int64_t>(0, 100); g[i].set_range(p.a, p.b); break;
		case 2: case 3: p.v = s.range<int64_t>(-50, 150); g[i].set(p.v); sets++; break;
		case 4: { auto* k = g.detach(); PBT_REQUIRE(k == cur, "detach"); cur = nullptr; break; }
		case 5: cur = s.boolean() ? &host : &other; g.attach(cur); break;
		default: g[i].set_text("t"); g[i].show(true); if (cur) { PBT_EQ(cur->log.size(), before + 2); PBT_REQUIRE(cur->log[before] == "text t" && cur->log[before + 1] == "show"); cur->cancelled = s.boolean(); PBT_EQ(g[i].cancel(), cur->cancelled); } else PBT_EQ(g[i].cancel(), false);
		}
		agrees();
	});
	s.nontrivial(n > 1 && sets > 1);
}
// Parts on threads of their own while hosts come and go. Every part counts in its own two decimal digits, so that a position
// reported decodes into what each part had reported.
PBT_CHECK(threads, 500, 5000, 30, 20)
{
	size_t n = 2 + s.draw(2); unsigned steps = 5 + static_cast<unsigned>(s.draw(60)), lv = static_cast<unsigned>(s.draw(2)); uint64_t seed = s.draw(UINT32_MAX); bool swap = s.boolean();
	s.note([&] { return show(n) + " parts, " + show(steps) + " steps" + (swap ? ", hosts come and go" : ""); });
	rec<int64_t> host, fin; stdex::aggregate_progress<int64_t> g(n, &host); std::vector<std::thread> t; std::atomic<bool> stop{false};
	for (size_t i = 0; i < n; i++) t.emplace_back([&, i] { thr::jitter j(seed + i * 7919, lv); int64_t unit = 1; for (size_t k = 0; k < i; k++) unit *= 100; g[i].set_range(0, steps * unit); for (unsigned v = 1; v <= steps; v++) { g[i].set(v * unit); j(); } });
	std::thread c; if (swap) c = std::thread([&] { thr::jitter j(seed ^ 5, lv); while (!stop) { g.detach(); j(); g.attach(&host); j(); } });
	for (auto& x : t) x.join(); stop = true; if (swap) c.join();
	g.attach(&fin); int64_t total = 0, unit = 1; for (size_t i = 0; i < n; i++, unit *= 100) total += steps * unit;
	PBT_EQ(fin.last, total, "positions lost"); PBT_EQ(fin.end, total, "ranges lost"); PBT_EQ(fin.start, int64_t(0));
	for (int64_t v : host.values) { int64_t r = v; PBT_REQUIRE(v >= 0 && v <= total, "left the range"); for (size_t i = 0; i < n; i++, r /= 100) PBT_REQUIRE(r % 100 <= steps, "invented position " + show(v)); }
	if (!swap) { PBT_EQ(host.values.size(), 1 + n * steps); std::set<int64_t> u(host.values.begin(), host.values.end()); PBT_EQ(u.size(), host.values.size(), "a sum reported twice"); PBT_REQUIRE(u.count(total), "the final position was never reported"); }
	s.nontrivial(steps > 8);
}
PBT_MAIN("G01", "Random ranges, sections, positions, nestings, attach/detach histories, threads with jitter under ThreadSanitizer; non-trivial: more than two positions, a mapped position, nesting over one level, several parts. Oracle: exact proportional mapping, sums kept by the model, digit-coded positions.")
