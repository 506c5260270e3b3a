// Object pool: a bag-per-node model on one thread, ownership tracking on several.
// SANITIZE: -fsanitize=thread
// NOFUZZ: 1
// SCALE: 2
#include "threads.hpp"
#include <memory>
#include <stdex/pool.hpp>
using namespace pbt;

struct object { std::atomic<int> holders{0}; std::atomic<int>* dead; int id; uint64_t payload = 0; object(int i, std::atomic<int>* d) : dead(d), id(i) {} ~object() { (*dead)++; } };
using ptr = std::unique_ptr<object>;

PBT_CHECK(model, 60000, 600000)
{
	std::atomic<int> dead{0}; int made = 0; bool reused = false; size_t cleared = 0;
	{
		stdex::pool<ptr> p; std::map<int, std::multiset<int>> bag; std::vector<ptr> held;
		s.repeat(60, [&] {
			size_t op = s.weighted({6, 6, 1}); int node = static_cast<int>(s.draw(3)); bool dflt = s.chance(1, 4);
			if (dflt) node = -1;
			if (op == 0) {
				ptr o;
				if (!held.empty() && s.boolean()) { size_t i = s.draw(held.size() - 1); o = std::move(held[i]); held.erase(held.begin() + static_cast<ptrdiff_t>(i)); } else o.reset(new object(++made, &dead));
				int id = o->id; s.note([&] { return "return " + show(id) + " to node " + show(node); });
				if (dflt) p.push(std::move(o)); else p.push(std::move(o), node + 100);
				PBT_REQUIRE(!o); bag[node].insert(id);
			}
			else if (op == 1) {
				ptr o = dflt ? p.pop() : p.pop(node + 100); s.note([&] { return "take from node " + show(node) + ": " + (o ? show(o->id) : "nothing"); });
				if (!o) PBT_REQUIRE(bag[node].empty(), "nothing although there is something");
				else { auto f = bag[node].find(o->id); PBT_REQUIRE(f != bag[node].end(), "handed out what was not there"); bag[node].erase(f); PBT_REQUIRE(o->holders == 0); held.push_back(std::move(o)); reused = true; }
			}
			else { int before = dead; size_t n = 0; for (auto& b : bag) { n += b.second.size(); b.second.clear(); } p.clear(); PBT_EQ(static_cast<size_t>(dead - before), n, "released by clearing"); cleared += n; s.note([] { return std::string("clear"); }); }
			size_t n = 0; for (auto& b : bag) n += b.second.size();
			PBT_EQ(static_cast<size_t>(made) - static_cast<size_t>(dead), n + held.size(), "objects alive");
		});
	}
	s.nontrivial(reused); s.label_if(cleared > 0, "cleared something");
	PBT_EQ(dead.load(), made, "released by destruction");
}

PBT_CHECK(threads, 1200, 12000, 20, 20)
{
	std::atomic<int> dead{0}, made{0}; std::atomic<const char*> err{nullptr};
	unsigned n = 2 + static_cast<unsigned>(s.draw(4)), level = static_cast<unsigned>(s.draw(3)), ops = 20 + static_cast<unsigned>(s.draw(400)); uint64_t seed = s.draw(UINT32_MAX); int nodes = 1 + static_cast<int>(s.draw(2)); bool clearing = s.chance(1, 3);
	s.note([&] { return show(n) + " threads, " + show(ops) + " operations each, " + show(nodes) + " nodes, jitter " + show(level) + (clearing ? ", with clearing" : ""); });
	size_t reused = 0; std::mutex m;
	{
		stdex::pool<ptr> p; std::vector<std::thread> t; std::vector<std::vector<ptr>> held(n);
		for (unsigned w = 0; w < n; w++) t.emplace_back([&, w] {
			thr::jitter j(seed + w * 7919, level); size_t got = 0; auto& h = held[w];
			for (unsigned i = 0; i < ops && !err; i++) {
				uint64_t r = j.next(); int node = static_cast<int>(r >> 20) % nodes; if (node < 0) node = 0;
				if (clearing && r % 97 == 0) { p.clear(); continue; }
				if (r % 2) {
					ptr o = (r >> 8) % 5 ? p.pop(node) : p.pop();
					if (o) got++; else { o.reset(new object(++made, &dead)); }
					if (o->holders.fetch_add(1) != 0) err = "object handed to two users";
					o->payload = (uint64_t(w) << 32) + i; j(); if (o->payload != (uint64_t(w) << 32) + i) err = "object changed by another user";
					h.push_back(std::move(o));
				}
				else if (!h.empty()) {
					size_t k = (r >> 9) % h.size(); ptr o = std::move(h[k]); h.erase(h.begin() + static_cast<ptrdiff_t>(k));
					if (o->holders.fetch_sub(1) != 1) err = "object returned while used by another";
					if ((r >> 8) % 5) p.push(std::move(o), node); else p.push(std::move(o)); j();
				}
			}
			std::lock_guard<std::mutex> lg(m); reused += got;
		});
		for (auto& x : t) x.join();
		PBT_REQUIRE(!err, err.load());
		if (!clearing) {
			// Everything returned is still there.
			size_t left = 0; int self = numa_node_of_cpu(sched_getcpu()); std::set<int> where{self}; for (int i = 0; i < nodes; i++) where.insert(i);
			for (int i = -1; i < 64; i++) while (ptr o = p.pop(i)) { left++; PBT_REQUIRE(o->holders == 0); held[0].push_back(std::move(o)); }
			size_t all = 0; for (auto& h : held) all += h.size(); PBT_EQ(all, static_cast<size_t>(made.load()), "objects lost");
		}
	}
	s.nontrivial(reused > 0);
	PBT_EQ(dead.load(), made.load());
}
PBT_MAIN("C03", "Random histories of taking, returning and clearing on several nodes against a bag model, and 2 to 6 threads with random operations and delays; non-trivial: an object came out of the pool. Oracle: bag model, holder counts in the objects, construction and destruction counts, ThreadSanitizer.")
