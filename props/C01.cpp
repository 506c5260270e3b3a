// The bounded vector queue against std::deque, with an element type that counts its lives.
// SCALE: 4
#include "pbt.hpp"
#include <deque>
#include <stdex/vector_queue.hpp>
using namespace pbt;

struct tracked
{
	static long alive; static std::set<const tracked*>* where;
	int v = 0; std::unique_ptr<int> own; // a double destruction or lost move shows up as a memory error
	tracked(int x = 0) : v(x), own(new int(x)) { alive++; where->insert(this); }
	tracked(const tracked& o) : v(o.v), own(new int(o.get())) { alive++; where->insert(this); }
	tracked(tracked&& o) : v(o.v), own(std::move(o.own)) { o.v = -999; alive++; where->insert(this); }
	tracked& operator=(const tracked& o) { if (!where->count(this)) fail("assigned to what was not constructed"); v = o.v; own.reset(new int(o.get())); return *this; }
	tracked& operator=(tracked&& o) { if (!where->count(this)) fail("assigned to what was not constructed"); v = o.v; own = std::move(o.own); o.v = -999; return *this; }
	~tracked() { alive--; if (!where->erase(this)) abort(); }
	int get() const { return own ? *own == v ? v : -1 : -2; }
};
long tracked::alive = 0; std::set<const tracked*>* tracked::where = new std::set<const tracked*>();
static int val(const tracked& t) { return t.get(); }
static int val(int t) { return t; }
static int val(const std::string& t) { return t.size() > 30 ? atoi(t.c_str() + 30) : -5; }
template<class T> T make(int v) { return T(v); }
template<> std::string make<std::string>(int v) { return std::string(30, '.') + std::to_string(v); }

struct model { std::deque<int> q; size_t cap; };

template<class T> static void compare(const stdex::vector_queue<T>& c, stdex::vector_queue<T>& m, const model& w, bool bounds = true)
{
	PBT_EQ(c.size(), w.q.size()); PBT_EQ(c.empty(), w.q.empty()); PBT_EQ(c.capacity(), w.cap);
	for (size_t i = 0; i < w.q.size(); i++) {
		PBT_EQ(val(c[i]), w.q[i], "element " + std::to_string(i) + " of " + std::to_string(w.q.size()));
		PBT_EQ(val(m[i]), w.q[i]); PBT_EQ(val(c.at(i)), w.q[i]); PBT_EQ(val(m.at(i)), w.q[i]);
		PBT_EQ(val(c.at_abs(c.abs(i))), w.q[i]); PBT_EQ(val(m.at_abs(m.abs(i))), w.q[i]);
	}
	if (!bounds) { if (!w.q.empty()) { PBT_EQ(val(c.front()), w.q.front()); PBT_EQ(val(c.back()), w.q.back()); PBT_EQ(val(c.at_abs(c.tail())), w.q.back()); } return; }
	auto throws = [&](auto f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; };
	PBT_REQUIRE(throws([&] { (void)c[w.q.size()]; }) && throws([&] { (void)m[w.q.size()]; }) && throws([&] { (void)c.at(w.q.size()); }) && throws([&] { (void)m.at(w.q.size() + 3); }));
	PBT_REQUIRE(throws([&] { (void)c.at_abs(w.cap); }) && throws([&] { (void)m.at_abs(w.cap); }));
	if (!w.q.empty()) {
		PBT_EQ(val(c.front()), w.q.front()); PBT_EQ(val(m.front()), w.q.front()); PBT_EQ(val(c.back()), w.q.back()); PBT_EQ(val(m.back()), w.q.back());
		PBT_EQ(val(c.at_abs(c.head())), w.q.front()); PBT_EQ(val(c.at_abs(c.tail())), w.q.back());
	}
	else PBT_REQUIRE(throws([&] { (void)c.front(); }) && throws([&] { (void)m.front(); }) && throws([&] { (void)c.back(); }) && throws([&] { (void)m.back(); }) && throws([&] { (void)c.tail(); }));
}

template<class T> static void history(Src& s)
{
	long before = tracked::alive;
	{
		using Q = stdex::vector_queue<T>;
		std::vector<std::unique_ptr<Q>> q; std::vector<model> w;
		auto add = [&](size_t cap) { q.emplace_back(new Q(cap)); w.push_back({{}, cap}); };
		add(1 + s.draw(8)); add(1 + s.draw(12));
		int next = 1; bool wrapped = false, full = false;
		auto usable = [&](size_t i) { return w[i].cap > 0; };
		s.repeat(80, [&] {
			size_t i = s.draw(q.size() - 1), j = s.draw(q.size() - 1);
			Q& a = *q[i]; model& m = w[i];
			size_t op = s.weighted({8, 8, 5, 5, 1, 1, 1, 1, 2, 0, 1});
			s.note([&] { return "queue " + std::to_string(i) + " op " + std::to_string(op) + " arg " + std::to_string(j); });
			size_t pos;
			switch (op) {
			case 0: case 1:
				if (!usable(i)) break;
				if (m.q.size() == m.cap) full = true;
				if (op == 0) { T v = make<T>(next); if (s.boolean()) { pos = a.push_back(v); PBT_EQ(val(v), next); } else pos = a.push_back(std::move(v)); }
				else { T v = make<T>(next); if (s.boolean()) { pos = a.push_front(v); PBT_EQ(val(v), next); } else pos = a.push_front(std::move(v)); }
				PBT_EQ(val(a.at_abs(pos)), next);
				{
					bool back = op == 0;
					if (back) { if (m.q.size() == m.cap) m.q.pop_front(); m.q.push_back(next); } else { if (m.q.size() == m.cap) m.q.pop_back(); m.q.push_front(next); }
				}
				next++;
				break;
			case 2: { bool t = false; try { a.pop_back(); } catch (const std::invalid_argument&) { t = true; } PBT_EQ(t, m.q.empty()); if (!t) m.q.pop_back(); break; }
			case 3: { if (!usable(i) && !m.q.empty()) break; bool t = false; try { a.pop_front(); } catch (const std::invalid_argument&) { t = true; } PBT_EQ(t, m.q.empty()); if (!t) m.q.pop_front(); break; }
			case 4: a.clear(); m.q.clear(); break;
			case 5: a = *q[j]; m = model(w[j]); break;
			case 6: if (i == j) { a = std::move(*q[j]); break; } a = std::move(*q[j]); m = w[j]; w[j] = {{}, 0}; break;
			case 7: if (q.size() < 5) { if (s.boolean()) { q.emplace_back(new Q(*q[j])); w.push_back(model(w[j])); } else { q.emplace_back(new Q(std::move(*q[j]))); model t = w[j]; w[j] = {{}, 0}; w.push_back(t); } } break;
			case 8: if (!m.q.empty()) { size_t k = s.draw(m.q.size() - 1); a[k] = make<T>(next); m.q[k] = next++; } break;
			case 10: if (q.size() > 1) { q.erase(q.begin() + static_cast<ptrdiff_t>(i)); w.erase(w.begin() + static_cast<ptrdiff_t>(i)); } if (q.size() < 2) add(1 + s.draw(6)); break;
			}
			for (size_t k = 0; k < q.size(); k++) { if (w[k].cap == 0) { PBT_REQUIRE(q[k]->empty() && q[k]->size() == 0 && q[k]->capacity() == 0); continue; } compare<T>(*q[k], *q[k], w[k], s.m_rec_n->load() % 32 == 0); wrapped |= w[k].q.size() > 1 && q[k]->head() > q[k]->tail(); }
		});
		s.nontrivial(wrapped); s.label_if(full, "pushed to a full queue"); s.label_if(wrapped, "wrapped");
	}
	PBT_EQ(tracked::alive, before, "elements left behind");
}
PBT_CHECK(tracked_elements, 30000, 300000) { history<tracked>(s); }
PBT_CHECK(ints, 30000, 300000) { history<int>(s); }
PBT_CHECK(strings, 15000, 150000) { history<std::string>(s); }

// Every capacity, every head position, every count: both ends.
PBT_CHECK(every_state, 9 * 9 * 10 * 4, 20 * 20 * 21 * 4)
{
	size_t dim = s.thorough ? 20 : 9; uint64_t e = s.enumerate(dim * dim * (dim + 1) * 4); size_t cap = 1 + e % dim; e /= dim; size_t head = e % dim % cap; e /= dim; size_t n = e % (dim + 1) % (cap + 1); e /= dim + 1;
	s.nontrivial();
	stdex::vector_queue<int> q(cap); model m{{}, cap};
	for (size_t i = 0; i < head; i++) { q.push_back(-1); q.pop_front(); }
	for (size_t i = 0; i < n; i++) { q.push_back(static_cast<int>(i)); m.q.push_back(static_cast<int>(i)); }
	compare<int>(q, q, m); PBT_REQUIRE(q.head() == head || n == 0);
	switch (e) {
	case 0: q.push_front(77); if (n == cap) m.q.pop_back(); m.q.push_front(77); break;
	case 1: q.push_back(77); if (n == cap) m.q.pop_front(); m.q.push_back(77); break;
	case 2: if (n) { q.pop_back(); m.q.pop_back(); } break;
	default: if (n) { q.pop_front(); m.q.pop_front(); }
	}
	compare<int>(q, q, m);
	stdex::vector_queue<int> c(q); compare<int>(c, c, m);
}
PBT_MAIN("C01", "Random histories over several queues (push, pop, assign, copy, move, clear, element writes; capacity 1 to 12) compared after every step, and every (capacity, head, count, operation) up to a bound; non-trivial: the contents wrapped around the end of the storage. Oracle: std::deque with the documented overwriting at capacity, counted element lives.")
