// Sanitizing allocator and blob: what is handed back to the heap is all zeros, in an optimised build, and contents behave as in an ordinary container.
// SANITIZE: none
// CXXFLAGS: -O2
// NOFUZZ: 1
// SCALE: 10
#include "pbt.hpp"
#include <new>
// Watching heap: while on, every block given back is inspected.
static bool watch_on = false; static size_t watched = 0, dirty = 0, dirty_size = 0, dirty_at = 0;
static void inspect(void* p)
{
	size_t n = reinterpret_cast<size_t*>(p)[-2]; const volatile unsigned char* b = static_cast<const volatile unsigned char*>(p);
	watched++; for (size_t i = 0; i < n; i++) if (b[i]) { if (!dirty) { dirty_size = n; dirty_at = i; } dirty++; break; }
}
static void* (*volatile alloc_fn)(size_t) = malloc; static void (*volatile free_fn)(void*) = free; static void (*volatile inspect_fn)(void*) = inspect;
__attribute__((noinline)) void* operator new(size_t n) { size_t* p = static_cast<size_t*>(alloc_fn(n + 16)); if (!p) throw std::bad_alloc(); p[0] = n; return p + 2; }
__attribute__((noinline)) void operator delete(void* p) noexcept { if (!p) return; if (watch_on) inspect_fn(p); free_fn(static_cast<size_t*>(p) - 2); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
#include <stdex/memory.hpp>
#include <stdex/string.hpp>
#include <list>
#include <map>
using namespace pbt;

struct watching { watching() { watched = dirty = 0; watch_on = true; } ~watching() { watch_on = false; } };
static void clean(const char* what) { PBT_REQUIRE(!dirty, std::string(what) + ": block of " + show(dirty_size) + " bytes given back with byte " + show(dirty_at) + " still set"); }

template<class C> static void vec(Src& s)
{
	std::vector<C> model; size_t n = 0, given = 0; auto val = [&] { return static_cast<C>(s.draw(253) + 1); };
	{
		auto v = new std::vector<C, stdex::sanitizing_allocator<C>>();
		auto op = [&](auto f) { watching w; f(); given += watched; };
		s.repeat(40, [&] {
			n++;
			switch (s.draw(8)) {
			case 0: case 1: { C c = val(); op([&] { v->push_back(c); }); model.push_back(c); break; }
			case 2: { C c = val(); size_t k = s.draw(200); op([&] { v->assign(k, c); }); model.assign(k, c); break; }
			case 3: op([&] { v->shrink_to_fit(); }); break;
			case 4: { size_t k = s.draw(300); op([&] { v->reserve(k); }); break; }
			case 5: { C c = val(); size_t p = s.draw(model.size()); op([&] { v->insert(v->begin() + p, c); }); model.insert(model.begin() + p, c); break; }
			case 6: if (!model.empty()) { size_t p = s.draw(model.size() - 1); op([&] { v->erase(v->begin() + p); }); model.erase(model.begin() + p); } break;
			case 7: op([&] { auto copy = *v; copy.push_back(1); v->swap(copy); v->pop_back(); }); break;
			default: op([&] { auto other = std::move(*v); *v = std::move(other); });
			}
			clean("vector"); PBT_REQUIRE(std::equal(v->begin(), v->end(), model.begin(), model.end()), "contents");
		});
		{ watching w; v->~vector(); given += watched; } operator delete(v);
		clean("destroyed vector");
	}
	s.nontrivial(n > 2 && given > 1); s.note([&] { return show(n) + " operations, " + show(given) + " blocks given back"; });
}
PBT_CHECK(vector_u8, 20000, 200000) { vec<uint8_t>(s); }
PBT_CHECK(vector_u64, 20000, 200000) { vec<uint64_t>(s); }
PBT_CHECK(vector_wchar, 20000, 200000) { vec<wchar_t>(s); }

template<class S> static void str(Src& s)
{
	using C = typename S::value_type; std::basic_string<C> model; size_t n = 0, given = 0; S v;
	auto op = [&](auto f) { watching w; f(); given += watched; };
	s.repeat(40, [&] {
		n++; C c = static_cast<C>('a' + s.draw(20)); size_t k = s.draw(120);
		switch (s.draw(5)) {
		case 0: op([&] { v.append(k, c); }); model.append(k, c); break;
		case 1: op([&] { v.assign(k, c); v.shrink_to_fit(); }); model.assign(k, c); break;
		case 2: op([&] { v.reserve(k * 3); }); break;
		case 3: k = std::min(k, v.size()); op([&] { v.erase(0, k); v.shrink_to_fit(); }); model.erase(0, k); break;
		case 4: op([&] { S t(v); t += c; v = t; }); model += c; break;
		default: op([&] { S t(std::move(v)); v.clear(); v.swap(t); });
		}
		clean("string"); PBT_REQUIRE(std::equal(v.begin(), v.end(), model.begin(), model.end()), "contents");
	});
	op([&] { S t; t.swap(v); t.clear(); t.shrink_to_fit(); }); clean("released string");
	s.nontrivial(n > 2 && given > 1);
}
PBT_CHECK(string_narrow, 20000, 200000) { str<std::basic_string<char, std::char_traits<char>, stdex::sanitizing_allocator<char>>>(s); }
PBT_CHECK(string_wide, 20000, 200000) { str<std::basic_string<wchar_t, std::char_traits<wchar_t>, stdex::sanitizing_allocator<wchar_t>>>(s); }

PBT_CHECK(nodes, 20000, 200000)
{
	size_t given = 0, n = 0;
	{ // every node of a container goes back by itself
		auto l = new std::list<uint64_t, stdex::sanitizing_allocator<uint64_t>>(); auto m = new std::map<uint32_t, uint32_t, std::less<uint32_t>, stdex::sanitizing_allocator<std::pair<const uint32_t, uint32_t>>>();
		s.repeat(30, [&] { n++; uint64_t x = s.draw(UINT32_MAX) + 1; watching w; if (x % 3) { l->push_back(x); (*m)[static_cast<uint32_t>(x % 50)] = static_cast<uint32_t>(x); } else { if (!l->empty()) l->pop_front(); if (!m->empty()) m->erase(m->begin()); } given += watched; });
		{ watching w; l->clear(); m->clear(); given += watched; } clean("node");
		delete l; delete m;
	}
	s.nontrivial(n > 2 && given > 1);
}
// The very block, allocated and filled by hand.
template<class T> static void block(Src& s)
{
	stdex::sanitizing_allocator<T> a; size_t n = 1 + s.draw(500); T* p = a.allocate(n); unsigned char f = static_cast<unsigned char>(s.draw(254) + 1); memset(static_cast<void*>(p), f, n * sizeof(T));
	{ watching w; a.deallocate(p, n); } PBT_EQ(watched, size_t(1)); clean("block"); s.nontrivial(n > 1); s.note([&] { return show(n) + " elements of " + show(sizeof(T)); });
}
struct odd { char c[7]; };
PBT_CHECK(block_u8, 40000, 200000) { block<unsigned char>(s); }
PBT_CHECK(block_u32, 40000, 200000) { block<uint32_t>(s); }
PBT_CHECK(block_odd, 40000, 200000) { block<odd>(s); }

template<size_t N> static void blob(Src& s)
{
	using B = stdex::sanitizing_blob<N>; unsigned char f = static_cast<unsigned char>(s.draw(254) + 1);
	B* b = new B; for (size_t i = 0; i < N; i++) PBT_EQ(b->m_data[i], 0, "fresh blob");
	memset(b->m_data, f, N); for (size_t i = 0; i < N; i++) PBT_EQ(b->m_data[i], f);
	{ watching w; delete b; } PBT_EQ(watched, size_t(1)); clean("blob");
	// In storage of its own.
	alignas(B) static unsigned char room[sizeof(B)]; memset(room, f, sizeof(room)); asm volatile("" : : "r"(room) : "memory"); B* c = new (room) B; for (size_t i = 0; i < N; i++) PBT_EQ(c->m_data[i], 0, "blob in used storage"); memset(c->m_data, f, N); c->~B();
	for (volatile unsigned char* p = room; p < room + N; p++) PBT_REQUIRE(!*p, "blob in its storage: byte " + show(static_cast<size_t>(p - room)));
	s.nontrivial();
}
PBT_CHECK(blob_1, 2000, 20000) { blob<1>(s); }
PBT_CHECK(blob_8, 2000, 20000) { blob<8>(s); }
PBT_CHECK(blob_33, 2000, 20000) { blob<33>(s); }
PBT_CHECK(blob_1000, 2000, 20000) { blob<1000>(s); }
// A blob on the stack of a function that returns.
template<size_t N> __attribute__((noinline)) static uintptr_t use(unsigned char f) { stdex::sanitizing_blob<N> b; memset(b.m_data, f, N); asm volatile("" : : "r"(b.m_data) : "memory"); return reinterpret_cast<uintptr_t>(b.m_data); }
template<size_t N> static void stack(Src& s)
{
	uintptr_t (*volatile fn)(unsigned char) = use<N>; unsigned char f = static_cast<unsigned char>(s.draw(254) + 1); uintptr_t at = fn(f); asm volatile("" : : : "memory");
	size_t left = 0; { volatile unsigned char* p = reinterpret_cast<unsigned char*>(at); size_t run = 0; for (size_t i = 0; i < N; i++) { run = p[i] == f ? run + 1 : 0; left = std::max(left, run); } }
	PBT_REQUIRE(left < 16, "left on the stack: " + show(left) + " bytes"); s.nontrivial();
}
PBT_CHECK(stack_64, 2000, 20000) { stack<64>(s); }
PBT_CHECK(stack_4096, 2000, 20000) { stack<4096>(s); }
PBT_MAIN("M05", "Random histories of containers with the sanitizing allocator, hand-made blocks and blobs, built with -O2 and a heap that inspects every block given back; non-trivial: at least two blocks given back, blocks over one element. Oracle: all bytes zero; contents equal those of the ordinary container.")
