// Borrowed and scoped ownership: pointers lent through get_ptr() come back to their owner, nothing is released twice or never, actions at the end of a scope run exactly once and in reverse order.
// SCALE: 3
#include "pbt.hpp"
#include <memory>
#include <stdex/memory.hpp>
#include <stdex/scoped_executor.hpp>
#include <stdex/curl.hpp>
#include <deque>
#include <functional>
#include <set>
using namespace pbt;

// Tracked objects: the heap of this property. Every object is alive until released, once, by the deleter of the owner that holds it.
struct ledger { std::set<const void*> alive; std::vector<std::string> wrong; size_t made = 0, released = 0; };
static ledger* book;
struct thing { size_t id; thing() : id(++book->made) { book->alive.insert(this); } };
static void release(const void* p, const char* by) { if (!book->alive.erase(p)) book->wrong.push_back(std::string(by) + " released what is not alive"); else book->released++; }
struct counted { int tag = 0; template<class T> void operator()(T* p) const { release(p, "owner"); delete p; } };
struct counted_array { int tag = 0; void operator()(thing* p) const { release(p, "array owner"); delete[] p; } };
struct book_t { ledger l; book_t() { book = &l; } ~book_t() { book = nullptr; } };

static void store(thing** out, thing* p) { *out = p; }
static thing* load(thing** out) { return *out; }
static void store_ref(thing*& out, thing* p) { out = p; }
static thing* load_ref(thing*& out) { return out; }

template<class U> static void lending(Src& s)
{
	constexpr bool array = std::is_same_v<U, std::unique_ptr<thing[], counted_array>>;
	using D = typename U::deleter_type; using E = std::conditional_t<array, thing[], thing>; using H = stdex::ref_unique_ptr<E, D>;
	book_t b; size_t lent = 0, replaced = 0, moved = 0, thrown = 0;
	auto make = [&]() -> thing* { if constexpr (array) { auto before = book->alive; thing* p = new thing[2]; book->alive = before; book->alive.insert(p); return p; } else return new thing; };
	auto drop = [&](thing* p) { if (!p) return; release(p, "callee"); if constexpr (array) delete[] p; else delete p; };
	{
		std::deque<U> owners; std::vector<thing*> model;
		size_t n = 1 + s.draw(3);
		for (size_t i = 0; i < n; i++) { thing* p = s.boolean() ? make() : nullptr; owners.emplace_back(p, D{ static_cast<int>(i + 1) }); model.push_back(p); }
		s.repeat(30, [&] {
			size_t i = s.draw(n - 1); U& o = owners[i];
			auto use = [&](H& h) {
				// What a callee does with an in/out pointer.
				bool ref = s.boolean(); thing* in = ref ? load_ref(h) : load(h);
				PBT_REQUIRE(in == model[i], "the borrower sees another pointer than the owner held");
				PBT_REQUIRE(!o, "the owner keeps what it lent");
				switch (s.draw(4)) {
				case 0: break;
				case 1: drop(in); model[i] = nullptr; if (ref) store_ref(h, nullptr); else store(h, nullptr); break;
				case 2: case 3: { drop(in); thing* p = make(); model[i] = p; if (ref) store_ref(h, p); else store(h, p); replaced++; break; }
				default: if (s.chance(1, 3)) { thrown++; throw 1; }
				}
			};
			switch (s.draw(6)) {
			case 0: { auto h = stdex::get_ptr(o); lent++; try { use(h); } catch (int) {} break; }
			case 1: lent++; try { auto h = stdex::get_ptr(o); use(h); } catch (int) {} break;
			case 2: lent++; try { H h(o); use(h); H h2(std::move(h)); moved++; PBT_REQUIRE(load(h) == nullptr, "moved-from helper still holds a pointer"); use(h2); } catch (int) {} break;
			case 3: { lent++; std::unique_ptr<H> far; try { H h(o); use(h); far.reset(new H(std::move(h))); moved++; } catch (int) {} 
				if (far) { PBT_REQUIRE(!o, "a moved-from helper returned the pointer"); try { use(*far); } catch (int) {} } break; }
			case 4: { // The owner is given something while its pointer is lent: the returned one replaces it; nothing returned leaves it.
				lent++; thing* meantime = make();
				{ H h(o); o.reset(meantime); thing* in = load(h); PBT_REQUIRE(in == model[i], "lent pointer"); if (!in) model[i] = meantime; }
				break; }
			case 5: { // Several lent at once, ended in reverse order.
				size_t j = s.draw(n - 1); if (j == i) break; lent += 2;
				{ H a(o), c(owners[j]); thing*& pa = a; thing*& pc = c; std::swap(pa, pc); std::swap(model[i], model[j]); }
				break; }
			default: { thing* p = s.boolean() ? make() : nullptr; o.reset(p); model[i] = p; }
			}
			for (size_t k = 0; k < n; k++) {
				PBT_REQUIRE(owners[k].get() == model[k], "owner " + show(k) + " does not hold what the borrower left");
				PBT_REQUIRE(owners[k].get_deleter().tag == static_cast<int>(k + 1), "deleter of the owner was replaced");
			}
			std::set<const void*> want; for (auto p : model) if (p) want.insert(p);
			PBT_REQUIRE(book->wrong.empty(), book->wrong.empty() ? "" : book->wrong[0]);
			PBT_REQUIRE(want == book->alive, show(book->alive.size()) + " objects alive, owned " + show(want.size()));
		});
	}
	PBT_REQUIRE(book->wrong.empty() && book->alive.empty(), "objects left over or released twice at the end");
	s.label_if(thrown, "callee threw"); s.label_if(moved, "helper moved"); s.nontrivial(lent > 1 && replaced);
	s.note([&] { return show(lent) + " loans, " + show(replaced) + " replaced, " + show(moved) + " helpers moved"; });
}
PBT_CHECK(lent_object, 20000, 200000) { lending<std::unique_ptr<thing, counted>>(s); }
PBT_CHECK(lent_array, 20000, 200000) { lending<std::unique_ptr<thing[], counted_array>>(s); }

// Sharing what somebody else owns never releases it, however the references come and go.
struct base { virtual ~base() { book->wrong.push_back("base destroyed by a reference"); } int x = 0; };
struct derived : base { ~derived() override { if (!own) book->wrong.push_back("destroyed by a reference"); } bool own = false; int y = 1; };
PBT_CHECK(shared_not_owned, 20000, 200000)
{
	book_t b; size_t ops = 0;
	{
		derived d; thing t; book->alive.clear();
		std::vector<std::shared_ptr<base>> refs; std::vector<std::weak_ptr<base>> weak; std::vector<std::shared_ptr<thing>> things; std::vector<std::unique_ptr<base, stdex::no_delete<base>>> uniq;
		thing arr[3]; book->alive.clear(); std::vector<std::unique_ptr<thing[], stdex::no_delete<thing[]>>> arrays;
		s.repeat(30, [&] {
			ops++;
			switch (s.draw(9)) {
			case 0: refs.push_back(stdex::make_shared_no_delete<base>(&d)); break;
			case 1: refs.push_back(stdex::make_shared_no_delete(&d)); break;
			case 2: if (!refs.empty()) refs.push_back(refs[s.draw(refs.size() - 1)]); break;
			case 3: if (!refs.empty()) { weak.emplace_back(refs.back()); refs.pop_back(); } break;
			case 4: for (auto& w : weak) if (auto p = w.lock()) { PBT_REQUIRE(p.get() == &d, "weak reference leads elsewhere"); } break;
			case 5: things.push_back(stdex::make_shared_no_delete(&t)); if (s.boolean()) things.erase(things.begin() + s.draw(things.size() - 1)); break;
			case 6: { std::unique_ptr<derived, stdex::no_delete<derived>> p(&d); uniq.push_back(std::move(p)); PBT_REQUIRE(uniq.back().get() == &d && !p, "moving a borrowed pointer"); break; }
			case 7: arrays.emplace_back(arr); if (s.boolean()) arrays.pop_back(); break;
			case 8: if (!uniq.empty()) uniq.back().reset(); break;
			default: refs.clear(); uniq.clear();
			}
			for (auto& r : refs) { PBT_REQUIRE(r.get() == &d && r->x == 0 && static_cast<derived*>(r.get())->y == 1, "reference leads elsewhere"); PBT_REQUIRE(r.use_count() >= 1, "no one holds it"); }
			PBT_REQUIRE(book->wrong.empty(), book->wrong.empty() ? "" : book->wrong[0]);
		});
		refs.clear(); uniq.clear(); things.clear(); arrays.clear();
		PBT_REQUIRE(book->wrong.empty(), book->wrong.empty() ? "" : book->wrong[0]);
		PBT_REQUIRE(d.y == 1, "object damaged"); d.own = true; b.l.wrong.clear();
	}
	s.nontrivial(ops > 3); s.note([&] { return show(ops) + " operations"; });
}

// Scopes: trees of nested scopes, left normally or by an exception; the log must be that of begin/end pairs.
struct noisy { // an action with state of its own, as a lambda with captures has
	std::vector<std::string>* log; std::string text; bool throws; bool ended = false;
	noisy(std::vector<std::string>& l, std::string t, bool th = false) : log(&l), text(std::move(t)), throws(th) {}
	noisy(const noisy&) = default; noisy(noisy&&) = default;
	~noisy() { ended = true; text.assign("ended action"); }
	void operator()() { log->push_back(text); if (throws) throw std::runtime_error(text); }
};
static __attribute__((noinline)) void clobber(size_t n) { volatile char junk[512]; for (size_t i = 0; i < sizeof(junk); i++) junk[i] = static_cast<char>(n + i); }
struct scopes {
	Src& s; std::vector<std::string> got, want; size_t n = 0, thrown = 0, failed_init = 0, kinds = 0;
	void scope(size_t depth)
	{
		size_t id = ++n; std::string begin = "begin" + show(id), end = "end" + show(id) + std::string(s.draw(1) * 40, '.');
		bool bad_init = s.chance(1, 12), bad_body = s.chance(1, 8); unsigned kind = s.draw(3); kinds |= 1u << kind;
		want.push_back(begin);
		auto body = [&] {
			clobber(id); if (depth) s.repeat(3, [&] { try { scope(depth - 1); } catch (const std::runtime_error&) { if (s.boolean()) throw; } });
			got.push_back("body" + show(id)); want.push_back("body" + show(id));
			if (bad_body) { thrown++; throw std::runtime_error("body"); }
		};
		struct closing { scopes& c; std::string e; bool on; ~closing() { if (on) c.want.push_back(e); } } c{ *this, end, false };
		auto run = [&] { c.on = true; body(); };
		try {
			switch (kind) {
			case 0: { // lambdas written in place
				stdex::scoped_executor ex([&] { got.push_back(begin); if (bad_init) throw std::logic_error("init"); }, [this, end, id] { got.push_back(end); (void)id; });
				run(); break; }
			case 1: { stdex::scoped_executor ex(noisy(got, begin), noisy(got, end)); if (bad_init) { bad_init = false; } run(); break; }
			case 2: { // named actions, taken by reference
				noisy a(got, begin), z(got, end); bad_init = false; stdex::scoped_executor<noisy&, noisy&> ex(a, z); run(); PBT_REQUIRE(!z.ended, "named action ended early"); break; }
			default: { bad_init = false; std::function<void()> a = [&] { got.push_back(begin); }, z = [this, end] { got.push_back(end); };
				auto ex = std::make_unique<stdex::scoped_executor<std::function<void()>, std::function<void()>>>(std::move(a), std::move(z)); clobber(id); run(); ex.reset(); break; }
			}
		}
		catch (const std::logic_error&) { PBT_REQUIRE(bad_init && !c.on, "unexpected exception"); failed_init++; }
	}
};
PBT_CHECK(scopes_end, 40000, 400000)
{
	scopes t{ s }; try { t.scope(3); } catch (const std::runtime_error&) {}
	PBT_REQUIRE(t.got == t.want, "order of actions: " + show(t.got) + ", expected " + show(t.want));
	s.label_if(t.thrown, "left by an exception"); s.label_if(t.failed_init, "beginning failed"); s.nontrivial(t.n > 2);
	s.note([&] { return show(t.n) + " scopes, " + show(t.thrown) + " left by exceptions"; });
}
// Handles of a library: a library that keeps account of what is given out and given back.
namespace lib { static std::set<void*> easy, lists; static int ups = 0, downs = 0; static std::vector<long> flags; static CURLcode answer = CURLE_OK; static std::vector<std::string> wrong; }
extern "C" CURLcode curl_global_init(long f) { lib::flags.push_back(f); if (lib::answer == CURLE_OK) lib::ups++; return lib::answer; }
extern "C" void curl_global_cleanup(void) { lib::downs++; if (lib::downs > lib::ups) lib::wrong.push_back("library ended more often than begun"); }
extern "C" CURL* curl_easy_init(void) { void* p = malloc(1); lib::easy.insert(p); return static_cast<CURL*>(p); }
extern "C" void curl_easy_cleanup(CURL* p) { if (!lib::easy.erase(p)) lib::wrong.push_back("handle cleaned up that is not open"); else free(p); }
extern "C" struct curl_slist* curl_slist_append(struct curl_slist* l, const char*) { if (l) return l; auto p = static_cast<struct curl_slist*>(malloc(sizeof(*l))); lib::lists.insert(p); return p; }
extern "C" void curl_slist_free_all(struct curl_slist* p) { if (!lib::lists.erase(p)) lib::wrong.push_back("list freed that does not exist"); else free(p); }
extern "C" const char* curl_easy_strerror(CURLcode c) { static std::string t; t = "code " + std::to_string(static_cast<int>(c)); return t.c_str(); }
PBT_CHECK(library_handles, 20000, 200000)
{
	lib::ups = lib::downs = 0; lib::flags.clear(); lib::wrong.clear(); lib::answer = CURLE_OK; size_t failed = 0, n = 0;
	{
		std::vector<std::unique_ptr<stdex::curl_initializer>> on; std::vector<stdex::curl> easy; std::vector<stdex::curl_slist> lists;
		s.repeat(30, [&] {
			n++;
			switch (s.draw(6)) {
			case 0: { long f = s.integer<int32_t>(); int was = lib::ups; lib::answer = s.chance(1, 3) ? static_cast<CURLcode>(s.range(1, 90)) : CURLE_OK;
				try { on.push_back(std::make_unique<stdex::curl_initializer>(f)); PBT_REQUIRE(lib::answer == CURLE_OK, "failure to begin is not reported"); PBT_EQ(lib::ups, was + 1); }
				catch (const stdex::curl_runtime_error& e) { failed++; PBT_REQUIRE(lib::answer != CURLE_OK, "success reported as a failure"); PBT_EQ(static_cast<int>(e.number()), static_cast<int>(lib::answer), "code of the failure"); std::string w = e.what(), c = "code " + std::to_string(static_cast<int>(lib::answer)); PBT_REQUIRE(w.size() >= c.size() && w.compare(w.size() - c.size(), c.size(), c) == 0, "message " + show(w)); }
				PBT_EQ(lib::flags.back(), f, "flags"); break; }
			case 1: if (!on.empty()) on.erase(on.begin() + s.draw(on.size() - 1)); break;
			case 2: easy.emplace_back(curl_easy_init()); break;
			case 3: if (!easy.empty()) { size_t i = s.draw(easy.size() - 1); if (s.boolean()) easy.erase(easy.begin() + i); else easy[i].reset(s.boolean() ? curl_easy_init() : nullptr); } break;
			case 4: lists.emplace_back(curl_slist_append(nullptr, "a")); break;
			case 5: if (!lists.empty()) { size_t i = s.draw(lists.size() - 1); if (s.boolean()) lists.erase(lists.begin() + i); else { auto l = std::move(lists[i]); lists[i] = std::move(lists.back()); if (s.boolean()) lists.push_back(std::move(l)); } } break;
			default: { stdex::curl_runtime_error e(CURLE_OK, s.boolean() ? std::string("x") : std::string()); stdex::curl_runtime_error e2(static_cast<CURLcode>(7), "why"), e3(static_cast<CURLcode>(9)); PBT_EQ(static_cast<int>(e2.number()), 7); PBT_EQ(static_cast<int>(e3.number()), 9); PBT_EQ(std::string(e2.what()), std::string("why: code 7")); PBT_EQ(std::string(e3.what()), std::string("code 9")); }
			}
			size_t e = 0, l = 0; for (auto& x : easy) e += !!x; for (auto& x : lists) l += !!x;
			PBT_REQUIRE(lib::wrong.empty(), lib::wrong.empty() ? "" : lib::wrong[0]);
			PBT_EQ(lib::easy.size(), e, "handles open"); PBT_EQ(lib::lists.size(), l, "lists alive"); PBT_EQ(static_cast<size_t>(lib::ups - lib::downs), on.size(), "library in use");
		});
	}
	PBT_REQUIRE(lib::wrong.empty() && lib::easy.empty() && lib::lists.empty() && lib::ups == lib::downs, "left open at the end");
	s.label_if(failed, "library fails to begin"); s.nontrivial(n > 3); s.note([&] { return show(n) + " operations, " + show(failed) + " failures"; });
}
PBT_MAIN("R01", "at least two loans and a replacement; more than three operations; more than two scopes")
