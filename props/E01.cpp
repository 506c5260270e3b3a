// Allocations that fail: nothing leaks, nothing breaks, and nobody is told that all went well.
// LIBS: -Wl,--wrap=malloc -Wl,--wrap=realloc
// NOFUZZ: 1
// SCALE: 2
#include <mutex>
#include <shared_mutex>
#include "fileops.hpp"
#include "style.hpp"
#include <sanitizer/allocator_interface.h>
#include <stdex/vector_queue.hpp>
#include <stdex/pool.hpp>
#include <stdex/string.hpp>
#include <stdex/unicode.hpp>
#include <stdex/sgml.hpp>
#include <stdex/html.hpp>
#include <stdex/zlib.hpp>
#include <stdex/base64.hpp>
#include <stdex/hex.hpp>
#define __cdecl
#include <stdex/wav.hpp>
#include <stdex/hash.hpp>
using namespace pbt;
namespace st = stdex::stream; namespace sp = stdex::parser; namespace H = stdex::html; namespace wv = stdex::idrec;
using st::state_t; using str = std::string;

// --- Allocation under control: while armed, the allocation number `left` fails, and all after it when `lasting`.
struct control { bool armed = false, lasting = false, failed = false; uint64_t left = UINT64_MAX, count = 0; long live = 0; };
static thread_local control ctl;
extern "C" void* __real_malloc(size_t); extern "C" void* __real_realloc(void*, size_t);
static bool allowed() { if (!ctl.armed) return true; ctl.count++; if (ctl.failed && ctl.lasting) return false; if (ctl.left == UINT64_MAX) return true; if (ctl.left--) return true; ctl.left = UINT64_MAX; ctl.failed = true; return false; }
extern "C" void* __wrap_malloc(size_t n) { return allowed() ? __real_malloc(n) : nullptr; }
extern "C" void* __wrap_realloc(void* p, size_t n) { return allowed() ? __real_realloc(p, n) : nullptr; }
void* operator new(size_t n) { if (!allowed()) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allowed() ? __real_malloc(n ? n : 1) : nullptr; }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// One attempt of an operation: with no failure to count the allocations, or with one.
struct attempt
{
	bool counting = true, lasting = false; uint64_t at = 0, count = 0; bool threw = false, failed = false;
	template<class F> bool operator()(const F& f)
	{
		ctl = control(); ctl.left = counting ? UINT64_MAX : at; ctl.lasting = lasting; ctl.armed = true; threw = false;
		try { f(); } catch (const std::bad_alloc&) { threw = true; } catch (...) { ctl.armed = false; throw; }
		ctl.armed = false; failed = ctl.failed; if (counting) count = ctl.count; return !failed;
	}
	// The operation met a failure and went on: it has to say so.
	void reported(bool ok, const char* what) const { if (failed && !threw) PBT_REQUIRE(!ok, str(what) + " does not say that it failed"); }
	void thrown(const char* what) const { if (failed) PBT_REQUIRE(threw, str(what) + " does not say that it failed"); }
};
// A scenario makes the operation through its attempt, then again with memory at hand, and returns what came of the latter.
template<class F> static void decide(Src& s, const F& f)
{
	attempt a; str want = f(a); if (!a.count) throw discard_t{}; attempt b; b.counting = false; b.at = s.draw(a.count - 1); b.lasting = s.boolean(); s.note([&] { return "allocation " + std::to_string(b.at) + " of " + std::to_string(a.count) + (b.lasting ? " and all that follow fail" : " fails"); });
	size_t before = __sanitizer_get_current_allocated_bytes(), after; bool same; str got;
	{ str r = f(b); same = r == want; if (!same) got = r; }
	after = __sanitizer_get_current_allocated_bytes(); ctl.armed = false;
	PBT_REQUIRE(same, "what is made afterwards differs: " + show(got) + ", not " + show(want)); PBT_EQ(static_cast<long>(after - before), 0l, "bytes left behind");
	s.nontrivial(b.failed); s.label_if(b.failed && !b.threw, "reported otherwise"); s.label_if(b.lasting, "lasting");
}
static str narrow(const std::wstring& w) { str r; for (wchar_t c : w) { r += static_cast<char>(c & 0xff); r += static_cast<char>(c >> 8 & 0xff); r += static_cast<char>(c >> 16); } return r; }
static std::wstring wide(const str& x) { return std::wstring(x.begin(), x.end()); }
static str long_text(Src& s, const char* al) { str r; size_t k = strlen(al) - 1; for (size_t n = s.chance(1, 4) ? 1500 + s.draw(2000) : s.len(60); n--;) r += al[s.draw(k)]; return r; }

// --- Containers
struct item { str v; item(const str& x = "an element that is not short") : v(x) {} };
PBT_CHECK(queues, 10000, 60000)
{
	size_t cap = 1 + s.draw(5), n = s.draw(7), m = s.draw(7), kind = s.draw(4); bool front = s.boolean(); s.note([&] { return "operation " + std::to_string(kind) + " on " + std::to_string(n) + " elements, capacity " + std::to_string(cap); });
	decide(s, [&](attempt& a) {
		using Q = stdex::vector_queue<item>; str r; auto all = [&](const Q& q) { for (size_t i = 0; i < q.size(); i++) { r += q[i].v; r += ','; } r += '.'; }; auto name = [](size_t i) { return "element that is long enough " + std::to_string(i); };
		Q x(cap), y(cap + 1); for (size_t i = 0; i < n; i++) x.push_back(item(name(i))); for (size_t i = 0; i < m; i++) y.push_front(item(name(100 + i))); size_t before = x.size(); item extra("another element that is long enough"); all(y);
		switch (kind) {
		case 0: if (!a([&] { y = x; })) { a.thrown("assignment"); y.clear(); PBT_REQUIRE(y.empty()); for (size_t i = 0; i < y.capacity(); i++) { y.push_back(extra); PBT_EQ(y.size(), i + 1); } } y = x; break;
		case 1: { std::unique_ptr<Q> c; if (!a([&] { c = std::make_unique<Q>(x); })) { a.thrown("copying"); } c = std::make_unique<Q>(x); all(*c); break; }
		case 2: if (!a([&] { if (front) x.push_front(extra); else x.push_back(extra); })) { a.thrown("pushing"); if (before < cap) { PBT_EQ(x.size(), before, "number of elements after a push that failed"); for (size_t i = 0; i < before; i++) PBT_REQUIRE(x[i].v == name(i + (n > cap ? n - cap : 0)), "elements after a push that failed"); } } x.clear(); x.push_back(extra); break;
		case 3: { std::unique_ptr<Q> c; if (!a([&] { c = std::make_unique<Q>(cap); })) a.thrown("construction"); break; }
		default: if (!a([&] { x = std::move(y); })) a.thrown("moving"); }
		if (kind < 4) all(x); all(y); return r;
	});
}
PBT_CHECK(pools, 2000, 20000)
{
	size_t n = 1 + s.draw(4); decide(s, [&](attempt& a) {
		stdex::pool<std::unique_ptr<str>> p; str r; size_t in = 0; std::unique_ptr<str> x = std::make_unique<str>("an object that is kept in the pool for a while"); if (!a([&] { for (size_t i = 0; i < n; i++) { std::unique_ptr<str> y = std::make_unique<str>("another object that is kept in the pool for a while"); p.push(std::move(y)); in++; } })) a.thrown("pool");
		for (size_t i = 0; i < in; i++) { auto y = p.pop(); PBT_REQUIRE(y && y->size() > 20, "what was put in the pool is not there"); } PBT_REQUIRE(!p.pop()); p.push(std::move(x)); r = *p.pop(); return r; });
}

// --- Streams
PBT_CHECK(memory_files, 12000, 120000)
{
	str d = fo::gen_data(s, s.draw(300)), e = fo::gen_data(s, 1 + s.draw(5000)); size_t kind = s.draw(6), at = s.draw(400); bool tight = s.boolean(); s.note([&] { return "operation " + std::to_string(kind) + " on " + std::to_string(d.size()) + " bytes at " + std::to_string(at) + " with " + std::to_string(e.size()); });
	decide(s, [&](attempt& a) {
		st::memory_file f; f.write(d.data(), d.size()); f.seek(static_cast<int64_t>(at)); str r; auto all = [](st::memory_file& m) { auto p = m.tell(); m.seekbeg(0); auto v = m.read_remainder(); m.seekbeg(p); PBT_EQ(v.size(), m.size(), "size and contents"); return str(v.begin(), v.end()); };
		switch (kind) {
		case 0: { size_t w = 0; if (!a([&] { w = f.write(e.data(), e.size()); })) { a.reported(w == e.size() && f.ok(), "write"); PBT_REQUIRE(w <= e.size()); PBT_REQUIRE(all(f).substr(0, std::min(at, d.size())) == d.substr(0, std::min(at, d.size())), "contents before what failed to be written"); } f.seekbeg(at); f.write(e.data(), e.size()); break; }
		case 1: { std::unique_ptr<st::memory_file> c; if (!a([&] { c = std::make_unique<st::memory_file>(f); })) a.thrown("copying"); c = std::make_unique<st::memory_file>(f); r = all(*c); break; }
		case 2: { st::memory_file c; c.write(e.data(), e.size()); if (!a([&] { c = f; })) { a.thrown("assignment"); PBT_REQUIRE(c.state() == state_t::fail || c.ok()); c.seekbeg(0); auto x = all(c); PBT_REQUIRE(x == e || x.empty(), "contents after an assignment that failed"); } c = f; r = all(c); break; }
		case 3: if (!a([&] { f.reserve(e.size() + d.size(), tight); })) { a.reported(f.ok(), "reserve"); PBT_REQUIRE(all(f) == d, "contents after a reservation that failed"); } f.seek(static_cast<int64_t>(at)); break;
		case 4: { f.seekbeg(at); if (!a([&] { f.truncate(); })) { a.reported(f.ok(), "truncate"); } f.seekbeg(at); f.truncate(); break; }
		case 5: { st::memory_file g; g.write(e.data(), e.size()); g.seekbeg(0); if (!a([&] { f.write_stream(g); })) { a.reported(f.ok(), "write_stream"); } f.seekbeg(at); g.seekbeg(0); f.write_stream(g); break; }
		default: { std::unique_ptr<st::memory_file> c; if (!a([&] { c = std::make_unique<st::memory_file>(e.size()); })) a.thrown("construction"); c = std::make_unique<st::memory_file>(e.size()); c->write(e.data(), e.size()); r = all(*c); } }
		return r + all(f);
	});
}
PBT_CHECK(values, 8000, 80000)
{
	str d = fo::gen_data(s, 20 + s.draw(200)); std::vector<str> list; for (size_t n = s.draw(6); n--;) list.push_back(fo::gen_data(s, 16 + s.draw(60))); size_t kind = s.draw(4); s.note([&] { return "kind " + std::to_string(kind); });
	decide(s, [&](attempt& a) {
		st::memory_file m; st::basic& f = m; str r, x; if (kind == 0) f << d; else if (kind == 1) f << list; else { for (auto& c : x = d) if (!c) c = '1'; f << x; m.seekbeg(4); } if (kind < 2) m.seekbeg(0); x.clear(); std::vector<str> l; std::vector<uint8_t> v;
		auto op = [&] { switch (kind) { case 0: f >> x; break; case 1: f >> l; break; case 2: v = f.read_remainder(); break; case 3: f.readln(x); break; default: v = f.read_remainder(d.size() / 2); } };
		auto p = m.tell(); if (!a(op)) { if (kind == 2 || kind == 4) { a.reported(f.ok(), "reading all"); PBT_EQ(v.size(), m.tell() - p, "amount read before the failure"); } else a.thrown("reading"); } m.seekbeg(p); x.clear(); v.clear(); op(); r = x; for (auto& i : l) r += i + ","; r.append(v.begin(), v.end()); return r;
	});
}
PBT_CHECK(blocks, 3000, 30000)
{
	size_t n = s.boolean() ? s.draw(300000) : s.draw(300), kind = s.draw(3), amount = s.draw(n + 100); str d; d.reserve(n); for (size_t i = 0; i < n; i++) d += static_cast<char>(mix(i)); s.note([&] { return "kind " + std::to_string(kind) + " of " + std::to_string(n) + ", " + std::to_string(amount); });
	decide(s, [&](attempt& a) {
		st::memory_file m, o; m.write(d.data(), d.size()); m.seekbeg(0); st::limiter l(m, st::fsize_max, st::fsize_max), w(o, st::fsize_max, st::fsize_max); st::basic& in = l; st::basic& out = w; std::vector<uint8_t> v; auto op = [&] { switch (kind) { case 0: v = in.read_remainder(); break; case 1: in.skip(amount); break; case 2: out.write_byte('x', amount); break; default: out.write_stream(in, amount); } }; auto all = [&] { o.seekbeg(0); auto x = o.read_remainder(); return str(x.begin(), x.end()); };
		if (!a(op)) { if (!a.threw) PBT_REQUIRE((kind < 2 ? in : out).state() == state_t::fail, "does not say that it failed"); if (kind == 0) { PBT_EQ(v.size(), m.tell(), "amount read before the failure"); PBT_REQUIRE(str(v.begin(), v.end()) == d.substr(0, v.size()), "read before the failure"); } if (kind == 2) PBT_REQUIRE(all() == str(o.size(), 'x')); if (kind == 3) PBT_REQUIRE(all() == d.substr(0, o.size())); }
		m.seekbeg(0); o.seekbeg(0); o.truncate(); st::limiter l2(m, st::fsize_max, st::fsize_max), w2(o, st::fsize_max, st::fsize_max); st::basic& in2 = l2; st::basic& out2 = w2; switch (kind) { case 0: v = in2.read_remainder(); break; case 1: in2.skip(amount); break; case 2: out2.write_byte('x', amount); break; default: out2.write_stream(in2, amount); } return std::to_string(m.tell()) + " " + std::to_string(mix(o.size())) + " " + std::to_string(v.size()); });
}
PBT_CHECK(adapters, 8000, 80000)
{
	str d = fo::gen_data(s, s.draw(2000)), e = fo::gen_data(s, 1 + s.draw(800)); size_t cap = 1 + s.draw(200), kind = s.draw(4), at = s.draw(d.size() + 10); s.note([&] { return "kind " + std::to_string(kind) + " of " + std::to_string(cap); });
	decide(s, [&](attempt& a) {
		st::memory_file m; m.write(d.data(), d.size()); m.seekbeg(0); str r, x; auto all = [&] { m.seekbeg(0); auto v = m.read_remainder(); return str(v.begin(), v.end()); };
		switch (kind) {
		case 0: { std::unique_ptr<st::cache> c; if (!a([&] { c = std::make_unique<st::cache>(m, cap); })) a.thrown("cache"); c = nullptr; break; }
		case 1: { size_t w = 0; bool ok = true; st::cache c(m, cap); c.seekbeg(at); if (!a([&] { w = c.write(e.data(), e.size()); ok = c.ok(); c.flush(); ok &= c.ok(); })) { a.reported(ok && w == e.size(), "writing a cached file"); } c.seekbeg(at); PBT_EQ(c.write(e.data(), e.size()), e.size()); c.flush(); PBT_REQUIRE(c.ok()); break; }
		case 2: { std::unique_ptr<st::buffer> b; if (!a([&] { b = std::make_unique<st::buffer>(m, cap, cap / 2); })) a.thrown("buffer"); b = nullptr; break; }
		case 3: { st::fifo q; q.write(e.data(), e.size()); size_t w = 0; if (!a([&] { w = q.write(d.data(), d.size()); })) { a.reported(w == d.size() && q.ok(), "writing a queue"); PBT_EQ(q.size(), e.size() + w, "size of a queue"); auto v = q.read_remainder(); PBT_REQUIRE(str(v.begin(), v.end()) == e + d.substr(0, w), "contents of a queue"); } q.write(d.data(), d.size()); auto v = q.read_remainder(); r.assign(v.end() - static_cast<ptrdiff_t>(d.size()), v.end()); break; }
		default: { st::replicator p; st::memory_file o; bool ok = true; if (!a([&] { p.push_back(&m); p.push_back(&o); m.seekbeg(at); p.write(e.data(), e.size()); ok = p.ok(); p.remove(&m); })) a.reported(ok, "replicating"); return str(); } }
		return r + all();
	});
}
PBT_CHECK(compression, 1500, 15000)
{
	str d = long_text(s, "abcab "); uInt bs = static_cast<uInt>(1 + s.draw(100)); decide(s, [&](attempt& a) {
		st::memory_file m, o; str r; { std::unique_ptr<stdex::zlib_writer> w; if (!a([&] { w = std::make_unique<stdex::zlib_writer>(o, -1, bs); })) a.thrown("construction"); w = nullptr; w = std::make_unique<stdex::zlib_writer>(m, -1, bs); w->write(d.data(), d.size()); }
		m.seekbeg(0); std::unique_ptr<stdex::zlib_reader> q; if (!a.counting) { attempt b; b.counting = false; b.at = a.at; b([&] { q = std::make_unique<stdex::zlib_reader>(m, bs); }); b.thrown("construction"); q = nullptr; } q = std::make_unique<stdex::zlib_reader>(m, bs); auto v = q->read_remainder(); r.assign(v.begin(), v.end()); return r; });
}

// --- Text
PBT_CHECK(texts, 12000, 120000)
{
	str x = long_text(s, "aZ .,-&<>\"'\\\n\t%"), pre = s.boolean() ? "before what is appended" : ""; size_t kind = s.draw(9); s.note([&] { return "kind " + std::to_string(kind) + ", " + std::to_string(x.size()) + " characters"; });
	decide(s, [&](attempt& a) {
		str o = pre; std::wstring w; auto in = wide(x); auto op = [&] { switch (kind) {
			case 0: stdex::appendf(o, "%s|%s", nullptr, x.c_str(), x.c_str()); break;
			case 1: { struct tm t = {}; t.tm_mday = 1; t.tm_year = 100; str f; for (char c : x) { f += c; if (c == '%') f += c; } stdex::strcatftime(o, f.c_str(), &t, nullptr); break; }
			case 2: H::escape(o, x.data(), x.size()); break;
			case 3: H::url_escape(o, x.data(), x.size()); break;
			case 4: H::css_escape(o, x.data(), x.size()); break;
			case 5: stdex::str2sgmlcat(o, in.data(), in.size(), stdex::sgml_full); break;
			case 6: { stdex::mapping_vector<size_t> m; str y; for (char c : x) { if (c == '&') y += "&eacute;"; else y += c; } stdex::sgml2strcat(w, y.data(), y.size(), 0, stdex::mapping<size_t>(0, 0), &m); break; }
			case 7: { stdex::hex_enc e; e.encode(o, x.data(), x.size()); break; }
			case 8: { stdex::base64_enc e; e.encode(o, x.data(), x.size()); break; }
			default: { std::unique_ptr<char[]> p(stdex::strdup(x.c_str())), q(stdex::strndup(x.c_str(), x.size() / 2)); o = p.get(); o += q.get(); } } };
		if (!a(op)) { a.thrown("text"); if (kind != 9) PBT_REQUIRE(o.compare(0, pre.size(), pre) == 0, "what was there before is gone"); } o = pre; w.clear(); op(); return o + narrow(w);
	});
}
PBT_CHECK(conversions, 4000, 40000)
{
	std::wstring x; for (size_t n = s.chance(1, 3) ? 600 + s.draw(1500) : s.len(30); n--;) x += static_cast<wchar_t>(s.pick<uint32_t>({'a', 0xe9, 0x20ac, 0x10400, ' '})); auto u = static_cast<stdex::charset_id>(s.pick({stdex::charset_id::utf8, stdex::charset_id::utf16, stdex::charset_id::utf32})); s.note([&] { return show(x.size()) + " characters"; });
	decide(s, [&](attempt& a) {
		stdex::charset_encoder<wchar_t, char> e(stdex::charset_id::utf32, u), *p = &e; str o; if (!a([&] { p->strcat(o, x.data(), x.size()); })) a.thrown("conversion"); o.clear(); p->strcat(o, x.data(), x.size()); std::wstring y = stdex::str2wstr(stdex::wstr2str(x, stdex::charset_id::utf8), stdex::charset_id::utf8); return o + narrow(y); });
}

// --- Sound files
PBT_CHECK(sounds, 4000, 40000)
{
	namespace W = stdex::wav; auto le = [](uint64_t v, size_t n) { str o; while (n--) { o += static_cast<char>(v & 0xff); v >>= 8; } return o; }; auto chunk = [&](const str& id, const str& body) { str o = id + le(body.size(), 4) + body; if (body.size() & 1) o += '\0'; return o; };
	size_t n = s.len(6), kind = s.draw(3); W::cue_ex_vector C; for (size_t i = 0; i < n; i++) { W::cue_ex c; c.id = static_cast<uint32_t>(i + 1); c.position = static_cast<uint32_t>(i * 100); c.chunk_id = 0; c.chunk_offset = c.block_start = c.block_offset = c.duration = c.purpose_id = 0; c.country = c.language = c.dialect = c.charset = 0; c.title = fo::gen_data(s, 1 + s.draw(40)); c.note = fo::gen_data(s, 1 + s.draw(40)); c.description = fo::gen_data(s, 1 + s.draw(40)); for (auto x : {&c.title, &c.note, &c.description}) for (auto& k : *x) if (!k) k = '1'; C.push_back(c); }
	str data = fo::gen_data(s, 1 + s.draw(500)), fmt = le(1, 2) + le(2, 2) + le(44100, 4) + le(176400, 4) + le(4, 2) + le(16, 2) + le(22, 2) + fo::gen_data(s, 22); s.note([&] { return "kind " + std::to_string(kind) + ", " + std::to_string(n) + " cues"; });
	decide(s, [&](attempt& a) {
		st::memory_file m; str head = chunk("fmt ", fmt) + chunk("data", data), r; m.write(head.data(), head.size()); { auto q = m.tell(); m << C; (void)q; } m.seekbeg(0); auto all = [](st::memory_file& x) { x.seekbeg(0); auto v = x.read_remainder(); return str(v.begin(), v.end()); };
		switch (kind) {
		case 0: { W::cue_ex_vector v; bool ok = false; a([&] { ok = W::read_cues(m, v); }); /* see the known finding */ v.clear(); m.seekbeg(0); ok = W::read_cues(m, v); r = ok ? "read " : "not read "; for (auto& c : v) r += std::to_string(c.id) + c.title + "," + c.note + "," + c.description + ";"; break; }
		case 1: { st::memory_file o; bool ok = false; if (!a([&] { o << C; ok = o.ok(); })) a.reported(ok, "writing cues"); st::memory_file p; p << C; r = all(p); break; }
		case 2: { W::data w; bool ok = false; if (!a([&] { ok = W::read_first(m, w); })) a.reported(ok && m.ok() && w.content.ok(), "reading data"); W::data v; m.seekbeg(0); ok = W::read_first(m, v); r = (ok ? "read " : "not read ") + all(v.content); break; }
		default: { W::format w; bool ok = false; if (!a([&] { ok = W::read_first(m, w); })) a.reported(ok && m.ok() && w.extra.ok(), "reading a format"); W::format v; m.seekbeg(0); ok = W::read_first(m, v); r = (ok ? "read " : "not read ") + all(v.extra); } }
		return r;
	});
}

// A text within a record that cannot be stored is not reported: the record reads from a stream of its own, which alone has failed.
PBT_KNOWN(record_text, "a label of a cue is lost without report when there is no memory to read it")
{
	namespace W = stdex::wav; st::memory_file m; W::cue_ex_vector C(1), v; C[0].id = 1; C[0].title = "a"; m << C; for (uint64_t i = 0; i < 50; i++) { m.seekbeg(0); v = W::cue_ex_vector(); attempt a; a.counting = false; a.at = i; bool ok = false; a([&] { ok = W::read_cues(m, v); }); if (!a.failed) break; if (ok && !a.threw && (v.size() != 1 || v[0].title != C[0].title)) return true; }
	return false;
}

// --- Documents
template<class T> struct doc : H::document<T> { using H::document<T>::m_sequences; };
static str document(Src& s)
{
	str x; std::vector<str> open; for (size_t n = s.len(20); n--;) switch (s.draw(6)) {
	case 0: { str e = s.pick<str>({"p", "div", "b", "ul", "li", "h1", "title", "span", "script", "style", "table"}); x += "<" + e + (s.boolean() ? " title=\"some title of the element\" id='x'" : "") + ">"; if (e == "script" || e == "style") x += "a{background:url(a picture.png)}</" + e + ">"; else open.push_back(e); break; }
	case 1: if (!open.empty()) { x += "</" + open.back() + ">"; open.pop_back(); } break;
	case 2: x += s.pick<str>({"<br>", "<img src=\"a picture of something.png\" alt='text of the picture'>", "<input value=x/>"}); break;
	case 3: x += s.pick<str>({"<!-- a comment that is not short -->", "<!DOCTYPE html>", "<?php something?>", "<![CDATA[a<b]]>"}); break;
	default: x += s.pick<str>({"some words of a text ", "&eacute;&amp;x", "a", "\n  "}); }
	return x;
}
static str shape(doc<wchar_t>& d) { str r; for (auto& q : d.m_sequences) r += std::to_string(static_cast<int>(q->type)) + ":" + std::to_string(q->interval.start) + "-" + std::to_string(q->interval.end) + ","; return r; }
static str extract(doc<wchar_t>& d) { H::parser<wchar_t> p(d, nullptr, 0, true); p.parse(); str r; for (auto& k : p.tokens()) { auto t = dynamic_cast<H::text_token<wchar_t>*>(k.get()); if (!t) continue; r += "["; for (size_t i = 0; i < t->text.size();) { if (t->text[i] == 0x12) { r += '*'; H::token::parse_tag(t->text.c_str(), i); } else r += static_cast<char>(t->text[i++]); } std::wstring l; H::parser<wchar_t>::link(l, t); r += "|" + narrow(l) + "]"; } return r; }
PBT_CHECK(documents, 6000, 60000)
{
	str x = document(s); auto w = wide(x); size_t kind = s.draw(2), cut = s.draw(x.size()); s.note([&] { return "kind " + std::to_string(kind) + " " + x; });
	decide(s, [&](attempt& a) {
		doc<wchar_t> d; str r; switch (kind) {
		case 0: if (!a([&] { d.assign(w.data(), w.size()); })) a.thrown("parsing"); d.assign(w.data(), w.size()); r = shape(d); break;
		case 1: if (!a([&] { d.append(w.data(), cut); d.append(w.data() + cut, w.size() - cut); d.finalize(); })) a.thrown("parsing"); d.assign(w.data(), w.size()); r = shape(d); break;
		default: d.assign(w.data(), w.size()); if (!a([&] { extract(d); })) a.thrown("extraction"); r = extract(d); }
		return r;
	});
}

// --- Parsers
template<class P> static bool match(P& p, const str& x, size_t& e) { bool ok = p.match(x.data(), 0, x.size()); e = p.interval.end; return ok; }
template<class K, class T> static bool match(sp::http_value_collection<K, T>& p, const str& x, size_t& e) { p.clear(); p.insert(x.data(), 0, x.size()); e = p.size(); return true; }
PBT_CHECK(parsers, 8000, 80000)
{
	size_t kind = s.draw(4); str x; size_t n = s.len(6); auto word = [&] { return s.pick<str>({"text", "abc", "en", "a-rather-long-name-of-something", "x"}); };
	switch (kind) {
	case 0: x = "GET /a/path?x=" + word() + "&another=" + word() + "&y=%41 HTTP/1.1\r\n"; break;
	case 1: for (size_t i = 0; i <= n; i++) x += (i ? ", " : "") + word() + (s.boolean() ? ";q=0." + std::to_string(s.draw(9)) : ""); break;
	case 2: for (size_t i = 0; i <= n; i++) x += (i ? "; " : "") + word() + "=" + (s.boolean() ? "\"" + word() + "\"" : word()); break;
	case 3: x = word() + "/" + word(); for (size_t i = 0; i <= n; i++) x += "; " + word() + "=" + word(); break;
	default: for (size_t i = 0; i <= n; i++) x += (i ? ", " : "") + word() + "/" + word() + (s.boolean() ? ";level=1;q=0.5" : ""); }
	s.note([&] { return show(x); });
	decide(s, [&](attempt& a) {
		str r; auto run = [&](auto& p, auto digest) { bool ok = false; size_t e = 0; if (!a([&] { ok = match(p, x, e); })) a.thrown("parser"); ok = match(p, x, e); r = ok ? std::to_string(e) + digest() : "no"; }; auto iv = [](auto& p) { return std::to_string(p.start) + "-" + std::to_string(p.end) + ","; };
		switch (kind) {
		case 0: { sp::http_request p; run(p, [&] { str q; for (auto& i : p.url.params) q += iv(i.name) + iv(i.value); return q; }); break; }
		case 1: { sp::http_weighted_collection<sp::http_weighted_value<sp::http_token>> p; run(p, [&] { str q; for (auto& i : p) q += iv(i.value.interval) + std::to_string(i.factor.value); return q; }); break; }
		case 2: { sp::http_cookie p; run(p, [&] { return iv(p.name.interval) + iv(p.value.interval); }); break; }
		case 3: { sp::http_media_type p; run(p, [&] { str q; for (auto& i : p.params) q += iv(i.name.interval) + iv(i.value.interval); return q; }); break; }
		default: { sp::http_weighted_collection<sp::http_weighted_value<sp::http_media_range, sp::http_asterisk>> p; run(p, [&] { str q; for (auto& i : p) q += iv(i.value.interval); return q; }); } }
		return r;
	});
}
PBT_MAIN("E01", "Operations of containers, streams, converters, documents and parsers, with one allocation (or it and all that follow) failing at a random point; cases in which an allocation failed count as non-trivial. Oracle: the failure is reported, the bytes allocated afterwards are those before, the same operation with memory at hand gives what it always gives.")
