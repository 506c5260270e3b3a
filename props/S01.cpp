// Typed values through streams: layout, round trip over every transport, truncation and failure.
#include "fileops.hpp"
#include <sys/socket.h>
#include <sys/resource.h>
#include <csignal>
#include <set>
#include <memory>
using namespace fo;
using namespace stdex::stream;
using stdex::utf16_t;

// Independent serialisation.
static void le(std::string& o, uint64_t v, size_t n) { for (size_t i = 0; i < n; i++) o += static_cast<char>(v >> (8 * i)); }
template<class T> static std::enable_if_t<std::is_integral<T>::value> put(std::string& o, T v) { le(o, static_cast<uint64_t>(v), sizeof(T)); }
static void put(std::string& o, float v) { uint32_t x; memcpy(&x, &v, 4); le(o, x, 4); }
static void put(std::string& o, double v) { uint64_t x; memcpy(&x, &v, 8); le(o, x, 8); }
template<class C> static void put(std::string& o, const std::basic_string<C>& v) { le(o, v.size(), 4); for (C c : v) le(o, static_cast<uint64_t>(c), sizeof(C)); }
template<class T> static void put(std::string& o, const std::vector<T>& v);
template<class T> static void put(std::string& o, const std::set<T>& v) { le(o, v.size(), 4); for (auto& e : v) put(o, e); }
template<class T> static void put(std::string& o, const std::multiset<T>& v) { le(o, v.size(), 4); for (auto& e : v) put(o, e); }
template<class T> static void put(std::string& o, const std::vector<T>& v) { le(o, v.size(), 4); for (auto& e : v) put(o, e); }

// Generation.
template<class T> static std::enable_if_t<std::is_integral<T>::value> gen(Src& s, T& v) { v = s.integer<T>(); }
static void gen(Src& s, bool& v) { v = s.boolean(); }
static void gen(Src& s, float& v) { uint32_t x = s.integer<uint32_t>(); memcpy(&v, &x, 4); }
static void gen(Src& s, double& v) { uint64_t x = s.integer<uint64_t>(); memcpy(&v, &x, 8); }
template<class C> static void gen(Src& s, std::basic_string<C>& v) { size_t n = s.chance(1, 40) ? s.draw(70000) : s.chance(1, 5) ? 0x400 - 2 + s.draw(4) : s.len(40); uint64_t x = s.draw(UINT32_MAX); v.clear(); for (size_t i = 0; i < n; i++) v += static_cast<C>(mix(x + i) & (sizeof(C) == 4 ? 0x10ffff : 0xffff)); }
template<class T> static void gen(Src& s, std::vector<T>& v) { v.clear(); size_t n = s.chance(1, 60) ? s.draw(3000) : s.len(12); for (size_t i = 0; i < n; i++) { T e; gen(s, e); v.push_back(std::move(e)); if (n > 100 && i) v.back() = v[0]; } }
template<class T> static void gen(Src& s, std::set<T>& v) { v.clear(); size_t n = s.len(8); for (size_t i = 0; i < n; i++) { T e; gen(s, e); v.insert(std::move(e)); } }
template<class T> static void gen(Src& s, std::multiset<T>& v) { v.clear(); size_t n = s.len(8); for (size_t i = 0; i < n; i++) { T e; gen(s, e); v.insert(e); if (s.boolean()) v.insert(e); } }
template<class T> static bool blank(const T& v) { T z{}; return !memcmp(&v, &z, sizeof(T)); }
template<class C> static bool blank(const std::basic_string<C>& v) { return v.empty(); }
template<class T> static bool blank(const std::vector<T>& v) { return v.empty(); }
template<class T> static bool blank(const std::set<T>& v) { return v.empty(); }
template<class T> static bool blank(const std::multiset<T>& v) { return v.empty(); }
// A shortened value: what is there is what was written.
template<class T> static bool shortened(const T& got, const T&) { return blank(got); }
template<class C> static bool shortened(const std::basic_string<C>& g, const std::basic_string<C>& w) { return g.size() <= w.size() && w.compare(0, g.size(), g) == 0; }
template<class T> static std::string ser(const T& v) { std::string o; put(o, v); return o; }
template<class T> static bool shortened(const std::vector<T>& g, const std::vector<T>& w) { if (g.size() > w.size()) return false; for (size_t i = 0; i < g.size(); i++) if (ser(g[i]) != ser(w[i])) return false; return true; }
template<class T> static bool shortened(const std::set<T>& g, const std::set<T>& w) { auto i = g.begin(); for (auto j = w.begin(); i != g.end() && j != w.end(); ++i, ++j) if (ser(*i) != ser(*j)) return false; return i == g.end(); }
template<class T> static bool shortened(const std::multiset<T>& g, const std::multiset<T>& w) { auto i = g.begin(); for (auto j = w.begin(); i != g.end() && j != w.end(); ++i, ++j) if (ser(*i) != ser(*j)) return false; return i == g.end(); }

// A value of some type, written and read through any kind of stream, statically typed as the base or as a memory file.
struct value
{
	virtual ~value() {}
	virtual void write(basic& f) = 0; virtual void write(memory_file& f) = 0;
	virtual void read(basic& f) = 0; virtual void read(memory_file& f) = 0;
	std::string bytes; const char* name = "";
	virtual bool same() = 0; virtual bool is_blank() = 0; virtual bool is_short() = 0; virtual void dirty(Src& s) = 0;
};
template<class T> struct container : std::false_type {}; // memory_file has operators of its own for values and strings only
template<class T> struct container<std::vector<T>> : std::true_type {}; template<class T> struct container<std::set<T>> : std::true_type {}; template<class T> struct container<std::multiset<T>> : std::true_type {};
enum how_t { op_, data_, cstr_ };
template<class T, how_t H> struct val : value
{
	T w, r;
	val(Src& s, const char* n) { name = n; gen(s, w); if (H == cstr_) strip(w); put(bytes, w); }
	template<class C> static void strip(std::basic_string<C>& v) { for (auto& c : v) if (!c) c = 'x'; }
	template<class U> static void strip(U&) {}
	template<class F> void do_write(F& f) { if constexpr (std::is_same_v<F, memory_file> && container<T>::value) do_write(static_cast<basic&>(f)); else if constexpr (H == op_) f << w; else if constexpr (H == data_) f.write_data(w); else f << w.c_str(); }
	template<class F> void do_read(F& f) { if constexpr (std::is_same_v<F, memory_file> && container<T>::value) do_read(static_cast<basic&>(f)); else if constexpr (H == data_) f.read_data(r); else f >> r; }
	void write(basic& f) override { do_write(f); } void write(memory_file& f) override { do_write(f); }
	void read(basic& f) override { do_read(f); } void read(memory_file& f) override { do_read(f); }
	bool same() override { return ser(r) == bytes; } bool is_blank() override { return blank(r); } bool is_short() override { return shortened(r, w); }
	void dirty(Src& s) override { gen(s, r); }
};
static std::unique_ptr<value> gen_value(Src& s)
{
	switch (s.draw(27)) {
#define V(n, T, H) case n: return std::make_unique<val<T, H>>(s, #T);
	V(0, uint8_t, op_) V(1, int8_t, op_) V(2, uint16_t, op_) V(3, int16_t, op_) V(4, uint32_t, op_) V(5, int32_t, op_) V(6, uint64_t, op_) V(7, int64_t, op_) V(8, float, op_) V(9, double, op_) V(10, char, op_) V(11, bool, data_) V(12, char16_t, data_) V(13, wchar_t, data_)
	V(14, std::string, op_) V(15, std::wstring, op_) V(16, std::u16string, op_) V(17, std::string, cstr_) V(18, std::wstring, cstr_) V(19, std::u16string, cstr_)
	V(20, std::vector<uint8_t>, op_) V(21, std::vector<int32_t>, op_) V(22, std::vector<std::string>, op_) V(23, std::set<int16_t>, op_) V(24, std::set<std::wstring>, op_) V(25, std::multiset<uint64_t>, op_) V(26, std::multiset<std::string>, op_) V(27, std::vector<std::vector<uint16_t>>, op_)
#undef V
	}
	return nullptr;
}
using values = std::vector<std::unique_ptr<value>>;
static values gen_values(Src& s, std::string& all)
{
	values v; s.repeat(12, [&] { v.push_back(gen_value(s)); all += v.back()->bytes; s.note([&] { return std::string(v.back()->name) + " of " + std::to_string(v.back()->bytes.size()) + " bytes"; }); });
	return v;
}
static void write_all(values& v, basic& f, memory_file* m)
{
	for (auto& x : v) { if (m) x->write(*m); else x->write(f); PBT_EQ(f.state(), state_t::ok, std::string("writing ") + x->name); }
}
static void read_all(Src& s, values& v, basic& f, memory_file* m)
{
	bool dirty = s.boolean();
	for (auto& x : v) { if (dirty) x->dirty(s); if (m) x->read(*m); else x->read(f); PBT_EQ(f.state(), state_t::ok, std::string("reading ") + x->name); PBT_REQUIRE(x->same(), std::string("read back a different ") + x->name); }
}
// A stream that gives nothing but an end.
static void at_end(basic& f) { uint8_t b; PBT_EQ(f.read(&b, 1), 0u, "bytes left over"); PBT_EQ(f.state(), state_t::eof); }

PBT_CHECK(memory, 60000, 600000)
{
	std::string all; auto v = gen_values(s, all); memory_file f; bool st = s.boolean(), rt = s.boolean();
	write_all(v, f, st ? &f : nullptr); PBT_EQ(f.size(), all.size(), "size"); PBT_REQUIRE(!memcmp(f.data(), all.data(), all.size()) || all.empty(), "laid out as " + show(std::string(static_cast<const char*>(f.data()), all.size())) + ", not " + show(all));
	f.seekbeg(0); read_all(s, v, f, rt ? &f : nullptr); PBT_EQ(f.tell(), all.size(), "consumed"); at_end(f);
	s.nontrivial(v.size() >= 2); s.label_if(st, "memory file's own writers"); s.label_if(rt, "memory file's own readers"); s.label_if(st != rt, "mixed");
}
PBT_CHECK(transports, 30000, 300000)
{
	std::string all; auto v = gen_values(s, all); scratch tmp; unsigned k = static_cast<unsigned>(s.draw(7)); static const char* names[] = {"sequential", "file", "cached file", "cache over memory", "fifo", "buffer", "file window", "buffered pipe of the system"}; s.note([&] { return std::string("over ") + names[k]; });
	auto path = tmp / "f";
	switch (k) {
	case 0: { ts::pipe o; write_all(v, o, nullptr); PBT_REQUIRE(o.out == all, "layout"); ts::pipe i(all, ts::gen_plan(s, false, 0)); read_all(s, v, i, nullptr); PBT_EQ(i.pos, all.size(), "consumed"); at_end(i); break; }
	case 1: { { file f(path.c_str(), mode_for_writing | mode_create); PBT_REQUIRE(f.ok()); write_all(v, f, nullptr); } PBT_REQUIRE(slurp(path) == all, "layout"); file f(path.c_str(), mode_for_reading | mode_open_existing); read_all(s, v, f, nullptr); at_end(f); break; }
	case 2: { size_t cs = 1 + s.draw(64); { cached_file f(path.c_str(), mode_for_reading | mode_for_writing | mode_create, cs); PBT_REQUIRE(f.ok()); write_all(v, f, nullptr); if (s.boolean()) { f.seekbeg(0); read_all(s, v, f, nullptr); } f.close(); } PBT_REQUIRE(slurp(path) == all, "layout"); cached_file f(path.c_str(), mode_for_reading | mode_open_existing, cs); read_all(s, v, f, nullptr); at_end(f); break; }
	case 3: { memory_file m; { cache f(m, 1 + s.draw(64)); write_all(v, f, nullptr); f.flush(); } PBT_EQ(m.size(), all.size()); PBT_REQUIRE(all.empty() || !memcmp(m.data(), all.data(), all.size()), "layout"); m.seekbeg(0); cache f(m, 1 + s.draw(64)); read_all(s, v, f, nullptr); at_end(f); break; }
	case 4: { fifo f; write_all(v, f, nullptr); PBT_EQ(f.size(), all.size()); read_all(s, v, f, nullptr); at_end(f); break; }
	case 5: { ts::pipe o; { buffer b(o, s.draw(40), s.draw(40)); write_all(v, b, nullptr); b.flush(); PBT_REQUIRE(b.ok()); } PBT_REQUIRE(o.out == all, "layout"); ts::pipe i(all, ts::gen_plan(s, false, 0)); buffer b(i, s.draw(40), s.draw(40)); read_all(s, v, b, nullptr); at_end(b); break; }
	case 6: { memory_file m; size_t before = s.draw(20); std::string pad(before, 'p'), room(all.size(), '?'); m.write(pad.data(), pad.size()); m.write(room.data(), room.size()); m.write(pad.data(), pad.size()); m.seekbeg(before); file_window w(m, before, all.size()); write_all(v, w, nullptr);
		std::string c(static_cast<const char*>(m.data()), static_cast<size_t>(m.size())); PBT_REQUIRE(c == pad + all + pad, "layout"); w.seekbeg(0); read_all(s, v, w, nullptr); at_end(w); break; }
	default: { if (all.size() > 30000) throw discard_t{}; int p[2]; if (::pipe(p)) throw discard_t{}; { buffered_sys o(p[1], 16, 1 + s.draw(40)); write_all(v, o, nullptr); o.close(); PBT_REQUIRE(o.ok()); } buffered_sys i(p[0], s.draw(40), 1); read_all(s, v, i, nullptr); at_end(i); } }
	s.nontrivial(v.size() >= 2); s.label(names[k]);
}
PBT_CHECK(truncated, 60000, 600000)
{
	std::string all; auto v = gen_values(s, all); if (v.empty() || all.empty()) throw discard_t{};
	size_t cut = s.boolean() ? static_cast<size_t>(s.draw(all.size() - 1)) : [&] { size_t k = static_cast<size_t>(s.draw(v.size() - 1)), p = 0; for (size_t i = 0; i < k; i++) p += v[i]->bytes.size(); return p + static_cast<size_t>(s.draw(std::min<size_t>(v[k]->bytes.size() - 1, 8))); }();
	unsigned k = static_cast<unsigned>(s.draw(4)); bool fails = false; s.note([&] { return "cut at " + std::to_string(cut) + " of " + std::to_string(all.size()) + ", kind " + std::to_string(k); });
	std::string part = all.substr(0, cut); memory_file under; memory_file* mf = nullptr; std::unique_ptr<basic> f;
	switch (k) {
	case 0: { auto m = std::make_unique<memory_file>(); m->write(part.data(), part.size()); m->seekbeg(0); mf = m.get(); f = std::move(m); break; }
	case 1: f = std::make_unique<ts::pipe>(part, ts::gen_plan(s, false, 0)); break;
	case 2: { ts::plan p = ts::gen_plan(s, false, 0); p.fail_read = cut; fails = true; f = std::make_unique<ts::pipe>(all, p); break; }
	case 3: { under.write(part.data(), part.size()); under.seekbeg(0); f = std::make_unique<cache>(under, 1 + s.draw(40)); break; }
	default: { auto q = std::make_unique<fifo>(); q->write(part.data(), part.size()); f = std::move(q); } }
	size_t pos = 0; bool broken = false, base = s.boolean(); size_t after = 0;
	for (auto& x : v) {
		x->dirty(s); if (mf && !base) x->read(*mf); else x->read(*f);
		if (broken) { after++; PBT_REQUIRE(!f->ok(), "state became ok again"); PBT_REQUIRE(x->is_blank(), std::string("made-up ") + x->name + " from a failed stream"); continue; }
		pos += x->bytes.size();
		if (pos <= cut) { PBT_EQ(f->state(), state_t::ok); PBT_REQUIRE(x->same()); }
		else { broken = true; PBT_EQ(f->state(), fails ? state_t::fail : state_t::eof, std::string("state after cut ") + x->name); PBT_REQUIRE(x->is_short(), std::string("made-up ") + x->name); }
	}
	PBT_REQUIRE(broken); s.nontrivial(cut > 0); s.label_if(after > 0, "reads after the failure"); s.label_if(fails, "failing source"); s.label_if(mf && !base, "memory file's own readers");
}
// Writing that fails: chained writes after the failure write nothing, and what is out is a prefix of the proper layout.
PBT_CHECK(failing_write, 40000, 400000)
{
	std::string all; auto v = gen_values(s, all); if (all.empty()) throw discard_t{};
	ts::plan p; p.fail_write = s.draw(all.size() - 1); ts::pipe f("", p); bool failed = false;
	for (auto& x : v) { x->write(f); if (f.failed_write) failed = true; PBT_EQ(f.state(), failed ? state_t::fail : state_t::ok); }
	PBT_REQUIRE(failed); PBT_EQ(f.out.size(), p.fail_write); PBT_REQUIRE(all.compare(0, f.out.size(), f.out) == 0, "other bytes than of the values"); s.nontrivial(p.fail_write > 0);
}
// Announced lengths nothing stands behind: no crash, no huge allocation, all there is delivered.
PBT_CHECK(hostile_length, 40000, 400000)
{
	std::string b; uint32_t n = s.integer<uint32_t>(); le(b, n, 4); std::string body = s.bytes(200); b += body; bool mem = s.boolean(); memory_file m; m.write(b.data(), b.size()); m.seekbeg(0); ts::pipe p(b); basic& f = mem ? static_cast<basic&>(m) : p;
	bool own = s.boolean() && mem; state_t st = state_t::ok; size_t es = 1, got = 0, k = s.draw(4); s.note([&] { return "announced " + std::to_string(n) + " elements, kind " + std::to_string(k); });
	switch (k) {
	case 0: { std::string r; if (own) m >> r; else f >> r; PBT_REQUIRE(body.compare(0, r.size(), r) == 0); got = r.size(); break; }
	case 1: { std::wstring r; if (own) m >> r; else f >> r; es = 4; PBT_REQUIRE(!memcmp(r.data(), body.data(), r.size() * 4)); got = r.size(); break; }
	case 2: { std::vector<uint16_t> r; f >> r; es = 2; PBT_REQUIRE(r.empty() || !memcmp(r.data(), body.data(), r.size() * 2)); got = r.size(); break; }
	case 3: { std::multiset<uint8_t> r; f >> r; got = r.size(); break; }
	default: { std::u16string r; if (own) m >> r; else f >> r; es = 2; PBT_REQUIRE(!memcmp(r.data(), body.data(), r.size() * 2)); got = r.size(); } }
	size_t can = std::min<uint64_t>(n, body.size() / es); PBT_EQ(got, can, "elements"); PBT_EQ(f.state(), n == can ? state_t::ok : state_t::eof); s.nontrivial(n > can); (void)st;
}

// What one kind of collection wrote, another kind reads: exactly the elements recorded, and nothing of what follows.
template<class K, class C> static C collect(const std::vector<K>& v) { return C(v.begin(), v.end()); }
template<class K, class F> static void cross(Src& s, const std::function<K()>& g)
{
	std::vector<K> v; s.repeat(9, [&] { v.push_back(v.empty() || s.boolean() ? g() : v[s.draw(v.size() - 1)]); }); size_t from = s.draw(2), to = s.draw(2); int32_t mark = s.integer<int32_t>(), got = 0;
	stdex::stream::memory_file m; F& f = m; std::vector<K> recorded = v;
	if (from == 0) f << v; else if (from == 1) { auto c = collect<K, std::set<K>>(v); f << c; recorded.assign(c.begin(), c.end()); } else { auto c = collect<K, std::multiset<K>>(v); f << c; recorded.assign(c.begin(), c.end()); }
	f << mark; m.seekbeg(0);
	s.note([&] { static const char* const n[] = {"vector", "set", "multiset"}; return std::string(n[from]) + " of " + show(recorded.size()) + " read as " + n[to]; });
	if (to == 0) { std::vector<K> r(s.draw(2)); f >> r; PBT_REQUIRE(r == recorded); } else if (to == 1) { std::set<K> r; f >> r; PBT_REQUIRE((r == collect<K, std::set<K>>(recorded))); } else { std::multiset<K> r; f >> r; PBT_REQUIRE((r == collect<K, std::multiset<K>>(recorded))); }
	f >> got; PBT_REQUIRE(m.ok()); PBT_EQ(got, mark, "what follows"); PBT_EQ(m.tell(), m.size()); s.nontrivial(recorded.size() > 1 && from != to); s.label_if(from != 1 && to == 1 && std::set<K>(v.begin(), v.end()).size() < v.size(), "repeated read as set");
}
PBT_CHECK(collections_cross, 40000, 400000)
{
	std::function<int16_t()> i = [&] { return s.range<int16_t>(-9, 9); }; std::function<std::string()> t = [&] { std::string o; s.repeat(3, [&] { o += s.pick<char>({'a', 'b', '\0', '\xff'}); }); return o; };
	if (s.boolean()) cross<int16_t, stdex::stream::basic>(s, i); else cross<std::string, stdex::stream::basic>(s, t);
}
PBT_MAIN("S01", "two or more values, or a cut/failure after the first byte")
