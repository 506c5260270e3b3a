// Binary records: written by every means and compared with their bytes laid out by hand, found, read, skipped and entered against a reference walk, also in damaged files.
// SCALE: 16
#include "streams.hpp"
#include <sstream>
#include <stdex/idrec.hpp>
using namespace pbt; namespace R = stdex::idrec; namespace st = stdex::stream; using str = std::string; using u64 = uint64_t;
static void le(str& o, u64 v, size_t n) { while (n--) { o += static_cast<char>(v & 0xff); v >>= 8; } }
static u64 un(const str& x, size_t p, size_t n) { u64 v = 0; for (size_t i = n; i--;) v = v << 8 | static_cast<uint8_t>(x[p + i]); return v; }

// --- Record contents: fixed fields, text with its length, whatever there is, nothing.
struct num { uint32_t a = 0; uint16_t b = 0; bool operator==(const num& o) const { return a == o.a && b == o.b; } };
static st::basic& operator<<(st::basic& s, const num& d) { return s << d.a << d.b; }
static st::basic& operator>>(st::basic& s, num& d) { return s >> d.a >> d.b; }
static std::ostream& operator<<(std::ostream& s, const num& d) { s.write(reinterpret_cast<const char*>(&d.a), 4); return s.write(reinterpret_cast<const char*>(&d.b), 2); }
static std::istream& operator>>(std::istream& s, num& d) { s.read(reinterpret_cast<char*>(&d.a), 4); return s.read(reinterpret_cast<char*>(&d.b), 2); }
struct txt { str s; bool operator==(const txt& o) const { return s == o.s; } };
static st::basic& operator<<(st::basic& s, const txt& d) { s << static_cast<uint8_t>(d.s.size()); s.write_array(d.s.data(), 1, d.s.size()); return s; }
static st::basic& operator>>(st::basic& s, txt& d) { uint8_t n = 0; s >> n; if (!s.ok()) return s; d.s.resize(n); d.s.resize(s.read_array(&d.s[0], 1, n)); return s; }
static std::ostream& operator<<(std::ostream& s, const txt& d) { s.put(static_cast<char>(d.s.size())); return s.write(d.s.data(), static_cast<std::streamsize>(d.s.size())); }
static std::istream& operator>>(std::istream& s, txt& d) { int n = s.get(); if (n < 0) return s; d.s.resize(static_cast<size_t>(n)); if (n) s.read(&d.s[0], n); return s; }
struct blob { str s; bool operator==(const blob& o) const { return s == o.s; } };
static st::basic& operator<<(st::basic& s, const blob& d) { s.write_array(d.s.data(), 1, d.s.size()); return s; }
static st::basic& operator>>(st::basic& s, blob& d) { auto x = s.read_remainder(); d.s.assign(x.begin(), x.end()); return s; }
struct none {}; // reads nothing of what is there
static st::basic& operator<<(st::basic& s, const none&) { return s; } static st::basic& operator>>(st::basic& s, none&) { return s; } static std::ostream& operator<<(std::ostream& s, const none&) { return s; } static std::istream& operator>>(std::istream& s, none&) { return s; }

template<class I, class L, L N> struct fmt
{
	static constexpr I id(char c) { return static_cast<I>(0x01030507u * static_cast<unsigned>(c)); } static constexpr u64 max = static_cast<L>(-1); static constexpr size_t head = sizeof(I) + sizeof(L);
	using rnum = R::record<num, I, id('n'), L, N>; using rtxt = R::record<txt, I, id('t'), L, N>; using rblob = R::record<blob, I, id('b'), L, N>; using rskip = R::record<none, I, id('s'), L, N>;
	static u64 pad(u64 n) { return (N - n % N) % N; }
	static str rec(char c, const str& d) { str o; le(o, id(c), sizeof(I)); le(o, d.size(), sizeof(L)); o += d; o.append(pad(d.size()), '\0'); return o; }
	// A record with two inside, for records within records.
	struct box { num n; txt t; blob b; bool more = true; bool operator==(const box& o) const { return n == o.n && t == o.t && b == o.b; } 
		friend st::basic& operator<<(st::basic& s, const box& d) { s << rnum(d.n) << rtxt(d.t); if (d.more) s << rblob(d.b); return s; }
		friend st::basic& operator>>(st::basic& s, box& d) { I i; for (int k = d.more ? 3 : 2; k--;) { s >> i; if (!s.ok()) return s; if (i == rnum::id()) s >> rnum(d.n); else if (i == rtxt::id()) s >> rtxt(d.t); else if (i == rblob::id()) s >> rblob(d.b); else fail("id of a record inside"); } return s; }
		friend std::ostream& operator<<(std::ostream& s, const box& d) { return s << rnum(d.n) << rtxt(d.t); }
		friend std::istream& operator>>(std::istream& s, box& d) { I i; for (int k = 0; k < 2; k++) { if (!R::read_id(s, i)) return s; if (i == rnum::id()) s >> rnum(d.n); else if (i == rtxt::id()) s >> rtxt(d.t); else fail("id of a record inside"); } return s; } };
	using rbox = R::record<box, I, id('x'), L, N>;
	// --- The file: what each record holds, and where.
	struct item { char c; str data; num n; txt t; blob b; box x; std::vector<item> kids; size_t at = 0, end = 0, next = 0; };
	static str some(Src& s, size_t k) { str x; size_t n = s.chance(1, 3) ? s.draw(k) : s.len(6); for (size_t i = 0; i < n; i++) x += static_cast<char>(s.draw(255)); return x; }
	static num gnum(Src& s) { num n; n.a = static_cast<uint32_t>(s.draw(0xffffffff)); n.b = static_cast<uint16_t>(s.draw(0xffff)); return n; }
	static str dnum(const num& n) { str o; le(o, n.a, 4); le(o, n.b, 2); return o; }
	static str dtxt(const txt& t) { str o; le(o, t.s.size(), 1); return o + t.s; }
	static std::vector<item> gen(Src& s, int depth, size_t room, bool plain)
	{
		std::vector<item> v; for (size_t n = s.len(5); n--;) { item i; switch (s.weighted({3, 3, plain ? 0u : 3u, 1, 2, depth ? 2u : 0u})) { case 0: i.c = 'n'; i.n = gnum(s); i.data = dnum(i.n); break; case 1: i.c = 't'; i.t.s = some(s, std::min<size_t>(200, room / 2)); i.data = dtxt(i.t); break; case 2: i.c = 'b'; i.b.s = some(s, std::min<size_t>(max == 0xff ? 255 : 700, room)); i.data = i.b.s; break; case 3: i.c = 's'; i.data = some(s, std::min<size_t>(max == 0xff ? 255 : 700, room)); break; case 4: i.c = 'x'; i.x.n = gnum(s); i.x.t.s = some(s, 10); i.x.more = !plain; if (!plain) i.x.b.s = some(s, 10); i.data = rec('n', dnum(i.x.n)) + rec('t', dtxt(i.x.t)); if (!plain) i.data += rec('b', i.x.b.s); break; default: i.c = 'c'; i.kids = gen(s, depth - 1, room / 4, plain); i.data = all(i.kids); if (s.chance(1, 4)) i.data += some(s, 3); }
			if (i.data.size() <= max && i.data.size() <= room) { room -= std::min(room, rec(i.c, i.data).size()); v.push_back(i); } } return v;
	}
	static str all(const std::vector<item>& v) { str o; for (auto& i : v) o += rec(i.c, i.data); return o; }
	static void place(std::vector<item>& v, size_t p) { for (auto& i : v) { i.at = p; place(i.kids, p + head); i.end = p + head + i.data.size(); i.next = i.end + pad(i.data.size()); p = i.next; } }
	static str kinds(const std::vector<item>& v) { str o; for (auto& i : v) { o += i.c; o += std::to_string(i.data.size()); if (!i.kids.empty()) o += "(" + kinds(i.kids) + ")"; o += ' '; } return o; }
	static void write(Src& s, st::basic_file& f, const std::vector<item>& v)
	{
		for (auto& i : v) { auto before = f.tell(); if (i.c == 'c' || i.c == 's' || s.chance(1, 3)) { auto at = i.c == 's' ? rskip::open(f) : R::open<I, L>(f, id(i.c)); PBT_EQ(u64(at), u64(before), "start of an opened record"); if (i.c == 'c') { write(s, f, i.kids); size_t k = all(i.kids).size(); f.write_array(i.data.data() + k, 1, i.data.size() - k); } else f.write_array(i.data.data(), 1, i.data.size()); auto end = i.c == 's' ? rskip::close(f, at) : R::close<I, L, N>(f, at); PBT_EQ(u64(end), u64(f.tell()), "end of a closed record"); } else { bool base = s.boolean(); st::basic& b = f; switch (i.c) { case 'n': { const num& d = i.n; if (base) b << rnum(d); else f << rnum(d); break; } case 't': if (base) b << rtxt(i.t); else f << rtxt(i.t); break; case 'b': if (base) b << rblob(i.b); else f << rblob(i.b); break; default: if (base) b << rbox(i.x); else f << rbox(i.x); } } PBT_REQUIRE(f.ok(), "write failed"); PBT_EQ(u64(f.tell()), u64(before + head + i.data.size() + pad(i.data.size())), "position after a record"); }
	}
	static void write(Src& s, std::ostream& f, const std::vector<item>& v)
	{
		for (auto& i : v) { if (i.c == 'c' || i.c == 's' || s.chance(1, 3)) { std::streamoff p = f.tellp(), at = i.c == 's' ? rskip::open(f) : R::open<I, L>(f, id(i.c)); PBT_EQ(at, p, "start of an opened record"); if (i.c == 'c') { write(s, f, i.kids); f << i.data.substr(all(i.kids).size()); } else f << i.data; std::streamoff end = i.c == 's' ? rskip::close(f, at) : R::close<I, L, N>(f, at); PBT_EQ(end, std::streamoff(f.tellp()), "end of a closed record"); } else switch (i.c) { case 'n': f << rnum(i.n); break; case 't': f << rtxt(i.t); break; default: f << rbox(i.x); } PBT_REQUIRE(f.good(), "write failed"); }
	}
	template<class T> static void got(const T& a, const T& b) { PBT_REQUIRE(a == b, "content read differs"); }
	// Finds, reads, skips and enters the records of a level; the stream is at the first or within the level.
	template<class F, class Tell, class Seek> static void walk(Src& s, F& f, const std::vector<item>& v, size_t end, bool limit, Tell tell, Seek seek, size_t& n)
	{
		for (size_t at = 0;;) { char c = s.pick<char>({'n', 't', 's', 'x', 'c', 'b'}); size_t k = at; while (k < v.size() && v[k].c != c) k++; bool found; auto lim = [&](auto none_) { return limit ? static_cast<decltype(none_)>(end) : none_; }; using off = decltype(tell()); off no; if constexpr (std::is_base_of_v<std::istream, F>) no = static_cast<off>(-1); else no = st::fpos_max;
			if (s.boolean()) found = R::find<I, L, N>(f, id(c), lim(no)); else switch (c) { case 'n': found = rnum::find(f, lim(no)); break; case 't': found = rtxt::find(f, lim(no)); break; case 's': found = rskip::find(f, lim(no)); break; case 'x': found = rbox::find(f, lim(no)); break; case 'b': found = rblob::find(f, lim(no)); break; default: found = R::find<I, L, N>(f, id(c), lim(no)); }
			PBT_EQ(found, k < v.size(), str("found ") + c); if (!found) return; n++; auto& i = v[k]; PBT_EQ(u64(tell()), u64(i.at + sizeof(I)), "where it was found"); at = k + 1;
			if (s.chance(1, 4)) { bool b; if constexpr (std::is_base_of_v<std::istream, F>) b = R::ignore<L, N>(f); else b = R::ignore<L, N>(f); PBT_REQUIRE(b, "skipping failed"); }
			else switch (c) { case 'n': { num d; f >> rnum(d); got(d, i.n); break; } case 't': { txt d; f >> rtxt(d); got(d, i.t); break; } case 's': { none d; f >> rskip(d); break; } case 'x': { box d; d.more = i.x.more; f >> rbox(d); got(d, i.x); break; } case 'b': if constexpr (!std::is_base_of_v<std::istream, F>) { blob d; f >> rblob(d); got(d, i.b); } else PBT_REQUIRE((R::ignore<L, N>(f)), "skipping failed"); break; default: seek(i.at + head); walk(s, f, i.kids, i.at + head + all(i.kids).size(), true, tell, seek, n); seek(i.next); }
			if constexpr (std::is_base_of_v<std::istream, F>) PBT_REQUIRE(f.good(), "reading failed"); else PBT_REQUIRE(f.ok(), "reading failed"); PBT_EQ(u64(tell()), u64(i.next), "position after a record"); }
	}
	static void round(Src& s)
	{
		bool plain = s.chance(1, 3); auto v = gen(s, 2, 3000, plain); str pre = s.chance(1, 3) ? some(s, 9) : ""; str ref = pre + all(v); place(v, pre.size()); s.note([&] { return "prefix " + std::to_string(pre.size()) + ", align " + std::to_string(N) + ", sizes of " + std::to_string(sizeof(L)) + ": " + kinds(v); }); str made; size_t n = 0, kind = s.draw(plain ? 2 : 1);
		if (kind == 2) { std::stringstream f(std::ios::in | std::ios::out | std::ios::binary); f << pre; write(s, f, v); made = f.str(); }
		else { st::memory_file m; if (kind) { st::cache c(m, 1 + s.draw(40)); c.write_array(pre.data(), 1, pre.size()); write(s, c, v); } else { m.write_array(pre.data(), 1, pre.size()); write(s, m, v); } made.assign(static_cast<const char*>(m.data()), static_cast<size_t>(m.size())); }
		PBT_EQ(show(made), show(ref), "bytes written"); exact<char> e(ref); if (plain && s.boolean()) { std::istringstream f(ref); f.seekg(static_cast<std::streamoff>(pre.size())); walk(s, f, v, ref.size(), s.boolean(), [&] { return std::streamoff(f.tellg()); }, [&](size_t p) { f.clear(); f.seekg(static_cast<std::streamoff>(p)); }, n); }
		else { st::memory_file m(e.get(), ref.size(), ref.size(), false); std::unique_ptr<st::cache> c; if (s.boolean()) c.reset(new st::cache(m, 1 + s.draw(40))); st::basic_file& f = c ? static_cast<st::basic_file&>(*c) : m; f.seekbeg(pre.size()); walk(s, f, v, ref.size(), s.boolean(), [&] { return f.tell(); }, [&](size_t p) { f.seekbeg(p); }, n); }
		s.nontrivial(n > 0); for (auto& i : v) s.label_if(i.c == 'c' && !i.kids.empty(), "records within records"); s.label_if(!pre.empty(), "not at the beginning"); s.label_if(kind == 2, "standard streams");
	}
	// Streams that cannot seek: each record in turn.
	static void sequential(Src& s)
	{
		auto v = gen(s, 0, 3000, false); str ref = all(v); s.note([&] { return kinds(v); }); ts::pipe out; { st::basic& b = out; for (auto& i : v) switch (i.c) { case 'n': b << rnum(i.n); break; case 't': b << rtxt(i.t); break; case 'b': b << rblob(i.b); break; case 's': b << R::record<blob, I, id('s'), L, N>(*new (&i.b) blob{i.data}); break; default: b << rbox(i.x); } PBT_REQUIRE(v.empty() || b.ok(), "write failed"); } PBT_EQ(show(out.out), show(ref), "bytes written");
		ts::pipe in(ref, ts::gen_plan(s, false, ref.size())); st::basic& b = in; I k; for (auto& i : v) { b >> k; PBT_REQUIRE(b.ok() && k == id(i.c), "id"); if (s.chance(1, 4)) PBT_REQUIRE((R::ignore<L, N>(b)), "skipping failed"); else switch (i.c) { case 'n': { num d; b >> rnum(d); got(d, i.n); break; } case 't': { txt d; b >> rtxt(d); got(d, i.t); break; } case 'b': { blob d; b >> rblob(d); got(d, i.b); break; } case 's': { none d; b >> rskip(d); break; } default: { box d; b >> rbox(d); got(d, i.x); } } PBT_REQUIRE(b.ok(), "reading failed"); } PBT_EQ(in.pos, ref.size(), "left unread"); b >> k; PBT_REQUIRE(!b.ok(), "read past the end"); s.nontrivial(!v.empty());
	}
	// Damaged files: what is found is what the bytes say, and searching ends.
	static bool model(const str& x, u64& p, u64 end, I want) { while (end == UINT64_MAX || p < end) { if (p + sizeof(I) > x.size()) return false; u64 i = un(x, static_cast<size_t>(p), sizeof(I)); p += sizeof(I); if (i == want) return true; if (p + sizeof(L) > x.size()) return false; u64 n = un(x, static_cast<size_t>(p), sizeof(L)); p += sizeof(L) + n + pad(n); } return false; }
	static void damaged(Src& s)
	{
		auto v = gen(s, 1, 400, false); str x = all(v); switch (s.draw(3)) { case 0: x.resize(s.draw(x.size())); break; case 1: for (size_t k = 1 + s.draw(3); k-- && x.size();) x[s.draw(x.size() - 1)] = static_cast<char>(s.pick<int>({0, 1, 2, 4, 0x7f, 0x80, 0xfe, 0xff, static_cast<int>(id('n') & 0xff)})); break; case 2: { size_t w = 0; x.clear(); for (size_t k = s.len(5); k--; w++) { le(x, id(s.pick<char>({'n', 't', 'b', 'q'})), sizeof(I)); u64 z = s.boolean() ? max - s.draw(9) : s.draw(20); le(x, z, sizeof(L)); x += some(s, 40); } break; } default: x = some(s, 60); }
		s.note([&] { return show(x); }); u64 end = s.boolean() ? UINT64_MAX : s.draw(x.size() + 3); bool std_ = s.boolean(); exact<char> e(x); st::memory_file m(e.get(), x.size(), x.size(), false); std::unique_ptr<st::cache> c; if (s.boolean()) c.reset(new st::cache(m, 1 + s.draw(20))); st::basic_file& f = c ? static_cast<st::basic_file&>(*c) : m; std::istringstream g(x); u64 p = 0; size_t n = 0;
		for (;; n++) { char want = s.pick<char>({'n', 't', 'b', 'x'}); bool r = model(x, p, end, id(want)), q; if (std_) q = R::find<I, L, N>(g, id(want), end == UINT64_MAX ? std::streamoff(-1) : std::streamoff(end)); else q = R::find<I, L, N>(f, id(want), end == UINT64_MAX ? st::fpos_max : st::fpos_t(end)); PBT_EQ(q, r, "found"); if (!r) break; PBT_EQ(std_ ? u64(g.tellg()) : u64(f.tell()), p, "where"); bool size = p + sizeof(L) <= x.size(); u64 z = size ? un(x, static_cast<size_t>(p), sizeof(L)) : 0, have = size ? std::min<u64>(z, x.size() - p - sizeof(L)) : 0; bool whole = size && p + sizeof(L) + z + pad(z) <= x.size();
			if (std_) { PBT_EQ((R::ignore<L, N>(g)), whole, "skipping"); if (!whole) break; } else if (s.boolean()) { bool k = R::ignore<L, N>(f); if (whole) PBT_REQUIRE(k, "skipping failed"); if (!size) PBT_REQUIRE(!k, "skipped a record without a size"); if (!k) break; } else { blob d; f >> R::record<blob, I, id('q'), L, N>(d); if (!size) { PBT_REQUIRE(d.s.empty() && !f.ok(), "read a record without a size"); break; } PBT_EQ(show(d.s), show(x.substr(static_cast<size_t>(p) + sizeof(L), static_cast<size_t>(have))), "content"); if (!f.ok()) break; }
			p += sizeof(L) + z + pad(z); PBT_EQ(std_ ? u64(g.tellg()) : u64(f.tell()), p, "after"); }
		s.nontrivial(x.size() > head); s.label_if(n > 0, "records found");
	}
};
template<class F> static void by_format(Src& s, F f)
{
	switch (s.draw(6)) { case 0: f(fmt<uint32_t, uint32_t, 2>()); break; case 1: f(fmt<uint32_t, uint32_t, 1>()); break; case 2: f(fmt<uint32_t, uint32_t, 4>()); break; case 3: f(fmt<uint16_t, uint16_t, 8>()); break; case 4: f(fmt<uint8_t, uint8_t, 4>()); break; case 5: f(fmt<uint64_t, uint16_t, 3>()); break; default: f(fmt<uint16_t, uint8_t, 2>()); }
}
PBT_CHECK(round_trip, 30000, 300000) { by_format(s, [&](auto f) { f.round(s); }); }
PBT_CHECK(streams, 15000, 150000) { by_format(s, [&](auto f) { f.sequential(s); }); }
PBT_CHECK(damaged_, 30000, 300000, 5) { by_format(s, [&](auto f) { f.damaged(s); }); }
PBT_MAIN("F01", "Trees of records of seven formats (sizes of 1 to 4 bytes, alignments 1 to 8), written, searched, read and skipped by random means, and damaged ones; cases in which records were found count as non-trivial. Oracle: bytes laid out by hand, the tree generated, a reference search of the bytes.")
