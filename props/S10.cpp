// Memory files built without checks of the state (CHECK_STREAM_STATE=0): each operation stands on its own.
// SCALE: 8
#define CHECK_STREAM_STATE 0
#include "pbt.hpp"
#include <stdex/stream.hpp>
using namespace pbt;
namespace st = stdex::stream; using st::state_t; using st::memory_file; using str = std::string;

struct model
{
	str d; size_t at = 0, room = SIZE_MAX; state_t state = state_t::ok;
	bool put(const str& x) { if (at + x.size() > room) { state = state_t::fail; return false; } if (d.size() < at) d.resize(at, '\0'); d.replace(at, std::min(x.size(), d.size() - at), x); at += x.size(); state = state_t::ok; return true; }
	str rest() const { return at < d.size() ? d.substr(at) : str(); }
	bool take(size_t n, str& x) { if (at + n > d.size()) { at = std::max(at, d.size()); state = state_t::eof; return false; } x = d.substr(at, n); at += n; state = state_t::ok; return true; }
};
template<class T> static str raw(const T& v) { return str(reinterpret_cast<const char*>(&v), sizeof(T)); }
static str length(size_t n) { return raw(static_cast<uint32_t>(n)); }
template<class T> static void value(Src& s, memory_file& f, model& m, bool write)
{
	T v; str x = s.bytes(sizeof(T)); x.resize(sizeof(T), '\x5a'); memcpy(&v, x.data(), sizeof(T)); auto what = std::to_string(sizeof(T)) + " bytes";
	if (write) { f.write_data(v); m.put(x); return; }
	f.read_data(v); str w(sizeof(T), '\0'); m.take(sizeof(T), w); PBT_REQUIRE(raw(v) == w, "value of " + what);
}
template<class T> static void text(Src& s, memory_file& f, model& m, size_t how)
{
	std::basic_string<T> x; for (size_t n = s.len(20); n--;) x += static_cast<T>(how == 1 ? 1 + s.draw(126) : s.draw(255)); auto bytes = [](const std::basic_string<T>& t) { return str(reinterpret_cast<const char*>(t.data()), t.size() * sizeof(T)); };
	switch (how) {
	case 0: f.write_str(x); m.put(length(x.size()) + bytes(x)); break;
	case 1: f.write_str(x.c_str()); m.put(length(x.size()) + bytes(x)); break;
	default: { f.read_str(x); str n, w; if (m.take(4, n)) { uint32_t k; memcpy(&k, n.data(), 4); str all = m.rest(); if (!m.take(static_cast<size_t>(k) * sizeof(T), w)) w = all.substr(0, all.size() / sizeof(T) * sizeof(T)); } PBT_REQUIRE(bytes(x) == w, "text of " + std::to_string(sizeof(T)) + " byte units: " + show(bytes(x)) + ", not " + show(w)); } }
}
PBT_CHECK(operations, 60000, 600000)
{
	model m; m.d = s.bytes(40); exact<char> e(m.d.size() + 20, '~'); memcpy(e.get(), m.d.data(), m.d.size()); bool own = s.boolean(); memory_file o; if (own) { o.write(m.d.data(), m.d.size()); o.seekbeg(0); } else m.room = m.d.size() + s.draw(20); memory_file b(e.get(), m.d.size(), own ? m.d.size() : m.room, false); memory_file& f = own ? o : b; size_t n = 0; std::set<size_t> states; bool again = false;
	s.note([&] { return std::string(own ? "own" : "borrowed") + " memory, " + std::to_string(m.d.size()) + " bytes" + (own ? "" : ", room for " + std::to_string(m.room)); });
	s.repeat(25, [&] {
		bool bad = m.state != state_t::ok, write = s.boolean(); size_t k = s.draw(12); s.note([&] { return (write ? "write " : "read ") + std::to_string(k) + " at " + std::to_string(m.at); });
		switch (k) {
		case 0: value<int8_t>(s, f, m, write); break; case 1: value<uint16_t>(s, f, m, write); break; case 2: value<int32_t>(s, f, m, write); break; case 3: value<uint64_t>(s, f, m, write); break; case 4: value<float>(s, f, m, write); break; case 5: value<double>(s, f, m, write); break;
		case 6: text<char>(s, f, m, 0); break; case 7: text<char>(s, f, m, 1); break; case 8: text<char>(s, f, m, 2); break; case 9: text<char16_t>(s, f, m, s.draw(2)); break; case 10: text<wchar_t>(s, f, m, s.draw(2)); break;
		default: m.at = s.boolean() ? s.draw(60) : s.draw(m.d.size()); m.state = state_t::ok; f.seekbeg(m.at); }
		n++; states.insert(static_cast<size_t>(m.state)); again |= bad && m.state == state_t::ok;
		PBT_EQ(f.state(), m.state, "state"); PBT_EQ(f.tell(), m.at, "position"); PBT_EQ(f.size(), m.d.size(), "size"); PBT_REQUIRE(!memcmp(f.data(), m.d.data(), m.d.size()), "contents");
	});
	s.nontrivial(n >= 3 && states.size() > 1 && again);
}
// A record of several fields read back after any cut: all that is there comes, and what is not is empty.
PBT_CHECK(records, 20000, 200000)
{
	memory_file f; uint32_t a = static_cast<uint32_t>(s.draw(UINT32_MAX)), a2; uint16_t b = static_cast<uint16_t>(s.draw(UINT16_MAX)), b2; str t = s.bytes(20), t2; f.write_data(a).write_str(t).write_data(b); PBT_REQUIRE(f.ok()); size_t all = 4 + 4 + t.size() + 2; PBT_EQ(f.size(), all); size_t cut = s.draw(all); f.seekbeg(cut); f.truncate(); f.seekbeg(0); s.note([&] { return show(t) + " cut at " + std::to_string(cut); });
	f.read_data(a2).read_str(t2).read_data(b2); s.nontrivial(cut < all); PBT_EQ(f.state(), cut < all ? state_t::eof : state_t::ok); PBT_EQ(f.tell(), cut, "position"); if (cut >= 4) PBT_EQ(a2, a); else { PBT_EQ(a2, 0u); PBT_EQ(t2, str()); } if (cut >= 8) PBT_EQ(t2, t.substr(0, cut - 8)); if (cut == all) PBT_EQ(b2, b); else PBT_EQ(b2, 0u);
}
PBT_MAIN("S10", "memory files in a build without checks of the state: typed values and texts of several widths written and read at any place of own and borrowed memory after any outcome of the operation before; non-trivial: at least 3 operations with one that succeeds after one that did not. Oracle: a byte array with a position and the outcome of each operation on its own.")
