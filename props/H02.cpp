// Hexadecimal coding against a direct reference.
// SCALE: 12
#include "pbt.hpp"
#include <stdex/hex.hpp>
using namespace pbt;

template<class C> static std::basic_string<C> ref_enc(const std::string& d)
{
	std::basic_string<C> r;
	for (unsigned char x : d) { r += static_cast<C>("0123456789ABCDEF"[x >> 4]); r += static_cast<C>("0123456789ABCDEF"[x & 15]); }
	return r;
}
static std::vector<size_t> split(Src& s, size_t n)
{
	std::vector<size_t> r; size_t done = 0;
	while (done < n) {
		size_t k = s.chance(1, 3) ? n - done : s.range<size_t>(0, std::min<size_t>(n - done, 5));
		r.push_back(k); done += k;
		if (r.size() > 4000) { r.push_back(n - done); break; }
	}
	if (s.chance(1, 8)) r.push_back(0);
	return r;
}

template<class C> static void encode(Src& s)
{
	stdex::hex_enc enc;
	std::string data = s.bytes(300);
	std::basic_string<C> out, pre = s.boolean() ? std::basic_string<C>(3, C('x')) : std::basic_string<C>();
	out = pre;
	size_t pos = 0;
	auto cuts = split(s, data.size());
	s.nontrivial(data.size() >= 2 && cuts.size() >= 2);
	s.note([&] { return "encode " + show(data) + " in blocks " + show(cuts); });
	for (size_t k : cuts) { exact<char> b(data.data() + pos, k); enc.encode(out, b.get(), k); pos += k; }
	PBT_EQ(out, pre + ref_enc<C>(data));
	PBT_EQ(enc.enc_size(data.size()), out.size() - pre.size(), "enc_size");
	// Back.
	stdex::hex_dec dec; std::vector<uint8_t> back; bool last = false;
	exact<C> e(out.data() + pre.size(), out.size() - pre.size());
	dec.decode(back, last, e.get(), e.n);
	PBT_EQ(std::string(back.begin(), back.end()), data);
	PBT_EQ(last, !data.empty());
}
PBT_CHECK(encode_narrow, 60000, 600000) { encode<char>(s); }
PBT_CHECK(encode_wide, 30000, 300000) { encode<wchar_t>(s); }

template<class C> static void decode(Src& s)
{
	static const char digits[] = "0123456789ABCDEFabcdef";
	std::basic_string<C> txt; std::string want; unsigned acc = 0; int nib = 0;
	size_t n = s.len(200); bool foreign = false;
	for (size_t i = 0; i < n; i++) {
		if (s.chance(1, 4)) {
			C c;
			switch (s.draw(3)) {
			case 0: c = static_cast<C>(' '); break;
			case 1: c = static_cast<C>(s.pick(std::string("/:@G`g-\r\n\t"))); break; // next to digits in the code table
			default: c = static_cast<C>(s.draw(sizeof(C) == 1 ? 255 : 0x1ffff));
			}
			if (c == 0 || (c > 0 && c < 128 && strchr(digits, static_cast<int>(c)))) c = static_cast<C>('.');
			txt += c; foreign = true;
		}
		else txt += static_cast<C>(digits[s.draw(21)]);
	}
	if (s.chance(1, 8)) { txt += C(0); txt += C('4'); txt += C('1'); } // decoding stops at the terminator
	stdex::hex_dec dec; std::vector<uint8_t> out;
	if (s.chance(1, 4)) { // reuse after clear
		bool l; C j[3] = {C('1'), C('2'), C('3')}; dec.decode(out, l, j, s.range<size_t>(0, 3)); out.clear(); dec.clear();
	}
	auto cuts = split(s, txt.size());
	s.nontrivial(n >= 4 && cuts.size() >= 2 && foreign);
	s.note([&] { return "decode " + show(txt) + " in blocks " + show(cuts); });
	size_t pos = 0;
	for (size_t k : cuts) {
		exact<C> b(txt.data() + pos, k);
		bool last = s.boolean(), completed = false; size_t before = out.size();
		for (size_t i = pos; i < pos + k && txt[i]; i++) {
			const char* q = txt[i] > 0 && txt[i] < 128 ? strchr(digits, static_cast<int>(txt[i])) : nullptr;
			completed = false;
			if (!q) continue;
			unsigned v = static_cast<unsigned>(q - digits); if (v >= 16) v -= 6;
			acc = (acc << 4 | v) & 0xff;
			if (++nib == 2) { want += static_cast<char>(acc); nib = 0; completed = true; }
		}
		dec.decode(out, last, b.get(), k);
		PBT_REQUIRE(out.size() - before <= dec.dec_size(k), "more than dec_size"); PBT_EQ(dec.dec_size(k), (k + 1) / 2, "dec_size");
		PBT_EQ(std::string(out.begin(), out.end()), want);
		PBT_EQ(last, completed);
		pos += k;
	}
}
PBT_CHECK(decode_narrow, 60000, 600000) { decode<char>(s); }
PBT_CHECK(decode_wide, 30000, 300000) { decode<wchar_t>(s); }

// Every byte value, both cases.
PBT_CHECK(all_bytes, 1024, 1024)
{
	unsigned x = static_cast<unsigned>(s.enumerate(256)); bool lo1 = s.boolean(), lo2 = s.boolean();
	s.nontrivial();
	char t[3]; snprintf(t, 3, "%02X", x); std::string u;
	stdex::hex_enc().encode(u, &x, 1); PBT_EQ(u, std::string(t));
	if (lo1) t[0] = static_cast<char>(tolower(t[0])); if (lo2) t[1] = static_cast<char>(tolower(t[1]));
	std::vector<char> o; bool l; stdex::hex_dec().decode(o, l, t, 2);
	PBT_REQUIRE(l && o.size() == 1 && static_cast<uint8_t>(o[0]) == x);
}

PBT_MAIN("H02", "Random bytes or digit texts with foreign characters, cut into random blocks (empty ones included); non-trivial: at least two blocks and (decoding) at least one foreign character. Oracle: direct reference codec.")
