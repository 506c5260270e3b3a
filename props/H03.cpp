// Base64 in memory and through streams against an RFC 4648 reference.
// SCALE: 8
#include "streams.hpp"
#include <stdex/base64.hpp>
using namespace pbt;

static const char abc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string rfc(const std::string& d)
{
	std::string r;
	for (size_t i = 0; i < d.size(); i += 3) {
		uint32_t v = 0; size_t n = std::min<size_t>(3, d.size() - i);
		for (size_t k = 0; k < 3; k++) v = v << 8 | (k < n ? static_cast<uint8_t>(d[i + k]) : 0);
		for (size_t k = 0; k < 4; k++) r += k <= n ? abc[v >> (18 - 6 * k) & 63] : '=';
	}
	return r;
}
static std::vector<size_t> split(Src& s, size_t n)
{
	std::vector<size_t> r; size_t done = 0; unsigned style = static_cast<unsigned>(s.draw(2));
	while (done < n) { size_t k = r.size() > 300 ? n - done : std::min<size_t>(n - done, style == 0 ? n - done : style == 1 ? s.draw(7) : s.draw(60)); r.push_back(k); done += k; }
	if (s.chance(1, 8)) r.push_back(0);
	return r;
}

template<class C> static void encode(Src& s)
{
	stdex::base64_enc enc;
	if (s.chance(1, 4)) { std::basic_string<C> junk; enc.encode(junk, "abcd", s.range<size_t>(0, 4), s.boolean()); enc.clear(); }
	unsigned rounds = 1 + static_cast<unsigned>(s.draw(1));
	while (rounds--) {
		std::string d = s.bytes(300); auto cuts = split(s, d.size());
		std::basic_string<C> out(s.draw(2), C('#')), want = out;
		for (char c : rfc(d)) want += static_cast<C>(c);
		s.nontrivial(cuts.size() >= 2 && d.size() >= 3); s.label("tail " + std::to_string(d.size() % 3));
		s.note([&] { return "encode " + show(d) + " in blocks " + show(cuts); });
		size_t pos = 0; bool apart = cuts.empty() || s.chance(1, 4);
		for (size_t i = 0; i < cuts.size(); i++) {
			exact<char> b(d.data() + pos, cuts[i]); size_t before = out.size(), max = enc.enc_size(cuts[i]);
			enc.encode(out, b.get(), cuts[i], !apart && i + 1 == cuts.size()); pos += cuts[i];
			PBT_REQUIRE(out.size() - before <= max);
		}
		if (apart) enc.encode(out, nullptr, 0, true);
		PBT_EQ(out, want);
	}
}
PBT_CHECK(encode_narrow, 60000, 600000) { encode<char>(s); }
PBT_CHECK(encode_wide, 20000, 200000) { encode<wchar_t>(s); }

template<class C> static C foreign(Src& s)
{
	C c;
	switch (s.draw(3)) {
	case 0: c = C('\n'); break;
	case 1: c = static_cast<C>(s.pick(std::string(" \r\t-_.,:@[`{*"))); break;
	default: c = static_cast<C>(s.draw(sizeof(C) == 1 ? 255 : 0x1ffff));
	}
	if (c == 0 || c == '=' || (c > 0 && c < 128 && strchr(abc, static_cast<int>(c)))) c = C('\n');
	return c;
}
template<class C> static void decode(Src& s)
{
	stdex::base64_dec dec;
	if (s.chance(1, 4)) { std::vector<char> j; bool l; C t[3] = {C('Q'), C('U'), C('I')}; dec.decode(j, l, t, s.range<size_t>(0, 3)); dec.clear(); }
	unsigned rounds = 1 + static_cast<unsigned>(s.draw(1));
	while (rounds--) {
		std::string d = s.bytes(300), e = rfc(d); std::basic_string<C> txt; bool noise = s.boolean(), any = false;
		for (char c : e) { if (noise && s.chance(1, 6)) { txt += foreign<C>(s); any = true; } txt += static_cast<C>(c); }
		bool padded = d.size() % 3 != 0;
		if (noise && !padded && s.boolean()) txt += foreign<C>(s);
		size_t end = txt.size(); // the padding ends here
		if (padded && s.chance(1, 3)) { size_t k = s.draw(4); for (size_t i = 0; i < k; i++) txt += static_cast<C>(abc[s.draw(63)]); } // after the end: ignored in that block
		auto cuts = split(s, txt.size());
		s.nontrivial(cuts.size() >= 2 && d.size() >= 3); s.label_if(any, "foreign characters");
		s.note([&] { return "decode " + show(txt) + " in blocks " + show(cuts); });
		std::vector<char> out; size_t pos = 0, eq = 0;
		for (size_t k : cuts) {
			exact<C> b(txt.data() + pos, k); bool last = s.boolean(); size_t before = out.size(), max = dec.dec_size(k);
			dec.decode(out, last, b.get(), k); pos += k;
			PBT_REQUIRE(out.size() - before <= max);
			PBT_EQ(last, padded && pos >= end);
			if (last) break;
		}
		(void)eq;
		PBT_EQ(std::string(out.begin(), out.end()), d);
	}
}
PBT_CHECK(decode_narrow, 60000, 600000) { decode<char>(s); }
PBT_CHECK(decode_wide, 20000, 200000) { decode<wchar_t>(s); }
PBT_CHECK(decode_terminator, 20000, 100000)
{
	std::string d = s.bytes(40), t = rfc(d.substr(0, d.size() / 3 * 3)); size_t cut = s.draw(t.size()); std::string u = t; u.insert(cut, 1, '\0');
	stdex::base64_dec dec; std::vector<uint8_t> out; bool last; exact<char> b(u); dec.decode(out, last, b.get(), b.n);
	s.nontrivial(cut > 4); PBT_EQ(std::string(out.begin(), out.end()), d.substr(0, cut / 4 * 3)); PBT_REQUIRE(!last);
}
// Any bytes at all: bounded output, nothing touched outside.
PBT_CHECK(decode_anything, 40000, 400000)
{
	stdex::base64_dec dec; std::vector<uint8_t> out; bool last = false;
	s.repeat(10, [&] {
		std::string t = s.text<char>(60, std::string("AQgw==\n\0+/~\xff", 12)); exact<char> b(t); size_t before = out.size(), max = dec.dec_size(t.size());
		dec.decode(out, last, b.get(), b.n); PBT_REQUIRE(out.size() - before <= max); s.nontrivial(!out.empty());
	});
}

// Through streams.
PBT_CHECK(writer, 40000, 400000)
{
	size_t blocks = s.pick<size_t>({19, 1, 2, 3, SIZE_MAX});
	ts::pipe p; p.p = ts::gen_plan(s, true, 80); std::string d, given; bool failed = false;
	{
		stdex::base64_writer w(p, blocks);
		s.repeat(40, [&] {
			if (failed) return;
			std::string x = s.bytes(40); exact<char> b(x); given += x;
			size_t k = w.write(b.get(), b.n);
			PBT_REQUIRE(k <= x.size());
			if (k < x.size()) { PBT_REQUIRE(!w.ok() && p.failed_write); failed = true; }
			if (!p.failed_write) { PBT_REQUIRE(w.ok()); PBT_EQ(k, x.size()); }
			d += x.substr(0, k);
		});
	}
	std::string want, e = rfc(d);
	for (size_t i = 0, n = 0; i < e.size(); i += 4) { if (n == blocks) { want += '\n'; n = 0; } want += e.substr(i, 4); n++; }
	s.nontrivial(p.writes >= 2); s.label_if(failed, "failed");
	s.note([&] { return "write " + show(d) + " with " + show(blocks) + " blocks a line; " + ts::show(p.p); });
	if (!p.failed_write) { PBT_EQ(d, given); PBT_EQ(p.out, want); }
	else {
		// What was reported as written is all that was taken, and all of it but an unfinished quantum got through.
		PBT_EQ(p.out, want.substr(0, p.out.size()));
		if (failed) PBT_REQUIRE(p.out.size() + 5 >= (d.size() / 3 * 4) && d.size() <= given.size(), "took " + std::to_string(d.size()) + " wrote " + std::to_string(p.out.size()));
	}
}
PBT_CHECK(reader, 60000, 600000)
{
	std::string d = s.bytes(200), e = rfc(d), txt; bool noise = s.boolean();
	for (char c : e) { if (noise && s.chance(1, 8)) txt += foreign<char>(s); txt += c; }
	ts::pipe p(txt, ts::gen_plan(s, true, txt.size())); stdex::base64_reader r(p); std::string got; bool ended = false; size_t style = s.draw(3);
	s.note([&] { return "read " + show(txt) + " " + ts::show(p.p) + " style " + show(style); });
	for (int calls = 0; calls < 1000; calls++) {
		size_t n = style == 0 ? 1 + s.draw(8) : style == 1 ? 1 : style == 2 ? 400 : s.draw(20); exact<char> b(n, '!');
		size_t k = r.read(b.get(), n);
		PBT_REQUIRE(k <= n); got.append(b.get(), k);
		for (size_t i = k; i < n && style != 3; i++) PBT_REQUIRE(b[static_cast<ptrdiff_t>(i)] == '!', "bytes beyond the reported amount touched");
		if (n && !k) { PBT_REQUIRE(!r.ok()); ended = true; break; }
		if (!n) PBT_REQUIRE(r.ok());
	}
	s.nontrivial(got.size() >= 3); s.label_if(p.failed_read, "failed");
	PBT_REQUIRE(ended);
	if (p.failed_read) { PBT_REQUIRE(r.state() == stdex::stream::state_t::fail); PBT_EQ(got, d.substr(0, got.size())); }
	else { PBT_EQ(got, d); PBT_REQUIRE(r.state() == stdex::stream::state_t::eof); }
}
// Data behind the padding: a read that wants a whole quantum or more stops at the padding, a later one goes on behind it.
PBT_CHECK(reader_padding, 30000, 300000)
{
	std::string txt; std::vector<std::string> q; for (size_t n = 1 + s.draw(3); n--;) { std::string d = s.bytes(9), e = rfc(d); txt += e; for (size_t i = 0; i < d.size(); i += 3) q.push_back(d.substr(i, 3)); } ts::pipe p(txt, ts::gen_plan(s, false, txt.size())); stdex::base64_reader r(p); size_t at = 0, stops = 0; std::string left; s.note([&] { return "read " + show(txt); });
	for (int calls = 0; calls < 200; calls++) {
		size_t n = 1 + s.draw(7); std::string want; bool stop = false; while (want.size() < n) { if (!left.empty()) { size_t k = std::min(left.size(), n - want.size()); want += left.substr(0, k); left.erase(0, k); if (stop) break; continue; } if (at == q.size()) break; left = q[at++]; if (left.size() < 3 && n - want.size() >= 3) { stop = true; stops++; } }
		exact<char> b(n, '!'); size_t k = r.read(b.get(), n); PBT_EQ(std::string(b.get(), k), want, "read of " + std::to_string(n)); if (k == n || stop) PBT_REQUIRE(r.ok(), "state of a read that was not ended by the text"); if (!k) { PBT_REQUIRE(r.state() == stdex::stream::state_t::eof, "end"); break; }
	}
	s.nontrivial(stops > 0); s.label_if(stops > 1, "several paddings");
}
PBT_CHECK(reader_anything, 30000, 300000)
{
	std::string t = s.text<char>(100, std::string("AQgw==\n\0+/~\xff", 12)); ts::pipe p(t); stdex::base64_reader r(p); size_t total = 0;
	for (int calls = 0; calls < 400; calls++) { size_t n = 1 + s.draw(9); exact<char> b(n, '!'); size_t k = r.read(b.get(), n); PBT_REQUIRE(k <= n); total += k; if (!k) { PBT_REQUIRE(!r.ok()); break; } }
	s.nontrivial(total > 3); PBT_REQUIRE(total <= (t.size() + 3) / 4 * 3);
}
PBT_CHECK(both_ways, 20000, 200000)
{
	std::string d = s.bytes(400); ts::pipe a; { stdex::base64_writer w(a, s.pick<size_t>({19, 1, 7, SIZE_MAX})); size_t pos = 0; for (size_t k : split(s, d.size())) { w.write(d.data() + pos, k); pos += k; } }
	ts::pipe b(a.out); stdex::base64_reader r(b); auto v = r.read_remainder(); s.nontrivial(d.size() > 3);
	PBT_EQ(std::string(v.begin(), v.end()), d);
}

PBT_MAIN("H03", "Random bytes, cut into random blocks, encoded and decoded, with foreign characters, terminators and trailing text, in memory and through streams that transfer short or fail; non-trivial: at least two blocks and a complete quantum. Oracle: RFC 4648 reference encoder.")
