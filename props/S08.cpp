// Lines, multi-byte text and byte order marks through streams.
// SCALE: 5
#include "fileops.hpp"
#include "reftext.hpp"
using namespace fo;
using namespace stdex::stream;
using stdex::utf16_t; using stdex::charset_id; using stdex::charset_encoder;

// What the lines of a text are, by definition.
template<class C> static std::vector<std::basic_string<C>> split(const std::basic_string<C>& t)
{
	std::vector<std::basic_string<C>> r; size_t p = 0;
	for (;;) {
		size_t e = t.find(C('\n'), p); if (e == t.npos) { r.push_back(t.substr(p)); return r; }
		auto l = t.substr(p, e - p); if (!l.empty() && l.back() == C('\r')) l.pop_back(); r.push_back(l); p = e + 1;
	}
}
template<class C> static std::string raw(const std::basic_string<C>& t) { return std::string(reinterpret_cast<const char*>(t.data()), t.size() * sizeof(C)); }
// A stream of some kind with the given contents.
struct opened { memory_file m; std::unique_ptr<basic> f; basic_file* bf = nullptr; const char* name = ""; };
static void open_with(Src& s, opened& o, const std::string& data, bool seekable = false)
{
	switch (s.draw(seekable ? 2 : 4)) {
	case 0: { auto m = std::make_unique<memory_file>(); m->write(data.data(), data.size()); m->seekbeg(0); o.bf = m.get(); o.f = std::move(m); o.name = "memory"; break; }
	case 1: { o.m.write(data.data(), data.size()); o.m.seekbeg(0); auto c = std::make_unique<cache>(o.m, 1 + s.draw(20)); o.bf = c.get(); o.f = std::move(c); o.name = "cache"; break; }
	case 2: { std::string pad = gen_data(s, s.len(10)); std::string all = pad + data + pad; o.m.write(all.data(), all.size()); o.m.seekbeg(pad.size()); auto w = std::make_unique<file_window>(o.m, pad.size(), data.size()); o.bf = w.get(); o.f = std::move(w); o.name = "window"; break; }
	case 3: o.f = std::make_unique<ts::pipe>(data, ts::gen_plan(s, false, 0)); o.name = "sequential"; break;
	default: { auto q = std::make_unique<fifo>(); q->write(data.data(), data.size()); o.f = std::move(q); o.name = "fifo"; } }
	s.label(o.name);
}
template<class C> static std::basic_string<C> gen_lines(Src& s)
{
	std::basic_string<C> t; size_t n = s.len(60);
	for (size_t i = 0; i < n; i++) switch (s.weighted({4, 2, 3, 1})) { case 0: t += static_cast<C>('a' + s.draw(3)); break; case 1: t += C('\r'); break; case 2: t += C('\n'); break; default: t += static_cast<C>(1 + s.draw(sizeof(C) == 1 ? 254 : 0xfffe)); }
	return t;
}
template<class C> static void lines(Src& s)
{
	auto t = gen_lines<C>(s); auto e = split(t); opened o; open_with(s, o, raw(t)); s.note([&] { return "text " + show(t) + " from " + o.name; }); std::basic_string<C> l, before;
	for (size_t i = 0; i < e.size(); i++) {
		bool attach = s.boolean(); size_t n; before = l; if (attach) { n = o.f->readln_and_attach(l); PBT_REQUIRE(l == before + e[i], "line " + std::to_string(i) + ": " + show(l) + " instead of " + show(before + e[i])); } else { n = o.f->readln(l); PBT_REQUIRE(l == e[i], "line " + std::to_string(i) + ": " + show(l) + " instead of " + show(e[i])); }
		PBT_EQ(n, l.size()); PBT_EQ(o.f->state(), i + 1 < e.size() ? state_t::ok : state_t::eof, "state after line " + std::to_string(i));
	}
	s.nontrivial(e.size() > 1); s.label_if(t.find(C('\r')) != t.npos, "with CR");
}
PBT_CHECK(narrow_lines, 80000, 800000) { lines<char>(s); }
PBT_CHECK(wide_lines, 50000, 500000) { if (s.boolean()) lines<wchar_t>(s); else lines<utf16_t>(s); }
// A failing source: the part before the failure is delivered, and the failure reported.
PBT_CHECK(failing_lines, 40000, 400000)
{
	auto t = gen_lines<char>(s); ts::plan p = ts::gen_plan(s, false, 0); p.fail_read = s.draw(t.size()); ts::pipe f(t, p); auto e = split(t.substr(0, static_cast<size_t>(p.fail_read))); std::string l;
	for (size_t i = 0; i < e.size(); i++) { f.readln(l); PBT_REQUIRE(l == e[i]); PBT_EQ(f.state(), i + 1 < e.size() ? state_t::ok : state_t::fail); } s.nontrivial(p.fail_read > 0);
}

// Text in a character set: written through an encoder, it is the text in that set; read through one, it is the text again.
template<class C> struct cs;
template<> struct cs<char> { static constexpr charset_id id = charset_id::utf8; static std::string enc(const std::u32string& t) { return rt::utf8(t); } };
template<> struct cs<utf16_t> { static constexpr charset_id id = charset_id::utf16; static std::u16string enc(const std::u32string& t) { return rt::utf16(t); } };
template<> struct cs<wchar_t> { static constexpr charset_id id = charset_id::utf32; static std::wstring enc(const std::u32string& t) { return rt::wide(t); } };
template<class M, class F> static void coded(Src& s) // in memory, in file
{
	std::u32string t; s.repeat(8, [&] { auto l = rt::gen(s, s.chance(1, 20) ? 700 : 15); t += l; if (s.chance(2, 3)) t += s.boolean() ? U"\r\n" : U"\n"; }); for (auto& c : t) if (!c) c = U'.';
	s.note([&] { return "text " + show(rt::utf8(t)) + ", " + std::to_string(sizeof(M)) + "-byte units written as " + std::to_string(sizeof(F)); });
	auto mem = cs<M>::enc(t); auto fil = cs<F>::enc(t); memory_file f; bool bom = s.boolean(); size_t start = 0; if (bom) { f.write_charset(cs<F>::id); PBT_REQUIRE(f.ok()); start = static_cast<size_t>(f.size()); PBT_EQ(start, sizeof(F) == 1 ? 3u : sizeof(F)); }
	{ charset_encoder<M, F> enc(cs<M>::id, cs<F>::id); size_t n; switch (s.draw(2)) { case 0: n = f.write_array(mem, enc); break; case 1: n = f.write_array(mem.c_str(), enc); break; default: { auto b = mem + cs<M>::enc(U"zzz"); exact<M> x(b.data(), mem.size()); n = f.write_array(x.get(), mem.size(), enc); } } PBT_EQ(n, fil.size(), "code units written"); PBT_REQUIRE(f.ok()); }
	PBT_EQ(f.size(), start + fil.size() * sizeof(F), "size"); PBT_REQUIRE(fil.empty() || !memcmp(static_cast<const char*>(f.data()) + start, fil.data(), fil.size() * sizeof(F)), "written text");
	auto got = f.read_charset(charset_id::windows1250); bool looks = t.size() && t[0] == 0xfeff; if (bom) { PBT_EQ(got, cs<F>::id, "byte order mark"); PBT_EQ(f.tell(), start); } else if (!looks) { PBT_EQ(got, charset_id::windows1250, "no byte order mark"); PBT_EQ(f.tell(), 0u); } else f.seekbeg(0);
	charset_encoder<F, M> dec(cs<F>::id, cs<M>::id); auto e = split(fil); std::basic_string<M> l, all, ref; auto tl = split(t); if (tl.size() != e.size()) throw discard_t{};
	for (size_t i = 0; i < tl.size(); i++) { bool attach = s.boolean(); auto before = l; size_t n; auto want = cs<M>::enc(tl[i]); if (attach) { n = f.readln_and_attach(l, dec); PBT_REQUIRE(l == before + want, "line " + std::to_string(i)); } else { n = f.readln(l, dec); PBT_REQUIRE(l == want, "line " + std::to_string(i)); } PBT_EQ(n, l.size()); PBT_EQ(f.state(), i + 1 < tl.size() ? state_t::ok : state_t::eof); }
	s.nontrivial(t.size() > 1); s.label_if(bom, "byte order mark"); s.label_if(tl.size() > 1, "many lines");
}
PBT_CHECK(coded_text, 50000, 500000)
{
	switch (s.draw(6)) { case 0: coded<wchar_t, char>(s); break; case 1: coded<utf16_t, char>(s); break; case 2: coded<char, utf16_t>(s); break; case 3: coded<wchar_t, utf16_t>(s); break; case 4: coded<char, wchar_t>(s); break; case 5: coded<char, char>(s); break; default: coded<utf16_t, utf16_t>(s); }
}
PBT_CHECK(marks, 60000, 600000)
{
	static const std::string b8 = "\xef\xbb\xbf", b16("\xff\xfe", 2), b32("\xff\xfe\0\0", 4), r16("\xfe\xff", 2); std::string d;
	if (s.boolean()) { d = s.pick<std::string>({b8, b16, b32, r16}); if (s.chance(1, 3)) d.resize(static_cast<size_t>(s.draw(d.size()))); } size_t n = s.len(6); for (size_t i = 0; i < n; i++) d += s.boolean() ? static_cast<char>(s.draw(255)) : s.pick<char>({'\0', '\xff', '\xfe', '\xef', '\xbb', '\xbf', 'a'});
	auto starts = [&](const std::string& p) { return d.compare(0, p.size(), p) == 0; }; charset_id e = charset_id::windows1251; size_t at = 0; if (starts(b32)) e = charset_id::utf32, at = 4; else if (starts(b16)) e = charset_id::utf16, at = 2; else if (starts(b8)) e = charset_id::utf8, at = 3;
	opened o; open_with(s, o, d, true); s.note([&] { return "file " + show(d) + " as " + o.name; }); if (s.boolean()) o.bf->seekbeg(s.draw(d.size())); PBT_EQ(o.bf->read_charset(charset_id::windows1251), e); PBT_EQ(o.bf->tell(), at, "position"); PBT_REQUIRE(o.bf->ok()); std::string r(10, ' '); r.resize(o.bf->read_array(&r[0], 1, r.size())); PBT_REQUIRE(r == d.substr(at, 10), "rest of the file"); s.nontrivial(at > 0 || d.size() > 1); s.label_if(at > 0, "marked");
	memory_file w; auto id = static_cast<charset_id>(s.draw(7)); w.write_charset(id); std::string m = id == charset_id::utf8 ? b8 : id == charset_id::utf16 ? b16 : id == charset_id::utf32 ? b32 : ""; PBT_EQ(w.size(), m.size()); PBT_REQUIRE(m.empty() || !memcmp(w.data(), m.data(), m.size()));
}
PBT_MAIN("S08", "more than one line, character or byte")
