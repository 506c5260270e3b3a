// WAVE files: composed by the library and compared with bytes laid out by hand, foreign ones read and stripped of cues, damaged ones.
// SCALE: 2
#include "streams.hpp"
#define __cdecl
#include <stdex/wav.hpp>
using namespace pbt; namespace W = stdex::wav; namespace R = stdex::idrec; namespace st = stdex::stream; using str = std::string; using u64 = uint64_t; using u32 = uint32_t;
static str le(u64 v, size_t n) { str o; while (n--) { o += static_cast<char>(v & 0xff); v >>= 8; } return o; }
static u32 un(const str& x, size_t p) { u32 v = 0; for (size_t i = 4; i--;) v = v << 8 | static_cast<uint8_t>(x[p + i]); return v; }
static u32 tag(const str& id) { return un(id, 0); }
static str chunk(const str& id, const str& body) { str o = id + le(body.size(), 4) + body; if (body.size() & 1) o += '\0'; return o; }
static str content(const st::memory_file& m) { return str(static_cast<const char*>(m.data()), static_cast<size_t>(m.size())); }
static void put(st::memory_file& m, const str& x) { m.seekbeg(0); if (!x.empty()) m.write_array(x.data(), 1, x.size()); m.truncate(); }

// --- Generated values.
static u32 g32(Src& s) { return s.integer<u32>(); }
static str words(Src& s, size_t max) { str x; for (size_t n = s.len(max); n--;) x += static_cast<char>(1 + s.draw(254)); return x; } // no terminator within
static str junk_bytes(Src& s, size_t max) { str x; size_t n = s.chance(1, 8) ? s.draw(5000) : s.len(max); u64 m = s.draw(UINT32_MAX); for (size_t i = 0; i < n; i++) x += static_cast<char>((m >> (i * 5 % 27)) + i); return x; }
static str junk_id(Src& s) { return s.pick<str>({"junk", "JUNK", "bext", "fact", "PEAK", "iXML", "slnt", "smpl", "id3 ", "DISP", "CUE ", "LABL", "list", "riff"}); }
struct fmt { uint16_t c, ch, ba, bits; u32 rate, bps; str extra; };
static fmt gfmt(Src& s) { fmt f; f.c = s.pick<uint16_t>({1, 3, 6, 0x11, 0, 0xffff, 0xfffe}); f.ch = s.integer<uint16_t>(); f.rate = g32(s); f.bps = g32(s); f.ba = s.integer<uint16_t>(); f.bits = s.integer<uint16_t>(); if (s.chance(1, 3)) f.extra = junk_bytes(s, 24); return f; }
static str ser(const fmt& f, int form = 0) { str o = le(f.c, 2) + le(f.ch, 2) + le(f.rate, 4) + le(f.bps, 4) + le(f.ba, 2) + le(f.bits, 2); if (!f.extra.empty() || form == 1) o += le(f.extra.size(), 2) + f.extra; return o; }
static void set(W::format& w, const fmt& f) { w.compression = static_cast<W::format::compression_t>(f.c); w.num_channels = f.ch; w.sample_rate = f.rate; w.bytes_per_second = f.bps; w.block_align = f.ba; w.bits_per_channel = f.bits; put(w.extra, f.extra); }
static void same(const W::format& w, const fmt& f) { PBT_EQ(static_cast<uint16_t>(w.compression), f.c, "compression"); PBT_EQ(w.num_channels, f.ch, "channels"); PBT_EQ(w.sample_rate, f.rate, "rate"); PBT_EQ(w.bytes_per_second, f.bps, "bytes per second"); PBT_EQ(w.block_align, f.ba, "block align"); PBT_EQ(w.bits_per_channel, f.bits, "bits"); PBT_EQ(show(content(w.extra)), show(f.extra), "extra"); }
static W::cue_ex gcue(Src& s, u32 id) { W::cue_ex c; c.id = id; c.position = g32(s); c.chunk_id = s.boolean() ? tag("data") : g32(s); c.chunk_offset = g32(s); c.block_start = g32(s); c.block_offset = g32(s); return c; }
static void details(Src& s, W::cue_ex& c) { c.duration = g32(s); c.purpose_id = s.boolean() ? tag("rgn ") : g32(s); c.country = s.integer<uint16_t>(); c.language = s.integer<uint16_t>(); c.dialect = s.integer<uint16_t>(); c.charset = s.integer<uint16_t>(); if (s.boolean()) c.description = words(s, 12); if (s.boolean()) c.title = words(s, 12); if (s.boolean()) c.note = words(s, 12); }
static str scue(const W::cue& c) { return le(c.id, 4) + le(c.position, 4) + le(c.chunk_id, 4) + le(c.chunk_offset, 4) + le(c.block_start, 4) + le(c.block_offset, 4); }
template<class V> static str scues(const V& v) { str o = le(v.size(), 4); for (auto& c : v) o += scue(c); return o; }
static str sltxt(const W::cue_ex& c) { return le(c.id, 4) + le(c.duration, 4) + le(c.purpose_id, 4) + le(c.country, 2) + le(c.language, 2) + le(c.dialect, 2) + le(c.charset, 2); }
static str z(const str& x) { return x.empty() ? x : x + '\0'; }
static void same(const W::cue& a, const W::cue& b) { PBT_EQ(a.id, b.id, "cue id"); PBT_EQ(a.position, b.position, "position"); PBT_EQ(a.chunk_id, b.chunk_id, "chunk id"); PBT_EQ(a.chunk_offset, b.chunk_offset, "chunk offset"); PBT_EQ(a.block_start, b.block_start, "block start"); PBT_EQ(a.block_offset, b.block_offset, "block offset"); }
static void same(const W::cue_ex& a, const W::cue_ex& b) { same(static_cast<const W::cue&>(a), static_cast<const W::cue&>(b)); PBT_EQ(a.duration, b.duration, "duration"); PBT_EQ(a.purpose_id, b.purpose_id, "purpose"); PBT_EQ(a.country, b.country, "country"); PBT_EQ(a.language, b.language, "language"); PBT_EQ(a.dialect, b.dialect, "dialect"); PBT_EQ(a.charset, b.charset, "charset"); PBT_EQ(show(a.description), show(b.description), "description"); PBT_EQ(show(a.title), show(b.title), "title"); PBT_EQ(show(a.note), show(b.note), "note"); }
static void same(const W::cue_ex_vector& a, W::cue_ex_vector b) { std::stable_sort(b.begin(), b.end(), [](auto& x, auto& y) { return x.id < y.id; }); PBT_EQ(a.size(), b.size(), "number of cues"); for (size_t i = 0; i < a.size(); i++) same(a[i], b[i]); }
static std::vector<u32> ids(Src& s, size_t n) { std::vector<u32> v; u32 k = s.chance(1, 4) ? 0xfffffff0 : static_cast<u32>(s.draw(3)); for (size_t i = 0; i < n; i++) { v.push_back(k); k += 1 + static_cast<u32>(s.draw(s.boolean() ? 0 : 0x10000000u)); bool dup = false; for (auto x : v) dup |= x == k; if (dup) break; } for (size_t i = 0; i + 1 < v.size(); i++) if (s.chance(1, 3)) std::swap(v[i], v[i + s.draw(v.size() - 1 - i)]); return v; }
static W::cue_ex_vector gcues(Src& s) { W::cue_ex_vector v; for (auto i : ids(s, s.chance(1, 30) ? s.draw(200) : s.len(8))) { v.push_back(gcue(s, i)); if (v.size() < 20) details(s, v.back()); } return v; }

// A file in memory, with a prefix before the file, behind a cache or not.
struct file
{
	str x; exact<char> e; st::memory_file m; std::unique_ptr<st::cache> c;
	file(Src& s, const str& data) : x(data), e(x), m(e.get(), x.size(), x.size(), false) { if (s.boolean()) c.reset(new st::cache(m, 1 + s.draw(60))); }
	st::basic_file& f() { return c ? static_cast<st::basic_file&>(*c) : m; }
};

PBT_CHECK(library_files, 12000, 120000)
{
	st::memory_file m; std::unique_ptr<st::cache> c; if (s.boolean()) c.reset(new st::cache(m, 1 + s.draw(60))); st::basic_file& f = c ? static_cast<st::basic_file&>(*c) : m;
	str pre = s.chance(1, 3) ? junk_bytes(s, 5) : ""; if (!pre.empty()) f.write_array(pre.data(), 1, pre.size()); u64 base = pre.size();
	str body = "WAVE"; auto riff = W::header::record::open(f); f << tag("WAVE"); PBT_EQ(u64(riff), base, "start");
	bool hf = false, hd = false, hc = false, hs = false; fmt F; str D; W::cue_ex_vector C; u32 S = 0; str order;
	for (size_t n = s.len(8); n--;) switch (s.draw(5))
	{
	case 0: { fmt x = gfmt(s); W::format w; set(w, x); if (s.boolean()) { const W::format& k = w; f << W::format::record(k); } else { auto p = W::format::record::open(f); st::basic& b = f; b << w; W::format::record::close(f, p); } body += chunk("fmt ", ser(x)); if (!hf) F = x; hf = true; order += "fmt "; break; }
	case 1: { str x = junk_bytes(s, 40); W::data w; put(w.content, x); f << W::data::record(w); body += chunk("data", x); if (!hd) D = x; hd = true; order += "data "; break; }
	case 2: { W::silence w; w.num_samples = g32(s); f << W::silence::record(w); body += chunk("slnt", le(w.num_samples, 4)); if (!hs) S = w.num_samples; hs = true; order += "slnt "; break; }
	case 3: { if (hc) break; C = gcues(s); f << C; str a = "adtl"; for (auto& q : C) { a += chunk("ltxt", sltxt(q) + z(q.description)); if (!q.title.empty()) a += chunk("labl", le(q.id, 4) + z(q.title)); if (!q.note.empty()) a += chunk("note", le(q.id, 4) + z(q.note)); } body += chunk("cue ", scues(C)) + chunk("LIST", a); hc = true; order += "cues(" + std::to_string(C.size()) + ") "; break; }
	case 4: { str id = junk_id(s), x = junk_bytes(s, 9); if (id == "slnt") break; auto p = R::open<W::id_t, W::length_t>(f, tag(id)); f.write_array(x.data(), 1, x.size()); R::close<W::id_t, W::length_t, W::align>(f, p); body += chunk(id, x); order += id + " "; break; }
	default: { auto p = W::list::record::open(f); f << tag("INFO"); str l = "INFO"; for (size_t k = s.len(3); k--;) { str x = junk_bytes(s, 9); auto q = R::open<W::id_t, W::length_t>(f, tag("INAM")); f.write_array(x.data(), 1, x.size()); R::close<W::id_t, W::length_t, W::align>(f, q); l += chunk("INAM", x); } W::list::record::close(f, p); body += chunk("LIST", l); order += "LIST "; }
	}
	u64 end = W::header::record::close(f, riff); s.note([&] { return "prefix " + std::to_string(base) + ": " + order; }); str ref = pre + chunk("RIFF", body); PBT_REQUIRE(f.ok(), "writing failed"); PBT_EQ(end, u64(ref.size()), "end"); if (c) c.reset(); PBT_EQ(show(content(m)), show(ref), "bytes written");
	// And back.
	file q(s, ref); auto& g = q.f(); u64 found = 0; g.seekbeg(base); PBT_REQUIRE(W::find_content(g, s.boolean() ? st::fpos_max : ref.size(), &found), "WAVE not found"); PBT_EQ(u64(g.tell()), base + 12, "where the content starts"); PBT_EQ(found, u64(base + 8 + body.size()), "where the content ends"); auto lim = [&] { return s.boolean() ? st::fpos_max : st::fpos_t(found); };
	{ W::format w; w.num_channels = 77; put(w.extra, "leftover of before"); PBT_EQ(W::read_first(g, w, lim()), hf, "format found"); if (hf) same(w, F); } g.seekbeg(base + 12);
	{ W::data w; put(w.content, "leftover of before"); PBT_EQ(W::read_first(g, w, lim()), hd, "data found"); if (hd) PBT_EQ(show(content(w.content)), show(D), "data"); } g.seekbeg(base + 12);
	{ W::silence w; PBT_EQ(W::read_first(g, w, lim()), hs, "silence found"); if (hs) PBT_EQ(w.num_samples, S, "silence"); } g.seekbeg(base + 12);
	{ W::cue_vector w(3); bool r = R::record<W::cue_vector, W::id_t, W::cue_vector_record::id(), W::length_t, W::align>::find(g, lim()); PBT_EQ(r, hc, "cues found"); if (r) { g >> W::cue_vector_record(w); PBT_REQUIRE(g.ok(), "reading cues failed"); PBT_EQ(w.size(), C.size(), "number of cues"); for (size_t i = 0; i < w.size(); i++) same(w[i], C[i]); } } g.seekbeg(base + 12);
	{ W::cue_ex_vector w; PBT_REQUIRE(W::read_cues(g, w, lim()), "reading cues failed"); PBT_EQ(u64(g.tell()), base + 12, "position after reading cues"); same(w, C); }
	s.nontrivial(hf + hd + hc + hs > 1); s.label_if(hc && !C.empty(), "cues"); s.label_if(base & 1, "odd start");
}

// Streams that cannot seek.
PBT_CHECK(streams, 10000, 100000)
{
	ts::pipe out; st::basic& b = out; str ref; auto C = gcues(s); W::cue_vector v(C.begin(), C.end()); fmt x = gfmt(s); str d = junk_bytes(s, 50); W::cue_ex e = C.empty() ? gcue(s, 5) : C[0];
	{ W::format w; set(w, x); b << W::format::record(w); ref += chunk("fmt ", ser(x)); } { b << W::cue_vector_record(v); ref += chunk("cue ", scues(v)); } { W::data w; put(w.content, d); b << W::data::record(w); ref += chunk("data", d); }
	{ W::ltxt t; t.id = e.id; t.duration = e.duration; t.purpose_id = e.purpose_id; t.country = e.country; t.language = e.language; t.dialect = e.dialect; t.charset = e.charset; t.description = e.description; b << W::ltxt::record(t); ref += chunk("ltxt", sltxt(e) + z(e.description)); }
	{ W::label t; t.id = e.id; t.title = e.title; b << W::label::record(t); ref += chunk("labl", le(e.id, 4) + z(e.title)); } { W::note t; t.id = e.id; t.note = e.note; b << W::note::record(t); ref += chunk("note", le(e.id, 4) + z(e.note)); } { W::wave w; w.type = e.position; b << W::wave::record(w); ref += chunk("WAVE", le(e.position, 4)); }
	PBT_REQUIRE(b.ok(), "writing failed"); PBT_EQ(show(out.out), show(ref), "bytes written"); s.note([&] { return std::to_string(v.size()) + " cues, data of " + std::to_string(d.size()); });
	ts::pipe in(ref, ts::gen_plan(s, false, ref.size())); st::basic& r = in; u32 id; auto next = [&](u32 want) { r >> id; PBT_REQUIRE(r.ok(), "reading failed"); PBT_EQ(id, want, "id"); };
	{ W::format w; put(w.extra, "leftover of before"); next(W::format::record::id()); r >> W::format::record(w); same(w, x); } { W::cue_vector w(2); next(W::cue_vector_record::id()); r >> W::cue_vector_record(w); PBT_EQ(w.size(), v.size(), "number of cues"); for (size_t i = 0; i < w.size(); i++) same(w[i], v[i]); } { W::data w; put(w.content, "leftover of before"); next(W::data::record::id()); r >> W::data::record(w); PBT_EQ(show(content(w.content)), show(d), "data"); }
	{ W::ltxt t; next(W::ltxt::record::id()); r >> W::ltxt::record(t); PBT_EQ(show(t.description), show(e.description), "description"); PBT_REQUIRE(t.id == e.id && t.duration == e.duration && t.purpose_id == e.purpose_id && t.country == e.country && t.language == e.language && t.dialect == e.dialect && t.charset == e.charset, "labelled text"); } { W::label t; t.title = "before"; next(W::label::record::id()); r >> W::label::record(t); PBT_EQ(t.id, e.id, "id"); PBT_EQ(show(t.title), show(e.title), "title"); } { W::note t; t.note = "before"; next(W::note::record::id()); r >> W::note::record(t); PBT_EQ(t.id, e.id, "id"); PBT_EQ(show(t.note), show(e.note), "note"); } { W::wave w; next(W::wave::record::id()); r >> W::wave::record(w); PBT_EQ(w.type, e.position, "type"); }
	PBT_EQ(in.pos, ref.size(), "left unread"); s.nontrivial(!v.empty() || !x.extra.empty());
}

// Files of other programs: anything the chunk rules permit.
struct foreign { str x; u64 from = 0, end = 0; W::cue_ex_vector cues; bool hf = false, hd = false; fmt F; str D; str what; };
static str adtl(Src& s, W::cue_ex_vector& C, str& what)
{
	str a = "adtl"; for (size_t n = s.len(8); n--;) { bool known = !C.empty() && s.chance(3, 4); W::cue_ex tmp; W::cue_ex* c = known ? &C[s.draw(C.size() - 1)] : &tmp; if (!known) { tmp.id = g32(s); for (auto& k : C) if (k.id == tmp.id) c = &k; } str t = words(s, 12); W::cue_ex val = *c; auto text = [&] { if (s.chance(1, 4)) return t; return t + '\0' + (s.chance(1, 4) ? junk_bytes(s, 5) : ""); };
		switch (s.draw(3)) { case 0: details(s, val); a += chunk("ltxt", sltxt(val) + (val.description = t, text())); c->duration = val.duration; c->purpose_id = val.purpose_id; c->country = val.country; c->language = val.language; c->dialect = val.dialect; c->charset = val.charset; c->description = t; what += 'x'; break; case 1: a += chunk("labl", le(val.id, 4) + text()); c->title = t; what += 'l'; break; case 2: a += chunk("note", le(val.id, 4) + text()); c->note = t; what += 'n'; break; default: a += chunk(s.pick<str>({"file", "JUNK", "adtl", "LIST"}), junk_bytes(s, 9)); what += 'j'; } } return a;
}
static foreign gforeign(Src& s)
{
	foreign o; std::vector<str> parts; auto v = ids(s, s.len(7)); bool hc = s.chance(5, 6); if (hc) for (auto i : v) o.cues.push_back(gcue(s, i)); bool placed = !hc;
	for (size_t n = s.len(9) + (hc ? 1 : 0); n--;) switch (s.weighted({2, 2, 4, 2, 2})) {
	case 0: { fmt f = gfmt(s); parts.push_back(chunk("fmt ", ser(f, s.boolean()))); if (!o.hf) o.F = f; o.hf = true; o.what += "fmt "; break; }
	case 1: { str d = junk_bytes(s, 30); parts.push_back(chunk("data", d)); if (!o.hd) o.D = d; o.hd = true; o.what += "data "; break; }
	case 2: if (s.boolean() && !placed) { placed = true; parts.push_back(chunk("cue ", scues(o.cues) + (s.chance(1, 3) ? junk_bytes(s, 50) : ""))); o.what += "cue(" + std::to_string(v.size()) + ") "; } else { o.what += "adtl("; parts.push_back(chunk("LIST", adtl(s, o.cues, o.what))); o.what += ") "; } break;
	case 3: { str l = s.pick<str>({"INFO", "wavl", "ADTL", "xxxx"}); for (size_t k = s.len(4); k--;) l += chunk(s.pick<str>({"INAM", "ICRD", "IART", "ICMT", "data"}), junk_bytes(s, 9)); parts.push_back(chunk("LIST", l)); o.what += "LIST "; break; }
	default: { str id = junk_id(s); parts.push_back(chunk(id, junk_bytes(s, 9))); o.what += id + " "; } }
	if (!placed) { auto at = s.draw(parts.size()); parts.insert(parts.begin() + static_cast<ptrdiff_t>(at), chunk("cue ", scues(o.cues))); o.what += "cue at " + std::to_string(at) + " "; }
	str body = "WAVE"; for (auto& p : parts) body += p; str pre = s.chance(1, 3) ? junk_bytes(s, 3) : ""; o.from = pre.size(); o.x = pre; for (size_t k = s.chance(1, 4) ? 1 + s.draw(2) : 0; k--;) { o.x += s.boolean() ? chunk("RIFF", s.pick<str>({"AVI ", "WAVX", "wave"}) + junk_bytes(s, 9)) : chunk(junk_id(s), junk_bytes(s, 9)); o.what = "other before, " + o.what; } o.end = o.x.size() + 8 + body.size(); o.x += chunk("RIFF", body); if (s.chance(1, 4)) o.x += chunk("junk", junk_bytes(s, 9)); return o;
}
PBT_CHECK(foreign_files, 15000, 150000)
{
	auto o = gforeign(s); s.note([&] { return "from " + std::to_string(o.from) + ": " + o.what; }); file q(s, o.x); auto& g = q.f(); g.seekbeg(o.from); u64 found = 0; PBT_REQUIRE(W::find_content(g, s.boolean() ? st::fpos_max : o.x.size(), &found), "WAVE not found"); PBT_EQ(found, o.end, "where the content ends"); u64 at = g.tell();
	{ W::cue_ex_vector w; PBT_REQUIRE(W::read_cues(g, w, found), "reading cues failed"); PBT_EQ(u64(g.tell()), at, "position after reading cues"); same(w, o.cues); } { W::format w; PBT_EQ(W::read_first(g, w, found), o.hf, "format found"); if (o.hf) same(w, o.F); } g.seekbeg(at); { W::data w; PBT_EQ(W::read_first(g, w, found), o.hd, "data found"); if (o.hd) PBT_EQ(show(content(w.content)), show(o.D), "data"); }
	s.nontrivial(!o.cues.empty()); s.label_if(o.from & 1, "odd start"); bool text = false; for (auto& c : o.cues) text |= !c.title.empty() || !c.note.empty() || !c.description.empty(); s.label_if(text, "labels");
}

// Stripping of cues: the file without them and the lists left empty.
static str strip(const str& x, size_t p, size_t end)
{
	str o; while (p < end) { str id = x.substr(p, 4); size_t n = un(x, p + 4); str body = x.substr(p + 8, n); p += 8 + n + (n & 1); if (id == "cue " || id == "ltxt" || id == "labl" || id == "note") continue; if (id == "RIFF" || id == "LIST") { str in = strip(body, 4, body.size()); if (!in.empty()) o += chunk(id, body.substr(0, 4) + in); } else o += chunk(id, body); } return o;
}
// Lists that other programs write hold chunks only.
static str wellformed(Src& s, int depth, str& what)
{
	str o; for (size_t n = s.len(6); n--;) switch (s.weighted({3, 3, depth ? 3u : 0u})) { case 0: { str id = s.pick<str>({"cue ", "ltxt", "labl", "note"}); o += chunk(id, junk_bytes(s, 12)); what += id + " "; break; } case 1: { str id = s.pick<str>({"fmt ", "data", "INAM", "ICRD", "JUNK", "CUE ", "LTXT", "file", "WAVE", "list"}); o += chunk(id, junk_bytes(s, 12)); what += id + " "; break; } default: what += "LIST( "; o += chunk(s.chance(1, 6) ? "RIFF" : "LIST", s.pick<str>({"adtl", "INFO", "wavl"}) + wellformed(s, depth - 1, what)); what += ") "; } return o;
}
PBT_CHECK(without_cues, 15000, 150000)
{
	str what; str body = "WAVE" + wellformed(s, s.chance(1, 50) ? 60 : 3, what); str x = chunk("RIFF", body); if (s.chance(1, 5)) x += wellformed(s, 1, what); str pre = s.chance(1, 4) ? junk_bytes(s, 3) : ""; s.note([&] { return what; }); file q(s, pre + x); auto& g = q.f(); g.seekbeg(pre.size()); st::memory_file m; str before = s.chance(1, 3) ? junk_bytes(s, 3) : ""; if (!before.empty()) m.write_array(before.data(), 1, before.size()); if (s.chance(1, 3)) { str rest = junk_bytes(s, 200); if (!rest.empty()) m.write_array(rest.data(), 1, rest.size()); m.seekbeg(before.size()); }
	{ std::unique_ptr<st::cache> c; if (s.boolean()) c.reset(new st::cache(m, 1 + s.draw(60))); st::basic_file& f = c ? static_cast<st::basic_file&>(*c) : m; PBT_REQUIRE(W::remove_cues(g, f, s.boolean() ? st::fpos_max : pre.size() + x.size()), "failed"); } str ref = before + strip(x, 0, x.size()); PBT_EQ(show(content(m)), show(ref), "what is left"); s.nontrivial(ref.size() < before.size() + x.size() && ref.size() > before.size()); s.label_if(what.find('(') != str::npos, "lists");
	// Files with all their text are left as they are when there is nothing to remove.
	if (ref.size() > before.size()) { str y = ref.substr(before.size()); file q2(s, y); st::memory_file m2; PBT_REQUIRE(W::remove_cues(q2.f(), m2), "failed"); PBT_EQ(show(content(m2)), show(y), "nothing to remove"); }
}

// Damaged files: every reader ends, and what it gives comes from the file.
PBT_CHECK(damaged, 20000, 200000, 5)
{
	auto o = gforeign(s); str x = o.x; switch (s.draw(3)) { case 0: x.resize(s.draw(x.size())); break; case 1: for (size_t k = 1 + s.draw(5); k-- && !x.empty();) x[s.draw(x.size() - 1)] = static_cast<char>(s.pick<int>({0, 1, 2, 3, 4, 0x20, 0x7f, 0x80, 0xfe, 0xff})); break; case 2: for (size_t k = 1 + s.draw(3); k-- && x.size() > 8;) { size_t p = 4 + s.draw(x.size() - 8); u32 v = s.pick<u32>({0, 1, 3, 4, 5, 0x10, 0x7fffffff, 0x80000000, 0xfffffff8, 0xfffffffb, 0xffffffff}); for (size_t q = x.find("LIST", s.draw(x.size())); s.boolean() && q != str::npos && q + 8 < x.size();) { p = q + 4; break; } for (size_t q = x.find("cue ", s.draw(x.size())); s.boolean() && q != str::npos && q + 12 < x.size();) { p = q + (s.boolean() ? 4 : 8); break; } x.replace(p, 4, le(v, 4)); } break; default: x.erase(s.draw(x.size()), 1 + s.draw(9)); }
	s.note([&] { return show(x); }); file q(s, x); auto& g = q.f(); u64 found = st::fpos_max, from = std::min<u64>(o.from, x.size()); g.seekbeg(from); bool have = W::find_content(g, s.boolean() ? st::fpos_max : x.size(), &found); if (have) PBT_REQUIRE(g.tell() >= from + 12 && g.tell() <= x.size() && x.substr(static_cast<size_t>(g.tell()) - 4, 4) == "WAVE", "content found where there is none"); else { found = s.boolean() ? st::fpos_max : x.size(); g.seekbeg(from); } if (s.chance(1, 3)) found = st::fpos_max; u64 at = g.tell();
	W::cue_ex_vector w; bool r = W::read_cues(g, w, found); PBT_REQUIRE(w.size() <= x.size() / 24, "more cues than the file can hold"); if (r) for (size_t i = 0; i + 1 < w.size(); i++) PBT_REQUIRE(w[i].id <= w[i + 1].id, "order of cues"); for (auto& c : w) { PBT_REQUIRE(x.find(scue(c)) != str::npos, "cue that is not in the file"); for (auto& t : {c.title, c.note, c.description}) PBT_REQUIRE(x.find(t) != str::npos, "text that is not in the file"); }
	g.seekbeg(at); { W::format f; W::read_first(g, f, found); str e = content(f.extra); PBT_REQUIRE(x.find(e) != str::npos, "format that is not in the file"); } g.seekbeg(at); { W::data d; W::read_first(g, d, found); PBT_REQUIRE(x.find(content(d.content)) != str::npos, "data that is not in the file"); } g.seekbeg(at); { W::cue_vector v; if (W::cue_vector_record::find(g, found)) { g >> W::cue_vector_record(v); PBT_REQUIRE(v.size() <= x.size() / 24, "more cues than the file can hold"); for (auto& c : v) PBT_REQUIRE(x.find(scue(c)) != str::npos, "cue that is not in the file"); } }
	g.seekbeg(s.boolean() ? at : from); st::memory_file m; W::remove_cues(g, m, s.boolean() ? found : st::fpos_max); PBT_REQUIRE(m.size() <= x.size() + 1, "grew without its cues"); s.nontrivial(x.size() > 12); s.label_if(have, "content found"); s.label_if(!w.empty(), "cues read");
}
// Structures cut at any byte, read into ones used before: what is missing is zero or empty, nothing of before shows.
PBT_CHECK(cut_structures, 15000, 150000)
{
	size_t kind = s.draw(6), n = 0; str x; fmt F; W::cue_ex E = gcue(s, g32(s)); details(s, E); W::cue_ex_vector C;
	switch (kind) { case 0: F = gfmt(s); x = ser(F, s.boolean()); break; case 1: C = gcues(s); x = scues(C); break; case 2: x = sltxt(E) + z(E.description); break; case 3: x = le(E.id, 4) + z(E.title); break; case 4: x = le(E.id, 4) + z(E.note); break; case 5: x = le(g32(s), 4); break; default: x = junk_bytes(s, 60); }
	n = s.boolean() ? x.size() : s.draw(x.size()); str y = x.substr(0, n); s.note([&] { return "kind " + std::to_string(kind) + ", " + std::to_string(n) + " of " + std::to_string(x.size()) + " bytes: " + show(y); }); s.nontrivial(n < x.size());
	size_t at = 0; auto num = [&](size_t k) { u64 v = 0; if (at + k > n) at = n; else { for (size_t i = k; i--;) v = v << 8 | static_cast<uint8_t>(y[at + i]); at += k; } return v; }; auto rest = [&](bool whole) { return whole ? y.substr(at, y.find('\0', at) == str::npos ? str::npos : y.find('\0', at) - at) : str(); };
	ts::pipe in(y, ts::gen_plan(s, false, y.size())); st::basic& r = in;
	switch (kind) {
	case 0: { W::format w; fmt d = gfmt(s), e; set(w, d); if (s.boolean()) put(w.extra, "leftover of before"); r >> w; if (n < x.size() || !F.extra.empty()) s.label("format cut or extended"); e.c = static_cast<uint16_t>(num(2)); e.ch = static_cast<uint16_t>(num(2)); e.rate = static_cast<u32>(num(4)); e.bps = static_cast<u32>(num(4)); e.ba = static_cast<uint16_t>(num(2)); e.bits = static_cast<uint16_t>(num(2)); size_t k = num(2); e.extra = y.substr(at, k); same(w, e); break; }
	case 1: { W::cue_vector w(s.draw(4)); for (auto& c : w) c = gcue(s, 7); r >> w; size_t k = num(4); k = std::min(k, (n - at) / 24); PBT_EQ(w.size(), k, "number of cues"); for (size_t i = 0; i < k; i++) same(w[i], C[i]); break; }
	case 2: { W::ltxt w; w.id = w.duration = w.purpose_id = 9; w.country = w.language = w.dialect = w.charset = 9; w.description = "before"; r >> w; PBT_EQ(w.id, num(4)); PBT_EQ(w.duration, num(4)); PBT_EQ(w.purpose_id, num(4)); PBT_EQ(w.country, num(2)); PBT_EQ(w.language, num(2)); PBT_EQ(w.dialect, num(2)); PBT_EQ(w.charset, num(2)); PBT_EQ(show(w.description), show(rest(n >= 20))); break; }
	case 3: { W::label w; w.id = 9; w.title = "before"; r >> w; PBT_EQ(w.id, num(4)); PBT_EQ(show(w.title), show(rest(n >= 4))); break; }
	case 4: { W::note w; w.id = 9; w.note = "before"; r >> w; PBT_EQ(w.id, num(4)); PBT_EQ(show(w.note), show(rest(n >= 4))); break; }
	case 5: { W::silence w; w.num_samples = 9; r >> w; PBT_EQ(w.num_samples, num(4)); break; }
	default: { W::data w; put(w.content, "leftover of before"); r >> w; PBT_EQ(show(content(w.content)), show(y)); } }
}
// More cues than are read at once.
PBT_CHECK(many_cues, 40, 400)
{
	size_t n = s.pick<size_t>({4095, 4096, 4097, 8192, 8193}) + (s.boolean() ? s.draw(9000) : 0); W::cue_vector v(n); u32 k = static_cast<u32>(s.draw(1000)); for (size_t i = 0; i < n; i++) v[i] = W::cue{ static_cast<u32>(i + 1), k * static_cast<u32>(i), tag("data"), k, static_cast<u32>(i * 3), k ^ static_cast<u32>(i) };
	s.note([&] { return std::to_string(n) + " cues"; }); s.nontrivial(); st::memory_file m; m << W::cue_vector_record(v); PBT_REQUIRE(m.ok()); PBT_EQ(m.size(), 12 + 24 * n); PBT_REQUIRE(content(m) == chunk("cue ", scues(v)), "bytes written");
	bool cut = s.boolean(); size_t whole = n; if (cut) { whole = s.draw(n - 1); m.seekbeg(12 + 24 * whole + s.draw(23)); m.truncate(); } m.seekbeg(0);
	if (cut) { m.seekbeg(8); W::cue_vector w(3); m >> w; PBT_EQ(w.size(), whole); for (size_t i = 0; i < whole; i++) same(w[i], v[i]); }
	else { u32 id; m >> id; PBT_EQ(id, W::cue_vector_record::id()); W::cue_vector w(3); m >> W::cue_vector_record(w); PBT_REQUIRE(m.ok()); PBT_EQ(w.size(), n); for (size_t i = 0; i < n; i++) same(w[i], v[i]); PBT_EQ(m.tell(), m.size()); }
}
PBT_MAIN("F02", "WAVE files composed by the library, by an independent writer (INFO lists, several label lists, labels of unknown cues, unterminated texts, odd starts, other RIFF files before), and damaged ones; cases with cues or several kinds of chunks count as non-trivial. Oracle: bytes laid out by hand, the values generated, a reference filter of the chunk tree.")
