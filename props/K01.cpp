// Minisign signature files against their description.
// SCALE: 4
#include "streams.hpp"
#include <stdex/minisign.hpp>
using namespace pbt;

static const char abc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string b64(const std::string& d) { std::string o; for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = 0; size_t n = std::min<size_t>(3, d.size() - i); for (size_t k = 0; k < 3; k++) v = v << 8 | (k < n ? static_cast<unsigned char>(d[i + k]) : 0); for (size_t k = 0; k < 4; k++) o += k <= n ? abc[v >> (18 - 6 * k) & 63] : '='; } return o; }
// What a line stands for when nothing but the alphabet counts and it has no padding.
static std::string un64(const std::string& t) { std::string o; uint32_t v = 0; int n = 0; for (char c : t) { const char* p = c ? strchr(abc, c) : nullptr; if (!c) break; if (!p) continue; v = v << 6 | static_cast<uint32_t>(p - abc); if (++n == 4) { o += static_cast<char>(v >> 16); o += static_cast<char>(v >> 8); o += static_cast<char>(v); v = 0; n = 0; } } return o; }
struct sig { bool ok = false; std::string err; uint8_t alg = 0; std::string key, val; };
static sig parse(const std::string& text, const ts::plan& plan)
{
	sig r; ts::pipe p(text, plan); exact<uint8_t> k(8, 0xaa), v(64, 0xbb);
	try { stdex::minisign::parse_minisig(p, r.alg, *reinterpret_cast<uint8_t(*)[8]>(k.get()), *reinterpret_cast<uint8_t(*)[64]>(v.get())); r.ok = true; r.key.assign(k.get(), k.get() + 8); r.val.assign(v.get(), v.get() + 64); } catch (const std::runtime_error& e) { r.err = e.what(); }
	return r;
}
static const std::string prefix = "untrusted comment:";
static std::string junk(Src& s, size_t n) { std::string r = s.bytes(n); for (auto& c : r) if (c == '\n') c = ' '; return r; }
static std::string brk(Src& s) { return s.boolean() ? "\n" : "\r\n"; }
PBT_CHECK(composed, 60000, 600000)
{
	std::string t; size_t before = s.len(4); for (size_t i = 0; i < before; i++) t += (s.boolean() ? "" : prefix + junk(s, 60)) + brk(s);
	std::string d = s.bytes(74); d.resize(74); for (size_t i = 0; i < 74; i++) if (!d[i]) d[i] = static_cast<char>(mix(i + t.size())); d[0] = s.chance(1, 6) ? static_cast<char>(s.draw(255)) : 'E'; size_t kind = s.weighted({4, 1, 1}); std::string full = d; if (kind == 1) full.resize(s.draw(73)); if (kind == 2) full += s.bytes(80);
	std::string line = b64(full); if (s.chance(1, 3)) for (size_t n = s.draw(4); n--;) line.insert(s.draw(line.size()), 1, s.pick<char>({' ', '\t', '-', '.', '_', ':', '\x80'})); bool signs = line.size() > 0;
	t += line + brk(s); if (s.boolean()) t += "trusted comment: x\n" + b64(s.bytes(64)) + "\n"; s.nontrivial(kind != 1 || before > 0); s.label_if(before > 0, "comments"); s.note([&] { return show(t); });
	sig r = parse(t, ts::gen_plan(s, false, 0));
	if (!signs) return; // the next line is taken
	if (full.size() < 74) { PBT_REQUIRE(!r.ok, "too short, yet taken"); return; }
	PBT_EQ(r.ok, full[0] == 'E', r.err); if (!r.ok) return;
	PBT_EQ(r.alg, static_cast<uint8_t>(full[1]), "algorithm"); PBT_REQUIRE(r.key == full.substr(2, 8), "key"); PBT_REQUIRE(r.val == full.substr(10, 64), "signature");
}
PBT_CHECK(mutilated, 60000, 600000)
{
	std::string d = "E" + std::string(80, 'x'); for (auto& c : d) if (c != 'E') c = static_cast<char>(s.chance(1, 4) ? s.draw(255) : 'D'); std::string t = (s.boolean() ? prefix + " signature" + brk(s) : std::string()) + b64(d) + brk(s);
	for (size_t n = s.draw(5); n--;) { size_t at = s.draw(t.size()); switch (s.draw(4)) { case 0: t.resize(at); break; case 1: if (at < t.size()) t[at] = static_cast<char>(s.draw(255)); break; case 2: t.insert(at, brk(s)); break; case 3: if (at < t.size()) t.erase(at, 1 + s.draw(5)); break; default: t.insert(at, s.chance(1, 2) ? prefix : s.bytes(6)); } }
	s.note([&] { return show(t); }); sig r = parse(t, ts::gen_plan(s, false, 0));
	// The first complete line that is neither blank nor a comment decides.
	std::string line; bool found = false; for (size_t a = 0;;) { size_t e = t.find('\n', a); if (e == std::string::npos) break; std::string l = t.substr(a, e - a); a = e + 1; if (l.size() && l.back() == '\r') l.pop_back(); if (l.empty() || !l.compare(0, prefix.size(), prefix)) continue; line = l; found = true; break; }
	s.nontrivial(found); if (!found) { PBT_REQUIRE(!r.ok || t.back() != '\n', "signature out of nothing"); if (!r.ok) return; }
	if (line.find('=') != std::string::npos || !found) return; // padding amid the data
	std::string want = un64(line); PBT_EQ(r.ok, want.size() >= 74 && want[0] == 'E'); s.label_if(r.ok, "still taken"); if (r.ok) { PBT_EQ(r.alg, static_cast<uint8_t>(want[1])); PBT_REQUIRE(r.key == want.substr(2, 8) && r.val == want.substr(10, 64), "other contents"); }
}
PBT_CHECK(tokens, 60000, 600000)
{
	std::string t = s.bytes(4) + prefix + s.bytes(3); for (size_t n = s.draw(2); n--;) t[s.draw(t.size() - 1)] = static_cast<char>(s.draw(255)); size_t start = s.draw(t.size()), end = start + s.draw(t.size() - start); if (s.boolean()) { start = t.find('u'); if (start == std::string::npos) start = 0; end = t.size(); } exact<char> e(t.data(), end); stdex::minisign::untrusted_comment c; bool want = end - start >= prefix.size() && !t.compare(start, prefix.size(), prefix); s.nontrivial(end > start);
	PBT_EQ(c.match(e.get(), start, end), want); PBT_EQ(static_cast<bool>(c.interval), want); if (want) { PBT_EQ(c.interval.start, start); PBT_EQ(c.interval.end, start + prefix.size()); }
	std::string u; for (size_t n = s.draw(4); n--;) u += s.pick<char>({'\r', '\n', 'x'}); size_t a = s.draw(u.size()); exact<char> f(u); stdex::minisign::line_break b; size_t len = u.size() > a && u[a] == '\n' ? 1 : u.size() > a + 1 && u[a] == '\r' && u[a + 1] == '\n' ? 2 : 0;
	PBT_EQ(b.match(f.get(), a, u.size()), len > 0); PBT_EQ(static_cast<bool>(b.interval), len > 0); if (len) { PBT_EQ(b.interval.start, a); PBT_EQ(b.interval.end, a + len); }
}
PBT_MAIN("K01", "signature files composed of comments, blank lines and a signature of right, short or excessive length with foreign characters in between, mutilated files and tokens at every bound; non-trivial: a signature line is there. Oracle: the composed contents, a reference reading of lines and Base64.")
