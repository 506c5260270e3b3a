// Model of a seekable stream (a byte array and a position) and operations done on both the stream and the model.
#pragma once
#include "streams.hpp"
#include <dirent.h>

namespace fo
{
	using namespace pbt;
	using stdex::stream::state_t;
	using stdex::stream::seek_t;

	// Directory that lives as long as the case.
	struct scratch
	{
		std::string path;
		scratch() { char t[] = "/tmp/pbt.XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); path = t; }
		~scratch() { if (DIR* d = opendir(path.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') ::unlink((path + "/" + e->d_name).c_str()); closedir(d); } ::rmdir(path.c_str()); }
		std::string operator/(const char* n) const { return path + "/" + n; }
	};
	inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
	inline void spit(const std::string& p, const std::string& d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << d; }

	struct model
	{
		std::string data; uint64_t pos = 0; state_t state = state_t::ok;
		std::string read(size_t n)
		{
			std::string r = pos < data.size() ? data.substr(pos, n) : std::string();
			pos += r.size(); state = n && r.empty() ? state_t::eof : state_t::ok;
			return r;
		}
		// As read_array(..., 1, n): goes on until the end is met.
		std::string read_all(size_t n) { std::string r = read(n); if (r.size() < n) state = state_t::eof; return r; }
		void write(const std::string& d)
		{
			state = state_t::ok;
			if (d.empty()) return;
			if (data.size() < pos + d.size()) data.resize(pos + d.size(), '\0');
			data.replace(pos, d.size(), d); pos += d.size();
		}
		void truncate() { data.resize(pos, '\0'); state = state_t::ok; }
		uint64_t avail() const { return pos < data.size() ? data.size() - pos : 0; }
	};

	struct opts
	{
		size_t unit = 16;           // sizes are drawn around multiples of this
		size_t limit = 4000;        // no operation makes the file larger
		bool writable = true, resizable = true, readable = true;
		bool growing = true;        // room for more can be got
		bool typed = true;          // value, string and line operations too
	};

	inline size_t gen_size(Src& s, const opts& o, size_t max)
	{
		size_t n;
		switch (s.weighted({4, 3, 2, 1})) {
		case 0: n = static_cast<size_t>(s.draw(20)); break;
		case 1: n = o.unit * static_cast<size_t>(1 + s.draw(4)) + static_cast<size_t>(s.draw(2)) - 1; break;
		case 2: n = static_cast<size_t>(s.draw(o.unit * 5)); break;
		default: n = static_cast<size_t>(s.draw(max)); }
		return std::min(n, max);
	}
	inline std::string gen_data(Src& s, size_t n)
	{
		uint64_t x = s.draw(255); std::string r;
		for (size_t i = 0; i < n; i++) r += static_cast<char>(x < 128 ? 'a' + (x + i) % 26 : mix(x + i * 977));
		return r;
	}

	template<class F> void compare(F& f, const model& m, const char* op)
	{
		PBT_EQ(f.state(), m.state, std::string("state after ") + op);
		PBT_EQ(f.tell(), m.pos, std::string("position after ") + op);
		PBT_EQ(f.size(), m.data.size(), std::string("size after ") + op);
	}
	template<class T, class F> void value_op(Src& s, F& f, model& m, bool write)
	{
		if (write) {
			T v = static_cast<T>(s.draw(UINT32_MAX)); s.note([&] { return "write value " + std::to_string(sizeof(T)); });
			f.write_data(v);
			if (m.state == state_t::ok) m.write(std::string(reinterpret_cast<char*>(&v), sizeof(v)));
		}
		else {
			T v = static_cast<T>(77), e = 0; s.note([&] { return "read value " + std::to_string(sizeof(T)); });
			f.read_data(v);
			if (m.state == state_t::ok) { std::string d = m.read_all(sizeof(T)); if (d.size() == sizeof(T)) memcpy(&e, d.data(), sizeof(T)); }
			PBT_REQUIRE(memcmp(&v, &e, sizeof(T)) == 0, "read value");
		}
	}
	template<class C, class F> void string_op(Src& s, F& f, model& m, bool write, size_t room)
	{
		if (write) {
			size_t n = static_cast<size_t>(s.draw(std::min<size_t>(30, (room - 4) / sizeof(C)))); std::basic_string<C> v; for (size_t i = 0; i < n; i++) v += static_cast<C>('A' + i % 26);
			s.note([&] { return "write string of " + std::to_string(n); });
			if (s.boolean()) f.write_str(v); else f.write_str(v.c_str());
			if (m.state == state_t::ok) { uint32_t l = static_cast<uint32_t>(n); m.write(std::string(reinterpret_cast<char*>(&l), 4) + std::string(reinterpret_cast<const char*>(v.data()), n * sizeof(C))); }
		}
		else {
			// Only where the length is reasonable (any length is tried in S01).
			uint32_t l = 0; if (m.state == state_t::ok && m.avail() >= 4) memcpy(&l, m.data.data() + m.pos, 4);
			if (l > 2000) return;
			s.note([] { return std::string("read string"); });
			std::basic_string<C> v(3, C('s')), e; f.read_str(v);
			if (m.state == state_t::ok) { std::string h = m.read_all(4); if (h.size() == 4) { std::string d = m.read_all(l * sizeof(C)); e.resize(d.size() / sizeof(C)); if (!e.empty()) memcpy(&e[0], d.data(), e.size() * sizeof(C)); } }
			PBT_REQUIRE(v == e, "read string: " + show(v) + " vs " + show(e));
		}
	}

	// One operation on both. Returns its kind.
	template<class F> const char* step(Src& s, F& f, model& m, const opts& o)
	{
		size_t room = m.pos < o.limit ? static_cast<size_t>(o.limit - m.pos) : 0;
		if (!o.resizable) room = m.pos < m.data.size() ? static_cast<size_t>(m.data.size() - m.pos) : 0;
		const char* op = "";
		switch (s.weighted({6, 7, 6, 2, 2, 1, 2, 1, 2, 2, 1, 1, 1, 1})) {
		case 0: { // read
			if (!o.readable) return op;
			op = "read"; size_t n = gen_size(s, o, o.limit); exact<char> b(n, '~'); s.note([&] { return "read " + std::to_string(n); });
			size_t r = f.read(b.get(), n); auto e = m.read(n);
			PBT_EQ(r, e.size(), "read amount"); PBT_REQUIRE(std::string(b.get(), r) == e, "data read " + show(std::string(b.get(), r)) + " vs " + show(e));
			for (size_t i = r; i < n; i++) PBT_REQUIRE(b[i] == '~', "buffer written beyond the data read");
			break; }
		case 1: { // write
			if (!o.writable) return op;
			op = "write"; size_t n = gen_size(s, o, room); auto d = gen_data(s, n); s.note([&] { return "write " + std::to_string(n); });
			exact<char> b(d); PBT_EQ(f.write(b.get(), n), n, "written amount"); m.write(d); break; }
		case 2: { // seek
			op = "seek"; uint64_t to; unsigned how = static_cast<unsigned>(s.draw(2));
			switch (s.weighted({3, 2, 2})) {
			case 0: to = s.draw(m.data.size() + 3); break;
			case 1: to = std::min<uint64_t>(o.limit, o.unit * s.draw(o.limit / o.unit) + s.draw(2)); if (to) to--; break;
			default: to = s.draw(o.limit); }
			s.note([&] { return "seek " + std::to_string(to) + " how " + std::to_string(how); });
			auto r = how == 0 ? (s.boolean() ? f.seekbeg(to) : f.seek(static_cast<int64_t>(to))) : how == 1 ? f.seekcur(static_cast<int64_t>(to - m.pos)) : f.seekend(static_cast<int64_t>(to - m.data.size()));
			PBT_EQ(r, to, "seek result"); m.pos = to; m.state = state_t::ok; break; }
		case 3: { // skip
			op = "skip"; uint64_t n = s.draw(o.unit * 3); if (m.pos + n > o.limit) return ""; s.note([&] { return "skip " + std::to_string(n); }); f.skip(n); m.pos += n; m.state = state_t::ok; break; }
		case 4: // truncate
			if (!o.writable || !o.resizable || m.pos > o.limit) return op;
			op = "truncate"; s.note([] { return std::string("truncate"); }); f.truncate(); m.truncate(); break;
		case 5: { // remainder
			if (!o.readable) return op;
			op = "read_remainder"; size_t max = s.boolean() ? SIZE_MAX : static_cast<size_t>(s.draw(o.limit)); s.note([&] { return "read_remainder " + std::to_string(max); });
			auto r = f.read_remainder(max); auto e = m.read(std::min<size_t>(max, m.avail())); m.state = state_t::ok;
			PBT_REQUIRE(std::string(r.begin(), r.end()) == e, "remainder of " + std::to_string(r.size()) + " vs " + std::to_string(e.size())); break; }
		case 6: { // write_byte
			if (!o.writable) return op;
			op = "write_byte"; size_t n = gen_size(s, o, room); uint8_t b = static_cast<uint8_t>(s.draw(255)); s.note([&] { return "write_byte x" + std::to_string(n); });
			f.write_byte(b, n); if (n || m.state == state_t::ok) m.write(std::string(n, static_cast<char>(b)));
			else if (f.state() == state_t::ok) m.state = state_t::ok; // nothing to write: either
			break; }
		case 7: { // read_byte
			if (!o.readable) return op;
			op = "read_byte"; s.note([] { return std::string("read_byte"); }); auto e = m.read_all(1); int r = -1;
			try { r = f.read_byte(); } catch (const std::system_error&) {}
			PBT_EQ(r, e.empty() ? -1 : static_cast<int>(static_cast<uint8_t>(e[0])), "read_byte"); break; }
		case 8: // value
			if (!o.typed) return op;
			{ bool w = s.boolean(); if (w ? (!o.writable || room < 8) : !o.readable) return op;
			op = "value";
			switch (s.draw(4)) { case 0: value_op<uint8_t>(s, f, m, w); break; case 1: value_op<int16_t>(s, f, m, w); break; case 2: value_op<uint32_t>(s, f, m, w); break; case 3: value_op<int64_t>(s, f, m, w); break; default: value_op<double>(s, f, m, w); }
			break; }
		case 9: // string
			if (!o.typed) return op;
			{ bool w = s.boolean(); if (w ? (!o.writable || room < 8) : !o.readable) return op;
			op = "string"; if (s.boolean()) string_op<char>(s, f, m, w, room); else string_op<char16_t>(s, f, m, w, room);
			break; }
		case 10: { // line
			if (!o.typed || !o.readable) return op;
			op = "readln"; s.note([] { return std::string("readln"); }); std::string l("old"); f.readln(l); std::string e; bool nl = false;
			while (m.pos < m.data.size()) { char c = m.data[m.pos++]; if (c == '\n') { nl = true; break; } e += c; }
			if (nl && !e.empty() && e.back() == '\r') e.pop_back();
			m.state = nl ? state_t::ok : state_t::eof; PBT_REQUIRE(l == e, "line " + show(l) + " vs " + show(e)); break; }
		case 11: { // write_stream
			if (!o.writable) return op;
			if (!o.growing && m.pos >= o.limit) return op;
			op = "write_stream"; size_t n = gen_size(s, o, room); auto d = gen_data(s, n); ts::pipe src(d, ts::gen_plan(s, false, 0)); size_t lim = o.growing && s.chance(1, 2) ? SIZE_MAX : static_cast<size_t>(s.draw(room));
			s.note([&] { return "write_stream of " + std::to_string(n) + ", limit " + std::to_string(lim); });
			size_t r = static_cast<size_t>(f.write_stream(src, lim)); std::string w = d.substr(0, std::min(n, lim)); PBT_EQ(r, w.size(), "copied amount"); m.write(w); PBT_EQ(src.pos, w.size(), "taken from the source"); break; }
		case 12: { // read_array
			if (!o.readable) return op;
			op = "read_array"; size_t z = 1 + static_cast<size_t>(s.draw(8)), c = static_cast<size_t>(s.draw(40)); s.note([&] { return "read_array " + std::to_string(z) + " x " + std::to_string(c); });
			exact<char> b(z * c, '~'); size_t r = f.read_array(b.get(), z, c); auto e = m.read_all(z * c); PBT_EQ(r, e.size() / z, "elements"); PBT_REQUIRE(memcmp(b.get(), e.data(), e.size()) == 0, "elements read"); break; }
		default: // flush
			op = "flush"; s.note([] { return std::string("flush"); }); f.flush(); m.state = state_t::ok; }
		if (*op) compare(f, m, op);
		return op;
	}
	// The whole contents, read from the start.
	template<class F> std::string contents(F& f)
	{
		PBT_EQ(f.seekbeg(0), 0u); size_t n = static_cast<size_t>(f.size()); exact<char> b(n, 0); PBT_EQ(f.read_array(b.get(), 1, n), n, "reading it all"); char c; PBT_EQ(f.read(&c, 1), 0u, "more than its size");
		return std::string(b.get(), n);
	}
	// Another process looks at which bytes are locked.
	inline std::string locked_bytes(const std::string& p, size_t n)
	{
		int fd[2]; if (pipe(fd)) throw discard_t{}; pid_t pid = fork();
		if (!pid) { std::string r; int h = ::open(p.c_str(), O_RDWR); for (size_t i = 0; i < n; i++) { struct flock l{}; l.l_type = F_WRLCK; l.l_whence = SEEK_SET; l.l_start = static_cast<off_t>(i); l.l_len = 1; fcntl(h, F_GETLK, &l); r += l.l_type == F_UNLCK ? '.' : 'L'; } ssize_t w = ::write(fd[1], r.data(), r.size()); _exit(w < 0); }
		::close(fd[1]); std::string r(n, '?'); size_t k = 0; ssize_t g; while (k < n && (g = ::read(fd[0], &r[k], n - k)) > 0) k += static_cast<size_t>(g); ::close(fd[0]); int st; waitpid(pid, &st, 0); return r;
	}
}
