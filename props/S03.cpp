// Files of the operating system against a byte-array model, opening modes, times, locks.
// SCALE: 3
#include "fileops.hpp"
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <fcntl.h>
using namespace fo;
using stdex::stream::file;
using namespace stdex::stream;

// The system takes and gives less than it is asked, and refuses at some point, while armed.
struct faults { bool on = false; size_t cap = SIZE_MAX; uint64_t left = UINT64_MAX; size_t calls = 0, cut = 0; bool refused = false; };
static thread_local faults sys;
static bool transfer(size_t& n) { if (!sys.on) return true; sys.calls++; if (!sys.left) { sys.refused = true; errno = EIO; return false; } if (sys.left != UINT64_MAX) sys.left--; if (n > sys.cap) { n = sys.cap; sys.cut++; } return true; }
extern "C" ssize_t write(int fd, const void* d, size_t n) { return transfer(n) ? ::syscall(SYS_write, fd, d, n) : -1; }
extern "C" ssize_t read(int fd, void* d, size_t n) { return transfer(n) ? ::syscall(SYS_read, fd, d, n) : -1; }
struct armed { armed(size_t cap, uint64_t left = UINT64_MAX) { sys = faults(); sys.cap = cap; sys.left = left; sys.on = true; } ~armed() { sys.on = false; } };

static scratch& dir() { static scratch d; return d; }

// Histories of openings, operations and closings of a few files.
PBT_CHECK(histories, 12000, 120000)
{
	std::string p[2] = {dir() / "a", dir() / "b"}; bool exists[2] = {}; std::string disk[2];
	for (int i = 0; i < 2; i++) { ::unlink(p[i].c_str()); if (s.boolean()) { disk[i] = gen_data(s, static_cast<size_t>(s.draw(100))); spit(p[i], disk[i]); exists[i] = true; } }
	file f; model m; int cur = -1; bool rd = false, wr = false; size_t opened = 0, ops = 0; std::set<std::string> kinds;
	auto finish = [&] { if (cur >= 0) { disk[cur] = m.data; PBT_REQUIRE(slurp(p[cur]) == disk[cur], "what is on disk"); cur = -1; } };
	s.repeat(8, [&] {
		int i = static_cast<int>(s.draw(1)); unsigned acc = static_cast<unsigned>(s.draw(2)); rd = acc != 1; wr = acc != 0; unsigned disp = static_cast<unsigned>(s.draw(4)); bool app = s.chance(1, 3), by_string = s.boolean();
		if (!wr && (disp == 1 || disp == 4)) disp = 0; // truncation of a file opened for reading is not prescribed
		int mode = (rd ? mode_for_reading : 0) | (wr ? mode_for_writing : 0) | static_cast<int>(disp << 3) | (app ? mode_append : 0) | (s.boolean() ? mode_binary : 0) | (s.boolean() ? static_cast<int>(share_all) : 0) | (s.chance(1, 8) ? hint_sequential_access : 0);
		s.note([&] { return std::string("open ") + p[i].back() + (rd ? " r" : "") + (wr ? "w" : "") + " disposition " + std::to_string(disp) + (app ? " append" : ""); });
		bool should = disp == 0 || disp == 1 ? exists[i] : disp == 3 ? !exists[i] : true;
		if (cur == i) { finish(); }  // what was open is closed by opening
		else finish();
		if (by_string) f.open(stdex::sstring(p[i]), mode); else f.open(p[i].c_str(), mode);
		PBT_EQ(f.ok(), should, "opened"); PBT_EQ(static_cast<bool>(f), should); opened++;
		PBT_EQ(file::exists(p[i].c_str()), should || exists[i]);
		if (!should) { char c; PBT_EQ(f.read(&c, 1), 0u); PBT_EQ(f.state(), state_t::fail); PBT_EQ(f.tell(), fpos_max); PBT_EQ(f.size(), fsize_max); return; }
		exists[i] = true; if (disp == 1 || disp == 4) disk[i].clear();
		cur = i; m = model(); m.data = disk[i]; if (app) m.pos = m.data.size(); compare(f, m, "open");
		opts o; o.limit = 300; o.readable = rd; o.writable = wr;
		s.repeat(14, [&] {
			if (s.chance(1, 12)) { // not allowed
				if (!rd) { char c[4] = {}; s.note([] { return std::string("read though for writing only"); }); PBT_EQ(f.read(c, 4), 0u); m.state = state_t::fail; compare(f, m, "refused read"); f.seekbeg(m.pos); m.state = state_t::ok; }
				else if (!wr) { s.note([] { return std::string("write though for reading only"); }); if (s.boolean()) { PBT_EQ(f.write("abcd", 4), 0u); } else f.truncate(); m.state = state_t::fail; compare(f, m, "refused write"); f.seekbeg(m.pos); m.state = state_t::ok; }
				else { int64_t over = static_cast<int64_t>(1 + s.draw(50)); s.note([] { return std::string("seek before the beginning"); }); PBT_EQ(s.boolean() ? f.seekcur(-static_cast<int64_t>(m.pos) - over) : f.seekend(-static_cast<int64_t>(m.data.size()) - over), fpos_max); m.state = state_t::fail; compare(f, m, "bad seek"); f.seekbeg(m.pos); m.state = state_t::ok; }
				return;
			}
			const char* op = step(s, f, m, o); if (*op) { ops++; kinds.insert(op); }
		});
		if (s.boolean()) { f.close(); PBT_REQUIRE(f.ok()); PBT_REQUIRE(!f); finish(); }
	});
	f.close(); finish(); s.nontrivial(opened >= 2 && ops >= 3); s.label_if(kinds.size() > 4, "many kinds of operations");
	for (int i = 0; i < 2; i++) { PBT_EQ(file::exists(stdex::sstring(p[i])), exists[i]); if (exists[i]) PBT_REQUIRE(slurp(p[i]) == disk[i], "what is on disk"); }
}
// Two streams on the same file: what one wrote, the other reads; both keep their positions.
PBT_CHECK(two_views, 4000, 40000)
{
	auto p = dir() / "v"; spit(p, ""); file f[2] = {file(p.c_str(), mode_for_reading | mode_for_writing | share_all), file(p.c_str(), mode_for_reading | mode_for_writing | share_all)}; std::string data; uint64_t pos[2] = {}; size_t n = 0; opts o; o.limit = 200;
	s.repeat(30, [&] {
		n++; int i = static_cast<int>(s.draw(1)); model m; m.data = data; m.pos = pos[i]; m.state = f[i].state(); s.note([&] { return "#" + std::to_string(i); }); step(s, f[i], m, o); data = m.data; pos[i] = m.pos;
		PBT_EQ(f[1 - i].tell(), pos[1 - i]); PBT_EQ(f[1 - i].size(), data.size());
	});
	s.nontrivial(n >= 4);
}
// Assigned and copied handles, moved streams: every handle is released once, and what is open stays usable.
static size_t open_handles() { size_t n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
PBT_CHECK(handles, 3000, 30000)
{
	auto p = dir() / "h"; spit(p, "0123456789"); size_t before = open_handles(); size_t n = 0;
	{
		std::vector<std::unique_ptr<file>> v; std::vector<bool> open;
		s.repeat(12, [&] {
			n++; size_t i = v.empty() ? 0 : static_cast<size_t>(s.draw(v.size() - 1));
			switch (s.draw(6)) {
			case 0: v.emplace_back(new file(p.c_str(), mode_for_reading)); open.push_back(true); break;
			case 1: if (v.empty()) break; v.emplace_back(new file(*v[i])); open.push_back(open[i]); break;
			case 2: if (v.empty()) break; v[i]->close(); open[i] = false; break;
			case 4: { if (v.empty()) break; size_t j = static_cast<size_t>(s.draw(v.size() - 1)); *v[j] = static_cast<const file&>(*v[i]); open[j] = static_cast<bool>(open[i]); break; }
			case 5: { if (v.empty()) break; size_t j = static_cast<size_t>(s.draw(v.size() - 1)); if (j == i) break; *v[j] = std::move(*v[i]); open[j] = static_cast<bool>(open[i]); open[i] = false; break; }
			case 3: if (v.empty()) break; v[i]->open(p.c_str(), mode_for_reading); open[i] = true; break;
			default: if (v.empty()) break; v.erase(v.begin() + static_cast<ptrdiff_t>(i)); open.erase(open.begin() + static_cast<ptrdiff_t>(i)); }
			size_t k = 0; for (size_t j = 0; j < v.size(); j++) { PBT_EQ(static_cast<bool>(*v[j]), static_cast<bool>(open[j])); k += open[j]; if (open[j]) { v[j]->seek(3); char c = 0; PBT_EQ(v[j]->read(&c, 1), 1u); PBT_EQ(c, '3'); } }
			PBT_EQ(open_handles(), before + k, "handles open");
		});
	}
	PBT_EQ(open_handles(), before, "handles left open"); s.nontrivial(n >= 3);
}
PBT_CHECK(times, 6000, 60000)
{
	auto p = dir() / "t"; spit(p, "x"); file f(p.c_str(), mode_for_reading | mode_for_writing); PBT_REQUIRE(f.ok()); int64_t a = -1, m = -1; size_t n = 0;
	s.repeat(6, [&] { n++; int64_t t = s.boolean() ? static_cast<int64_t>(s.draw(4000000000u)) : 1500000000 + static_cast<int64_t>(s.draw(100000)); auto tp = stdex::stream::clock::from_time_t(t); if (s.boolean()) { f.set_atime(tp); a = t; } else { f.set_mtime(tp); m = t; } s.note([&] { return "set " + std::to_string(t); });
		if (a >= 0) PBT_REQUIRE(f.atime() == stdex::stream::clock::from_time_t(a), "access time"); if (m >= 0) PBT_REQUIRE(f.mtime() == stdex::stream::clock::from_time_t(m), "modification time"); });
	f.close(); file g(p.c_str(), mode_for_reading); if (a >= 0) PBT_REQUIRE(g.atime() == stdex::stream::clock::from_time_t(a), "access time kept"); if (m >= 0) PBT_REQUIRE(g.mtime() == stdex::stream::clock::from_time_t(m), "modification time kept");
	s.nontrivial(n > 0);
}
PBT_CHECK(locks, 1200, 12000, 20)
{
	auto p = dir() / "l"; spit(p, std::string(20, 'x')); constexpr size_t n = 40; std::string m(n, '.'); size_t k = 0;
	{
		file f(p.c_str(), mode_for_reading | mode_for_writing | share_all);
		s.repeat(5, [&] { k++; uint64_t at = s.draw(n - 1), len = 1 + s.draw(n - 1 - at), pos = s.draw(30); bool on = k == 1 || s.chance(2, 3); s.note([&] { return std::string(on ? "lock " : "unlock ") + std::to_string(at) + "+" + std::to_string(len); });
			f.seekbeg(pos); if (on) f.lock(at, len); else f.unlock(at, len); PBT_REQUIRE(f.ok()); PBT_EQ(f.tell(), pos, "position moved by locking");
			m.replace(at, len, std::string(len, on ? 'L' : '.')); PBT_EQ(locked_bytes(p, n), m); });
	}
	PBT_EQ(locked_bytes(p, n), std::string(n, '.'), "left locked by a closed file"); s.nontrivial(k >= 2);
}
PBT_CHECK(refused_locks, 500, 1000)
{
	auto p = dir() / "r"; spit(p, std::string(20, 'x')); s.nontrivial(); uint64_t at = s.draw(30), len = 1 + s.draw(30);
	file f(p.c_str(), mode_for_reading); f.lock(at, len); PBT_EQ(f.state(), state_t::fail, "locking for exclusive access what is open for reading");
	file g; g.lock(at, len); PBT_EQ(g.state(), state_t::fail); g.seek(0); g.unlock(at, len); PBT_EQ(g.state(), state_t::fail);
}
// System streams that take and give less than asked at once: every packet of a socket is a reading of its own.
PBT_CHECK(pieces, 6000, 60000)
{
	int fd[2]; if (::socketpair(AF_UNIX, SOCK_SEQPACKET, 0, fd)) throw discard_t{}; basic_sys r(fd[0]); std::string all; std::vector<size_t> reads; bool cut = false; int sent = 0;
	for (size_t n = 1 + s.len(5); n--;) { size_t total = 0, last = 1 + s.draw(3); for (size_t k = 0; k < last && sent < 100; k++, sent++) { std::string x; for (size_t i = 0, m = 1 + s.len(12); i < m; i++) x += static_cast<char>(s.draw(255)); if (::send(fd[1], x.data(), x.size(), MSG_NOSIGNAL) < 0) fail("send"); all += x; total += x.size(); cut |= k > 0; } if (total) reads.push_back(total); }
	::close(fd[1]); s.note([&] { std::string o = "reads of "; for (auto x : reads) o += std::to_string(x) + " "; return o; }); size_t at = 0; s.nontrivial(cut); size_t beyond = s.boolean() ? s.draw(9) : 0;
	for (size_t i = 0; i < reads.size(); i++) { size_t k = reads[i] + (i + 1 == reads.size() ? beyond : 0); exact<char> b(k, '~'); size_t n; if (s.boolean()) n = r.read(b.get(), k); else n = static_cast<basic&>(r).read_array(b.get(), 1, k); PBT_EQ(n, reads[i], "number read"); if (k == n) PBT_REQUIRE(r.ok(), "state"); PBT_EQ(show(b.str().substr(0, n)), show(all.substr(at, n)), "data"); at += n; }
	char c; PBT_EQ(r.read(&c, 1), 0u, "after the end"); PBT_EQ(r.state(), state_t::eof, "after the end");
}
// Pipes that fill: as much is reported written as can be read.
PBT_CHECK(full_pipes, 300, 3000)
{
	int fd[2]; if (::pipe2(fd, O_NONBLOCK)) throw discard_t{}; size_t cap = ::fcntl(fd[1], F_SETPIPE_SZ, 4096) > 0 ? 4096 : 65536; basic_sys r(fd[0]), w(fd[1]); std::string x; size_t n = s.draw(2) ? cap + s.draw(9000) : s.draw(cap); for (size_t i = 0; i < n; i++) x += static_cast<char>(i * 7 + i / 251); s.note([&] { return std::to_string(n) + " bytes"; });
	size_t k = w.write(x.data(), n), got; PBT_EQ(w.state(), k == n ? state_t::ok : state_t::fail, "state"); if (n <= cap) PBT_EQ(k, n, "fits"); exact<char> b(n + 10, '~'); got = r.read(b.get(), n + 10); PBT_EQ(got, k, "number written"); PBT_REQUIRE(b.str().substr(0, got) == x.substr(0, got), "data"); s.nontrivial(k < n);
	// A device that is full, one that is a directory, one that is not open.
	file f("/dev/full", mode_for_writing | mode_open_existing); if (f.ok() && n) { PBT_EQ(f.write(x.data(), n), 0u); PBT_EQ(f.state(), state_t::fail); } file d(dir().path.c_str(), mode_for_reading | mode_open_existing); char c; PBT_EQ(d.read(&c, 1), 0u); PBT_EQ(d.state(), state_t::fail); basic_sys u; PBT_EQ(u.read(&c, 1), 0u); PBT_EQ(u.state(), state_t::fail); PBT_EQ(u.write(&c, 1), 0u); PBT_EQ(u.state(), state_t::fail);
}
// A system that transfers a part of what it is asked: nobody notices.
PBT_CHECK(short_transfers, 3000, 60000)
{
	auto p = dir() / "s"; model m; m.data = gen_data(s, static_cast<size_t>(s.draw(100))); spit(p, m.data); opts o; o.limit = 300; size_t cap = 1 + static_cast<size_t>(s.draw(s.boolean() ? 3 : 30)), n = 0; bool cached = s.chance(1, 3); s.note([&] { return "at most " + std::to_string(cap) + " at once" + (cached ? ", cached" : ""); });
	{
		file f(p.c_str(), mode_for_reading | mode_for_writing | mode_open_existing); PBT_REQUIRE(f.ok()); armed a(cap);
		if (cached) { cache c(f, 1 + static_cast<size_t>(s.draw(40))); s.repeat(20, [&] { n++; step(s, c, m, o); }); c.close(); }
		else s.repeat(20, [&] { n++; step(s, f, m, o); });
		s.nontrivial(n >= 3 && sys.cut);
	}
	PBT_REQUIRE(slurp(p) == m.data, "what is on disk");
	memory_file l; { armed a(cap); l.load(p.c_str(), mode_open_existing); } PBT_REQUIRE(l.ok(), "loaded"); PBT_REQUIRE(contents(l) == m.data, "loaded"); ::unlink(p.c_str()); { armed a(cap); l.save(p.c_str(), mode_create); } PBT_REQUIRE(l.ok(), "saved"); PBT_REQUIRE(slurp(p) == m.data, "saved");
	if (m.data.size() < 200) { int fd[2]; if (::pipe(fd)) throw discard_t{}; basic_sys r(fd[0]); { buffered_sys w(fd[1], 0, s.draw(30)); armed a(cap); for (size_t at = 0; at < m.data.size();) { size_t k = 1 + static_cast<size_t>(s.draw(m.data.size() - at - 1)); PBT_EQ(w.write(m.data.data() + at, k), k, "written to a pipe"); PBT_REQUIRE(w.ok()); at += k; } w.close(); } armed a(cap); exact<char> b(m.data.size() + 5, '~'); PBT_EQ(r.read(b.get(), m.data.size() + 5), m.data.size(), "read from a pipe"); PBT_EQ(show(b.str().substr(0, m.data.size())), show(m.data), "through a pipe"); }
}
// The same with amounts no pipe or page takes at once.
PBT_CHECK(large_transfers, 600, 6000)
{
	size_t n = 1 + static_cast<size_t>(s.draw(s.boolean() ? 60000 : 300000)), cap = 1 + static_cast<size_t>(s.draw(s.boolean() ? n : 20000)), at = 0; if (cap < n / 200) cap = n / 200; std::string x(n, 0), y(n, 0); uint64_t k = s.draw(UINT32_MAX); for (size_t i = 0; i < n; i++) x[i] = static_cast<char>(mix(k + i / 8) >> (i % 8) * 8); s.note([&] { return std::to_string(n) + " bytes, at most " + std::to_string(cap) + " at once"; });
	auto p = dir() / "l"; { file f(p.c_str(), mode_for_reading | mode_for_writing | mode_create); PBT_REQUIRE(f.ok()); armed a(cap); while (at < n) { size_t w = 1 + static_cast<size_t>(s.boolean() ? n - at - 1 : s.draw(n - at - 1)); PBT_EQ(f.write(x.data() + at, w), w, "written"); PBT_REQUIRE(f.ok()); at += w; }
		f.seekbeg(0); for (at = 0; at < n;) { size_t r = 1 + static_cast<size_t>(s.boolean() ? n - at - 1 : s.draw(n - at - 1)); PBT_EQ(f.read(&y[at], r), r, "read"); PBT_REQUIRE(f.ok()); at += r; } s.nontrivial(sys.cut); }
	PBT_REQUIRE(y == x, "what is read back"); PBT_REQUIRE(slurp(p) == x, "what is on disk"); ::unlink(p.c_str());
}
// One that refuses after some transfers: as much is reported as was transferred, and a failure is a failure.
PBT_CHECK(refused_transfers, 3000, 60000)
{
	auto p = dir() / "r"; ::unlink(p.c_str()); size_t cap = 1 + static_cast<size_t>(s.draw(s.boolean() ? 3 : 30)); uint64_t left = s.draw(8); std::string all; s.note([&] { return std::to_string(left) + " transfers of at most " + std::to_string(cap); });
	{
		file f(p.c_str(), mode_for_reading | mode_for_writing | mode_create); PBT_REQUIRE(f.ok());
		{ armed a(cap, left); for (size_t i = 0; i < 6; i++) { std::string x; for (size_t k = 1 + s.len(60); k--;) x += static_cast<char>('a' + all.size() + x.size()); s.note([&] { return "write " + std::to_string(x.size()); }); exact<char> e(x); bool r = s.boolean(); size_t w = r ? f.write(e.get(), x.size()) : f.write_array(e.get(), 1, x.size()); all += x.substr(0, w); if (w == x.size()) PBT_EQ(f.state(), state_t::ok, "state"); else { PBT_REQUIRE(sys.refused, "less written"); PBT_EQ(f.state(), state_t::fail, "state"); break; } } s.nontrivial(sys.refused && sys.calls > 1); }
		PBT_EQ(show(slurp(p)), show(all), "what is on disk"); PBT_EQ(f.tell(), all.size());
		f.seekbeg(0); size_t at = 0; uint64_t give = s.draw(8); armed a(cap, give);
		while (at < all.size()) { size_t n = 1 + static_cast<size_t>(s.draw(all.size() - at - 1)); exact<char> b(n, '~'); s.note([&] { return "read " + std::to_string(n); }); size_t r = f.read(b.get(), n); PBT_EQ(show(b.str().substr(0, r)), show(all.substr(at, r)), "data"); PBT_EQ(show(b.str().substr(r)), show(std::string(n - r, '~')), "beyond the data"); at += r; if (r == n) PBT_EQ(f.state(), state_t::ok); else { PBT_REQUIRE(sys.refused, "less read"); PBT_EQ(f.state(), r ? state_t::ok : state_t::fail, "state"); } if (!r) break; }
		PBT_EQ(f.tell(), at); if (sys.refused) { armed again(cap); char c; size_t r = f.read(&c, 1); if (at < all.size()) { PBT_EQ(r, 1u, "a system that recovered"); PBT_REQUIRE(c == all[at] && f.ok()); } }
	}
	{ spit(p, "before"); memory_file m, o; std::string x = gen_data(s, 1 + static_cast<size_t>(s.draw(100))); m.write(x.data(), x.size()); bool r; { armed a(cap, left); m.save(p.c_str(), mode_create); r = sys.refused; } PBT_EQ(m.state(), r ? state_t::fail : state_t::ok, "saving"); if (!r) PBT_REQUIRE(slurp(p) == x, "saved"); PBT_REQUIRE(contents(m) == x, "contents after saving");
	  spit(p, x); { armed a(cap, left); o.load(p.c_str(), mode_open_existing); r = sys.refused; } if (r) PBT_EQ(o.state(), state_t::fail, "loading"); else { PBT_EQ(o.state(), state_t::ok, "loading"); PBT_REQUIRE(contents(o) == x, "loaded"); } }
}
// Others that look at the file system.
PBT_CHECK(queries, 1000, 10000)
{
	auto p = dir() / "q"; ::unlink(p.c_str()); s.nontrivial(); PBT_REQUIRE(!file::exists(p.c_str())); PBT_REQUIRE(!file::readonly(p.c_str()), "writability is assumed"); spit(p, "x");
	::mode_t mode = static_cast<::mode_t>(s.draw(0777)); ::chmod(p.c_str(), mode); PBT_REQUIRE(file::exists(p.c_str())); PBT_EQ(file::readonly(p.c_str()), !(mode & 0222)); PBT_EQ(file::readonly(stdex::sstring(p)), !(mode & 0222));
}
PBT_MAIN("S03", "histories of up to 8 openings in every mode and disposition of two files, with up to 14 operations each, ones that are not allowed, closings and reopenings; two streams on one file; copied, closed and reopened handles; times in whole seconds; locks watched from another process; non-trivial: at least two openings and three operations. Oracle: byte arrays, what is on disk, F_GETLK of another process.")
