// Socket streams over socket pairs, and the owners of handles against an accountant.
// SCALE: 2
#include <sys/types.h>
#include <sys/socket.h>
#include <netdb.h>
static size_t freed_lists; static void counted_freeaddrinfo(struct addrinfo* p) { freed_lists++; ::freeaddrinfo(p); }
#define freeaddrinfo counted_freeaddrinfo
#include "fileops.hpp"
#include <stdex/socket.hpp>
#undef freeaddrinfo
#include "threads.hpp"
#include <fcntl.h>
#include <signal.h>
using namespace pbt;
using stdex::stream::state_t;
using sock = stdex::stream::socket;

static bool quiet = [] { ::signal(SIGPIPE, SIG_IGN); return true; }();
static bool pair_of(int fd[2], int type = SOCK_STREAM) { return ::socketpair(AF_UNIX, type, 0, fd) == 0; }
static std::string pattern(uint64_t seed, size_t n) { std::string x; x.reserve(n); for (size_t i = 0; i < n; i++) x += static_cast<char>(mix(seed + i)); return x; }

// One thread: both ends, never asking for what would block; the connection ends at some point, half or whole.
PBT_CHECK(conversation, 12000, 120000)
{
	int fd[2]; if (!pair_of(fd)) throw discard_t{}; auto a = std::make_unique<sock>(fd[0]), b = std::make_unique<sock>(fd[1]); PBT_REQUIRE(a->ok() && *a && a->get() == fd[0]);
	std::unique_ptr<sock>* e[2] = {&a, &b}; std::string wire[2]; bool over[2] = {}, gone[2] = {}; size_t passed = 0; uint64_t k = 0; // wire[i]: on the way to i; over[i]: nothing more comes to i
	s.repeat(30, [&] {
		size_t i = s.draw(1), j = 1 - i; sock& x = **e[i];
		if (gone[i]) return;
		switch (s.weighted({6, 6, 1, 1, 1})) {
		case 0: {
			size_t n = s.len(60); std::string d = pattern(k++ * 1000, n); s.note([&] { return std::string(1, "ab"[i]) + " writes " + show(n); }); exact<char> m(d);
			bool cannot = gone[j] || over[j];
			size_t w = x.write(m.get(), n);
			if (cannot) { if (n) { PBT_EQ(w, 0u, "written to nobody"); PBT_EQ(x.state(), state_t::fail, "writing to nobody"); } return; }
			PBT_EQ(w, n); PBT_REQUIRE(x.ok()); if (wire[j].size() + n < 60000) wire[j] += d; else throw discard_t{};
			break; }
		case 1: {
			bool ended = over[i] || gone[j]; size_t have = wire[i].size(), n = ended ? s.draw(have + 9) : s.draw(have); if (!n && !have) return; /* reading nothing may wait for something */ s.note([&] { return std::string(1, "ab"[i]) + " reads " + show(n) + " of " + show(have); }); exact<char> m(n, '~');
			size_t r = x.read(m.get(), n), want = std::min(n, have);
			if (gone[j] && r < want) { // the peer may have reset the connection with unread data
				PBT_EQ(show(m.str().substr(0, r)), show(wire[i].substr(0, r))); wire[i].clear(); return; }
			PBT_EQ(r, want, "number read"); PBT_EQ(show(m.str().substr(0, r)), show(wire[i].substr(0, r)), "data"); PBT_EQ(show(m.str().substr(r)), show(std::string(n - r, '~')), "beyond the data"); wire[i].erase(0, r); passed += r;
			if (!n || r) PBT_EQ(x.state(), state_t::ok, "state"); else if (!gone[j]) PBT_EQ(x.state(), state_t::eof, "state at the end"); else PBT_REQUIRE(!x.ok());
			break; }
		case 2: if (!gone[j]) { ::shutdown(x.get(), SHUT_WR); over[j] = true; s.note([&] { return std::string(1, "ab"[i]) + " has said all"; }); } break;
		case 3: if (s.chance(1, 3)) { s.note([&] { return std::string(1, "ab"[i]) + " closes"; }); x.close(); PBT_REQUIRE(!x && x.ok() && x.get() == stdex::invalid_socket); PBT_REQUIRE(::fcntl(fd[i], F_GETFD) < 0, "still open"); char c; PBT_EQ(x.read(&c, 1), 0u, "read from a closed one"); PBT_EQ(x.state(), state_t::fail); PBT_EQ(x.write(&c, 1), 0u, "written to a closed one"); PBT_EQ(x.state(), state_t::fail); x.close(); gone[i] = true; } break;
		default: { // passes to another object
			auto y = s.boolean() ? std::make_unique<sock>(std::move(x)) : std::make_unique<sock>(); if (!*y) *y = std::move(x); PBT_REQUIRE(*y && !x && x.get() == stdex::invalid_socket && y->get() == fd[i]); *y = std::move(*y); PBT_REQUIRE(y->get() == fd[i]); *e[i] = std::move(y); }
		}
	});
	a.reset(); b.reset(); PBT_REQUIRE(::fcntl(fd[0], F_GETFD) < 0 && ::fcntl(fd[1], F_GETFD) < 0, "left open"); s.nontrivial(passed > 10);
}
// Two threads: more than the connection holds.
PBT_CHECK(flow, 400, 4000, 30)
{
	int fd[2]; if (!pair_of(fd)) throw discard_t{}; int small = 2048; if (s.boolean()) { ::setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof(small)); ::setsockopt(fd[1], SOL_SOCKET, SO_RCVBUF, &small, sizeof(small)); }
	sock a(fd[0]), b(fd[1]); size_t total = s.draw(400000), wp = 1 + s.draw(s.boolean() ? 100 : 100000), rp = 1 + s.draw(s.boolean() ? 100 : 100000); uint64_t seed = s.draw(1000000); bool leaves = s.chance(1, 3); size_t stop = leaves ? s.draw(total) : SIZE_MAX; s.note([&] { return show(total) + " bytes by " + show(wp) + " / " + show(rp) + (leaves ? " reader leaves at " + show(stop) : ""); });
	s.nontrivial(total > 1000); s.label_if(leaves, "reader leaves"); std::string data = pattern(seed, total), err; std::string got; size_t sent = 0; bool refused = false;
	std::thread t([&] { while (sent < total) { size_t n = std::min(wp, total - sent), w = a.write(data.data() + sent, n); sent += w; if (w > n) { err = "wrote more than asked"; break; } if (w < n) { refused = true; if (a.state() != state_t::fail) err = "short write without failure"; break; } if (!a.ok()) { err = "all written, but not ok"; break; } } a.close(); });
	for (;;) { size_t n = std::min(rp, stop - got.size()); if (!n || (total == got.size() && leaves)) { b.close(); break; } std::string q(n, '~'); size_t r = b.read(&q[0], n); got.append(q, 0, r); if (r < n) { if (r ? !b.ok() : b.state() != state_t::eof && n) err = "state at the end"; break; } if (!b.ok()) { err = "all read, but not ok"; break; } }
	t.join(); PBT_REQUIRE(err.empty(), err); PBT_REQUIRE(data.compare(0, got.size(), got) == 0, "data differ");
	if (!leaves) { PBT_EQ(got.size(), total, "lost"); PBT_REQUIRE(!refused && sent == total); } else PBT_REQUIRE(sent >= got.size());
}
// Pieces: every packet is a reading of its own; datagrams end as such.
PBT_CHECK(pieces, 6000, 60000)
{
	int fd[2]; if (!pair_of(fd, SOCK_SEQPACKET)) throw discard_t{}; sock r(fd[0]); std::string all; std::vector<size_t> reads; bool cut = false; int sent = 0;
	for (size_t n = 1 + s.len(5); n--;) { size_t total = 0, last = 1 + s.draw(3); for (size_t k = 0; k < last && sent < 100; k++, sent++) { std::string x = pattern(static_cast<uint64_t>(sent) * 77, 1 + s.len(12)); sock w(::dup(fd[1])); PBT_EQ(w.write(x.data(), x.size()), x.size()); PBT_REQUIRE(w.ok()); all += x; total += x.size(); cut |= k > 0; } if (total) reads.push_back(total); }
	::close(fd[1]); size_t at = 0; s.nontrivial(cut); size_t beyond = s.boolean() ? s.draw(9) : 0; s.note([&] { return "reads of " + show(reads); });
	for (size_t i = 0; i < reads.size(); i++) { size_t k = reads[i] + (i + 1 == reads.size() ? beyond : 0); exact<char> b(k, '~'); size_t n = r.read(b.get(), k); PBT_EQ(n, reads[i], "number read"); PBT_REQUIRE(r.ok(), "state"); PBT_EQ(show(b.str().substr(0, n)), show(all.substr(at, n)), "data"); at += n; }
	char c; PBT_EQ(r.read(&c, 1), 0u, "after the end"); PBT_EQ(r.state(), state_t::eof, "after the end");
}
// A connection that is full and does not wait: as much is reported written as can be read.
PBT_CHECK(full, 600, 6000)
{
	int fd[2]; if (!pair_of(fd)) throw discard_t{}; int small = 4096; ::setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof(small)); ::fcntl(fd[0], F_SETFL, O_NONBLOCK); ::fcntl(fd[1], F_SETFL, O_NONBLOCK);
	sock a(fd[0]), b(fd[1]); std::string x = pattern(s.draw(999), s.draw(60000)); s.note([&] { return show(x.size()) + " bytes"; }); size_t w = a.write(x.data(), x.size()); PBT_EQ(a.state(), w == x.size() ? state_t::ok : state_t::fail, "state");
	exact<char> q(x.size() + 10, '~'); size_t r = b.read(q.get(), q.n); PBT_EQ(r, w, "number written"); PBT_REQUIRE(q.str().substr(0, r) == x.substr(0, r), "data"); PBT_EQ(b.state(), r ? state_t::ok : state_t::fail, "nothing there yet");
	PBT_EQ(b.read(q.get(), 1), 0u); PBT_EQ(b.state(), state_t::fail, "nothing there yet"); s.nontrivial(w < x.size());
}
// Objects as such.
PBT_CHECK(creation, 2000, 20000)
{
	bool right = s.boolean(); s.nontrivial(); int type = s.boolean() ? SOCK_STREAM : SOCK_DGRAM; sock x(right ? AF_UNIX : 9999, type, 0); PBT_EQ(x.ok(), right); PBT_EQ(static_cast<bool>(x), right); int h = x.get(); if (right) { int t = 0; socklen_t l = sizeof(t); PBT_REQUIRE(!::getsockopt(h, SOL_SOCKET, SO_TYPE, &t, &l) && t == type, "of another type"); } else PBT_EQ(h, stdex::invalid_socket);
	int fd[2]; if (!pair_of(fd)) throw discard_t{}; ::close(fd[1]); { stdex::socket o(fd[0]), p; if (s.boolean()) p = std::move(o); else { stdex::socket q(std::move(o)); PBT_REQUIRE(q && !o); p = std::move(q); PBT_REQUIRE(!q); } PBT_REQUIRE(p.get() == fd[0] && !o); if (s.boolean()) { p.close(); PBT_REQUIRE(!p && ::fcntl(fd[0], F_GETFD) < 0); } } PBT_REQUIRE(::fcntl(fd[0], F_GETFD) < 0, "left open");
	{ sock y(s.boolean() ? sock(dup(2)) : sock()); sock z; z = std::move(y); int k = z.get(); z = std::move(x); PBT_REQUIRE(z.get() == h && !x); PBT_REQUIRE(k < 0 || ::fcntl(k, F_GETFD) < 0, "what was owned before is not closed"); } if (right) PBT_REQUIRE(::fcntl(h, F_GETFD) < 0, "left open");
	struct ::addrinfo hints{}, *res = nullptr; hints.ai_flags = AI_NUMERICHOST; if (s.chance(1, 20) && !::getaddrinfo("127.0.0.1", nullptr, &hints, &res)) { freed_lists = 0; { stdex::addrinfo i(res); stdex::saddrinfo j(std::move(i)); PBT_REQUIRE(!i && j.get() == res); } PBT_EQ(freed_lists, 1u, "times an address list was freed"); }
}

// Owners: handles that only an accountant knows. Closing, copying or keeping wrongly shows at once.
namespace {
	struct accountant { std::set<int> open; int next = 100; bool lowest = false; int fresh() { if (lowest) next = 0; while (open.count(next)) next++; open.insert(next); return next++; } unsigned fail_in = UINT_MAX; std::string err; } acc;
	struct traits
	{
		static constexpr int invalid_handle = -7;
		static void close(int h) { if (!acc.open.erase(h)) acc.err = "closes " + std::to_string(h) + ", which is not open"; }
		static int duplicate(int h, bool = false) { if (!acc.open.count(h)) acc.err = "duplicates " + std::to_string(h) + ", which is not open"; if (!acc.fail_in--) throw std::runtime_error("no more"); return acc.fresh(); }
	};
	using owner = stdex::basic_sys_object<int, traits>;
}
PBT_CHECK(owners, 60000, 600000)
{
	acc = accountant(); std::vector<std::unique_ptr<owner>> v; size_t n = 0, failed = 0;
	acc.lowest = s.boolean(); auto fresh = [&] { return acc.fresh(); };
	s.repeat(25, [&] {
		n++; size_t i = v.empty() ? 0 : s.draw(v.size() - 1), j = v.empty() ? 0 : s.draw(v.size() - 1); acc.fail_in = s.chance(1, 5) ? 0 : UINT_MAX; std::vector<int> was; for (auto& x : v) was.push_back(x->get());
		try {
			switch (v.empty() ? s.draw(1) : s.draw(7)) {
			case 0: { int h = fresh(); s.note([] { return std::string("owner of a new one"); }); v.push_back(std::make_unique<owner>(h)); PBT_EQ(v.back()->get(), h); return; }
			case 1: v.push_back(std::make_unique<owner>()); PBT_REQUIRE(!*v.back()); return;
			case 2: { s.note([&] { return "copy of " + show(i); }); auto x = std::make_unique<owner>(static_cast<const owner&>(*v[i])); PBT_EQ(static_cast<bool>(*x), was[i] != -7, "copy owns"); PBT_REQUIRE(!*x || (x->get() != was[i] && acc.open.count(x->get())), "copy of the handle"); PBT_EQ(v[i]->get(), was[i], "copied one changed"); v.push_back(std::move(x)); break; }
			case 3: { s.note([&] { return show(j) + " = copy of " + show(i); }); *v[j] = static_cast<const owner&>(*v[i]); PBT_EQ(static_cast<bool>(*v[j]), was[i] != -7, "copy owns"); PBT_EQ(v[i]->get(), was[i], "copied one changed"); if (i != j) PBT_REQUIRE(!*v[j] || (v[j]->get() != was[i] && (acc.lowest || v[j]->get() != was[j]))); break; }
			case 4: { s.note([&] { return "move of " + show(i); }); auto x = std::make_unique<owner>(std::move(*v[i])); PBT_EQ(x->get(), was[i]); PBT_REQUIRE(!*v[i], "owns after giving away"); v.push_back(std::move(x)); break; }
			case 5: { s.note([&] { return show(j) + " = move of " + show(i); }); *v[j] = std::move(*v[i]); PBT_EQ(v[j]->get(), was[i]); if (i != j) PBT_REQUIRE(!*v[i], "owns after giving away"); break; }
			case 6: { s.note([&] { return "close " + show(i); }); v[i]->close(); PBT_REQUIRE(!*v[i]); break; }
			default: { s.note([&] { return "end of " + show(i); }); v.erase(v.begin() + static_cast<ptrdiff_t>(i)); }
			}
		} catch (const std::runtime_error&) { failed++; s.note([] { return std::string("  fails"); }); PBT_EQ(v[i]->get(), was[i], "copied one changed"); }
		std::set<int> held; for (auto& x : v) if (*x) PBT_REQUIRE(held.insert(x->get()).second, "two owners of one handle");
		PBT_REQUIRE(acc.err.empty(), acc.err); PBT_EQ(show(std::vector<int>(held.begin(), held.end())), show(std::vector<int>(acc.open.begin(), acc.open.end())), "owned and open");
	});
	v.clear(); PBT_REQUIRE(acc.err.empty(), acc.err); PBT_REQUIRE(acc.open.empty(), "left open"); s.nontrivial(n >= 4); s.label_if(failed > 0, "duplication fails");
}
// The lowest descriptor is one like any other.
PBT_CHECK(descriptor_zero, 4000, 40000)
{
	struct kept { int k = ::fcntl(0, F_DUPFD_CLOEXEC, 60); ~kept() { if (k >= 0) { ::dup2(k, 0); ::close(k); } else ::close(0); } } kept; ::close(0);
	int p[2]; size_t kind = s.draw(3); s.note([&] { return "kind " + show(kind); }); s.nontrivial();
	switch (kind) {
	case 0: { if (::pipe(p)) throw discard_t{}; PBT_REQUIRE(!p[0]); { stdex::sys_object a(p[0]); PBT_REQUIRE(a && a.get() == 0); stdex::sys_object b(a); PBT_REQUIRE(b && b.get() > 0); a.close(); PBT_REQUIRE(!a && ::fcntl(0, F_GETFD) < 0, "not closed"); stdex::sys_object c(b); PBT_REQUIRE(c && c.get() == 0, "duplicate is 0"); b = c; PBT_REQUIRE(b && b.get() > 0 && c); if (s.boolean()) { stdex::sys_object d(std::move(c)); PBT_REQUIRE(d && d.get() == 0 && !c, "moved"); } else { stdex::sys_object d; d = std::move(c); PBT_REQUIRE(d && d.get() == 0 && !c, "moved over"); } PBT_REQUIRE(::fcntl(0, F_GETFD) < 0, "left open"); } PBT_REQUIRE(::fcntl(0, F_GETFD) < 0, "left open"); ::close(p[1]); break; }
	case 1: { if (!pair_of(p)) throw discard_t{}; PBT_REQUIRE(!p[0]); { sock a(p[0]), b(p[1]); PBT_REQUIRE(a && a.ok()); std::string d = s.bytes(20), r(20, 0); PBT_EQ(a.write(d.data(), d.size()), d.size()); PBT_EQ(d.size() ? b.read(&r[0], d.size()) : 0, d.size()); PBT_REQUIRE(r.substr(0, d.size()) == d); sock c(std::move(a)); PBT_REQUIRE(c && !a && c.get() == 0); } PBT_REQUIRE(::fcntl(0, F_GETFD) < 0, "left open"); break; }
	default: {
		fo::scratch dir; std::string path = dir / "f", d = s.bytes(60); { stdex::stream::file f(path.c_str(), stdex::stream::mode_for_writing | stdex::stream::mode_create | stdex::stream::mode_binary); PBT_REQUIRE(f && f.ok() && f.get() == 0); PBT_EQ(f.write(d.data(), d.size()), d.size()); stdex::stream::file g(f); PBT_REQUIRE(g && g.ok()); f.close(); PBT_REQUIRE(!f); stdex::stream::file h(g); PBT_REQUIRE(h && h.ok() && h.get() == 0); PBT_EQ(h.tell(), d.size()); PBT_EQ(h.size(), d.size()); }
		PBT_REQUIRE(::fcntl(0, F_GETFD) < 0, "left open"); PBT_EQ(show(fo::slurp(path)), show(d)); }
	}
}
PBT_MAIN("S09", "conversations over socket pairs with writings, readings, half and whole endings and changes of owner, two-thread flows beyond what the connection holds, packets, full connections; histories of owners copied, moved, assigned, closed and ended with duplications that fail; non-trivial: more than 10 bytes passed, or at least four steps. Oracle: byte queues, an accountant of open handles.")
