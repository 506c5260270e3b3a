// Property-based testing core: choice-sequence generators with generic shrinking, forked workers,
// crash/hang/memory-growth detection, evidence. One driver binary per property includes this once.
//
// A check is a function of a Src: it draws choices from it (recorded), runs the code under test and
// throws pbt::fail_t (through PBT_REQUIRE/PBT_EQ) when the oracle disagrees. A failing case is its
// choice sequence: shrinking deletes and lowers choices, a replay file stores them.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt
{
	struct fail_t { std::string msg; };
	struct discard_t {};

	inline uint64_t mix(uint64_t x)
	{
		x += 0x9e3779b97f4a7c15ull;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return x ^ (x >> 31);
	}
	inline uint64_t hash_str(const std::string& s)
	{
		uint64_t h = 1469598103934665603ull;
		for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
		return h;
	}

	constexpr size_t max_choices = 1 << 18;
	struct Shared
	{
		std::atomic<uint64_t> beat;
		std::atomic<uint64_t> evaluations;
		std::atomic<uint64_t> case_no;
		std::atomic<uint32_t> check;
		std::atomic<uint32_t> n;
		std::atomic<uint32_t> status; // 0 running, 1 done, 2 failed
		char msg[16384];
		char note[16384];
		uint64_t choices[max_choices];
	};

	enum class mode_t { random, choices, bytes };

	class Src
	{
	public:
		mode_t m_mode = mode_t::random;
		uint64_t m_state = 0, m_case = 0;
		const uint64_t* m_in = nullptr; size_t m_in_n = 0, m_pos = 0;
		const uint8_t* m_bytes = nullptr; size_t m_bytes_n = 0;
		uint64_t* m_rec = nullptr; std::atomic<uint32_t>* m_rec_n = nullptr;
		bool m_nontrivial = false, m_want_note = false;
		std::string m_note;
		std::set<std::string> m_labels;
		bool thorough = false;

		uint64_t rnd() { m_state += 0x9e3779b97f4a7c15ull; uint64_t z = m_state; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

		void record(uint64_t v)
		{
			uint32_t n = m_rec_n->load(std::memory_order_relaxed);
			if (n >= max_choices) throw discard_t{};
			m_rec[n] = v;
			m_rec_n->store(n + 1, std::memory_order_relaxed);
		}

		// The one primitive: a value in [0, max]. `hint` is what random mode takes instead of a uniform value.
		uint64_t draw(uint64_t max, const std::function<uint64_t()>* hint = nullptr)
		{
			uint64_t v;
			switch (m_mode) {
			case mode_t::random:
				v = hint ? (*hint)() : max == UINT64_MAX ? rnd() : rnd() % (max + 1);
				break;
			case mode_t::choices:
				v = m_pos < m_in_n ? m_in[m_pos] : 0; m_pos++;
				break;
			default:
				v = 0;
				for (uint64_t m = max; m; m >>= 8)
					v = v << 8 | (m_pos < m_bytes_n ? m_bytes[m_pos++] : 0);
				if (max != UINT64_MAX) v %= max + 1;
			}
			if (v > max) v = max;
			record(v);
			return v;
		}

		// Inclusive range; lo is simplest.
		template<class T = int64_t> T range(T lo, T hi)
		{
			return static_cast<T>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
		}
		bool boolean() { return draw(1) != 0; }
		// True in num of den cases; false is simplest.
		bool chance(uint64_t num, uint64_t den)
		{
			std::function<uint64_t()> h = [&]() -> uint64_t { return rnd() % den < num; };
			if (m_mode == mode_t::bytes) { uint64_t v = draw(255); return v * den > 255 * (den - num) && v; }
			return draw(1, &h) != 0;
		}
		// Length in [0, max]: often tiny, sometimes anything up to max.
		size_t len(size_t max)
		{
			std::function<uint64_t()> h = [&]() -> uint64_t {
				uint64_t cap;
				switch (rnd() % 8) {
				case 0: cap = 1; break;
				case 1: case 2: cap = 6; break;
				case 3: case 4: case 5: cap = 32; break;
				default: cap = max; }
				if (cap > max) cap = max;
				return rnd() % (cap + 1);
			};
			return static_cast<size_t>(draw(max, &h));
		}
		size_t weighted(std::initializer_list<unsigned> w)
		{
			std::function<uint64_t()> h = [&]() -> uint64_t {
				uint64_t sum = 0; for (auto x : w) sum += x;
				uint64_t r = rnd() % sum, i = 0;
				for (auto x : w) { if (r < x) return i; r -= x; i++; }
				return 0;
			};
			size_t r = static_cast<size_t>(draw(w.size() - 1, &h));
			for (size_t k = w.size(); !*(w.begin() + static_cast<ptrdiff_t>(r)) && k--;) r = (r + 1) % w.size(); // a weight of zero excludes, in shrinking and fuzzing, too
			return r;
		}
		template<class C> const typename C::value_type& pick(const C& c) { return *(c.begin() + static_cast<ptrdiff_t>(draw(c.size() - 1))); }
		template<class T> T pick(std::initializer_list<T> c) { return *(c.begin() + draw(c.size() - 1)); }
		// Case index modulo n: sweeps an enumerable space.
		uint64_t enumerate(uint64_t n)
		{
			std::function<uint64_t()> h = [&]() -> uint64_t { return m_case % n; };
			return draw(n - 1, &h);
		}
		// Calls f() up to max times: deletion of choices removes repetitions one at a time.
		template<class F> void repeat(size_t max, F f)
		{
			size_t target = 0;
			if (m_mode == mode_t::random) {
				switch (rnd() % 6) {
				case 0: target = rnd() % 3; break;
				case 1: case 2: target = rnd() % 9; break;
				case 3: case 4: target = rnd() % 40; break;
				default: target = rnd() % (max + 1); }
				if (target > max) target = max;
			}
			for (size_t i = 0; i < max; i++) {
				std::function<uint64_t()> h = [&]() -> uint64_t { return i < target; };
				bool more;
				if (m_mode == mode_t::bytes) more = m_pos < m_bytes_n && draw(255) != 0; else more = draw(1, &h) != 0;
				if (!more) return;
				f();
			}
		}
		// Integer with emphasis on edges; 0 is simplest.
		template<class T> T integer()
		{
			using U = std::make_unsigned_t<T>;
			constexpr unsigned bits = sizeof(T) * 8;
			switch (weighted({3, 2, 2, 2})) {
			case 0: return static_cast<T>(draw(16));
			case 1: { U b = static_cast<U>(U(1) << draw(bits - 1)); int d = static_cast<int>(draw(2)); b = static_cast<U>(d == 0 ? b : d == 1 ? b - 1 : b + 1); if (draw(1)) b = static_cast<U>(0 - b); return static_cast<T>(b); }
			case 2: { U b = static_cast<U>(draw(std::numeric_limits<U>::max())); b = static_cast<U>(b >> draw(bits - 1)); if (draw(1)) b = static_cast<U>(0 - b); return static_cast<T>(b); }
			default: return static_cast<T>(draw(std::numeric_limits<U>::max()));
			}
		}
		std::string bytes(size_t max)
		{
			size_t n = len(max);
			std::string r; r.reserve(n);
			switch (weighted({3, 2, 1})) {
			case 0: for (size_t i = 0; i < n; i++) r += static_cast<char>(draw(255)); break;
			case 1: for (size_t i = 0; i < n; i++) r += static_cast<char>('a' + draw(3)); break;
			default: { uint64_t x = draw(UINT32_MAX); for (size_t i = 0; i < n; i++) r += static_cast<char>(mix(x + i)); } // one choice, many bytes
			}
			return r;
		}
		template<class C> std::basic_string<C> text(size_t max, const std::basic_string<C>& alphabet)
		{
			size_t n = len(max);
			std::basic_string<C> r;
			for (size_t i = 0; i < n; i++) r += alphabet[draw(alphabet.size() - 1)];
			return r;
		}
		void nontrivial(bool b = true) { if (b) m_nontrivial = true; }
		void label(const std::string& l) { m_labels.insert(l); }
		void label_if(bool b, const char* l) { if (b) m_labels.insert(l); }
		bool want_note() const { return m_want_note; }
		template<class F> void note(F f)
		{
			if (!m_want_note) return;
			if (m_note.size() > 4000) return;
			if (!m_note.empty()) m_note += "; ";
			m_note += f();
			publish();
		}
		void publish()
		{
			if (!m_pub) return;
			size_t n = std::min<size_t>(m_note.size(), 16383);
			memcpy(m_pub, m_note.data(), n); m_pub[n] = 0;
		}
		char* m_pub = nullptr;
	};

	template<class C> std::string show(const std::basic_string<C>& s)
	{
		std::ostringstream o;
		o << '"';
		size_t k = 0;
		for (auto c : s) {
			auto u = static_cast<uint32_t>(static_cast<std::make_unsigned_t<C>>(c));
			if (++k > 300) { o << "...(" << s.size() << ")"; break; }
			if (u == '"' || u == '\\') o << '\\' << static_cast<char>(u);
			else if (u >= 32 && u < 127) o << static_cast<char>(u);
			else o << "\\x" << std::hex << std::setw(2) << std::setfill('0') << u << std::dec;
		}
		o << '"';
		return o.str();
	}
	inline std::string show(const char* s) { return show(std::string(s)); }
	inline std::string show(bool b) { return b ? "true" : "false"; }
	template<class T> std::enable_if_t<std::is_arithmetic<T>::value, std::string> show(T v)
	{
		std::ostringstream o; o.precision(17);
		if constexpr (sizeof(T) == 1) o << static_cast<int>(v); else if constexpr (std::is_same<T, wchar_t>::value || std::is_same<T, char16_t>::value || std::is_same<T, char32_t>::value) o << static_cast<uint32_t>(v); else o << v;
		return o.str();
	}
	template<class T> std::enable_if_t<std::is_enum<T>::value, std::string> show(T v) { return std::to_string(static_cast<long long>(v)); }
	template<class T> std::string show(const std::vector<T>& v)
	{
		std::string r = "[";
		size_t k = 0;
		for (const auto& x : v) { if (k) r += ","; if (++k > 60) { r += "...(" + std::to_string(v.size()) + ")"; break; } r += show(static_cast<T>(x)); }
		return r + "]";
	}

	[[noreturn]] inline void fail(const std::string& msg) { throw fail_t{msg}; }
	inline void require(bool c, const char* expr, const char* file, int line, const std::string& extra = "")
	{
		if (!c) {
			std::ostringstream o; const char* b = strrchr(file, '/');
			o << (b ? b + 1 : file) << ":" << line << ": " << expr;
			if (!extra.empty()) o << " [" << extra << "]";
			throw fail_t{o.str()};
		}
	}
	template<class A, class B> void equal(const A& a, const B& b, const char* ea, const char* eb, const char* file, int line, const std::string& extra = "")
	{
		if (!(a == b)) {
			std::ostringstream o; const char* s = strrchr(file, '/');
			o << (s ? s + 1 : file) << ":" << line << ": " << ea << " == " << eb << ": " << show(a) << " vs " << show(b);
			if (!extra.empty()) o << " [" << extra << "]";
			throw fail_t{o.str()};
		}
	}
#define PBT_REQUIRE(c, ...) do { if (!(c)) ::pbt::require(false, #c, __FILE__, __LINE__ __VA_OPT__(,) __VA_ARGS__); } while (0)
#define PBT_EQ(a, b, ...) ::pbt::equal((a), (b), #a, #b, __FILE__, __LINE__ __VA_OPT__(,) __VA_ARGS__)

	// Heap copy of exactly n elements: any access outside is an ASan report.
	template<class T> struct exact
	{
		std::unique_ptr<T[]> p; size_t n;
		exact(const T* s, size_t n) : p(new T[n]), n(n) { std::copy(s, s + n, p.get()); }
		exact(const std::basic_string<T>& s) : exact(s.data(), s.size()) {}
		explicit exact(size_t n, T fill) : p(new T[n]), n(n) { std::fill(p.get(), p.get() + n, fill); }
		operator T*() const { return p.get(); }
		T* get() const { return p.get(); }
		std::basic_string<T> str() const { return std::basic_string<T>(p.get(), n); }
	};

	struct Check
	{
		const char* name; void (*fn)(Src&); uint64_t quick, thorough; unsigned timeout_s; unsigned replays; // replays: how often a replay is attempted for schedule-dependent checks (1: deterministic)
	};
	inline std::vector<Check>& checks() { static std::vector<Check> v; return v; }
	struct reg { reg(const char* n, void (*f)(Src&), uint64_t q, uint64_t t, unsigned to = 10, unsigned rep = 1) { checks().push_back({n, f, q, t, to, rep}); } };
#define PBT_CHECK(name, quick, thorough, ...) \
	static void check_##name(::pbt::Src& s); \
	static ::pbt::reg reg_##name(#name, check_##name, quick, thorough __VA_OPT__(,) __VA_ARGS__); \
	static void check_##name([[maybe_unused]] ::pbt::Src& s)

	// A recorded defect: probe() returns true while the code still fails on the listed input.
	struct Known { const char* id; const char* what; bool (*probe)(); };
	inline std::vector<Known>& knowns() { static std::vector<Known> v; return v; }
	struct known_reg { known_reg(const char* i, const char* w, bool (*p)()) { knowns().push_back({i, w, p}); } };
#define PBT_KNOWN(id, what) \
	static bool known_##id(); static ::pbt::known_reg kreg_##id(#id, what, known_##id); static bool known_##id()

	enum outcome { ok, failed, crashed, hung, bloated, discarded };
	struct Result { outcome o = ok; std::string msg, note; std::vector<uint64_t> choices; };

	inline bool run_one(const Check& c, Src& s, std::string& msg)
	{
		try { c.fn(s); }
		catch (const fail_t& f) { msg = f.msg; return false; }
		catch (const discard_t&) { s.m_nontrivial = false; s.label("(discarded)"); return true; }
		catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return false; }
		return true;
	}
	inline size_t rss_mb(pid_t pid)
	{
		char p[64]; snprintf(p, sizeof(p), "/proc/%d/statm", pid);
		FILE* f = fopen(p, "r"); if (!f) return 0;
		unsigned long a = 0, b = 0, c = 0; int r = fscanf(f, "%lu %lu %lu", &a, &b, &c); fclose(f);
		return r == 3 && b > c ? (b - c) * static_cast<size_t>(sysconf(_SC_PAGESIZE)) >> 20 : 0;
	}
	inline Shared* shm()
	{
		void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
		return static_cast<Shared*>(p);
	}
	inline size_t& rss_limit() { static size_t v = 2500; return v; }
	inline bool& verbose() { static bool v = false; return v; }

	struct Driver
	{
		const char* id; const char* rule;
		std::string tier = "quick", dir = "."; uint64_t seed = 1; unsigned jobs = 8; double cap_s = 400; std::string only; double scale = 1;

		// Runs one case in a child.
		Result isolated(const Check& c, const std::vector<uint64_t>* ch, const std::string* by, std::string* labels = nullptr)
		{
			(void)labels;
			static Shared* sh = shm();
			sh->n = 0; sh->status = 0; sh->msg[0] = sh->note[0] = 0;
			int ep[2]; if (pipe(ep)) _exit(2);
			fflush(stdout); fflush(stderr);
			pid_t pid = fork();
			if (pid == 0) {
				setpgid(0, 0);
				dup2(ep[1], 2); close(ep[0]); close(ep[1]);
				Src s; s.thorough = tier == "thorough"; s.m_rec = sh->choices; s.m_rec_n = &sh->n; s.m_want_note = true; s.m_pub = sh->note;
				if (ch) { s.m_mode = mode_t::choices; s.m_in = ch->data(); s.m_in_n = ch->size(); }
				else { s.m_mode = mode_t::bytes; s.m_bytes = reinterpret_cast<const uint8_t*>(by->data()); s.m_bytes_n = by->size(); }
				std::string msg;
				bool okk = run_one(c, s, msg);
				snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
				s.publish();
				sh->status = okk ? 1 : 2;
				_exit(0);
			}
			setpgid(pid, pid);
			close(ep[1]); fcntl(ep[0], F_SETFL, O_NONBLOCK);
			std::string err; Result r; int st = 0;
			auto t0 = std::chrono::steady_clock::now();
			auto drain = [&]() { char b[4096]; ssize_t k; while ((k = ::read(ep[0], b, sizeof(b))) > 0) if (err.size() < 12000) err.append(b, static_cast<size_t>(k)); };
			for (;;) {
				pollfd pf = {ep[0], POLLIN, 0};
				poll(&pf, 1, 2);
				drain();
				if (waitpid(pid, &st, WNOHANG) == pid) break;
				if (pf.revents & POLLHUP) usleep(200);
				if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > c.timeout_s) { r.o = hung; kill(-pid, SIGKILL); waitpid(pid, &st, 0); break; }
				if (rss_mb(pid) > rss_limit()) { r.o = bloated; kill(-pid, SIGKILL); waitpid(pid, &st, 0); break; }
			}
			kill(-pid, SIGKILL);
			drain(); close(ep[0]);
			r.choices.assign(sh->choices, sh->choices + sh->n);
			r.note = sh->note;
			if (r.o == hung) r.msg = "does not finish within " + std::to_string(c.timeout_s) + " s";
			else if (r.o == bloated) r.msg = "memory grows beyond " + std::to_string(rss_limit()) + " MB";
			else if (sh->status == 1) r.o = ok;
			else if (sh->status == 2) { r.o = failed; r.msg = sh->msg; }
			else { r.o = crashed; r.msg = "crashed (" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + "): " + summary(err); }
			return r;
		}
		static std::string summary(const std::string& err)
		{
			std::string out; std::istringstream in(err); std::string l; int k = 0;
			while (std::getline(in, l))
				if (l.find("ERROR") != std::string::npos || l.find("WARNING: Thread") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos || (l.find("    #") == 0 && k < 12)) { if (k++ < 14) out += l + " | "; }
			return out.empty() ? err.substr(0, 400) : out;
		}
		bool still(const Check& c, const std::vector<uint64_t>& ch, Result& r)
		{
			for (unsigned i = 0; i < c.replays; i++) { r = isolated(c, &ch, nullptr); if (r.o != ok) return true; }
			return false;
		}
		Result shrink(const Check& c, Result best)
		{
			auto t0 = std::chrono::steady_clock::now();
			if (getenv("VERIF_NOSHRINK")) return best;
			double budget = c.replays > 1 ? 30 : 45;
			if (best.o == hung) budget = 3.0 * c.timeout_s;
			int tries = 0;
			auto left = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget && tries < 4000; };
			auto attempt = [&](std::vector<uint64_t> ch) -> bool {
				if (!left()) return false;
				tries++;
				Result r;
				if (!still(c, ch, r) || r.o == ok) return false;
				if (best.o != hung && r.o == hung) return false;
				// Keep what was consumed; drop trailing zeros.
				while (!r.choices.empty() && r.choices.back() == 0) r.choices.pop_back();
				auto& b = best.choices;
				if (r.choices.size() > b.size() || (r.choices.size() == b.size() && !(r.choices < b))) return false;
				best = r;
				return true;
			};
			bool progress = true;
			while (progress && left()) {
				progress = false;
				for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k && left(); k /= 2)
					for (size_t i = best.choices.size(); i > 0 && left();) {
						size_t lo = i > k ? i - k : 0;
						if (i <= best.choices.size()) {
							auto ch = best.choices; ch.erase(ch.begin() + static_cast<ptrdiff_t>(lo), ch.begin() + static_cast<ptrdiff_t>(i));
							if (attempt(ch)) { progress = true; i = std::min(i, best.choices.size()); if (lo < i) i = std::max<size_t>(lo, 1); continue; }
						}
						i = lo;
					}
				for (size_t i = 0; i < best.choices.size() && left(); i++) {
					if (!best.choices[i]) continue;
					auto ch = best.choices; ch[i] = 0;
					if (attempt(ch)) { progress = true; continue; }
					uint64_t lo = 0, hi = i < best.choices.size() ? best.choices[i] : 0; // lo fails to reproduce, hi reproduces
					while (hi - lo > 1 && left() && i < best.choices.size()) {
						uint64_t mid = lo + (hi - lo) / 2;
						ch = best.choices; ch[i] = mid;
						if (attempt(ch)) { progress = true; hi = mid; } else lo = mid;
						if (hi - lo < 3 && hi > 20) break;
					}
				}
			}
			return best;
		}
		static std::string json(const std::string& s)
		{
			std::string o = "\"";
			for (unsigned char ch : s) {
				if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
				else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
				else o += static_cast<char>(ch);
			}
			return o + "\"";
		}
		// In how many cases of one run a failure that replays do not show again has to be seen to count: a wrong result may be a matter of timing on a busy machine.
		static unsigned enough(outcome o) { return o == failed ? 3 : 2; }
		// Confirms, shrinks and reports. Returns true when it is a violation.
		// Other processes that keep the processors busy, to vary the schedules of a case under replay.
		struct noise
		{
			std::vector<pid_t> p;
			noise(unsigned n) { fflush(stdout); fflush(stderr); for (unsigned i = 0; i < n; i++) { pid_t k = fork(); if (k == 0) { pid_t pp = getppid(); uint64_t x = i; while (getppid() == pp) { x = mix(x); volatile unsigned b = 0; for (unsigned j = 0; j < x % 20000; j++) b = b + 1; if (x & 0x100000) usleep(static_cast<useconds_t>((x >> 24) % 300)); } _exit(0); } p.push_back(k); } }
			~noise() { for (auto k : p) { int st; kill(k, SIGKILL); waitpid(k, &st, 0); } }
		};
		bool report(const Check& c, Result r, const std::string& origin, unsigned seen = 1)
		{
			Result again; int n = 0; bool confirmed = false;
			for (int i = 0; i < 3; i++) if (still(c, r.choices, again) && (n++, c.replays > 1)) break;
			if (!n && c.replays > 1) { noise k(jobs); auto t0 = std::chrono::steady_clock::now(); while (!n && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < 20) if (still(c, r.choices, again)) n++; }
			if (!n && seen >= enough(r.o)) { n = 3; confirmed = true; again = r; again.msg += " (schedule-dependent: seen in " + std::to_string(seen) + " cases of one run, not again in isolation)"; }
			if (!n || (c.replays == 1 && n < 3)) {
				printf("NOTE: %s/%s: %s: %s; reproduced %d of 3 times, not counted\n", id, c.name, origin.c_str(), r.msg.substr(0, 500).c_str(), n);
				return false;
			}
			std::string keep = again.msg.empty() ? r.msg : again.msg; r = again.o == ok ? r : again;
			Result m = confirmed ? r : shrink(c, r);
			mkdir((dir + "/replays").c_str(), 0777);
			std::string path = dir + "/replays/" + id + "-" + c.name + ".replay";
			std::ofstream f(path);
			f << "property=" << id << " check=" << c.name << " seed=" << seed << " tier=" << tier << "\nchoices";
			for (auto x : m.choices) f << ' ' << x;
			f << "\n# " << origin << "\n# " << m.msg << "\n# case: " << m.note << "\n";
			f.close();
			printf("%s/%s: %s\n  case: %s\n  (%zu choices, before shrinking %zu: %s)\n", id, c.name, m.msg.substr(0, 3000).c_str(), m.note.substr(0, 3000).c_str(), m.choices.size(), r.choices.size(), keep.substr(0, 400).c_str());
			printf("VIOLATION property=%s replay=%s\n", id, path.c_str());
			fflush(stdout);
			return true;
		}
		int replay(const std::string& path)
		{
			std::ifstream f(path); std::string head, l; std::getline(f, head); std::getline(f, l);
			auto p = head.find("check="); std::string cn = head.substr(p + 6, head.find(' ', p) - p - 6);
			std::istringstream in(l); std::string w; in >> w; std::vector<uint64_t> ch; uint64_t x;
			std::string by;
			if (w == "bytes") { std::string h; in >> h; for (size_t i = 0; i + 1 < h.size(); i += 2) by += static_cast<char>(strtoul(h.substr(i, 2).c_str(), nullptr, 16)); }
			else while (in >> x) ch.push_back(x);
			for (auto& c : checks()) if (cn == c.name) {
				Result r;
				bool bad = false;
				if (w == "bytes") { r = isolated(c, nullptr, &by); bad = r.o != ok; } else bad = still(c, ch, r);
				printf("%s/%s: %s\n  case: %s\n", id, c.name, bad ? r.msg.c_str() : "holds", r.note.c_str());
				if (bad) printf("VIOLATION property=%s replay=%s\n", id, path.c_str());
				return bad;
			}
			fprintf(stderr, "no check %s\n", cn.c_str());
			return 2;
		}
		uint64_t cases(const Check& c) const { return std::max<uint64_t>(1, static_cast<uint64_t>(static_cast<double>(tier == "thorough" ? c.thorough : c.quick) * scale)); }

		// From check ci0, case i0 on (a worker is restarted after a case that failed in a schedule-dependent check).
		[[noreturn]] void worker(unsigned w, Shared* sh, const std::string& out, std::chrono::steady_clock::time_point t0, uint32_t ci0 = 0, uint64_t i0 = UINT64_MAX)
		{
			setpgid(0, 0);
			std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> labels, per; std::vector<std::string> samples; bool capped = false;
			for (uint32_t ci = ci0; ci < checks().size(); ci++) {
				const Check& c = checks()[ci];
				if (!only.empty() && only != c.name) continue;
				uint64_t total = cases(c); int sampled = 0;
				for (uint64_t i = ci == ci0 && i0 != UINT64_MAX ? i0 : w; i < total; i += jobs) {
					if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > cap_s) { capped = true; break; }
					Src s; s.thorough = tier == "thorough"; s.m_state = mix(seed * 1000003 + hash_str(c.name)) ^ mix(i); s.m_case = i; s.m_rec = sh->choices; s.m_rec_n = &sh->n;
					s.m_want_note = sampled < 2 && (w < 2) && i >= jobs * 8; s.m_pub = nullptr;
					sh->n = 0; sh->check = ci; sh->case_no = i; sh->beat++;
					std::string msg;
					if (!run_one(c, s, msg)) { snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str()); sh->status = 2; _exit(0); }
					sh->evaluations++;
					per[c.name]++;
					for (auto& l : s.m_labels) labels[std::string(c.name) + ": " + l]++;
					if (s.m_nontrivial) {
						uint64_t h = ci + 1; for (uint32_t k = 0; k < sh->n; k++) h = mix(h ^ sh->choices[k]);
						distinct.insert(h);
						if (s.m_want_note && !s.m_note.empty()) { sampled++; samples.push_back(std::string(c.name) + ": " + s.m_note.substr(0, 500)); }
					}
				}
			}
			std::ofstream f(out, std::ios::binary);
			f << distinct.size() << '\n'; for (auto h : distinct) f.write(reinterpret_cast<const char*>(&h), 8);
			f << '\n' << labels.size() << '\n'; for (auto& l : labels) f << l.second << ' ' << l.first << '\n';
			f << per.size() << '\n'; for (auto& l : per) f << l.second << ' ' << l.first << '\n';
			f << samples.size() << '\n'; for (auto& l : samples) { std::string t = l; for (auto& ch : t) if (ch == '\n') ch = ' '; f << t << '\n'; }
			f << capped << '\n';
			f.close();
			sh->status = 1;
			_exit(0);
		}

		int run(const std::string& evidence)
		{
			auto t0 = std::chrono::steady_clock::now();
			std::vector<std::string> known_lines; int violations = 0;
			for (auto& k : knowns()) {
				static Shared* sh = shm(); sh->status = 0;
				fflush(stdout);
				pid_t pid = fork();
				if (pid == 0) { setpgid(0, 0); int dn = ::open("/dev/null", O_WRONLY); dup2(dn, 2); bool b = true; try { b = k.probe(); } catch (...) {} sh->status = b ? 2 : 1; _exit(0); }
				int st; auto t1 = std::chrono::steady_clock::now(); bool gone = false;
				while (!(gone = waitpid(pid, &st, WNOHANG) == pid) && std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count() < 10 && rss_mb(pid) < rss_limit()) usleep(2000);
				if (!gone) { kill(-pid, SIGKILL); waitpid(pid, &st, 0); }
				if (sh->status != 1) printf("KNOWN-FINDING: property=%s %s: %s\n", id, k.id, k.what);
				else printf("NOTE: known finding %s no longer fails\n", k.id);
			}
			std::vector<Shared*> sh(jobs); std::vector<pid_t> pid(jobs); std::vector<std::string> out(jobs), errf(jobs);
			std::vector<uint64_t> beat(jobs, 0); std::vector<int> state(jobs, 0);
			char tmpl[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(tmpl)) return 2; std::string tmp = tmpl;
			fflush(stdout); fflush(stderr);
			for (unsigned w = 0; w < jobs; w++) {
				sh[w] = shm(); out[w] = tmp + "/out" + std::to_string(w); errf[w] = tmp + "/err" + std::to_string(w);
				pid[w] = fork();
				if (pid[w] == 0) { int e = ::open(errf[w].c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(e, 2); worker(w, sh[w], out[w], t0); }
			}
			std::vector<double> idle(jobs, 0); std::vector<int> restarts(jobs, 0); auto prev = t0;
			Result bad; uint32_t bad_check = 0; std::string origin; std::vector<std::pair<uint32_t, Result>> bads; std::vector<std::string> origins;
			unsigned alive = jobs;
			while (alive) {
				usleep(10000);
				auto now = std::chrono::steady_clock::now(); bool stop = false;
				double tick = std::min(0.1, std::chrono::duration<double>(now - prev).count()); prev = now; // the machine may have been suspended
				for (unsigned w = 0; w < jobs; w++) if (!state[w]) {
					int st; Result r; bool ended = waitpid(pid[w], &st, WNOHANG) == pid[w];
					auto grab = [&]() { r.choices.assign(sh[w]->choices, sh[w]->choices + sh[w]->n); bads.emplace_back(sh[w]->check.load(), r); origins.push_back("case " + std::to_string(sh[w]->case_no.load()) + " of seed " + std::to_string(seed));
						// A failure in a schedule-dependent check may be hard to reproduce: the search goes on, and the same failure in another case confirms it.
						uint32_t ci = sh[w]->check; unsigned same = 0; for (auto& b : bads) if (b.first == ci && b.second.o == r.o) same++;
						if (checks()[ci].replays == 1 || same >= enough(r.o) || ++restarts[w] > 4) { stop = true; return; }
						uint64_t next = sh[w]->case_no + jobs; fflush(stdout); fflush(stderr); sh[w]->status = 0; sh[w]->n = 0; sh[w]->msg[0] = 0; idle[w] = 0;
						pid[w] = fork();
						if (pid[w] == 0) { int e = ::open(errf[w].c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(e, 2); worker(w, sh[w], out[w], t0, ci, next); }
						state[w] = 0; alive++; };
					if (ended) {
						state[w] = 1; alive--;
						if (sh[w]->status == 2) { r.o = failed; r.msg = sh[w]->msg; grab(); }
						else if (sh[w]->status != 1) { std::ifstream e(errf[w]); std::stringstream ss; ss << e.rdbuf(); r.o = crashed; r.msg = "crashed: " + summary(ss.str()); grab(); }
						continue;
					}
					uint64_t b = sh[w]->beat;
					if (b != beat[w]) { beat[w] = b; idle[w] = 0; }
					else if ((idle[w] += tick) > checks()[sh[w]->check].timeout_s) { r.o = hung; r.msg = "does not finish"; kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); state[w] = 1; alive--; grab(); continue; }
					if (rss_mb(pid[w]) > rss_limit()) { r.o = bloated; r.msg = "memory grows"; kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); state[w] = 1; alive--; grab(); }
				}
				if (stop) { for (unsigned w = 0; w < jobs; w++) if (!state[w]) { int st; kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); state[w] = 1; alive--; } }
			}
			uint64_t evals = 0; for (auto s : sh) evals += s->evaluations;
			std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> labels, per; std::vector<std::string> samples; bool capped = false;
			for (unsigned w = 0; w < jobs; w++) {
				std::ifstream f(out[w], std::ios::binary); size_t n; std::string l;
				if (!(f >> n)) continue;
				f.get(); for (size_t i = 0; i < n; i++) { uint64_t h; f.read(reinterpret_cast<char*>(&h), 8); distinct.insert(h); } f.get();
				f >> n; f.get(); for (size_t i = 0; i < n; i++) { uint64_t k; f >> k; f.get(); std::getline(f, l); labels[l] += k; }
				f >> n; f.get(); for (size_t i = 0; i < n; i++) { uint64_t k; f >> k; f.get(); std::getline(f, l); per[l] += k; }
				f >> n; f.get(); for (size_t i = 0; i < n; i++) { std::getline(f, l); samples.push_back(l); }
				bool c = false; f >> c; capped |= c;
			}
			for (unsigned w = 0; w < jobs; w++) { unlink(out[w].c_str()); unlink(errf[w].c_str()); }
			rmdir(tmp.c_str());
			for (size_t i = 0; i < bads.size() && !violations; i++)
				{ unsigned same = 0; for (auto& b : bads) if (b.first == bads[i].first && b.second.o == bads[i].second.o) same++;
				if (report(checks()[bads[i].first], bads[i].second, origins[i], same)) violations++; }
			(void)bad; (void)bad_check; (void)origin; (void)known_lines;
			double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
			if (!evidence.empty()) {
				std::ofstream f(evidence);
				f << "{\"property\":" << json(id) << ",\"tier\":" << json(tier) << ",\"seed\":" << seed << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << distinct.size() << ",\"rule\":" << json(rule) << ",\"samples\":[";
				if (samples.empty()) samples.push_back(bads.empty() ? "(none)" : "stopped by a failing case: " + bads[0].second.msg);
				std::set<std::string> seen; bool first = true;
				for (auto& x : samples) if (seen.insert(x).second && seen.size() <= 24) { f << (first ? "" : ",") << json(x); first = false; }
				f << "],\"per_check\":{"; first = true;
				for (auto& l : per) { f << (first ? "" : ",") << json(l.first) << ":" << l.second; first = false; }
				f << "},\"labels\":{"; first = true;
				for (auto& l : labels) { f << (first ? "" : ",") << json(l.first) << ":" << l.second; first = false; }
				f << "},\"time_capped\":" << (capped ? "true" : "false") << "},\"wall_s\":" << wall << ",\"violations\":" << violations << "}\n";
			}
			printf("%s: %llu evaluations, %zu distinct non-trivial, %.1f s%s\n", id, static_cast<unsigned long long>(evals), distinct.size(), wall, capped ? " (time-capped)" : "");
			if (verbose()) { for (auto& l : per) printf("  %-40s %llu\n", l.first.c_str(), static_cast<unsigned long long>(l.second)); for (auto& l : labels) printf("    %-50s %llu\n", l.first.c_str(), static_cast<unsigned long long>(l.second)); }
			return violations ? 1 : 0;
		}

		int main(int argc, char** argv)
		{
			std::string evidence, rep, fz; if (const char* e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
			for (int i = 1; i < argc; i++) {
				std::string a = argv[i]; auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
				if (a == "--tier") tier = next(); else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
				else if (a == "--evidence") evidence = next(); else if (a == "--replay") rep = next(); else if (a == "--dir") dir = next();
				else if (a == "--only") only = next(); else if (a == "--jobs") jobs = static_cast<unsigned>(atoi(next().c_str())); else if (a == "--cap") cap_s = atof(next().c_str());
				else if (a == "--scale") scale = atof(next().c_str()); else if (a == "-v") verbose() = true; else if (a == "--fuzz-input") fz = next();
				else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
			}
			if (!rep.empty()) return replay(rep);
			if (!fz.empty()) { // a libFuzzer artifact: first byte selects the check
				std::ifstream f(fz, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string by = ss.str();
				if (by.empty()) return 0;
				const Check& c = checks()[static_cast<uint8_t>(by[0]) % checks().size()]; by.erase(0, 1);
				Result r = isolated(c, nullptr, &by);
				if (r.o == ok) { printf("NOTE: fuzzer input does not reproduce\n"); return 0; }
				return report(c, r, "found by libFuzzer") ? 1 : 0;
			}
			return run(evidence);
		}
	};
}

#ifdef PBT_FUZZ
#define PBT_MAIN(id, rule) \
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) \
{ \
	if (!size) return 0; \
	static std::vector<uint64_t> buf(pbt::max_choices); static std::atomic<uint32_t> n; n = 0; \
	pbt::Src s; s.m_mode = pbt::mode_t::bytes; s.m_bytes = data + 1; s.m_bytes_n = size - 1; s.m_rec = buf.data(); s.m_rec_n = &n; \
	std::string msg; const auto& c = pbt::checks()[data[0] % pbt::checks().size()]; \
	if (c.replays > 1) return -1; \
	if (!pbt::run_one(c, s, msg)) { fprintf(stderr, "FAILED %s: %s\n", c.name, msg.c_str()); abort(); } \
	return 0; \
}
#else
#define PBT_MAIN(id, rule) int main(int argc, char** argv) { pbt::Driver d{id, rule}; return d.main(argc, argv); }
#endif
