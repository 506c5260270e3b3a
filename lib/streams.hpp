// Streams for tests: a byte array behind the stdex stream interface that can transfer short, end and fail on demand.
#pragma once
#include "pbt.hpp"
#include <stdex/stream.hpp>

namespace ts
{
	using stdex::stream::state_t;
	using stdex::stream::seek_t;

	struct plan
	{
		std::vector<uint32_t> shorts;      // caps of successive transfers (cycled); empty: no cap
		uint64_t fail_read = UINT64_MAX;   // the read that would go past this many bytes delivered in total fails
		uint64_t fail_write = UINT64_MAX;  // ditto for writing
		size_t next = 0;
		size_t cap(size_t n) { if (shorts.empty() || n <= 1) return n; size_t c = shorts[next++ % shorts.size()]; return c && c < n ? c : n; }
	};
	inline plan gen_plan(pbt::Src& s, bool faults, uint64_t total)
	{
		plan p;
		if (s.chance(1, 2)) s.repeat(6, [&] { p.shorts.push_back(static_cast<uint32_t>(s.draw(s.boolean() ? 4 : 300))); });
		if (faults && s.chance(1, 3)) p.fail_read = s.draw(total + 2);
		if (faults && s.chance(1, 3)) p.fail_write = s.draw(total + 2);
		return p;
	}
	inline std::string show(const plan& p)
	{
		std::string r = "shorts " + pbt::show(p.shorts);
		if (p.fail_read != UINT64_MAX) r += " fail_read@" + std::to_string(p.fail_read);
		if (p.fail_write != UINT64_MAX) r += " fail_write@" + std::to_string(p.fail_write);
		return r;
	}

	// Sequential stream.
	class pipe : public stdex::stream::basic
	{
	public:
		std::string in; size_t pos = 0; std::string out; plan p; size_t reads = 0, writes = 0, flushes = 0, closes = 0; bool failed_read = false, failed_write = false, saw_eof = false;
		pipe(std::string i = "", plan pl = plan()) : in(std::move(i)), p(std::move(pl)) {}
		size_t read(void* data, size_t length) override
		{
			reads++;
			if (!length) { m_state = state_t::ok; return 0; }
			if (pos >= p.fail_read) { failed_read = true; m_state = state_t::fail; return 0; }
			if (pos >= in.size()) { saw_eof = true; m_state = state_t::eof; return 0; }
			size_t n = p.cap(std::min<size_t>(length, in.size() - pos));
			n = static_cast<size_t>(std::min<uint64_t>(n, p.fail_read - pos));
			memcpy(data, in.data() + pos, n); pos += n;
			m_state = state_t::ok;
			return n;
		}
		// A write that cannot take everything fails, having taken a part.
		size_t write(const void* data, size_t length) override
		{
			writes++;
			size_t n = static_cast<size_t>(std::min<uint64_t>(length, p.fail_write - out.size()));
			out.append(static_cast<const char*>(data), n);
			if (n < length) { failed_write = true; m_state = state_t::fail; } else m_state = state_t::ok;
			return n;
		}
		void flush() override { flushes++; m_state = failed_write ? state_t::fail : state_t::ok; }
		void close() override { closes++; m_state = state_t::ok; }
	};
}
