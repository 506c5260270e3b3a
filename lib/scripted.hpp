// A file that tells what was asked of it and answers by a script.
#pragma once
#include "fileops.hpp"
struct scripted : stdex::stream::basic_file
{
	using st_t = stdex::stream::state_t; using time_point = stdex::stream::time_point;
	std::string log, fill; size_t amount = 0; st_t answer = st_t::ok; uint64_t position = 0, length = 0; time_point t[3] = {};
	void done(const std::string& what) { log += what + ";"; m_state = answer; }
	size_t read(void* d, size_t n) override { done("read " + std::to_string(n)); n = std::min(n, amount); for (size_t i = 0; i < n; i++) static_cast<char*>(d)[i] = i < fill.size() ? fill[i] : '.'; return n; }
	size_t write(const void* d, size_t n) override { done("write " + std::string(static_cast<const char*>(d), n)); return std::min(n, amount); }
	void flush() override { done("flush"); }
	void close() override { done("close"); }
	uint64_t seek(stdex::stream::foff_t o, stdex::stream::seek_t how) override { done("seek " + std::to_string(o) + " by " + std::to_string(static_cast<int>(how))); return position; }
	uint64_t tell() const override { return position; }
	uint64_t size() const override { return length; }
	void lock(uint64_t o, uint64_t n) override { done("lock " + std::to_string(o) + "+" + std::to_string(n)); }
	void unlock(uint64_t o, uint64_t n) override { done("unlock " + std::to_string(o) + "+" + std::to_string(n)); }
	void truncate() override { done("truncate"); }
	time_point ctime() const override { return t[0]; }
	time_point atime() const override { return t[1]; }
	time_point mtime() const override { return t[2]; }
	void set_ctime(time_point x) override { t[0] = x; log += "ctime;"; }
	void set_atime(time_point x) override { t[1] = x; log += "atime;"; }
	void set_mtime(time_point x) override { t[2] = x; log += "mtime;"; }
};
