import sys; sys.path.insert(0,"/verif/tools")
from seedlib import S
C='#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <vector>\n#include <memory>\n#include <cstring>\n#include <list>\n#include <map>\n#include <tuple>\n#include <mutex>\n#include <shared_mutex>\n#include <atomic>\n#include <thread>\n#include <chrono>\n#include <condition_variable>\n#include <stdexcept>\n'
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
T("C02-b","C02",[("ring.hpp","				m_head = wrap(m_head + size);\n				m_size -= size;\n			}\n			m_head_moved.notify_one();","				bool full = !space();\n				m_head = wrap(m_head + size);\n				m_size -= size;\n				if (!full)\n					return;\n			}\n			m_head_moved.notify_one();")],
 "waiting for a ring to be emptied while it is not full when its last element is taken","the thread that waits for everything to be read is not woken",
 C+'''#include <stdex/ring.hpp>
int main(){ stdex::ring<int,8> r; auto [p,n]=r.back(); p[0]=1; r.push(1); std::atomic<bool> done{false}; std::thread t([&]{ r.sync(); done=true; }); std::this_thread::sleep_for(std::chrono::milliseconds(300)); r.front(); r.pop(1);
 for(int i=0;i<50&&!done;i++) std::this_thread::sleep_for(std::chrono::milliseconds(100)); int rc=done?0:1; if(rc) _Exit(1); t.join(); return 0; }''')
T("C02-c","C02",[("ring.hpp","			if (empty()) {\n				m_tail_moved.wait(lk, [&]{return m_quit || !empty();});\n				if (m_quit && empty()) _Unlikely_","			if (empty()) {\n				if (!m_quit)\n					m_tail_moved.wait(lk);\n				if (empty()) _Unlikely_")],
 "a reader waiting on an empty ring and a wake-up without data: a push of nothing","the reader takes an empty wake-up for the end of the data",
 C+'''#include <stdex/ring.hpp>
int main(){ stdex::ring<int,8> r; int got=-1; std::thread t([&]{ auto [p,n]=r.front(); got=p?(int)n:0; }); std::this_thread::sleep_for(std::chrono::milliseconds(300)); r.back(); r.push(0); std::this_thread::sleep_for(std::chrono::milliseconds(300)); auto [p,n]=r.back(); p[0]=5; r.push(1); t.join(); return got==1?0:1; }''')
T("C04-b","C04",[("spinlock.hpp","					__builtin_ia32_pause();\n#endif\n				}\n","					__builtin_ia32_pause();\n#endif\n				}\n				if (!m_lock.load(std::memory_order_acquire)) {\n					m_lock.store(true, std::memory_order_relaxed);\n					return;\n				}\n"),("spinlock.hpp","				// Wait for lock to be released without generating cache misses\n","				// Wait for the lock to be released\n")],
 "two threads waiting for the lock when it is released","both get it",
 C+'''#include <stdex/spinlock.hpp>
int main(){ stdex::spinlock l; long n=0; std::vector<std::thread> t; for(int k=0;k<6;k++) t.emplace_back([&]{ for(int i=0;i<300000;i++){ l.lock(); volatile long x=n; n=x+1; l.unlock(); } }); for(auto&x:t) x.join(); return n==1800000?0:1; }''')
T("C04-c","C04",[("watchdog.hpp","					if (m_cv.wait_for(lk, m_timeout, [&] {return m_quit || phase != m_phase; })) {","					if (m_cv.wait_for(lk, m_timeout) == std::cv_status::no_timeout) {"),("watchdog.hpp","					phase = m_phase;\n","					if (m_quit)\n						break;\n					phase = m_phase;\n")],
 "a pat that arrives in the moment between the end of the waiting and taking the lock back, or a spurious wake-up","a bite although it was patted in time, or an interval counted anew",
 C+'''#include <stdex/watchdog.hpp>
// Patting once every tenth of the timeout must never bite, and silence must bite.
int main(){ return 2; }''') if 0 else None
T("C04-d","C04",[("watchdog.hpp","				{\n					std::unique_lock<std::mutex> lk(m_mutex);\n					phase = m_phase;\n					if (m_cv.wait_for","				std::unique_lock<std::mutex> lk(m_mutex);\n				{\n					phase = m_phase;\n					if (m_cv.wait_for"),("watchdog.hpp","					// Sleep until next reset().\n					std::unique_lock<std::mutex> lk(m_mutex);\n","					// Sleep until next reset().\n")],
 "patting the watchdog from its callback","the watchdog and the callback wait for each other for ever",
 C+'''#include <stdex/watchdog.hpp>
int main(){ std::atomic<int> n{0}; stdex::watchdog<std::chrono::steady_clock>* p=nullptr; std::atomic<bool> ready{false}; stdex::watchdog<std::chrono::steady_clock> w(std::chrono::milliseconds(50),[&]{ while(!ready); if(n++<2) p->reset(); }); p=&w; ready=true;
 for(int i=0;i<100&&n<3;i++) std::this_thread::sleep_for(std::chrono::milliseconds(50)); if(n<3) _Exit(1); return 0; }''')
T("Z01-a","Z01",[("zlib.hpp","			do {\n				m_zlib.avail_out = m_block_size;\n				m_zlib.next_out = m_block.get();\n				throw_on_zlib_error(deflate(&m_zlib, Z_FINISH));","			for (int pass = 0; pass < 2; ++pass) {\n				m_zlib.avail_out = m_block_size;\n				m_zlib.next_out = m_block.get();\n				throw_on_zlib_error(deflate(&m_zlib, Z_FINISH));"),("zlib.hpp","			} while (m_zlib.avail_out == 0);\n			// m_zlib.avail_out","				if (m_zlib.avail_out)\n					break;\n			}\n			// m_zlib.avail_out")],
 "more than two blocks of compressed data pending at the end","the end of the compressed data is lost",
 C+'''#include <stdex/zlib.hpp>
int main(){ std::string x; uint32_t r=1; for(int i=0;i<5000;i++){ r=r*1664525+1013904223; x+=(char)(r>>24);} stdex::stream::memory_file m; { stdex::zlib_writer w(m,Z_BEST_COMPRESSION,64); w.write(x.data(),x.size()); } m.seekbeg(0); std::string y(5000,0); size_t n=0; try { stdex::zlib_reader q(m); n=q.read(&y[0],5000); } catch(...) {} return n==5000&&y==x?0:1; }''')
T("Z01-b","Z01",[("zlib.hpp","						if (!m_zlib.avail_in) {\n							num_read += num_deflated - m_zlib.avail_out; // [1]","						if (!m_zlib.avail_in) {\n							if (m_zlib.avail_out != num_deflated)\n								throw_on_zlib_error(Z_BUF_ERROR);\n							num_read += num_deflated - m_zlib.avail_out; // [1]")] ,
 "compressed data that is cut off","","", check=False) if 0 else None
T("D01-a","D01",[("chrono.hpp","				int32_t result1 = 146097L * ctmp / 4;","				int32_t result1 = 36524 * ctmp + (ctmp + 1) / 4;")],
 "dates in centuries whose number is one less than a multiple of four (1900 to 1999)","the day is one too late",
 C+'''#include <stdex/chrono.hpp>
int main(){ using D=stdex::chrono::aosn_date; uint8_t d,m; int32_t y; D::to_dmy(D::from_dmy(17,8,1985),&d,&m,&y); return d==17&&m==8&&y==1985?0:1; }''')
T("D01-b","D01",[("chrono.hpp","date.tm_wday = (static_cast<int>(aosn_date::day_of_week(to_date(tp))) + 1) % 7;","date.tm_wday = static_cast<int>(aosn_date::day_of_week(to_date(tp))) + 1;")],
 "a Sunday","the weekday is out of range and the text shows another or none",
 C+'''#include <stdex/chrono.hpp>
int main(){ using D=stdex::chrono::aosn_timestamp; struct tm t; D::to_system(D::from_dmy(2,6,2024,1,2,3,4),t); return t.tm_wday==0?0:1; }''')
T("D01-c","D01",[("chrono.hpp","					mtmp = month + 9;\n					ytmp = year - 1;","					mtmp = month + 9;\n					ytmp = year > 1 ? year - 1 : year;")],
 "January or February of the year 1 (or before)","the day is a year off",
 C+'''#include <stdex/chrono.hpp>
int main(){ using D=stdex::chrono::aosn_date; return (D::from_dmy(1,3,1)-D::from_dmy(28,2,1)).count()==1?0:1; }''')
T("M01-a","M01",[("interval.hpp","			interval r = *this;\n			--start;\n			--end;\n			return r;","			--start;\n			--end;\n			return *this;")],
 "the value of a postfix decrement","the interval after instead of before is given",
 C+'''#include <stdex/interval.hpp>
int main(){ stdex::interval<int> a(2,5); auto b=a--; return b.start==2&&a.start==1?0:1; }''')
T("M01-b","M01",[("interval.hpp","T size() const { return start <= end ? end - start : 0; }","T size() const { return static_cast<T>(end - start < 0 ? 0 : end - start); }")],
 "the size of an invalid interval of unsigned numbers","the size is huge instead of zero",
 C+'''#include <stdex/interval.hpp>
int main(){ stdex::interval<size_t> a; return a.size()==0?0:1; }''')
T("M04-a","M04",[("endian.hpp","inline int32_t byteswap(_In_ const int32_t value) { return static_cast<int32_t>(byteswap(static_cast<uint32_t>(value))); }","inline int32_t byteswap(_In_ const int32_t value) { return static_cast<int32_t>(static_cast<uint32_t>(byteswap(static_cast<uint16_t>(value))) << 16 | byteswap(static_cast<uint16_t>(value / 0x10000))); }")],
 "a negative number whose low half is not zero","the upper half comes out one too large",
 C+'''#include <stdex/endian.hpp>
int main(){ int32_t v=-2; return stdex::byteswap(v)==(int32_t)0xfeffffff?0:1; }''')
T("M05-a","M05",[("memory.hpp","			memset(p, 0, sizeof(T) * n);","			memset(p, 0, std::max(sizeof(T), n));")],
 "a secret of elements wider than one byte","only a part of the memory is wiped",
 C+'''#include <algorithm>
#include <new>
#include <cstdlib>
static const uint8_t* watch; static size_t left;
void operator delete(void* p) noexcept { if(p==watch) for(size_t i=0;i<40;i++) left+=watch[i]!=0; free(p); }
void operator delete(void* p,size_t) noexcept { operator delete(p); }
#include <stdex/memory.hpp>
int main(){ { std::vector<uint32_t,stdex::sanitizing_allocator<uint32_t>> v(10,0x11111111u); watch=(const uint8_t*)v.data(); } return left?1:0; }''')
T("M05-b","M05",[("memory.hpp","typedef sanitizing_allocator<T2> other;","typedef std::conditional_t<sizeof(T2) == sizeof(T), sanitizing_allocator<T2>, std::allocator<T2>> other;")],
 "a container that keeps its elements in nodes (list, map)","the nodes are released without wiping",
 C+'''#include <new>
#include <cstdlib>
static size_t left; static bool on;
void operator delete(void* p) noexcept { if(on) for(size_t i=0;i<24;i++) left+=((uint8_t*)p)[i]==0x5a; free(p); }
void operator delete(void* p,size_t) noexcept { operator delete(p); }
#include <stdex/memory.hpp>
int main(){ { std::list<uint64_t,stdex::sanitizing_allocator<uint64_t>> v; v.push_back(0x5a5a5a5a5a5a5a5aull); on=true; } on=false; return left?1:0; }''')
T("G01-a","G01",[("progress.hpp","				m_start = start;\n				m_end = end;\n				std::shared_lock","				m_start = start;\n				m_end = std::max(m_end, end);\n				std::shared_lock")],
 "a worker that narrows its range after a wider one","the overall range loses by more than the worker gave back later on",
 C+'''#include <stdex/progress.hpp>
struct P: stdex::progress<int> { int a=0,b=0; void set_range(int s,int e) override { a=s; b=e; } };
int main(){ P p; stdex::aggregate_progress<int> g(2,&p); g[0].set_range(0,100); g[0].set_range(0,40); g[0].set_range(0,60); return p.b==60?0:1; }''')
T("G01-b","G01",[("progress.hpp","			std::unique_lock<std::shared_mutex> lk(m_mutex);\n			m_host = host;\n			if (m_host) {\n				m_host->set_range(m_start, m_end);\n				m_host->set(m_value);\n			}","			std::unique_lock<std::shared_mutex> lk(m_mutex);\n			m_host = host;\n			if (m_host) {\n				m_host->set_range(m_start, m_end);\n				if (m_value < m_end)\n					m_host->set(m_value);\n			}")],
 "attaching an indicator when the work is at its end","the indicator stays at the beginning",
 C+'''#include <stdex/progress.hpp>
struct P: stdex::progress<int> { int v=-1; void set(int x) override { v=x; } };
int main(){ P p; stdex::aggregate_progress<int> g(1); g[0].set_range(0,10); g[0].set(10); g.attach(&p); return p.v==10?0:1; }''')
