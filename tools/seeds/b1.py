import sys; sys.path.insert(0,"/verif/tools")
from seedlib import S
C='#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <vector>\n#include <memory>\n#include <cstring>\n'
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
T("H01-a","H01",[("hash.hpp","i + 64 <= length; i += 64","i + 64 < length; i += 64")],
  "a block of data that ends exactly at a 64-byte boundary and contains at least one whole 64-byte group after the first","the last 64 bytes of such a block stay in the queue and are overwritten, giving a wrong digest",
  C+'''#include <stdex/hash.hpp>
int main(){ std::string s(192,'q'); stdex::sha1_hash a,b; a.clear(); b.clear(); a.hash(s.data(),192); a.finalize(); for(char c:s) b.hash(&c,1); b.finalize();
 stdex::sha1_t x=a,y=b; return memcmp(&x,&y,sizeof x)?1:0; }''')
T("H02-a","H02",[("hex.hpp","				} else\n					is_last = false;","				} else if (num)\n					is_last = false;")],
  "a block in which the digit completing a byte is followed by a non-digit character","decoding reports the block as complete although it does not end with the completing digit",
  C+'''#include <stdex/hex.hpp>
int main(){ stdex::hex_dec d; std::vector<uint8_t> o; bool l=false; d.decode(o,l,"AB  ",4); if(l) return 1; d.decode(o,l,"cD",2); return l&&o.size()==2&&o[1]==0xcd?0:1; }''')
T("H03-a","H03",[("base64.hpp","return ((m_num + size + 2)/3)*4;","return ((size + 2)/3)*4;")],
  "asking for the maximum encoded size while one or two bytes of an earlier block are pending","the announced maximum is less than what encoding the next block produces",
  C+'''#include <stdex/base64.hpp>
int main(){ stdex::base64_enc e; std::string o; e.encode(o,"ab",2,false); size_t n=o.size(), m=e.enc_size(2); e.encode(o,"cd",2,true); return o.size()-n<=m?0:1; }''')
T("C01-a","C01",[("vector_queue.hpp","				for (size_type i = 0; i < m_count; i++) {\n					size_type i_l = abs(i);\n					m_data[i_l] =  other.m_data[i_l];\n				}\n			}\n\n			return *this;","				for (size_type i = 0; i < m_count; i++)\n					m_data[i] = other.m_data[i];\n			}\n\n			return *this;")],
  "copy assignment of a queue whose elements do not start at the beginning of its storage","the copied queue lacks elements beyond the count position of the storage",
  C+'''#include <stdexcept>
#include <stdex/vector_queue.hpp>
int main(){ stdex::vector_queue<std::string> q(4), r(2); for(int i=0;i<3;i++) q.push_back(std::to_string(i)); q.pop_front(); q.pop_front(); q.push_back("x"); q.push_back("y"); r=q;
 for(size_t i=0;i<q.size();i++) if(q[i]!=r[i]) return 1; return 0; }''')
T("C02-a","C02",[("ring.hpp","return { &m_data[m_head], m_head < tail ? m_size : N_cap - m_head };","return { &m_data[m_head], m_head <= tail ? m_size : N_cap - m_head };")],
  "a full ring whose head is not at the beginning of the storage","the reader is offered data beyond the end of the storage",
  C+'''#include <mutex>
#include <tuple>
#include <condition_variable>
#include <stdex/ring.hpp>
int main(){ stdex::ring<int,8> r; auto put=[&](int n){ while(n){ auto [p,c]=r.back(); int m=n<(int)c?n:(int)c; for(int i=0;i<m;i++) p[i]=i; r.push(m); n-=m; } };
 put(3); r.front(); r.pop(3); put(8); auto [p,c]=r.front(); return c<=5?0:1; }''')
T("C02-b","C02",[("ring.hpp","				if (m_quit && empty()) _Unlikely_","				if (m_quit) _Unlikely_")],
  "a reader waiting on an empty ring, when data is pushed and the ring ended before the reader gets to run","the reader sees the end without getting the data that was stored",
  C+'''#include <mutex>
#include <tuple>
#include <condition_variable>
#include <thread>
#include <atomic>
#include <stdex/ring.hpp>
int main(){ for(int k=0;k<20000;k++){ stdex::ring<int,8> r; std::atomic<bool> go{false}; size_t got=0; std::thread t([&]{ go=true; for(;;){ auto [p,c]=r.front(); if(!p) break; got+=c; r.pop(c);} });
  while(!go); for(volatile int i=0;i<(k%64)*20;i++); auto [p,c]=r.back(); p[0]=1; r.push(1); r.quit(); t.join(); if(got!=1) return 1; } return 0; }''')
T("C03-a","C03",[("pool.hpp","			const std::lock_guard<spinlock> guard(ne.lock);\n			ne.list.push_front(std::move(r));","			std::list<T> item;\n			item.push_front(std::move(r));\n			{\n				const std::lock_guard<spinlock> guard(ne.lock);\n				item.splice(item.end(), ne.list);\n			}\n			const std::lock_guard<spinlock> guard(ne.lock);\n			ne.list.swap(item);")],
  "two threads returning (or returning and taking) objects at the same time","objects returned concurrently get lost or are not available, being swapped out of the list",
  C+'''#include <list>
#include <map>
#include <mutex>
#include <thread>
#include <stdex/pool.hpp>
int main(){ stdex::pool<int*> p; static int v[4000]; std::thread t[4]; for(int k=0;k<4;k++) t[k]=std::thread([&,k]{ for(int i=0;i<1000;i++) p.push(&v[k*1000+i],0); }); for(auto& x:t) x.join();
 int n=0; while(p.pop(0)) n++; return n==4000?0:1; }''')
T("C04-a","C04",[("watchdog.hpp","					m_cv.wait(lk, [&] {return m_quit || phase != m_phase; });","					phase = m_phase;\n					m_cv.wait(lk, [&] {return m_quit || phase != m_phase; });")],
  "a pat arriving while the callback is running, and silence afterwards","the watchdog does not notice the pat and never bites for the silence that follows",
  C+'''#include <functional>
#include <mutex>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <chrono>
#include <stdex/watchdog.hpp>
using namespace std::chrono_literals;
int main(){ std::atomic<int> n{0}; stdex::watchdog<std::chrono::steady_clock,std::chrono::milliseconds>* w=nullptr; std::atomic<bool> rdy{false};
 auto cb=[&]{ while(!rdy); if(n++==0) w->reset(); }; w=new stdex::watchdog<std::chrono::steady_clock,std::chrono::milliseconds>(50ms,cb); rdy=true;
 std::this_thread::sleep_for(2s); int r=n; delete w; return r==2?0:1; }''')
T("M02-a","M02",[("mapping.hpp","				const auto& el = mapping[m = l - 1];\n				return el.from + (to - el.to);","				const auto& el = mapping[m = r - 1];\n				return el.from + (to - el.to);"),
  ("mapping.hpp","				if (mapping.size() - 1 <= m || to < mapping[m + 1].to)\n					return el.from + (to - el.to);\n				l = m + 1;","				if (mapping.size() - 1 <= m || to <= mapping[m + 1].to)\n					return el.from + (to - el.to);\n				l = m + 1;")],
  "a hint pointing at the correspondence just before one located exactly at the looked-up position","the position exactly at a correspondence is translated by the preceding one",
  C+'''#include <algorithm>
#include <stdex/mapping.hpp>
int main(){ stdex::mapping_vector<size_t> m={{2,1},{10,3},{12,9}}; size_t h=0; return stdex::dst2src(m,(size_t)3,h)==10?0:1; }''')
T("M03-a","M03",[("math.hpp","		return static_cast<int64_t>(static_cast<__int128>(n) * k / q);","		return static_cast<int64_t>(static_cast<__int128>(n / q) * k + static_cast<__int128>(n % q) * k / q);\n"[:-1])],
  "none is wrong unless signs differ: quotient and remainder parts rounded separately","the equivalent-looking split is exact; kept only if it differs",
  C+'''#include <stdex/math.hpp>
int main(){ return 0; }''') if 0 else None
T("M03-b","M03",[("math.hpp","		return static_cast<uint32_t>(static_cast<uint64_t>(n) * k / q);","		return n <= UINT16_MAX || k <= UINT16_MAX ? n * k / q : static_cast<uint32_t>(static_cast<uint64_t>(n) * k / q);")],
  "one small operand and a large other one, so that the product needs more than 32 bits","the product wraps around before the division",
  C+'''#include <climits>
#include <stdexcept>
#include <stdex/math.hpp>
int main(){ return stdex::muldiv((uint32_t)60000,(uint32_t)100000,(uint32_t)100000)==60000?0:1; }''')
T("D01-a","D01",[("chrono.hpp","				date.tm_yday = static_cast<int>((to_date(tp) - aosn_date::from_dmy(1, 1, year)).count());","				static const int month_start[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };\n				date.tm_yday = month_start[month - 1] + day - 1 + (month > 2 && year % 4 == 0 && (year % 100 != 0 || year % 1000 == 0) ? 1 : 0);")],
  "a date after February of a year divisible by 400 but not by 1000","the day of the year is off by one",
  C+'''#include <chrono>
#include <ctime>
#include <stdex/chrono.hpp>
int main(){ for(int y: {1600,1900,2000,2024,2400}){ tm d; stdex::chrono::aosn_timestamp::to_system(stdex::chrono::aosn_timestamp::from_dmy(31,12,y,0,0,0,0),d); bool leap=y%4==0&&(y%100||y%400==0); if(d.tm_yday!=364+leap) return 1; } return 0; }''')
T("U01-a","U01",[("uuid.hpp","		if (n > 0xffffffffffff) return false;","		if (n > 0xfffffffffffff) return false;")],
  "a last group one digit too long with a non-zero leading digit","text with a group too large for its field is accepted, its excess digit lost",
  C+'''#include <uuid/uuid.h>
#include <stdex/uuid.hpp>
int main(){ uuid_t u; const char* s="{00000000-0000-0000-0000-1000000000000}"; return stdex::strtouuid(s,strlen(s),u)?1:0; }''')
T("L01-a","L01",[("langid.hpp",'{0x7c86, "quc-Latn-GT"},','{0x7c86, "quc-Latn-GA"},')],
  "asking for the tag of that one identifier","the identifier gives a tag which does not lead back to it or its preferred equivalent",
  C+'''#include <stdex/langid.hpp>
int main(){ const char* t=stdex::rfc1766_from_langid(0x7c86); return stdex::langid_from_rfc1766(t)==stdex::langid_from_rfc1766("quc-Latn-GT")?0:1; }''')
T("Z01-a","Z01",[("zlib.hpp","				} while (m_zlib.avail_out == 0);\n				num_written += num_inflated;","				} while (m_zlib.avail_in);\n				num_written += num_inflated;"),("zlib.hpp","			} while (m_zlib.avail_out == 0);\n			// m_zlib","			} while (m_zlib.avail_out == 0 && m_zlib.avail_in);\n			// m_zlib")],
  "data whose compressed remainder at the end does not fit in one block","the end of the compressed data is lost",
  C+'''#include <stdex/zlib.hpp>
int main(){ std::vector<unsigned char> v(3000); unsigned x=1; for(auto& c:v) c=(x=x*1103515245+12345)>>16; stdex::stream::memory_file f; { stdex::zlib_writer w(f,9,64); w.write(v.data(),v.size()); } f.seekbeg(0); std::vector<unsigned char> r(4000);
 stdex::zlib_reader rd(f); size_t n=0,k; while((k=rd.read(r.data()+n,r.size()-n))) n+=k; return n==3000&&!memcmp(r.data(),v.data(),3000)?0:1; }''')
