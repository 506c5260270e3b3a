import sys; sys.path.insert(0,"/verif/tools"); sys.path.insert(0,"/verif/tools/seeds")
from seedlib import S
src=open("/verif/tools/seeds/b4.py").read().split("only=sys.argv")[0]; exec(src)
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
ST=C+'#include <stdex/stream.hpp>\n'
T("T01-a","T01",[("unicode.hpp","			count_src = strnlen<T_from>(src, count_src);\n			if (!count_src) _Unlikely_","			if (count_src == SIZE_MAX)\n				count_src = strnlen<T_from>(src, count_src);\n			if (!count_src) _Unlikely_")],
 "a counted text that ends with a zero before its count does","characters behind the end are converted, too",
 C+'''#include <stdex/unicode.hpp>
int main(){ stdex::charset_encoder<char,wchar_t> e(stdex::charset_id::utf8,stdex::wchar_t_charset); return e.convert("ab\\0cd",5)==L"ab"?0:1; }''')
T("T01-b","T01",[("unicode.hpp","			_In_reads_or_z_opt_(count_src) const T_from* src, _In_ size_t count_src)\n		{\n			dst.clear();\n			strcat(dst, src, count_src);","			_In_reads_or_z_opt_(count_src) const T_from* src, _In_ size_t count_src)\n		{\n			if (count_src) {\n				dst.clear();\n				strcat(dst, src, count_src);\n			}")],
 "an empty text copied over a text","the text from before stays",
 C+'''#include <stdex/unicode.hpp>
int main(){ stdex::charset_encoder<char,wchar_t> e(stdex::charset_id::utf8,stdex::wchar_t_charset); std::wstring d=L"old"; e.strcpy(d,"",0); return d.empty()?0:1; }''')
T("H01-b","H01",[("hash.hpp","		virtual void clear()\n		{\n			block_hash::clear();\n			m_state[0] = 0x67452301;\n			m_state[1] = 0xefcdab89;\n			m_state[2] = 0x98badcfe;\n			m_state[3] = 0x10325476;\n		}\n","		virtual void clear()\n		{\n			if (!(m_counter[0] & 0x1ff))\n				block_hash::clear();\n			m_counter[0] &= 0x1f8;\n			m_counter[1] = 0;\n			m_state[0] = 0x67452301;\n			m_state[1] = 0xefcdab89;\n			m_state[2] = 0x98badcfe;\n			m_state[3] = 0x10325476;\n		}\n")] if 0 else [("hash.hpp","			if ((m_counter[0] += (static_cast<uint32_t>(length) << 3)) < (static_cast<uint32_t>(length) << 3))\n				m_counter[1]++;","			m_counter[0] += static_cast<uint32_t>(length) << 3;\n			if (m_counter[0] < (static_cast<uint32_t>(length) & 0x1fffffff))\n				m_counter[1]++;")],
 "more than half a gigabyte hashed","the length in the last block is wrong: another digest",
 C+'''#include <stdex/hash.hpp>
int main(){ std::string b(1u<<20,'x'); b.resize(b.size()); stdex::md5_hash a; for(int i=0;i<511;i++) a.hash(b.data(),b.size()); a.hash(b.data(),(1u<<20)-8); std::string t(24,'x'); a.hash(t.data(),24); a.finalize(); stdex::md5_hash c; for(int i=0;i<512;i++) c.hash(b.data(),b.size()); for(int i=0;i<16;i++) c.hash(t.data(),1); c.finalize(); static const uint8_t want[16]={0}; stdex::md5_t x=a, y=c; return x==y?0:1; }''')
T("H02-b","H02",[("hex.hpp","				if (num >= 2) {\n					// Buffer full.\n					out.push_back(buf);\n					num = 0;\n					is_last = true;","				if (num >= 2) {\n					// Buffer full.\n					out.push_back(buf);\n					num = i < size ? 0 : num & 1;\n					is_last = true;")] if 0 else [("hex.hpp","		void clear() noexcept\n		{\n			num = 0;\n		}","		void clear() noexcept\n		{\n			buf = 0;\n		}")],
 "a decoder cleared after an odd number of digits and used again","every later digit is paired with the wrong one",
 C+'''#include <stdex/hex.hpp>
int main(){ stdex::hex_dec d; std::vector<uint8_t> o; bool l; d.decode(o,l,"414",3); d.clear(); o.clear(); d.decode(o,l,"4142",4); return o==std::vector<uint8_t>{0x41,0x42}?0:1; }''')
T("H03-b","H03",[("base64.hpp","				decode();\n				if (m_temp_len < 3 && to_read >= 3) {","				decode();\n				if (m_temp_len < 3 && to_read > 3) {")],
 "padded text read with exactly three bytes wanted at its end","the end is not told to the reader, which reads on into what follows the text",
 ST+'''#include <stdex/base64.hpp>
int main(){ stdex::stream::memory_file f; f.write("QUI=QUJD",8); f.seekbeg(0); stdex::base64_reader r(f); char b[8]={}; size_t n=r.read(b,3); return n==2&&!memcmp(b,"AB",2)?0:1; }''')
T("U01-b","U01",[("uuid.hpp","		if (i >= count || str[i] != '}') return false;\n		++i;\n		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);\n		return i >= count || !str[i];","		if (i >= count || str[i] != '}') return false;\n		++i;\n		return i >= count || !str[i] || stdex::isspace(str[i]);")],
 "a UUID followed by a space and something else","text that is not a UUID is taken for one",
 C+'''#include <stdex/uuid.hpp>
int main(){ uuid_t u; const char t[]="{12345678-1234-1234-1234-123456789abc} x"; return stdex::strtouuid(t,sizeof(t)-1,u)?1:0; }''')
T("C03-b","C03",[("pool.hpp","				while (!ne.second.list.empty())\n					ne.second.list.pop_front();","				if (ne.second.list.empty())\n					break;\n				ne.second.list.clear();")],
 "clearing a pool with objects in a later node when an earlier one is empty","objects stay in the pool",
 C+'''#include <stdex/pool.hpp>
int main(){ stdex::pool<std::shared_ptr<int>> p; auto a=std::make_shared<int>(1); std::weak_ptr<int> w=a; p.push(std::shared_ptr<int>(),0); p.pop(0); p.push(std::move(a),1); p.clear(); return w.expired()?0:1; }''',libs="-lnuma")
T("C03-c","C03",[("pool.hpp","			const std::lock_guard<std::mutex> guard(m_mutex);\n			return m_available[numa];","			if (auto el = m_available.find(numa); el != m_available.end())\n				return el->second;\n			const std::lock_guard<std::mutex> guard(m_mutex);\n			return m_available.try_emplace(numa).first->second;")],
 "one thread looking for its node while another adds a node","the map is read while it is changed",
 C+'''#include <stdex/pool.hpp>
int main(){ for(int r=0;r<200;r++){ stdex::pool<std::unique_ptr<int>> p; std::atomic<bool> go{false}; auto f=[&](int o){ while(!go); for(int i=0;i<64;i++) p.push(std::make_unique<int>(i),i*2+o); }; std::thread a(f,0),b(f,1); go=true; a.join(); b.join(); } return 0; }''',flags="-fsanitize=thread",libs="-lnuma")
T("C01-b","C01",[("vector_queue.hpp","		size_type push_front(_Inout_ value_type&&v)\n		{\n			m_head = abs(m_size_max - 1);\n			if (m_count < m_size_max)\n				m_count++;","		size_type push_front(_Inout_ value_type&&v)\n		{\n			m_head = abs(m_size_max - 1);\n			if (m_count + 1 < m_size_max)\n				m_count++;")],
 "a moved value put in front of a queue with one place left","the last value is lost",
 C+'''#include <stdex/vector_queue.hpp>
int main(){ stdex::vector_queue<int> q(3); q.push_front(1); q.push_front(2); q.push_front(3); return q.size()==3&&q.back()==1?0:1; }''')
T("C02-f","C02",[("ring.hpp","			m_head_moved.wait(lk, [&]{return m_quit || empty();});","			m_head_moved.wait(lk, [&]{return empty();});")],
 "a ring quit while someone waits for it to run empty","the waiting one waits for ever",
 C+'''#include <condition_variable>
#include <stdex/ring.hpp>
int main(){ std::thread([]{ std::this_thread::sleep_for(std::chrono::seconds(10)); _Exit(1); }).detach(); stdex::ring<int,8> r; auto [p,n]=r.back(); p[0]=1; r.push(1); std::thread t([&]{ std::this_thread::sleep_for(std::chrono::milliseconds(100)); r.quit(); }); r.sync(); t.join(); _Exit(0); }''')
T("L01-b","L01",[("langid.hpp","					if (a_punct && b_punct) continue;","					if (a_punct && b_punct && (a == b || i < 3)) continue;")],
 "a language name whose second separator is written another way","the language is not found",
 C+'''#include <stdex/langid.hpp>
int main(){ return stdex::langid_from_rfc1766("ff-Latn-SN")==stdex::langid_from_rfc1766("ff_Latn_SN")?0:1; }''')
T("S09-d","S09",[("system.hpp","				if (m_h != TR::invalid_handle)\n					TR::close(m_h);\n				m_h = other.m_h;\n				other.m_h = TR::invalid_handle;","				m_h = other.m_h;\n				other.m_h = TR::invalid_handle;")],
 "an owner of a handle that is assigned another one","the handle it owned is never closed",
 C+'''#include <stdex/system.hpp>
#include <fcntl.h>
int main(){ int a=dup(2),b=dup(2); stdex::sys_object x(a),y(b); x=std::move(y); return fcntl(a,F_GETFD)<0&&fcntl(b,F_GETFD)>=0?0:1; }''')
T("S09-e","S09",[("system.hpp","		virtual void close()\n		{\n			if (m_h != TR::invalid_handle) {\n				TR::close(m_h);\n				m_h = TR::invalid_handle;\n			}","		virtual void close()\n		{\n			if (m_h != TR::invalid_handle)\n				TR::close(m_h);")] if 0 else [("system.hpp","		basic_sys_object(_Inout_ basic_sys_object<T, TR>&& other) noexcept : m_h(other.m_h)\n		{\n			other.m_h = TR::invalid_handle;\n		}","		basic_sys_object(_Inout_ basic_sys_object<T, TR>&& other) noexcept : m_h(other.m_h)\n		{\n			if (m_h)\n				other.m_h = TR::invalid_handle;\n		}")],
 "an owner of handle 0 that is moved from","two owners of one handle",
 C+'''#include <stdex/system.hpp>
int main(){ stdex::sys_object x(0); stdex::sys_object y(std::move(x)); bool bad=x; y.close(); return bad; }''')
M=C+'#include <stdex/memory.hpp>\n'
T("R01-a","R01",[("memory.hpp","		ref_unique_ptr(_Inout_ ref_unique_ptr<T[], D> &&other) :\n			m_own(other.m_own),\n			m_ptr(other.m_ptr)\n		{\n			other.m_ptr = nullptr;\n		}","		ref_unique_ptr(_Inout_ ref_unique_ptr<T[], D> &&other) :\n			m_own(other.m_own),\n			m_ptr(other.m_ptr)\n		{}")],
 "a helper lending an array that is moved","the array is given back twice: freed while owned",
 M+'''static int freed; struct del { void operator()(int* p) const { freed++; delete [] p; } };
int main(){ { std::unique_ptr<int[],del> o(new int[2]); { auto h=stdex::get_ptr(o); auto k=std::move(h); } if (freed) _Exit(1); } return freed==1?0:1; }''')
T("R01-b","R01",[("scoped_executor.hpp","			std::forward<F_done&&>(m_done)();","			if (!std::uncaught_exceptions())\n				std::forward<F_done&&>(m_done)();"),("scoped_executor.hpp",'#include "compat.hpp"\n','#include "compat.hpp"\n#include <exception>\n')],
 "a scope left by an exception","the action at the end of the scope is skipped",
 C+'''#include <stdex/scoped_executor.hpp>
int main(){ int n=0; auto a=[&]{}; auto z=[&]{n++;}; try { stdex::scoped_executor<decltype(a)&,decltype(z)&> x(a,z); throw 1; } catch(int){} return n==1?0:1; }''')
T("R01-c","R01",[("memory.hpp","		~ref_unique_ptr()\n		{\n			if (m_ptr != nullptr)\n				m_own.reset(m_ptr);\n		}\n\n		///\n		/// Operator for pointer-to-pointer parameters by value use-cases.\n		///\n		/// \\return Pointer to the pointer\n		///\n		operator T**()\n		{","		~ref_unique_ptr()\n		{\n			if (m_ptr != nullptr)\n				m_own = std::unique_ptr<T, D>(m_ptr);\n		}\n\n		///\n		/// Operator for pointer-to-pointer parameters by value use-cases.\n		///\n		/// \\return Pointer to the pointer\n		///\n		operator T**()\n		{")],
 "an owner whose deleter has a state of its own","the deleter is replaced by a new one",
 M+'''struct del { int tag=0; void operator()(int* p) const { delete p; } };
int main(){ std::unique_ptr<int,del> o(new int(1),del{7}); { auto h=stdex::get_ptr(o); } return o.get_deleter().tag==7?0:1; }''')
T("R02-a","R02",[("sys_info.hpp","			// TODO: Set admin.\n			elevated = geteuid() == 0;","			// TODO: Set admin.\n			elevated = getuid() == 0;")],
 "a process whose effective user is not the one that started it","the process takes itself for elevated",
 C+'''#include <stdex/sys_info.hpp>
int main(){ if (geteuid()) return 0; if (seteuid(65534)) return 0; stdex::sys_info_t i; return i.elevated?1:0; }''')
T("R02-b","R02",[("sys_info.hpp","				return stricmp(a, b) < 0;","				return strncasecmp(a, b, 7) < 0;")],
 "a machine whose name begins like a known one, such as aarch64_be","a different platform is reported",
 C+'''#include <stdex/sys_info.hpp>
int main(){ return stdex::platform_from_name("aarch64_be")==stdex::platform_id::unknown&&stdex::platform_from_name("AArch64")==stdex::platform_id::aarch64?0:1; }''')
