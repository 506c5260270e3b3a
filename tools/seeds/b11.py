import sys; sys.path.insert(0,"/verif/tools"); sys.path.insert(0,"/verif/tools/seeds")
from seedlib import S
src=open("/verif/tools/seeds/b4.py").read().split("only=sys.argv")[0]; exec(src)
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
ST=C+'#include <stdex/stream.hpp>\nusing namespace stdex::stream;\n'
T("S02-c","S02",[("stream.hpp","				memcpy(p + sizeof(uint32_t), data, size_chars);\n				m_offset = end_offset;\n				if (m_offset > m_size)\n					m_size = m_offset;","				memcpy(p + sizeof(uint32_t), data, size_chars);\n				m_size = m_offset = end_offset;")],
 "a zero-terminated string written over the beginning or the middle of a memory file","what follows the string is lost",
 ST+'''int main(){ memory_file m; m.write_byte('x',100); m.seekbeg(4); m.write_str("abc"); return m.size()==100?0:1; }''')
T("H01-c","H01",[("hash.hpp","			size_t num_written = stdex::stream::converter::write(data, length);\n			m_hash.hash(data, num_written);","			size_t num_written = stdex::stream::converter::write(data, length);\n			if (ok()) m_hash.hash(data, num_written);")],
 "a write that fails after a part of the data was taken","that part is not included in the hash",
 C+'''#include <stdex/hash.hpp>
using namespace stdex::stream;
struct part: stdex::stream::basic { size_t write(const void*,size_t n) override { m_state=state_t::fail; return n>6?6:n; } };
int main(){ stdex::crc32_hash a,b; part s; stdex::stream_hasher<stdex::crc32_t> h(a,s); h.write("xxxxxxxxx",9); b.hash("xxxxxx",6); a.finalize(); b.finalize(); return (uint32_t)a==(uint32_t)b?0:1; }''')
T("C01-c","C01",[("vector_queue.hpp","				size_type pos = m_head;\n				m_data[pos] = std::move(v);\n				m_head = abs(1);\n				return pos;","				m_data[m_head] = std::move(v);\n				m_head = abs(1);\n				return m_head ? m_head - 1 : m_count;")],
 "a value moved into the last place of a full queue","another position than that of the value is returned",
 C+'''#include <stdexcept>
#include <stdex/vector_queue.hpp>
int main(){ stdex::vector_queue<int> q(3); for(int i=0;i<5;i++) q.push_back(int(i)); size_t p=q.push_back(5); return p==2?0:1; }''')
T("S07-c","S07",[("stream.hpp","					if (stream.m_state == state_t::eof) {\n						// EOF is not an error.\n						m_state = state_t::ok;\n						break;\n					}\n					m_state = stream.m_state;","					if (stream.m_state == state_t::eof || !num_read) {\n						// EOF is not an error.\n						m_state = state_t::ok;\n						break;\n					}\n					m_state = stream.m_state;")],
 "a source that fails with nothing read","the copy is reported as complete",
 ST+'''struct bad: stdex::stream::basic { int k=0; size_t read(void*p,size_t n) override { if(k++) { m_state=state_t::fail; return 0; } memset(p,'x',n>6?6:n); m_state=state_t::ok; return n>6?6:n; } };
int main(){ char b[40]; memory_file d((void*)b,(size_t)0,(size_t)40,false); bad s; stdex::stream::basic&o=d; o.write_stream(s); return o.ok()?1:0; }''')
T("C01-d","C01",[("vector_queue.hpp","				size_type i_l = abs(i);\n				m_data[i_l] =  other.m_data[i_l];","				m_data[i] =  other.m_data[i];")],
 "copying a queue whose elements do not begin at the start of its storage","the copy lacks some of the elements",
 C+'''#include <stdexcept>
#include <stdex/vector_queue.hpp>
int main(){ stdex::vector_queue<int> q(4); for(int i=0;i<3;i++) q.push_back(i); q.pop_front(); q.pop_front(); q.push_back(7); stdex::vector_queue<int> c(q); return c.size()==2&&c[0]==2&&c[1]==7?0:1; }''')
T("S06-d","S06",[("stream.hpp","					memcpy(data, ptr, num_read);\n					m_ring.pop(num_read);\n					to_read -= num_read;","					m_ring.pop(num_read);\n					memcpy(data, ptr, num_read);\n					to_read -= num_read;")],
 "the worker reading ahead while the data before it is being handed over","data read later shows in place of data read before",
 C+'#include <stdex/stream.hpp>\nusing namespace stdex::stream;\n'+'''struct numbers: stdex::stream::basic { uint64_t k=0; size_t read(void*p,size_t n) override { memset(p,(int)(k++),n); m_state=k>60?state_t::fail:state_t::ok; return n; } };
int main(){ for(int t=0;t<5;t++){ numbers s; std::unique_ptr<async_reader<(1<<24)>> r(new async_reader<(1<<24)>(s)); std::vector<uint8_t> b(1<<24); for(int i=0;i<6;i++){ std::this_thread::sleep_for(std::chrono::milliseconds(20)); size_t n=r->read(b.data(),b.size()); if(n!=b.size()) return 2; for(size_t j=1;j<n;j++) if((uint8_t)(b[j]-b[j-1])>1) return 1; } } return 0; }''',"-pthread")
T("S10-a","S10",[("stream.hpp","				memcpy(p + sizeof(uint32_t), data.data(), size_chars);\n				m_offset = end_offset;\n				if (m_offset > m_size)\n					m_size = m_offset;\n#if !CHECK_STREAM_STATE\n				m_state = state_t::ok;\n#endif\n","				memcpy(p + sizeof(uint32_t), data.data(), size_chars);\n				m_offset = end_offset;\n				if (m_offset > m_size)\n					m_size = m_offset;\n")],
 "a text written after an operation that did not succeed","success is reported as the failure before",
 '#define CHECK_STREAM_STATE 0\n'+C+'#include <stdex/stream.hpp>\n'+'''int main(){ stdex::stream::memory_file m; m.reserve(100); int x; m.read_data(x); m.write_str(std::string("abc")); return m.ok()?0:1; }''')
T("S10-b","S10",[("stream.hpp","					m_offset = end_offset;\n#if !CHECK_STREAM_STATE\n					m_state = state_t::ok;\n#endif\n				}\n				else {\n					data = 0;","					m_offset = end_offset;\n				}\n				else {\n					data = 0;")],
 "a value read after a write for which there was no room","success is reported as the failure before",
 '#define CHECK_STREAM_STATE 0\n'+C+'#include <stdex/stream.hpp>\n'+'''int main(){ char d[4]={1}; stdex::stream::memory_file m((void*)d,(size_t)4,(size_t)4,false); m.write_data((int64_t)1); if (m.ok()) return 2; int x; m.read_data(x); return m.ok()&&x==1?0:1; }''')
