import sys; sys.path.insert(0,"/verif/tools"); sys.path.insert(0,"/verif/tools/seeds")
from seedlib import S
src=open("/verif/tools/seeds/b4.py").read().split("only=sys.argv")[0]; exec(src)
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
# Allocation failing on demand, in the demonstrations of E01.
A='''#include <new>
#include <cstdlib>
static long left=-1;
void* operator new(size_t n){ if(left>=0&&left--==0) throw std::bad_alloc(); void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void*p) noexcept { free(p); }
void operator delete(void*p,size_t) noexcept { free(p); }
void* operator new[](size_t n){ return operator new(n); }
void operator delete[](void*p) noexcept { free(p); }
void operator delete[](void*p,size_t) noexcept { free(p); }
'''
ST=C+'#include <stdex/stream.hpp>\n'+A+'using namespace stdex::stream;\n'
T("E01-a","E01",[("stream.hpp","					try { result.resize(length); }\n					catch (const std::bad_alloc&) {\n						m_state = state_t::fail;\n						return result;","					try { result.resize(length); }\n					catch (const std::bad_alloc&) {\n						return result;")],
 "no memory left while the remainder of a stream is read","the part read so far is returned as if it was all there is",
 ST+'''int main(){ memory_file m; m.write_byte('x',3000000); m.seekbeg(0); limiter l(m,UINT64_MAX,UINT64_MAX); stdex::stream::basic&b=l; left=1; auto v=b.read_remainder(); left=-1; return v.size()<3000000&&b.ok()?1:0; }''')
T("E01-b","E01",[("stream.hpp","				stdex_assert(data || !length);\n				try {\n					std::unique_ptr<node_t> n(reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]));\n					n->next = nullptr;\n					n->size = length;\n					memcpy(n->data, data, length);\n					m_size += length;\n","				stdex_assert(data || !length);\n				m_size += length;\n				try {\n					std::unique_ptr<node_t> n(reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]));\n					n->next = nullptr;\n					n->size = length;\n					memcpy(n->data, data, length);\n")],
 "no memory left for what is written to the queue","the size of the queue counts data it does not have",
 ST+'''int main(){ fifo q; q.write("abc",3); left=0; size_t w=q.write("defg",4); left=-1; return q.size()==3+w?0:1; }''')
T("E01-c","E01",[("stream.hpp","				auto data = reinterpret_cast<uint8_t*>(realloc(m_data, reserved));\n				if (!data && reserved) _Unlikely_ {\n					m_state = state_t::fail;\n					return;\n				}\n				m_data = data;\n","				auto data = m_data;\n				m_data = reinterpret_cast<uint8_t*>(realloc(data, reserved));\n				if (!m_data && reserved) _Unlikely_ {\n					m_state = state_t::fail;\n					return;\n				}\n")],
 "no memory left for a memory file to grow","its contents are gone",
 C+'''#include <stdex/stream.hpp>
#include <sys/resource.h>
int main(){ stdex::stream::memory_file m; m.write("abc",3); rlimit r={1u<<30,1u<<30}; setrlimit(RLIMIT_AS,&r); m.reserve((size_t)1<<34); if(m.ok()||m.size()!=3) return 2; const void*p=m.data(); return p&&!memcmp(p,"abc",3)?0:1; }''')
T("E01-d","E01",[("stream.hpp","							amount -= write_array(dummy.get(), sizeof(uint8_t), static_cast<size_t>(std::min<fsize_t>(amount, block)));\n							if (!ok()) _Unlikely_\n								break;\n						}\n					}\n					catch (const std::bad_alloc&) { m_state = state_t::fail; }","							amount -= write_array(dummy.get(), sizeof(uint8_t), static_cast<size_t>(std::min<fsize_t>(amount, block)));\n							if (!ok()) _Unlikely_\n								break;\n						}\n					}\n					catch (const std::bad_alloc&) { m_state = state_t::eof; }")],
 "no memory left for the block a byte is repeated from","the failure is taken for the end of the stream",
 ST+'''int main(){ memory_file m; m.reserve(5000000); stdex::stream::basic&b=m; left=0; b.write_byte('x',5000); left=-1; return m.size()==5000?0:b.state()==state_t::fail?0:1; }''')
H=C+A+'#include <stdex/html.hpp>\n'
T("E01-e","E01",[("html.hpp","							std::unique_ptr<element_end> e(new element_end(std::move(m_tag), source, parent->parent, parent));","							auto e_raw = new element_end(std::move(m_tag), source, parent->parent, parent);\n							m_sequences.reserve(m_sequences.size() + 1);\n							std::unique_ptr<element_end> e(e_raw);")],
 "no memory left while the end of a script is stored","the sequence made for it leaks",
 C+'''#include <new>
#include <cstdlib>
static long left=-1,live=0;
void* operator new(size_t n){ if(left>=0&&left--==0) throw std::bad_alloc(); live++; return malloc(n?n:1); }
void operator delete(void*p) noexcept { if(p) live--; free(p); }
void operator delete(void*p,size_t) noexcept { operator delete(p); }
void* operator new[](size_t n){ return operator new(n); }
void operator delete[](void*p) noexcept { operator delete(p); }
void operator delete[](void*p,size_t) noexcept { operator delete(p); }
#include <stdex/html.hpp>
int main(){ for (int i=0;i<200;i++){ long before=live; { stdex::html::document<wchar_t> d; left=i; try { d.assign(L"<p>a</p><p>a</p><script>a</script>",34); } catch(const std::bad_alloc&){} left=-1; } if (live!=before) return 1; } return 0; }''')
T("S03-c","S03",[("stream.hpp","					to_write -= static_cast<size_t>(num_written);\n					if (!to_write) {\n						m_state = state_t::ok;\n						return length;\n					}\n					reinterpret_cast<const uint8_t*&>(data) += num_written;\n#endif","					to_write -= static_cast<size_t>(num_written);\n					if (!to_write || !num_written) {\n						m_state = state_t::ok;\n						return length - to_write;\n					}\n					if (to_write < length / 2) reinterpret_cast<const uint8_t*&>(data) += num_written;\n					else reinterpret_cast<const uint8_t*&>(data) += std::min<size_t>(num_written, 0x1000);\n#endif")],
 "the system takes only a part of what is written, more than 4096 bytes but less than half","part of the data is written again in place of what follows it",
 C+'''#include <stdex/stream.hpp>
#include <unistd.h>
#include <sys/syscall.h>
#include <fcntl.h>
extern "C" ssize_t write(int h,const void*d,size_t n){ return syscall(SYS_write,h,d,n>5000?(size_t)5000:n); }
int main(){ char t[]="/tmp/demo_XXXXXX"; int h=mkstemp(t); std::string x; for(int i=0;i<20000;i++) x+=(char)(i*7+i/256); { stdex::stream::basic_sys f(h,stdex::stream::state_t::ok); if (f.write(x.data(),x.size())!=x.size()) return 2; std::string y(20000,'.'); int k=open(t,O_RDONLY); unlink(t); size_t n=0; while(n<20000){ auto r=read(k,&y[n],20000-n); if(r<=0) break; n+=r; } return y==x?0:1; } }''')
