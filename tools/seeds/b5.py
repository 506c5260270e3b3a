import sys; sys.path.insert(0,"/verif/tools"); sys.path.insert(0,"/verif/tools/seeds")
from seedlib import S
src=open("/verif/tools/seeds/b4.py").read().split("only=sys.argv")[0]; exec(src)
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
ST=C+'#include <stdex/stream.hpp>\n'
T("F01-a","F01",[("idrec.hpp","				stream.write(padding, remainder);\n				end += remainder;","				stream.write(padding, remainder);")],
 "a record of odd size written to a C++ stream and followed by another","the padding is written over by the next record, which then stands where no reader looks for it",
 C+'''#include <sstream>
#include <stdex/idrec.hpp>
int main(){ std::ostringstream o; auto a=stdex::idrec::open<uint32_t,uint32_t>(o,0x61616161); o.write("xyz",3); auto e=stdex::idrec::close<uint32_t,uint32_t,2>(o,a); auto b=stdex::idrec::open<uint32_t,uint32_t>(o,0x62626262); o.write("1234",4); stdex::idrec::close<uint32_t,uint32_t,2>(o,b);
 return e==12&&o.str().size()==24&&o.str().substr(12,4)=="bbbb"?0:1; }''')
T("F01-b","F01",[("idrec.hpp","while (end == stdex::stream::fpos_max || stream.tell() < end) {\n				stream >> _id;","while (end == stdex::stream::fpos_max || stream.tell() <= end) {\n				stream >> _id;")],
 "a record that starts exactly at the position limit","a record beyond the limit is found",
 ST+'''#include <stdex/idrec.hpp>
int main(){ stdex::stream::memory_file m; auto a=stdex::idrec::open<uint32_t,uint32_t>(m,1u); m<<7u; auto e=stdex::idrec::close<uint32_t,uint32_t,4>(m,a); auto b=stdex::idrec::open<uint32_t,uint32_t>(m,2u); m<<9u; stdex::idrec::close<uint32_t,uint32_t,4>(m,b); m.seekbeg(0);
 return stdex::idrec::find<uint32_t,uint32_t,4>(m,2u,e)?1:0; }''')
T("F01-c","F01",[("idrec.hpp","			return (N_align - (size % N_align)) % N_align;","			return static_cast<T_size>(-size) & (N_align - 1);")],
 "an alignment that is not a power of two","records are padded to wrong boundaries",
 C+'''#include <stdex/idrec.hpp>
int main(){ return stdex::idrec::padding<uint32_t,6>(7)==5&&stdex::idrec::padding<uint32_t,4>(7)==1?0:1; }''')
WAV='''#define __cdecl
#include <stdex/wav.hpp>
namespace W=stdex::wav; namespace st=stdex::stream;
'''
T("F02-a","F02",[("wav.hpp","						if (i && cue_less(cues[i], cues[i - 1]))\n							ordered = false;","						if (i)\n							ordered = !cue_less(cues[i], cues[i - 1]);")],
 "a file of another program, whose cues are out of order except for the last two","the cues are not sorted, so labels are attached to none of them",
 ST+WAV+'''int main(){ st::memory_file m; W::cue_ex_vector v(4), w; uint32_t id[]={9,3,5,7}; for(int i=0;i<4;i++){ v[i].id=id[i]; v[i].position=id[i]*10; v[i].title="t"+std::to_string(id[i]); } m<<v; m.seekbeg(0); if(!W::read_cues(m,w,m.size())) return 1; if(w.size()!=4) return 1; for(auto&c:w) if(c.title!="t"+std::to_string(c.id)) return 1; return w[0].id==3&&w[3].id==9?0:1; }''')
T("F02-b","F02",[("wav.hpp","				if (!c.note.empty()) {","				if (!c.note.empty() && !c.title.empty()) {")],
 "a cue that has a note but no title","the note is not written",
 ST+WAV+'''int main(){ st::memory_file m; W::cue_ex_vector v(2),w; v[0].id=1; v[0].title="a"; v[0].note="b"; v[1].id=2; v[1].note="c"; m<<v; m.seekbeg(0); return W::read_cues(m,w,m.size())&&w.size()==2&&w[0].note=="b"&&w[1].note=="c"?0:1; }''')
T("F02-c","F02",[("wav.hpp","				data.extra.write_stream(dat, tmp16);\n				data.extra.truncate();","				data.extra.write_stream(dat, tmp16);")],
 "a format read into an object that held longer extra data before","the rest of the previous extra data remains",
 ST+WAV+'''int main(){ st::memory_file m; W::format a,b; a.extra.write_array("12",1,2); m<<W::format::record(a); b.extra.write_array("before",1,6); m.seekbeg(0); if(!W::read_first(m,b,m.size())) return 1; return b.extra.size()==2?0:1; }''')
T("K01-a","K01",[("minisign.hpp","				if (start + 17 < end &&","				if (start + 17 <= end &&")],
 "text that ends within the mark, with a colon right behind it","a comment is recognised beyond the end of the text",
 ST+'''#include <stdex/minisign.hpp>
int main(){ stdex::minisign::untrusted_comment u; return u.match("untrusted comment: x",0,17)||!u.match("untrusted comment: x",0,18)?1:0; }''')
T("K01-b","K01",[("minisign.hpp","			if (data.size() < 74)","			if (data.size() < 74 - 2)")],
 "a signature that lacks its last one or two bytes","a signature that is too short is accepted (reading outside the data)",
 ST+'''#include <stdex/minisign.hpp>
int main(){ std::string d(73,'x'),t; d[0]='E'; d[1]='d'; stdex::base64_enc e; e.encode(t,d.data(),d.size()); t+="\\n"; stdex::stream::memory_file m; m.write_array(t.data(),1,t.size()); m.seekbeg(0); uint8_t a,k[8],s[64]; try { stdex::minisign::parse_minisig(m,a,k,s); } catch(const std::exception&) { return 0; } return 1; }''')
T("Z01-a","Z01",[("zlib.hpp","				m_source->write(m_block.get(), m_block_size - m_zlib.avail_out);\n				if (!m_source->ok()) _Unlikely_\n","				if (m_source->write(m_block.get(), m_block_size - m_zlib.avail_out) == 0 && m_zlib.avail_out == 0) _Unlikely_\n")],
 "a target that fails while the last piece, smaller than a block, is written","the loss of data is not told",
 ST+'''#include <stdex/zlib.hpp>
struct full : stdex::stream::basic { size_t write(const void*,size_t) override { m_state=stdex::stream::state_t::fail; return 0; } };
int main(){ full f; try { stdex::zlib_writer w(f); w.write("hello",5); } catch(const std::exception&) { return 0; } return 1; }''')
T("Z01-b","Z01",[("zlib.hpp","							num_read += num_deflated - m_zlib.avail_out; // [1] Code analysis misses `num_deflated - m_zlib.avail_out` bytes were written to data in previous loop iterations.\n","")],
 "a compressed stream that is truncated, read with a request for more than is left","the data up to the truncation is lost",
 ST+'''#include <stdex/zlib.hpp>
int main(){ std::string d; uint32_t x=1; for(int i=0;i<3000;i++) { x=x*1664525+1013904223; d+=(char)(x>>24); } stdex::stream::memory_file m; { stdex::zlib_writer w(m,9,16); w.write(d.data(),d.size()); } m.seekbeg(2000); m.truncate(); m.seekbeg(0); std::string r(d.size(),0); stdex::zlib_reader z(m); size_t n=z.read(&r[0],r.size()); return n>1000&&n<2100&&r.substr(0,n)==d.substr(0,n)?0:1; }''')
T("Z01-c","Z01",[("zlib.hpp","				uInt num_inflated = static_cast<uInt>(std::min<size_t>(length, UINT_MAX));","				uInt num_inflated = static_cast<uInt>(length);")],
 "more than 4 GiB written in one call","the amount is taken modulo 4 GiB and writing fails or never ends",
 ST+'''#include <sys/mman.h>
#include <stdex/zlib.hpp>
struct count : stdex::stream::basic { size_t n=0; size_t write(const void*,size_t l) override { n+=l; return l; } };
int main(){ size_t n=(1ull<<32)+4096; void*p=mmap(0,n,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) return 0; count c; size_t w=0; try { stdex::zlib_writer z(c,1); w=z.write(p,n); } catch(const std::exception&) { return 1; } return w==n&&c.n>1000000?0:1; }''')
T("C02-b-no","C02",[("ring.hpp","				if (m_quit && empty()) _Unlikely_","				if (m_quit) _Unlikely_")],
 "a reader that waits, while the writer stores its last portion and ends the ring before the reader wakes","data already stored is lost",
 C+'''#include <condition_variable>
#include <stdex/ring.hpp>
int main(){ for(int i=0;i<4000;i++){ stdex::ring<int,8> r; std::atomic<bool> in{false}; size_t got=0; std::thread t([&]{ in=true; for(;;){ auto [p,n]=r.front(); if(!p) break; got+=n; r.pop(n); } }); while(!in); if(i&1) std::this_thread::sleep_for(std::chrono::microseconds(100)); auto [p,n]=r.back(); p[0]=1; r.push(1); r.quit(); t.join(); if(got!=1) return 1; } return 0; }''')
T("S06-a","S06",[("ring.hpp","				m_head = wrap(m_head + size);\n				m_size -= size;\n			}\n			m_head_moved.notify_one();","				full = m_size == N_cap;\n				m_head = wrap(m_head + size);\n				m_size -= size;\n			}\n			if (full)\n				m_head_moved.notify_one();"),("ring.hpp","		void pop(_In_ size_t size)\n		{\n			{","		void pop(_In_ size_t size)\n		{\n			bool full;\n			{")],
 "flushing an asynchronous writer whose buffer is partly filled when the flush begins","nobody wakes the flushing thread: flush never returns",
 ST+'''struct slow : stdex::stream::basic { size_t write(const void*,size_t l) override { std::this_thread::sleep_for(std::chrono::milliseconds(20)); m_state=stdex::stream::state_t::ok; return l; } void flush() override {} };
int main(){ std::thread([]{ std::this_thread::sleep_for(std::chrono::seconds(20)); _Exit(1); }).detach(); slow s; { stdex::stream::async_writer<64> w(s); for(int i=0;i<5;i++){ w.write("hello",5); w.flush(); } } _Exit(0); }''')
T("C04-a","C04",[("watchdog.hpp","				m_callback();\n				{\n					// Sleep until next reset().\n					std::unique_lock<std::mutex> lk(m_mutex);","				m_callback();\n				{\n					// Sleep until next reset().\n					std::unique_lock<std::mutex> lk(m_mutex);\n					phase = m_phase;"),("watchdog.hpp","						if (m_quit)\n							break;\n						// reset() called in time.\n						continue;","						if (m_quit)\n							break;\n						continue;")],
 "a pat that comes while the callback is running","the pat is lost: the watchdog does not bite in the silence that follows",
 C+'''#include <condition_variable>
#include <functional>
#include <stdex/watchdog.hpp>
int main(){ using ms=std::chrono::milliseconds; std::atomic<int> n{0}; stdex::watchdog<std::chrono::steady_clock> w(ms(50),[&]{ if(!n++) std::this_thread::sleep_for(ms(300)); }); while(!n) std::this_thread::sleep_for(ms(5)); std::this_thread::sleep_for(ms(50)); w.reset(); std::this_thread::sleep_for(ms(1500)); return n==2?0:1; }''')
T("S09-a","S09",[("stream.hpp","			socket(_Inout_ socket&& other) noexcept : m_h(other.m_h)\n			{","			socket(_Inout_ socket&& other) noexcept : basic(other.m_state), m_h(other.m_h)\n			{\n				if (m_h == 0) return;")],
 "a socket whose descriptor is 0, which is then moved","the socket has two owners",
 ST+'''#include <sys/socket.h>
#include <fcntl.h>
int main(){ close(0); int p[2]; if(socketpair(AF_UNIX,SOCK_STREAM,0,p)||p[0]) return 0; stdex::stream::socket a(p[0]), b(std::move(a)); return !a&&b?0:1; }''')
T("S09-b","S09",[("stream.hpp","						m_state = to_read < length ? state_t::ok : state_t::fail;\n						return length - to_read;\n					}\n					if (!num_read) {\n						m_state = to_read < length || !length ? state_t::ok : state_t::eof;\n						return length - to_read;\n					}\n					to_read -= static_cast<size_t>(num_read);\n					if (!to_read) {\n						m_state = state_t::ok;\n						return length;\n					}\n					reinterpret_cast<uint8_t*&>(data) += num_read;\n				}\n			}\n\n			virtual _Success_(return != 0) size_t write(\n				_In_reads_bytes_opt_(length) const void* data, _In_ size_t length)\n			{\n				stdex_assert(data || !length);\n				constexpr int block_size = 0x10000000;\n				for (size_t to_write = length;;) {\n					auto num_written = send(",
 "						m_state = to_read < length ? state_t::ok : state_t::fail;\n						return length - to_read;\n					}\n					if (!num_read) {\n						m_state = length ? state_t::eof : state_t::ok;\n						return length - to_read;\n					}\n					to_read -= static_cast<size_t>(num_read);\n					if (!to_read) {\n						m_state = state_t::ok;\n						return length;\n					}\n					reinterpret_cast<uint8_t*&>(data) += num_read;\n				}\n			}\n\n			virtual _Success_(return != 0) size_t write(\n				_In_reads_bytes_opt_(length) const void* data, _In_ size_t length)\n			{\n				stdex_assert(data || !length);\n				constexpr int block_size = 0x10000000;\n				for (size_t to_write = length;;) {\n					auto num_written = send(")],
 "a connection that ends within a read","the end is told together with data, which callers then drop",
 ST+'''#include <sys/socket.h>
int main(){ int p[2]; if(socketpair(AF_UNIX,SOCK_STREAM,0,p)) return 0; stdex::stream::socket a(p[0]),b(p[1]); a.write("abc",3); a.close(); char x[10]; return b.read(x,10)==3&&b.ok()&&b.read(x,10)==0&&b.state()==stdex::stream::state_t::eof?0:1; }''')
T("S09-c","S09",[("stream.hpp","					if (m_h != stdex::invalid_socket)\n						closesocket(m_h);\n					m_h = other.m_h;","					m_h = other.m_h;")],
 "a socket that owns a connection and is assigned another one","the connection it owned before is never closed",
 ST+'''#include <sys/socket.h>
#include <fcntl.h>
int main(){ int p[2],q[2]; if(socketpair(AF_UNIX,SOCK_STREAM,0,p)||socketpair(AF_UNIX,SOCK_STREAM,0,q)) return 0; stdex::stream::socket a(p[0]),b(q[0]); a=std::move(b); return fcntl(p[0],F_GETFD)<0&&fcntl(q[0],F_GETFD)>=0?0:1; }''')
HT=C+'#include <stdex/html.hpp>\n'
T("W03-a","W03",[("html.hpp","case element_t::a:             return is_inline(child) && child != element_t::a;","case element_t::a:             return is_inline(child);")],
 "a link within a link","an open link takes the next one for its content",
 HT+'''int main(){ using namespace stdex::html; return element_traits::may_contain(element_t::a,element_t::a)?1:0; }''')
T("W03-b","W03",[("html.hpp","case element_t::form:          return is_flow(child) && child != element_t::form;","case element_t::form:          return is_flow(child);")],
 "a form within a form","an unclosed form takes the next one for its content",
 HT+'''int main(){ using namespace stdex::html; return element_traits::may_contain(element_t::form,element_t::form)?1:0; }''')
T("W02-a","W02",[("html.hpp","						size_t end = std::min(num_chars, i + 6);","						size_t end = i + 6;")],
 "an escape shorter than six digits at the very end of the text, with hexadecimal digits behind it","digits behind the end are taken for part of the escape",
 HT+'''int main(){ std::string d; stdex::html::css_unescape(d,"\\\\4142",3); return d=="A"?0:1; }''')
T("W02-b","W02",[("html.hpp","						if (i < num_chars && src[i] == ' ') {","						while (i < num_chars && src[i] == ' ') {")],
 "an escape followed by more than one space","spaces that belong to the text are dropped",
 HT+'''int main(){ std::string d; stdex::html::css_unescape(d,"\\\\41  x",6); return d=="A x"?0:1; }''')
T("W01-a","W01",[("html.hpp","								e->parent = starting_tag->parent;\n								starting_tag->end = e.get();\n								m_element_stack.resize(j);\n							}\n\n							if (e->type == stdex::parser::html_sequence_t::element_start) {","								e->parent = starting_tag->parent;\n								if (e->type == stdex::parser::html_sequence_t::element_start)\n									starting_tag->end = e.get();\n								m_element_stack.resize(j);\n							}\n\n							if (e->type == stdex::parser::html_sequence_t::element_start) {")],
 "an open element that is ended by an empty element written as <x/>","the element ended this way has no end",
 HT+'''#include <clocale>
using namespace stdex::html;
struct doc : document<char> { using document<char>::m_sequences; };
int main(){ doc d; d.assign("<p>a<hr/>b",10); for(auto&s:d.m_sequences) if(s->type==stdex::parser::html_sequence_t::element_start&&static_cast<element_start*>(s.get())->code==element_t::p) return static_cast<element_start*>(s.get())->end?0:1; return 1; }''')
T("P10-a","P10",[("parser.hpp","						for (this->interval.end = mouth->interval.end; mouth->match(text, this->interval.end, end, flags) && mouth->hit_offset == hit_offset; this->interval.end = mouth->interval.end);\n						if (nose) nose->invalidate();","						for (this->interval.end = mouth->interval.end; mouth->match(text, this->interval.end, end, flags); this->interval.end = mouth->interval.end);\n						if (nose) nose->invalidate();")],
 "an emoticon without a nose, whose mouth is followed by another mouth character","the other mouth is swallowed",
 P+'''int main(){ emoticon e(nullptr,nullptr,c(':'),c('-'),std::make_shared<sp::cu_set>(std::initializer_list<int>{},0)); return 0; }''') if 0 else None
T("P10-b","P10",[("parser.hpp","				has_digits = false;\n				has_charge = false;\n				this->interval.end = start;\n\n				const int element","				has_charge = false;\n				this->interval.end = start;\n\n				const int element")],
 "a formula without digits matched by an object that matched one with digits before","digits of the formula before are reported",
 P+'''int main(){ chemical_formula f(c('H'),c('2'),c('+')); if(!f.match("H2",0,2)||!f.has_digits) return 1; return f.match("HH",0,2)&&!f.has_digits?0:1; }''')
T("P10-c","P10",[("parser.hpp","						if (m_sign->match(text, this->interval.end, end, flags)) {\n							this->interval.end = m_sign->interval.end;\n							has_charge = true;","						if (m_sign->match(text, this->interval.end, end, flags)) {\n							this->interval.end = m_sign->interval.end;\n							has_charge = has_digits;")],
 "a charged formula without any number, like H+","the charge is not reported",
 P+'''int main(){ chemical_formula f(c('H'),c('2'),c('+')); return f.match("H2+",0,3)&&f.has_charge&&f.match("H+",0,2)&&f.has_charge?0:1; }''')
T("C02-d","C02",[("ring.hpp","				m_head = wrap(m_head + size);\n				m_size -= size;\n			}","				m_head = wrap(m_head + size);\n			}\n			m_size -= size;")],
 "a portion taken out at the moment another is put in","the number of items is changed by both threads at once",
 C+'''#include <condition_variable>
#include <stdex/ring.hpp>
int main(){ stdex::ring<int,8> r; std::thread t([&]{ for(int i=0;i<20000;i++){ auto [p,n]=r.back(); if(!p) break; p[0]=i; r.push(1); } r.quit(); }); int k=0; for(;;){ auto [p,n]=r.front(); if(!p) break; for(size_t i=0;i<n;i++) if(p[i]!=k++) return 1; r.pop(n); } t.join(); return k==20000?0:1; }''',flags="-fsanitize=thread")
