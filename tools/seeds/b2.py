import sys; sys.path.insert(0,"/verif/tools")
from seedlib import S
C='#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <vector>\n#include <memory>\n#include <cstring>\n#include <list>\n#include <mutex>\n#include <thread>\n#include <condition_variable>\n#include <stdex/stream.hpp>\nusing namespace stdex; namespace st=stdex::stream;\n'
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
F="stream.hpp"
T("S01-c","S01",[(F,"					T buf[buf_chars];\n					uint32_t num_read = static_cast<uint32_t>(read_array(buf, sizeof(T), std::min<uint32_t>(num_chars, buf_chars)));","					T buf[buf_chars];\n					uint32_t num_read = static_cast<uint32_t>(read(buf, sizeof(T) * std::min<uint32_t>(num_chars, buf_chars)) / sizeof(T));")],
 "a stream that delivers a wide string in pieces which do not end at a character","bytes of the character that was cut are lost and the string comes out shifted",
 C+'''struct src: st::basic { std::string x; size_t p=0, k=0; size_t read(void* d,size_t l) override { if(p>=x.size()){ m_state=st::state_t::eof; return 0;} size_t n=std::min(std::min(l,x.size()-p),size_t(k++==1?5:1000)); memcpy(d,x.data()+p,n); p+=n; m_state=st::state_t::ok; return n; } };
int main(){ src s; std::wstring w=L"abcdefgh"; uint32_t n=8; s.x.append((char*)&n,4); s.x.append((char*)w.data(),32); st::basic& b=s; std::wstring r; b>>r; return r==w?0:1; }''')
T("S02-a","S02",[(F,"""				memset(&m_data[m_offset], byte, amount);
				m_offset = end_offset;
				if (m_offset > m_size)
					m_size = m_offset;""","""				memset(&m_data[m_offset], byte, amount);
				m_size = m_offset = end_offset;""")],
 "overwriting the middle of a memory file with write_byte()","the rest of the file is lost",
 C+'''int main(){ st::memory_file m; m.write_array("0123456789",1,10); m.seekbeg(3); m.write_byte('x',2); return m.size()==10?0:1; }''')
T("S02-b","S02",[(F,"				if (reserved < m_size)\n					m_size = reserved;\n","")],
 "shrinking the memory of a memory file below its content with a tight reserve()","the file claims content beyond its memory",
 C+'''int main(){ st::memory_file m; m.write_array("0123456789",1,10); m.reserve(4,true); return m.size()==4?0:1; }''')
T("S03-a","S03",[(F,"""						m_state = to_read < length || !length ? state_t::ok : state_t::eof;
						return length - to_read;
					}
					to_read -= static_cast<size_t>(num_read);
					if (!to_read) {
						m_state = state_t::ok;
						return length;
					}
					reinterpret_cast<uint8_t*&>(data) += num_read;
				}
			}

			virtual _Success_(return != 0) size_t write(
				_In_reads_bytes_opt_(length) const void* data, _In_ size_t length)
			{
				// Windows""","""						m_state = to_read < length || !length ? state_t::ok : state_t::eof;
						return length - to_read;
					}
					to_read -= static_cast<size_t>(num_read);
					if (!to_read) {
						m_state = state_t::ok;
						return length;
					}
					reinterpret_cast<uint8_t*&>(data) += num_read == 1 ? 1 : num_read & ~static_cast<ssize_t>(1);
				}
			}

			virtual _Success_(return != 0) size_t write(
				_In_reads_bytes_opt_(length) const void* data, _In_ size_t length)
			{
				// Windows""")],
 "an operating-system read that returns fewer bytes than asked, an odd number greater than one (pipes)","the byte at the seam is overwritten and the data shifts",
 C+'''#include <unistd.h>
int main(){ int p[2]; if(pipe(p)) return 0; st::basic_sys s(p[0]); std::thread t([&]{ (void)!write(p[1],"abc",3); usleep(200000); (void)!write(p[1],"defgh",5); close(p[1]); }); char b[9]={}; size_t n=s.read(b,8); t.join(); return n==8&&!memcmp(b,"abcdefgh",8)?0:1; }''')
T("S03-b","S03",[(F,"""					off64_t length = lseek64(m_h, 0, SEEK_END);
					lseek64(m_h, orig, SEEK_SET);
					if (length >= 0)
						return static_cast<fsize_t>(length);""","""					off64_t length = lseek64(m_h, 0, SEEK_END);
					lseek64(m_h, std::min(orig, length), SEEK_SET);
					if (length >= 0)
						return static_cast<fsize_t>(length);""")],
 "asking for the size of a file while positioned beyond its end","the position moves back to the end of the file",
 C+'''#include <unistd.h>
int main(){ st::file f("t.bin", st::mode_for_reading|st::mode_for_writing|st::mode_create); f.write_array("abc",1,3); f.seekbeg(100); f.size(); return f.tell()==100?0:1; }''')
T("S04-a","S04",[(F,"""				else {
					// Truncation invalidates cache.
					m_cache.status = cache_t::cache_t::status_t::empty;
				}""","""				else if (m_cache.status != cache_t::cache_t::status_t::dirty) {
					// Truncation invalidates cache.
					m_cache.status = cache_t::cache_t::status_t::empty;
				}""")],
 "writing, then seeking to before the cached block and truncating there","the data cut off comes back when the cache is written",
 C+'''int main(){ st::memory_file m; m.write_byte(7,100); { st::cache c(m,16); c.seekbeg(64); c.write_array("abc",1,3); c.seekbeg(10); c.truncate(); } return m.size()==10?0:1; }''')
T("S04-b","S04",[(F,"								m_cache.region.end = std::max(m_cache.region.end, m_offset);","								m_cache.region.end = m_cache.status != cache_t::cache_t::status_t::empty && m_cache.region.end > m_offset && m_cache.region.end % m_cache.capacity ? m_offset : std::max(m_cache.region.end, m_offset);")],
 "overwriting within the last, incomplete block through the cache and reading what follows","what was written to the block before and not yet flushed is forgotten",
 C+'''int main(){ st::memory_file m; { st::cache c(m,16); c.write_array("abcdefgh",1,8); c.seekbeg(2); c.write_array("XY",1,2); } return m.size()==8&&!memcmp(m.data(),"abXYefgh",8)?0:1; }''')
T("S04-c","S04",[(F,"					case seek_t::end: {\n					auto n = size();","					case seek_t::end: {\n					auto n = m_source->size();")] if 0 else [(F,"""				case seek_t::end: {
					auto n = size();""","""				case seek_t::end: {
					auto n = m_source->size();""")],
 "seeking relative to the end while appended data is only in the cache","the position is computed from the size of the file without the cached data",
 C+'''int main(){ st::memory_file m; st::cache c(m,16); c.write_array("abcdef",1,6); return c.seek(0,st::seek_t::end)==6?0:1; }''')
T("S05-a","S05",[(F,"					size_t num_read = m_source.read(data, static_cast<size_t>(std::min<fpos_t>(length, m_region.end - m_offset)));","					size_t num_read = m_source.read(data, static_cast<size_t>(std::min<fpos_t>(length, m_region.size())));")],
 "reading through a file window when part of it was already read","data past the end of the window is delivered",
 C+'''int main(){ st::memory_file m; m.write_array("0123456789",1,10); m.seekbeg(2); st::file_window w(m,2,4); char b[10]; if(w.read(b,3)!=3) return 1; return w.read(b,3)==1?0:1; }''')
T("S05-b","S05",[(F,"""					if (_w->num_written < num_written)
						num_written = _w->num_written;
					if (ok() && !_w->source->ok())""","""					num_written = _w->num_written;
					if (ok() && !_w->source->ok())""")],
 "replicating to several streams of which one but not the last wrote less","the replicator reports everything written",
 C+'''struct full: st::basic { size_t write(const void*,size_t l) override { size_t k=l<3?l:3; m_state=k<l?st::state_t::fail:st::state_t::ok; return k; } };
int main(){ full a; st::memory_file m; st::replicator r; r.push_back(&a); r.push_back(&m); return r.write("abcdef",6)==3?0:1; }''')
T("S06-b","S06",[(F,"""			virtual void close()
			{
				m_size = m_offset = 0;
				while (m_head) {""","""			virtual void close()
			{
				m_size = 0;
				while (m_head) {""")],
 "closing a queue in the middle of a block read and using it again","the first bytes written after that are skipped, and memory past the block is read",
 C+'''int main(){ st::fifo f; char b[8]; f.write("abcd",4); f.read(b,2); f.close(); f.write("wxyz",4); return f.read(b,2)==2&&b[0]=='w'?0:1; }''')
T("S07-a","S07",[(F,"""					m_state = stream.m_state;
					if (!ok())
						break;
				}
				return num_copied;""","""					if (stream.m_state != state_t::ok)
						break;
				}
				return num_copied;""")],
 "a source that fails while being copied","the copy is reported as successful",
 C+'''struct src: st::basic { int n=2; size_t read(void* d,size_t l) override { if(!n--){m_state=st::state_t::fail;return 0;} memset(d,1,l); m_state=st::state_t::ok; return l; } };
int main(){ src s; st::fifo f; st::basic& b=f; b.write_stream(s,1000000); return b.state()==st::state_t::fail?0:1; }''')
T("S07-b","S07",[(F,"""						/*dst_size =*/ dst_offset += num_read;
						num_copied += num_read;
						to_write -= num_read;
						if (!stream.ok()) {""","""						/*dst_size =*/ dst_offset += num_read;
						num_copied += num_read;
						to_write -= num_read;
						if (!stream.ok() || num_read <= to_write / 2) {""")],
 "copying a known amount into memory from a source that delivers it in pieces","the copy ends after a small piece",
 C+'''struct src: st::basic { int n=5; size_t read(void* d,size_t l) override { if(!n--){m_state=st::state_t::eof;return 0;} memset(d,1,10); m_state=st::state_t::ok; return 10; } };
int main(){ src s; st::memory_file f; return f.write_stream(s,50)==50?0:1; }''')
T("S08-a","S08",[(F,"if (!initial && !(previous == static_cast<T>('\\r') && chr == static_cast<T>('\\n')))","if (!initial && previous != static_cast<T>('\\r'))")],
 "a line with a carriage return that is not part of the line end","the carriage return is dropped from the line",
 C+'''int main(){ st::memory_file m; m.write_array("ab\\rcd\\n",1,6); m.seekbeg(0); std::string s; m.readln(s); return s=="ab\\rcd"?0:1; }''')
