import sys; sys.path.insert(0,"/verif/tools"); sys.path.insert(0,"/verif/tools/seeds")
from seedlib import S
src=open("/verif/tools/seeds/b4.py").read().split("only=sys.argv")[0]; exec(src)
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
H=C+'''#include <stdex/stream.hpp>
#include <stdexcept>
#include <string>
using namespace stdex::stream;
'''
T("S05-d","S05",[("stream.hpp","""						m_write_buffer.head += converter::write(m_write_buffer.data + m_write_buffer.head, buffer_size);
						if (m_write_buffer.head == m_write_buffer.tail)
							m_write_buffer.head = m_write_buffer.tail = 0;
						else
							return length - to_write;""","""						size_t head = m_write_buffer.head;
						m_write_buffer.head = m_write_buffer.tail = 0;
						size_t num_written = converter::write(m_write_buffer.data + head, buffer_size);
						if (num_written < buffer_size) {
							m_write_buffer.head = head + num_written;
							m_write_buffer.tail = head + buffer_size;
							return length - to_write;
						}""")],
 "a destination that fails by an exception once and works again","data accepted by earlier writes is lost",
 H+'''struct D : basic { std::string o; bool t=true; size_t write(const void* d,size_t n) override { if(t){t=false; throw std::runtime_error("x");} o.append((const char*)d,n); m_state=state_t::ok; return n; } };
int main(){ D d; { buffer b(d,4,4); b.write("abc",3); try { b.write("defg",4); } catch(const std::runtime_error&){} b.flush(); } return d.o.compare(0,3,"abc")==0?0:1; }''')
