import sys; sys.path.insert(0,"/verif/tools"); sys.path.insert(0,"/verif/tools/seeds")
from seedlib import S
src=open("/verif/tools/seeds/b4.py").read().split("only=sys.argv")[0]; exec(src)
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
ST=C+'#include <stdex/stream.hpp>\n'
T("L02-a","L02",[("locale.hpp","case LC_MONETARY: mask = LC_MONETARY_MASK; break;","case LC_MONETARY: mask = LC_MONETARY; break;")],
 "a locale made for money only","it is not the one asked for",
 C+'''#include <langinfo.h>
#include <locale.h>
#include <stdex/locale.hpp>
int main(){ stdex::locale l(LC_MONETARY,"de_DE.utf8"); return l&&strstr(nl_langinfo_l(CRNCYSTR,l),"\\xe2\\x82\\xac")?0:1; }''')
T("L02-b","L02",[("locale.hpp","		case LC_COLLATE : mask = LC_COLLATE_MASK ; break;\n","		case LC_COLLATE :\n")],
 "a locale made for the order of texts only","it has the character set of that name, but not its order",
 C+'''#include <locale.h>
#include <stdex/locale.hpp>
int main(){ stdex::locale l(LC_COLLATE,"de_DE.utf8"); return l&&strcoll_l("a","B",l)<0?0:1; }''')
DBG=C+'''#include <stdex/string.hpp>
#undef NDEBUG
#include <stdex/debug.hpp>
#include <unistd.h>
'''
T("G02-a","G02",[("debug.hpp","			vfwprintf(stderr, format, arg);","			vfwprintf(stdout, format, arg);")],
 "a wide error message of a debug build","it goes to the standard output",
 DBG+'''int main(){ FILE*f=tmpfile(),*w=stderr; stderr=f; stdex::err::printf(L"%d",12); stderr=w; fflush(f); char b[8]; return pread(fileno(f),b,8,0)==2?0:1; }''')
T("G02-b","G02",[("debug.hpp","			va_start(arg, format);\n			vprintf(format, arg);\n			va_end(arg);\n#endif\n		}\n	}\n\n	namespace err","			va_start(arg, format);\n			if (*format) {\n				T tmp[0x400] = {};\n				for (size_t i = 0; i + 1 < 0x400 && format[i]; ++i)\n					tmp[i] = format[i];\n				vprintf(tmp, arg);\n			}\n			va_end(arg);\n#endif\n		}\n	}\n\n	namespace err")],
 "","","int main(){return 1;}") if 0 else None
T("M04-b","M04",[("endian.hpp","		uint64_t r = byteswap(*reinterpret_cast<const uint64_t*>(&value));\n		return *reinterpret_cast<double*>(&r);","		uint64_t r = byteswap(*reinterpret_cast<const uint64_t*>(&value));\n		return value == value ? *reinterpret_cast<double*>(&r) : value;")],
 "a floating-point number whose bytes read as not a number","its bytes are not swapped",
 C+'''#include <stdex/endian.hpp>
int main(){ uint64_t b=0x7ff8000000001234ull; double d; memcpy(&d,&b,8); double e=stdex::byteswap(d); uint64_t g; memcpy(&g,&e,8); return g==__builtin_bswap64(b)?0:1; }''')
T("S01-d","S01",[("stream.hpp","""				for (uint32_t i = 0; i < num; ++i) {
					KEY el;
					*this >> el;
					if (!ok()) _Unlikely_
						return *this;
					data.insert(std::move(el));
				}
				return *this;
			}

			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
			basic& operator <<(_In_ const std::multiset""","""				while (data.size() < num) {
					KEY el;
					*this >> el;
					if (!ok()) _Unlikely_
						return *this;
					data.insert(std::move(el));
				}
				return *this;
			}

			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
			basic& operator <<(_In_ const std::multiset""")],
 "a multiset read as a set, with other data behind it","the data behind are taken for its elements",
 ST+'''int main(){ stdex::stream::memory_file f; stdex::stream::basic& b=f; std::multiset<int32_t> m{1,1,2}; b<<m<<(int32_t)7; f.seekbeg(0); std::set<int32_t> s; int32_t x=0; b>>s; b>>x; return x==7?0:1; }''')
T("W02-b","W02",[("html.hpp","				case '`': dst += \"%60\"; break;","				case '`': dst += \"%27\"; break;")] ,
 "a backtick in a web address","another character comes out",
 C+'''#include <stdex/html.hpp>
int main(){ std::string a,b; stdex::html::url_escape(a,"x`y",3); stdex::html::url_unescape(b,a.data(),a.size()); return b=="x`y"?0:1; }''')
T("T06-b","T06",[("string.hpp","""		std::basic_string<T, TR, AX> str;
		vappendf(str, format, locale, arg);
		return str;
	}""","""		va_list copy;
		va_copy(copy, arg);
		T buf[0x200];
		int n = vsnprintf(buf, _countof(buf), format, locale, copy);
		va_end(copy);
		if (0 <= n && static_cast<size_t>(n) <= _countof(buf))
			return std::basic_string<T, TR, AX>(buf, static_cast<size_t>(n));
		std::basic_string<T, TR, AX> s;
		vappendf(s, format, locale, arg);
		return s;
	}""")],
 "a result of exactly the size of the buffer","the last character is a zero instead",
 C+'''#include <stdex/string.hpp>
int main(){ std::string t(512,'x'); return stdex::sprintf("%s",nullptr,t.c_str())==t?0:1; }''')
T("C02-g","C02",[("ring.hpp","			if (!m_quit && !space())\n				m_head_moved.wait(lk, [&]{return m_quit || space();});","			if (!m_quit && !space())\n				m_head_moved.wait(lk);")],
 "a writer woken though there is no room","it is offered room that is in use",
 C+'''#include <condition_variable>
#include <stdex/ring.hpp>
int main(){ struct R: stdex::ring<int,2>{ std::condition_variable& cv(){ return m_head_moved; } } r; for(int i=0;i<2;i++){ auto [p,n]=r.back(); *p=i; r.push(1); } std::atomic<bool> done{false}; std::thread t([&]{ r.back(); done=true; }); std::this_thread::sleep_for(std::chrono::milliseconds(200)); r.pop(0); std::this_thread::sleep_for(std::chrono::milliseconds(200)); bool bad=done; r.pop(1); t.join(); return bad?1:0; }''')
T("C02-h","C02",[("ring.hpp","			if (empty()) {\n				m_tail_moved.wait(lk, [&]{return m_quit || !empty();});\n				if (m_quit && empty()) _Unlikely_\n					return { nullptr, 0 };\n			}","			if (empty()) {\n				m_tail_moved.wait(lk, [&]{return m_quit || !empty();});\n				if (m_quit) _Unlikely_\n					return { nullptr, 0 };\n			}")],
 "a writer that puts its last data and ends the ring before the waiting reader wakes up","the data are lost",
 C+'''#include <condition_variable>
#include <stdex/ring.hpp>
int main(){ for(int i=0;i<2000;i++){ stdex::ring<int,4> r; bool got=false; std::thread t([&]{ auto [p,n]=r.front(); got=p!=nullptr; }); for(volatile int k=0;k<i*20;k=k+1); auto [p,n]=r.back(); *p=1; r.push(1); r.quit(); t.join(); if(!got) return 1; } return 0; }''')
