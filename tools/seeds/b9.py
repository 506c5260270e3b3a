import sys; sys.path.insert(0,"/verif/tools"); sys.path.insert(0,"/verif/tools/seeds")
from seedlib import S
src=open("/verif/tools/seeds/b4.py").read().split("only=sys.argv")[0]; exec(src)
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
ST=C+'#include <stdex/stream.hpp>\n'
T("M03-c","M03",[("math.hpp","		return static_cast<int64_t>(static_cast<__int128>(n) * k / q);","		return static_cast<int64_t>(static_cast<long double>(n) * k / q);")],
 "a product wider than the mantissa of a long double","the quotient is off by the rounding of the product",
 C+'''#include <stdex/math.hpp>
int main(){ int64_t n=6148914691236517205ll,k=3002399751580333ll,q=1000003; for (int i=0;i<50;i++,n-=12345678901ll,k+=7) { int64_t a=n/2,b=k*2+1; __int128 e=(__int128)a*q/b; if (e<INT64_MAX && stdex::muldiv(a,q,b)!=(int64_t)e) return 1; e=(__int128)n*(b-2)/b; if (stdex::muldiv(n,b-2,b)!=(int64_t)e) return 1; } return 0; }''')
T("M03-d","M03",[("math.hpp","		if (!__builtin_mul_overflow(a, b, &result))\n","		result = a * b;\n		if (!a || !b || (result >= a && result >= b))\n")],
 "a product that wraps around to something greater than both factors","the wrapped value is returned",
 C+'''#include <stdex/math.hpp>
int main(){ try { stdex::mul((size_t)1<<33,((size_t)1<<33)+((size_t)1<<3)); return 1; } catch(const std::invalid_argument&){} return 0; }''')
T("W02-c","W02",[("html.hpp","						size_t end = std::min(num_chars, i + 6);","						size_t end = std::min(num_chars - 1, i + 6);")],
 "a numeric escape whose last digit is the last unit of the text","the digit is taken for text",
 C+'''#include <stdex/html.hpp>
int main(){ std::string d; stdex::html::css_unescape(d,std::string("a\\\\41").data(),4); return d=="aA"?0:1; }''')
T("W02-d","W02",[("html.hpp","				case '~': dst += \"%7E\"; break;\n","				case '~': dst += \"%7e\"; break;\n				case '\\x7f': break;\n")],
 "a delete character","it is lost",
 C+'''#include <stdex/html.hpp>
int main(){ std::string d,e; stdex::html::url_escape(d,"a\\x7f""b",3); stdex::html::url_unescape(e,d.data(),d.size()); return e=="a\\x7f""b"?0:1; }''')
T("G02-b","G02",[("debug.hpp","			m_task_name(task_name),\n			m_start(std::chrono::high_resolution_clock::now())","			m_task_name(*task_name ? task_name : \"task\"),\n			m_start(std::chrono::high_resolution_clock::now())")],
 "a measurement without a name","another name than the given one is printed",
 C+'''#include <stdex/string.hpp>
#undef NDEBUG
#include <stdex/debug.hpp>
#include <unistd.h>
int main(){ FILE*f=tmpfile(),*w=stdout; stdout=f; { stdex::benchmark b(""); } stdout=w; fflush(f); char b[8]={}; pread(fileno(f),b,6,0); return !memcmp(b," took ",6)?0:1; }''')
T("M04-c","M04",[("endian.hpp","	inline constexpr int8_t byteswap(_In_ const char value) { return static_cast<int8_t>(byteswap(static_cast<uint8_t>(value))); }","	inline constexpr int8_t byteswap(_In_ const char value) { return static_cast<int8_t>(byteswap(static_cast<uint8_t>(value & 0x7f))); }")],
 "a character above 127","its highest bit is lost",
 C+'''#include <stdex/endian.hpp>
int main(){ char c=(char)0xe9; return (char)stdex::byteswap(c)==c?0:1; }''')
T("T06-d","T06",[("string.hpp","		size_t n = vappendf(str, format, locale, arg);\n","		size_t n = vappendf(str, format, locale, arg);\n		n = str.size() < n ? n : n + (n >= 2048 ? str.size() - n : 0);\n")],
 "a result longer than the internal buffers appended to a string that is not empty","the number reported counts what was there before, too",
 C+'''#include <stdex/string.hpp>
int main(){ std::string d="ab",x(3000,'x'); return stdex::appendf(d,"%s",nullptr,x.c_str())==3000&&d.size()==3002?0:1; }''')
T("T06-e","T06",[("string.hpp","		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {\n			// Allocate on heap","		for (size_t capacity = 2 * 1024 / sizeof(T); capacity < 0x8000; capacity *= 2) {\n			// Allocate on heap")],
 "a formatted time longer than 32 thousand characters","nothing is appended but what the buffer held",
 C+'''#include <stdex/string.hpp>
#include <time.h>
int main(){ struct tm t={}; t.tm_mday=1; t.tm_year=100; std::string f(40000,'x'),d="ab"; f+="%Y"; stdex::strcatftime(d,f.c_str(),&t,nullptr); return d=="ab"+std::string(40000,'x')+"2000"?0:1; }''')
W=C+'''#include <stdex/html.hpp>
using D=stdex::html::document<wchar_t>; using K=stdex::html::text_token<wchar_t>;
'''
T("W01-d","W01",[("html.hpp","								while (limit != end && limit->get() != s_el_start->end)\n									++limit;\n								auto t = parse(limit,","								while (limit != end && (limit->get() != s_el_start->end || s_el_start->end->type != stdex::parser::html_sequence_t::element_end))\n									++limit;\n								auto t = parse(limit,")],
 "a heading ended by the start of another element","all that follows it becomes part of the title",
 W+'''int main(){ D d; d.assign(L"<body><h1>ab<p>cd</p></body>",28); stdex::html::parser<wchar_t> p(d,nullptr,0,true); p.parse(); for(auto&k:p.tokens()){ auto t=dynamic_cast<K*>(k.get()); if(t&&(t->text_type&stdex::html::is_title)&&t->text.size()>3) return 1; } return 0; }''')
T("W01-e","W01",[("html.hpp","										token->mapping.push_back(rel);\n										rel.to += t->append_tag(token->text);","										rel.to += t->append_tag(token->text);\n										token->mapping.push_back(rel);")],
 "a style sheet within the text","the place of its token is that of what precedes it",
 W+'''int main(){ D d; d.assign(L"<head><style>x</style></head>",29); stdex::html::parser<wchar_t> p(d,nullptr,0,true); p.parse(); for(auto&k:p.tokens()){ auto t=dynamic_cast<K*>(k.get()); if(!t||t->mapping.empty()||stdex::dst2src(t->mapping,(size_t)0)!=6) continue; size_t j=0; stdex::html::token::parse_tag(t->text.c_str(),j); if(t->text[j]!=0x12) return 3; return stdex::dst2src(t->mapping,j)==6?0:1; } return 2; }''')
