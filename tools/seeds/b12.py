import sys; sys.path.insert(0,"/verif/tools"); sys.path.insert(0,"/verif/tools/seeds")
from seedlib import S
src=open("/verif/tools/seeds/b4.py").read().split("only=sys.argv")[0]; exec(src)
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
T("F02-d","F02",[("wav.hpp","					data.title.assign(\n						reinterpret_cast<const char*>(tmp.data()),\n						stdex::strnlen(reinterpret_cast<const char*>(tmp.data()), tmp.size()));","					data.title.assign(\n						reinterpret_cast<const char*>(tmp.data()),\n						tmp.empty() ? 0 : tmp.back() ? tmp.size() : tmp.size() - 1);")],
 "a label whose text is followed by several terminators","the terminators become part of the title",
 C+'''#define __cdecl
#include <stdex/stream.hpp>
#include <stdex/wav.hpp>
int main(){ stdex::stream::memory_file m; m.write("\\1\\0\\0\\0abc\\0\\0\\0",10); m.seekbeg(0); stdex::wav::label l; stdex::stream::basic& b=m; b>>l; return l.title=="abc"?0:1; }''')
