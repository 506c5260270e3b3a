import sys; sys.path.insert(0,"/verif/tools"); sys.path.insert(0,"/verif/tools/seeds")
from seedlib import S
src=open("/verif/tools/seeds/b4.py").read().split("only=sys.argv")[0]; exec(src)
only=sys.argv[1:]
def T(id,*a,**k):
    if not only or id in only: S(id,*a,**k)
ST=C+'#include <stdex/stream.hpp>\n'
T("M02-b","M02",[("mapping.hpp","""				const auto& el = mapping[m = l - 1];
				return el.to + (from - el.from);
			}
			else {
				const auto& el = mapping[m = 0];
				return std::min<T>(from, el.to);
			}
		}
	}
}""","""				const auto& el = mapping[l - 1];
				m = l;
				return el.to + (from - el.from);
			}
			else {
				const auto& el = mapping[m = 0];
				return std::min<T>(from, el.to);
			}
		}
	}
}""")],
 "a position behind the last correspondence, looked up with a hint that is kept for the next lookup","the hint points behind the list: memory out of the list is read",
 C+'''#include <stdex/mapping.hpp>
int main(){ std::vector<stdex::mapping<size_t>> v; for(size_t i=0;i<4;i++) v.push_back(stdex::mapping<size_t>(i*10,i*20)); size_t m=0; stdex::src2dst(v,(size_t)35,m); for(size_t i=0;i<60;i++){ size_t h=m; if(h>=v.size()) return 1; if(stdex::src2dst(v,i,m)!=stdex::src2dst(v,i)) return 1; } return 0; }''')
T("S08-b","S08",[("stream.hpp","""				readln_and_attach(tmp);
				encoder.strcat(str, tmp);""","""				readln(tmp);
				encoder.strcpy(str, tmp);""")],
 "a line in another charset appended to a text that is not empty","the text from before is lost",
 ST+'''int main(){ stdex::stream::memory_file f; f.write("ab\\n",3); f.seekbeg(0); stdex::charset_encoder<char,wchar_t> e(stdex::charset_id::utf8,stdex::wchar_t_charset); std::wstring s=L"x"; f.readln_and_attach(s,e); return s==L"xab"?0:1; }''')
T("S08-c","S08",[("stream.hpp","""				if (ok() && strncmp(id_utf8, _countof(id_utf8), utf8_bom, _countof(utf8_bom)) == 0)
					return charset_id::utf8;""","""				if (strncmp(id_utf8, utf8_bom, 2) == 0)
					return charset_id::utf8;""")],
 "a file that starts with the first two bytes of a UTF-8 mark only","its charset is told as UTF-8",
 ST+'''int main(){ stdex::stream::memory_file f; f.write("\\xef\\xbbzz",4); return f.read_charset(stdex::charset_id::windows1250)==stdex::charset_id::windows1250?0:1; }''')
T("S05-c","S05",[("stream.hpp","""						m_read_buffer.tail = 0;
						to_read -= m_source->read(data, to_read);""","""						to_read -= m_source->read(data, to_read);""")],
 "a read larger than the buffer after smaller ones, then another small read","old bytes are read again",
 ST+'''int main(){ stdex::stream::memory_file f; for(int i=0;i<64;i++){ char c=(char)('0'+i); f.write(&c,1);} f.seekbeg(0); stdex::stream::buffer b(f,8,8); char t[64]; b.read(t,3); b.read(t,20); b.read(t,4); return t[0]=='0'+23?0:1; }''')
T("P03-c","P03",[("parser.hpp","""					this->interval.end = exponent->interval.end;
					if (negative_exp_sign) negative_exp_sign->invalidate();
				}""","""					this->interval.end = exponent->interval.end;
				}""")],
 "a number with a negative exponent, then one with an exponent without a sign, both by one parser","the second exponent is taken for a negative one",
 P+'''int main(){ scientific_numeral p(c('+'),c('-'),nullptr,I(),c('.'),I(),c('e'),c('+'),c('-'),I()); return p.match("1e-2",0,4)&&p.match("1e2",0,3)&&p.value>50?0:1; }''')
T("P04-c","P04",[("parser.hpp","""					this->interval.end = scope_id->interval.end;
				else if (scope_id)
					scope_id->invalidate();
""","""					this->interval.end = scope_id->interval.end;
""")],
 "an address with a scope, then one without, both by one parser","the scope of the first is told for the second",
 P+'''int main(){ ipv6_address p(c('0'),c('1'),c('2'),c('3'),c('4'),c('5'),c('6'),c('7'),c('8'),c('9'),c('a'),c('b'),c('c'),c('d'),c('e'),c('f'),c(':'),c('%'),std::make_shared<ipv6_scope_id_cu>()); p.scope_id=std::make_shared<ipv6_scope_id_cu>(); return 0; }''' if 0 else P+'''int main(){ auto sid=std::make_shared<ipv6_scope_id_char>(); ipv6_address p(c('0'),c('1'),c('2'),c('3'),c('4'),c('5'),c('6'),c('7'),c('8'),c('9'),c('a'),c('b'),c('c'),c('d'),c('e'),c('f'),c(':'),c('%'),sid); if(!p.match("fe80::1%3",0,9)||!sid->interval) return 2; return p.match("fe80::2",0,7)&&!sid->interval?0:1; }''')
T("P05-c","P05",[("parser.hpp","""					else if (m_at->match(text, username->interval.end, end, flags)) {
						// Username only
						this->interval.end = m_at->interval.end;
						password->invalidate();
					}
					else {
						username->invalidate();
						password->invalidate();
					}
				}
				else {
					username->invalidate();
					password->invalidate();
				}

				if (ipv4_host""","""					else if (m_at->match(text, username->interval.end, end, flags)) {
						// Username only
						this->interval.end = m_at->interval.end;
					}
					else {
						username->invalidate();
						password->invalidate();
					}
				}
				else {
					username->invalidate();
					password->invalidate();
				}

				if (ipv4_host""")],
 "an address with a user name and a password, then one with a user name only, both by one parser","the password of the first is told for the second",
 P+URL+'''int main(){ auto p=U(); const char*a="http://u:p@b.com/x",*b="http://u@b.com/x"; return p->match(a,0,18)&&p->password->interval&&p->match(b,0,16)&&!p->password->interval?0:1; }''')
T("P06-c","P06",[("parser.hpp","""(this->model[1] == '0' || this->model[1] == '1' || this->model[1] == '8' || this->model[1] == '9')) ||
""","""(this->model[1] == '0' || this->model[1] == '1' || this->model[1] == '8')) ||
""")],
 "a reference of model SI49","a wrong reference is told to be correct",
 P+'''int main(){ si_reference p(std::make_shared<space_cu>()); for(int i=0;i<100;i++){ char a[32],b[32]; snprintf(a,32,"SI48 %d-%d",100+i,1234); snprintf(b,32,"SI49 %d-%d",100+i,1234); p.match(a,0,13); bool x=p.is_valid; p.match(b,0,13); if(x!=p.is_valid) return 1; } return 0; }''')
T("P07-d","P07",[("parser.hpp","""								if (day) day->invalidate();
								this->interval.start = start;
								this->interval.end = month->interval.end;
								format = date_format_ym;""","""								this->interval.start = start;
								this->interval.end = month->interval.end;
								format = date_format_ym;""")],
 "a date with a day, then one of year and month only, both by one parser","the second date has a day it does not say",
 P+'''int main(){ auto d=I(); sp::date p(date_format_ymd|date_format_ym,d,I(),I(),std::make_shared<cu_set>("-"),std::make_shared<space_cu>()); return p.match("2024-02-13",0,10)&&d->interval&&p.match("2024-03",0,7)&&!d->interval?0:1; }''')
T("P07-e","P07",[("parser.hpp","""								this->interval.start = start;
								for (this->interval.end = day->interval.end; m_space->match(text, this->interval.end, end, space_match_flags); this->interval.end = m_space->interval.end);
								if (m_separator->match(text, this->interval.end, end, flags) &&
									m_separator->hit_offset == hit_offset) // Both separators must match.
									this->interval.end = m_separator->interval.end;
								else
									this->interval.end = day->interval.end;
								format = date_format_md;""","""								this->interval.start = start;
								for (this->interval.end = day->interval.end; m_space->match(text, this->interval.end, end, space_match_flags); this->interval.end = m_space->interval.end);
								if (m_separator->match(text, this->interval.end, end, flags) &&
									m_separator->hit_offset <= hit_offset)
									this->interval.end = m_separator->interval.end;
								else
									this->interval.end = day->interval.end;
								format = date_format_md;""")],
 "a month and a day followed by another separator than the one between them","the separator is taken into the date",
 P+'''int main(){ sp::date p(date_format_md,I(),I(),I(),std::make_shared<cu_set>("./"),std::make_shared<space_cu>()); return p.match("2/13.",0,5)&&p.interval.end==4?0:1; }''')
T("P09-c","P09",[("parser.hpp","""				this->sub_type.end = this->interval.end;
				this->charset.invalidate();
				if""","""				this->sub_type.end = this->interval.end;
				if""")],
 "a type with a charset, then one without, both by one parser","the charset of the first is told for the second",
 P+'''int main(){ mime_type p; const char*a="text/plain; charset=utf-8",*b="text/html"; return p.match(a,0,25)&&p.charset&&p.match(b,0,9)&&!p.charset?0:1; }''')
T("T02-b","T02",[("sgml.hpp","""		size_t j = strnlen(dst, count_dst);
		count_src = strnlen(src, count_src);
		for (size_t i = 0; i < count_src;) {
			size_t n = glyphlen(src + i, count_src - i);
			if (n == 1 &&
				do_ascii && is7bit(src[i]) &&
				src[i] != '&' &&
				(do_quot || (src[i] != '"')) &&
				(do_apos || (src[i] != '\\'')) &&
				(do_lt_gt || (src[i] != '<' && src[i] != '>')) &&""","""		size_t j = strnlen(dst, count_dst);
		count_src = strnlen(src, count_src);
		for (size_t i = 0; i < count_src;) {
			size_t n = glyphlen(src + i, count_src - i);
			if (n == 1 &&
				do_ascii && is7bit(src[i]) &&
				src[i] != '&' &&
				(do_quot || (src[i] != '"')) &&
				(do_apos || (src[i] != '\\'')) &&
				(do_lt_gt || src[i] != '<' || do_bsol) &&""")],
 "angle brackets to be kept from SGML in a text written to a buffer of the caller","they are written as they are",
 C+'''#include <stdex/sgml.hpp>
int main(){ char b[64]; b[0]=0; stdex::str2sgmlcpy(b,64,L"a<b>",4,stdex::sgml_lt_gt); return !strcmp(b,"a&lt;b&gt;")?0:1; }''')
T("T02-c","T02",[("sgml.hpp","""							size_t m = strlen(entity);
							if (j + m + 2 >= count_dst)
								throw buffer_overrun;""","""							size_t m = strlen(entity);
							if (j + m >= count_dst)
								throw buffer_overrun;""")],
 "a character with combining marks, whose entity is at the very end of the buffer","the buffer is overrun",
 C+'''#include <stdex/sgml.hpp>
int main(){ const wchar_t t[]={L'&',0x301,0}; for(size_t n=1;n<32;n++){ std::vector<char> b(n+16,0x55); b[0]=0; try{ stdex::str2sgmlcat(b.data(),n,t,2); }catch(const std::exception&){} for(size_t i=n;i<n+16;i++) if(b[i]!=0x55) return 1; } return 0; }''')
T("T03-c","T03",[("string.hpp","""		for (k = 1; i && j; k++) {
			i--; j--;
			if ((a = str1[i]) > (b = str2[j])) return +1;
			if (a < b) return -1;
		}
		if (i && !j) return +1;
		if (!i && j) return -1;
		return 0;
	}

	///
	/// Binary compare two strings in reverse direction
	///
	/// \\param[in] str1    String 1
	/// \\param[in] count1""","""		for (k = 1; i && j; k++) {
			i--; j--;
			if ((a = str1[i]) > (b = str2[j])) return +1;
			if (a < b) return -1;
		}
		if (i > j) return +1;
		if (i < j && i) return -1;
		return 0;
	}

	///
	/// Binary compare two strings in reverse direction
	///
	/// \\param[in] str1    String 1
	/// \\param[in] count1""")],
 "comparing from the end a text with a longer one that ends with it","they are told to be the same",
 C+'''#include <stdex/string.hpp>
int main(){ return stdex::strrncmp("b","ab",2)<0&&stdex::strrncmp("ab","b",2)>0?0:1; }''')
T("T04-c","T04",[("string.hpp","""		for (i = j = 0; src[j];) {
			if (src[j] != '\\r' || src[j + 1] != '\\n')
				dst[i++] = src[j++];
			else {
				dst[i++] = '\\n';
				j += 2;
			}
		}
		dst[i] = 0;
		return i;""","""		for (i = j = 0; src[j];) {
			if (src[j] != '\\r')
				dst[i++] = src[j++];
			else {
				do j++; while (src[j] == '\\r');
				dst[i++] = src[j] == '\\n' ? src[j++] : '\\r';
			}
		}
		dst[i] = 0;
		return i;""")],
 "two carriage returns in a row","the first one is lost",
 C+'''#include <stdex/string.hpp>
int main(){ char b[16]; stdex::crlf2nl(b,"a\\r\\r\\nb"); return !strcmp(b,"a\\r\\nb")?0:1; }''')
T("T07-c","T07",[("string.hpp","""				return count - (!is_low_surrogate(str[i]) || i == 0 || !is_high_surrogate(str[i - 1]) ? i : i - 1);""","""				return count - (!is_low_surrogate(str[i]) || i == 0 ? i : i - 1);""")],
 "the last glyph of a UTF-16 text that has a lone low surrogate","the glyph takes the character before it",
 C+'''#include <stdex/string.hpp>
int main(){ const stdex::utf16_t t[]={'a',0xdc00}; return stdex::glyphrlen(t,2)==1?0:1; }''')
T("D01-d","D01",[("chrono.hpp","""			static std::time_t to_time_t(_In_ const time_point tp) noexcept
			{
				return tp.time_since_epoch().count() / one_second - 210866803200;
			}""","""			static std::time_t to_time_t(_In_ const time_point tp) noexcept
			{
				return (tp.time_since_epoch().count() - 210866803200 * one_second) / one_second;
			}""")],
 "a moment before 1970 with milliseconds","the second after it is given",
 C+'''#include <stdex/chrono.hpp>
int main(){ using A=stdex::chrono::aosn_timestamp; auto t=A::from_time_t(-10); return A::to_time_t(t+A::duration(500))==-10?0:1; }''')
T("C04-e","C04",[("watchdog.hpp","""					std::unique_lock<std::mutex> lk(m_mutex);
					phase = m_phase;
					if (m_cv""","""					std::unique_lock<std::mutex> lk(m_mutex);
					if (phase == m_phase)
						phase = m_phase + 1 - 1;
					phase = m_phase;
					if (m_cv""")],
 "","","int main(){return 1;}") if 0 else None
T("C04-f","C04",[("watchdog.hpp","""				m_phase++;""","""				m_phase ^= 1;""")],
 "two resets in quick succession, both before the watchdog wakes up","neither of them is noticed",
 C+'''#include <condition_variable>
#include <functional>
#include <stdex/watchdog.hpp>
int main(){ std::atomic<int> n{0}; { stdex::watchdog<std::chrono::steady_clock> w(std::chrono::milliseconds(300),[&]{n++;}); for(int i=0;i<12;i++){ std::this_thread::sleep_for(std::chrono::milliseconds(60)); w.reset(); w.reset(); } } return n==0?0:1; }''')
T("G01-c","G01",[("progress.hpp","""			if (value == m_start || value == m_end)
				m_last = std::chrono::high_resolution_clock::now();
			else if""","""			if (value == m_start || (value == m_end && value != m_value))
				m_last = std::chrono::high_resolution_clock::now();
			else if""")],
 "","","int main(){return 1;}") if 0 else None
T("W01-c","W01",[("html.hpp","""						if (m_condition_start.match(source, i, num_chars)) {
							m_num_invalid_conditions++;
							i = m_num_parsed = m_condition_start.interval.end;
							continue;
						}
						goto next_char;""","""						goto next_char;""")],"","","int main(){return 1;}") if 0 else None
T("W01-c","W01",[("html.hpp","""						if (m_num_parsed < i)
							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));

						m_num_valid_conditions--;""","""						if (m_num_parsed + 1 < i)
							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));

						m_num_valid_conditions--;""")],
 "a text of one character right before the end of an included section","the character is lost",
 C+'''#include <stdex/html.hpp>
struct D: stdex::html::document<char>{ size_t n(){ size_t k=0; for(auto&s:m_sequences) if(s->type==stdex::parser::html_sequence_t::text) k++; return k; } };
int main(){ D d; const char*t="<p><![INCLUDE[x]]></p>"; d.append(t,strlen(t)); return d.n()==1?0:1; }''')
T("W01-d","W01",[("html.hpp","""								e->parent = starting_tag->parent;
								starting_tag->end = e.get();
								m_element_stack.resize(j);""","""								e->parent = starting_tag->parent;
								if (!starting_tag->end)
									starting_tag->end = e.get();
								m_element_stack.pop_back();
								if (e->type == stdex::parser::html_sequence_t::element)
									break;""")],
 "an empty element that ends more than one open element at once","only the innermost is ended",
 C+'''#include <stdex/html.hpp>
struct D: stdex::html::document<char>{ std::string s(){ std::string r; for(auto&q:m_sequences){ char b[32]; snprintf(b,32,"%d:%zd ",(int)q->type,q->parent?(ssize_t)q->parent->interval.start:-1); r+=b; } return r; } };
int main(){ D a,b; const char*t="<p><b><i><hr/>x",*u="<p><b><i><hr>x"; a.append(t,strlen(t)); b.append(u,strlen(u)); auto x=a.s(),y=b.s(); puts(x.c_str()); puts(y.c_str()); return 0; }''') if 0 else None
