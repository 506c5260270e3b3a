From a2785fec0c2bb781ed924b4c80799d3c143ddcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 001/128] fix: count the bits of 4 GiB and larger blocks when
 hashing

---
 include/stdex/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/hash.hpp b/include/stdex/hash.hpp
index 4947ec0..7380a3c 100644
--- a/include/stdex/hash.hpp
+++ b/include/stdex/hash.hpp
@@ -89,7 +89,7 @@ namespace stdex
 			// Update number of m_counter[1].
 			if ((m_counter[0] += (static_cast<uint32_t>(length) << 3)) < (static_cast<uint32_t>(length) << 3))
 				m_counter[1]++;
-			m_counter[1] += static_cast<uint32_t>(length) >> 29;
+			m_counter[1] += static_cast<uint32_t>(length >> 29);
 
 			// Transform as many times as possible.
 			size_t i, remainder = 64 - j;
-- 
2.43.0


From 6a401158da70104d3a463c70fa9c48a3a2501e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 002/128] fix: report the bytes taken when writing Base64 fails

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 28c1108..5564c61 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -205,7 +205,7 @@ namespace stdex
 					encode();
 					if (!m_source->ok()) _Unlikely_ {
 						m_state = m_source->state();
-						return length - i;
+						return i;
 					}
 					m_num = 0;
 				}
-- 
2.43.0


From 0a1e7f4c49b3aa69e6d1bd892eccedcfb04263ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 003/128] fix: count the last bytes read from Base64 before
 forgetting them

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 5564c61..ef3a313 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -420,9 +420,9 @@ namespace stdex
 				if (m_temp_len < 3 && to_read >= 3) {
 					// If Base64 indicates end of data, truncate read to hint the client, end of Base64 data has been reached.
 					memcpy(data, m_temp + m_temp_off, m_temp_len);
+					to_read -= m_temp_len;
 					m_temp_off = 0;
 					m_temp_len = 0;
-					to_read -= m_temp_len;
 					m_state = stdex::stream::state_t::ok;
 					return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.
 				}
-- 
2.43.0


From e047e6db1cdcc64178000d5a2e8603b0dd45f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 004/128] fix: end reading at the end of compressed data and
 refuse a preset dictionary

---
 include/stdex/zlib.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 1d2ad70..832f1d3 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -157,7 +157,14 @@ namespace stdex
 							return 0;
 						}
 					}
-					throw_on_zlib_error(inflate(&m_zlib, Z_NO_FLUSH));
+					int result = inflate(&m_zlib, Z_NO_FLUSH);
+					throw_on_zlib_error(result == Z_NEED_DICT ? Z_DATA_ERROR : result);
+					if (result == Z_STREAM_END) {
+						// End of compressed data. Any data following it does not belong to us.
+						num_read += num_deflated - m_zlib.avail_out;
+						m_state = num_read ? stdex::stream::state_t::ok : stdex::stream::state_t::eof;
+						return num_read;
+					}
 				} while (m_zlib.avail_out);
 				num_read += num_deflated;
 				reinterpret_cast<Bytef*&>(data) += num_deflated;
-- 
2.43.0


From dfa82b1c42ee1d5aa460451410253ac1f2386565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 005/128] fix: release the old storage when a vector queue is
 move-assigned

---
 include/stdex/vector_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 007dc29..caf1ab7 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -137,6 +137,7 @@ namespace stdex
 		vector_queue<value_type>& operator=(_Inout_ vector_queue<value_type> &&other)
 		{
 			if (this != std::addressof(other)) {
+				if (m_data) delete [] m_data;
 				m_data     = std::move(other.m_data    );
 				m_head     = std::move(other.m_head    );
 				m_count    = std::move(other.m_count   );
-- 
2.43.0


From fc9d789219aae4f206e42b2fa5ffc65108b4a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 006/128] fix: push to the front of a vector queue whose
 capacity is not a power of two

---
 include/stdex/vector_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index caf1ab7..d6218e4 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -317,7 +317,7 @@ namespace stdex
 		///
 		size_type push_front(_In_ const value_type &v)
 		{
-			m_head = abs(-1);
+			m_head = abs(m_size_max - 1);
 			if (m_count < m_size_max)
 				m_count++;
 			m_data[m_head] = v;
@@ -333,7 +333,7 @@ namespace stdex
 		///
 		size_type push_front(_Inout_ value_type&&v)
 		{
-			m_head = abs(-1);
+			m_head = abs(m_size_max - 1);
 			if (m_count < m_size_max)
 				m_count++;
 			m_data[m_head] = std::move(v);
-- 
2.43.0


From 341189af61a239f6dc5681bd0973ed1c6fb521b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 007/128] fix: rotate by zero bits without an undefined shift

---
 include/stdex/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/math.hpp b/include/stdex/math.hpp
index d513322..ff9449b 100644
--- a/include/stdex/math.hpp
+++ b/include/stdex/math.hpp
@@ -80,7 +80,7 @@ namespace stdex
 #ifdef _WIN32
 		return _rotl(value, bits);
 #else
-		return (value << bits) | (value >> (32 - bits));
+		return (value << (bits & 31)) | (value >> (-bits & 31));
 #endif
 	}
 
-- 
2.43.0


From 275a71502737a104bfded1b776d571df48a8f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 008/128] fix: keep the whole product in 64-bit muldiv

---
 include/stdex/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/stdex/math.hpp b/include/stdex/math.hpp
index ff9449b..a87ac3a 100644
--- a/include/stdex/math.hpp
+++ b/include/stdex/math.hpp
@@ -123,7 +123,11 @@ namespace stdex
 	///
 	inline constexpr int64_t muldiv(int64_t n, int64_t k, int64_t q)
 	{
+#ifdef __SIZEOF_INT128__
+		return static_cast<int64_t>(static_cast<__int128>(n) * k / q);
+#else
 		return n * k / q;
+#endif
 	}
 
 	///
@@ -137,6 +141,10 @@ namespace stdex
 	///
 	inline constexpr uint64_t muldiv(uint64_t n, uint64_t k, uint64_t q)
 	{
+#ifdef __SIZEOF_INT128__
+		return static_cast<uint64_t>(static_cast<unsigned __int128>(n) * k / q);
+#else
 		return n * k / q;
+#endif
 	}
 }
-- 
2.43.0


From 0edacf0af26993286c07486bc095f81a5720d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 009/128] fix: insist on the last dash when reading an UUID

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 7a81877..e521903 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -146,7 +146,7 @@ namespace stdex
 #endif
 		i += j;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
-		if (i >= count && str[i] != '-') return false;
+		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-- 
2.43.0


From 65c2ce6fad436f2f81e9deaaacbffed71845d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 010/128] fix: write UUID in wide characters without a stray
 argument

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index e521903..1f4d384 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -69,7 +69,7 @@ namespace stdex
 			static_cast<unsigned int>(id.Data4[0]), static_cast<unsigned int>(id.Data4[1]),
 			static_cast<unsigned int>(id.Data4[2]), static_cast<unsigned int>(id.Data4[3]), static_cast<unsigned int>(id.Data4[4]), static_cast<unsigned int>(id.Data4[5]), static_cast<unsigned int>(id.Data4[6]), static_cast<unsigned int>(id.Data4[7]));
 #else
-		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}", NULL,
+		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}",
 			*reinterpret_cast<const uint32_t*>(&id[0]),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[4])),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[6])),
-- 
2.43.0


From 4e6bbdbee9c8bdc21281b05bef0cc07178034198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 011/128] fix: keep optimizers from removing the wipe of
 sanitized memory

---
 include/stdex/memory.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/memory.hpp b/include/stdex/memory.hpp
index 97c6f05..8b3fd9b 100644
--- a/include/stdex/memory.hpp
+++ b/include/stdex/memory.hpp
@@ -108,6 +108,7 @@ namespace stdex
 			SecureZeroMemory(p, sizeof(T) * n);
 #else
 			memset(p, 0, sizeof(T) * n);
+			__asm__ __volatile__("" : : "r"(p) : "memory"); // Keep the compiler from eliding memset.
 #endif
 			std::allocator<T>::deallocate(p, n);
 		}
@@ -133,6 +134,7 @@ namespace stdex
 			SecureZeroMemory(m_data, N);
 #else
 			memset(m_data, 0, N);
+			__asm__ __volatile__("" : : "r"(m_data) : "memory"); // Keep the compiler from eliding memset.
 #endif
 		}
 
-- 
2.43.0


From 46e6c8daabe313d38c000a283b07b9ccf96953db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 012/128] fix: convert nanoseconds of system time to
 milliseconds

---
 include/stdex/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 77c0681..0c35d24 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -299,7 +299,7 @@ namespace stdex {
 			///
 			static time_point from_system(_In_ const struct timespec& t) noexcept
 			{
-				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000)));
+				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000000)));
 			}
 #endif
 
-- 
2.43.0


From 76090283cb716cb06b68826691b0eff5cdc72a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 013/128] fix: fill in the day of the year of broken-down time

---
 include/stdex/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 0c35d24..cdbb1f2 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -316,7 +316,7 @@ namespace stdex {
 				date.tm_mon = month - 1;
 				date.tm_year = year - 1900;
 				date.tm_wday = (static_cast<int>(aosn_date::day_of_week(to_date(tp))) + 1) % 7;
-				date.tm_yday = 0;
+				date.tm_yday = static_cast<int>((to_date(tp) - aosn_date::from_dmy(1, 1, year)).count());
 				date.tm_isdst = 0;
 			}
 
-- 
2.43.0


From bf377c2fd146016e969621671f949305af28da51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 014/128] fix: release time text buffers the way they were
 allocated

---
 include/stdex/chrono.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index cdbb1f2..fdd557b 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -431,7 +431,7 @@ namespace stdex {
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
-					std::unique_ptr<char> buf(new char[num_chars]);
+					std::unique_ptr<char[]> buf(new char[num_chars]);
 #if _WIN32
 					n = _strftime_l(buf.get(), num_chars, format, &date, locale);
 #else
@@ -464,7 +464,7 @@ namespace stdex {
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
-					std::unique_ptr<wchar_t> buf(new wchar_t[num_chars]);
+					std::unique_ptr<wchar_t[]> buf(new wchar_t[num_chars]);
 #if _WIN32
 					n = _wcsftime_l(buf.get(), num_chars, format, &date, locale);
 #else
-- 
2.43.0


From 8c753d1ab1b0d2fbdc477a7381a0454b452b9c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 015/128] fix: do not format time with uninitialized zone

---
 include/stdex/chrono.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index fdd557b..1569729 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -415,7 +415,7 @@ namespace stdex {
 			template<class TR = std::char_traits<char>, class AX = std::allocator<char>>
 			static std::basic_string<char, TR, AX> to_str(_In_ const time_point tp, _In_z_ const char* format, _In_opt_ locale_t locale)
 			{
-				struct tm date;
+				struct tm date = {};
 				to_system(tp, date);
 				std::basic_string<char, TR, AX> str;
 				char stack_buffer[1024 / sizeof(char)];
@@ -448,7 +448,7 @@ namespace stdex {
 			template<class TR = std::char_traits<wchar_t>, class AX = std::allocator<wchar_t>>
 			static std::basic_string<wchar_t, TR, AX> to_str(_In_ const time_point tp, _In_z_ const wchar_t* format, _In_opt_ locale_t locale)
 			{
-				struct tm date;
+				struct tm date = {};
 				to_system(tp, date);
 				std::basic_string<wchar_t, TR, AX> str;
 				wchar_t stack_buffer[1024 / sizeof(wchar_t)];
-- 
2.43.0


From 6a4d73a262a1c6d35b1de28cf4715f3d432d5ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 016/128] fix: end when the text of a time stamp is empty

---
 include/stdex/chrono.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 1569729..f51580a 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -418,27 +418,29 @@ namespace stdex {
 				struct tm date = {};
 				to_system(tp, date);
 				std::basic_string<char, TR, AX> str;
+				std::basic_string<char> prefixed_format(1, ' '); // Makes output never empty, so 0 always means "buffer too small".
+				prefixed_format += format;
 				char stack_buffer[1024 / sizeof(char)];
 				size_t n;
 #if _WIN32
-				n = _strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = _strftime_l(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date, locale);
 #else
-				n = strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = strftime_l(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date, locale);
 #endif
 				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
+					str.assign(stack_buffer + 1, stack_buffer + n);
 					return str;
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
 					std::unique_ptr<char[]> buf(new char[num_chars]);
 #if _WIN32
-					n = _strftime_l(buf.get(), num_chars, format, &date, locale);
+					n = _strftime_l(buf.get(), num_chars, prefixed_format.c_str(), &date, locale);
 #else
-					n = strftime_l(buf.get(), num_chars, format, &date, locale);
+					n = strftime_l(buf.get(), num_chars, prefixed_format.c_str(), &date, locale);
 #endif
 					if (n) {
-						str.assign(buf.get(), buf.get() + n);
+						str.assign(buf.get() + 1, buf.get() + n);
 						return str;
 					}
 					num_chars = stdex::mul(num_chars, 2);
@@ -451,27 +453,29 @@ namespace stdex {
 				struct tm date = {};
 				to_system(tp, date);
 				std::basic_string<wchar_t, TR, AX> str;
+				std::basic_string<wchar_t> prefixed_format(1, L' '); // Makes output never empty, so 0 always means "buffer too small".
+				prefixed_format += format;
 				wchar_t stack_buffer[1024 / sizeof(wchar_t)];
 				size_t n;
 #if _WIN32
-				n = _wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = _wcsftime_l(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date, locale);
 #else
-				n = wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = wcsftime_l(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date, locale);
 #endif
 				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
+					str.assign(stack_buffer + 1, stack_buffer + n);
 					return str;
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
 					std::unique_ptr<wchar_t[]> buf(new wchar_t[num_chars]);
 #if _WIN32
-					n = _wcsftime_l(buf.get(), num_chars, format, &date, locale);
+					n = _wcsftime_l(buf.get(), num_chars, prefixed_format.c_str(), &date, locale);
 #else
-					n = wcsftime_l(buf.get(), num_chars, format, &date, locale);
+					n = wcsftime_l(buf.get(), num_chars, prefixed_format.c_str(), &date, locale);
 #endif
 					if (n) {
-						str.assign(buf.get(), buf.get() + n);
+						str.assign(buf.get() + 1, buf.get() + n);
 						return str;
 					}
 					num_chars = stdex::mul(num_chars, 2);
-- 
2.43.0


From 764a93f2a4b2b84ebc72cb7ee6112b4821720a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 017/128] fix: end when formatting a time gives an empty string

---
 include/stdex/string.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ac00a05..4db4f58 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2832,21 +2832,24 @@ namespace stdex
 	void strcatftime(_Inout_ std::basic_string<T, TR, AX>& str, _In_z_ _Printf_format_string_ const T* format, _In_ const struct tm* time, _In_opt_ locale_t locale)
 	{
 		T buf[1024 / sizeof(T)];
+		std::basic_string<T> prefixed_format(1, ' '); // Makes output never empty, so 0 always means "buffer too small".
+		prefixed_format += format;
 
 		// Try with stack buffer first.
-		size_t count = strftime(buf, _countof(buf), format, time, locale);
+		size_t count = strftime(buf, _countof(buf), prefixed_format.c_str(), time, locale);
 		if (count) {
 			// Copy from stack.
-			str.append(buf, count);
+			str.append(buf + 1, count - 1);
 			return;
 		}
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
 			// Allocate on heap and retry.
 			str.resize(offset + capacity);
-			count = strftime(&str[offset], capacity + 1, format, time, locale);
+			count = strftime(&str[offset], capacity + 1, prefixed_format.c_str(), time, locale);
 			if (count) {
 				str.resize(offset + count);
+				str.erase(offset, 1);
 				return;
 			}
 		}
-- 
2.43.0


From c50ff3e4a83aedd71fd3b80d19f625171faee5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 018/128] fix: format time in the global locale when none is
 given

---
 include/stdex/chrono.hpp | 8 ++++----
 include/stdex/string.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index f51580a..a9c52ba 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -425,7 +425,7 @@ namespace stdex {
 #if _WIN32
 				n = _strftime_l(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date, locale);
 #else
-				n = strftime_l(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date, locale);
+				n = locale ? strftime_l(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date, locale) : ::strftime(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date);
 #endif
 				if (n) {
 					str.assign(stack_buffer + 1, stack_buffer + n);
@@ -437,7 +437,7 @@ namespace stdex {
 #if _WIN32
 					n = _strftime_l(buf.get(), num_chars, prefixed_format.c_str(), &date, locale);
 #else
-					n = strftime_l(buf.get(), num_chars, prefixed_format.c_str(), &date, locale);
+					n = locale ? strftime_l(buf.get(), num_chars, prefixed_format.c_str(), &date, locale) : ::strftime(buf.get(), num_chars, prefixed_format.c_str(), &date);
 #endif
 					if (n) {
 						str.assign(buf.get() + 1, buf.get() + n);
@@ -460,7 +460,7 @@ namespace stdex {
 #if _WIN32
 				n = _wcsftime_l(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date, locale);
 #else
-				n = wcsftime_l(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date, locale);
+				n = locale ? wcsftime_l(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date, locale) : ::wcsftime(stack_buffer, _countof(stack_buffer), prefixed_format.c_str(), &date);
 #endif
 				if (n) {
 					str.assign(stack_buffer + 1, stack_buffer + n);
@@ -472,7 +472,7 @@ namespace stdex {
 #if _WIN32
 					n = _wcsftime_l(buf.get(), num_chars, prefixed_format.c_str(), &date, locale);
 #else
-					n = wcsftime_l(buf.get(), num_chars, prefixed_format.c_str(), &date, locale);
+					n = locale ? wcsftime_l(buf.get(), num_chars, prefixed_format.c_str(), &date, locale) : ::wcsftime(buf.get(), num_chars, prefixed_format.c_str(), &date);
 #endif
 					if (n) {
 						str.assign(buf.get() + 1, buf.get() + n);
diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 4db4f58..ff9cd28 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2806,7 +2806,7 @@ namespace stdex
 #ifdef _WIN32
 		return _strftime_l(str, capacity, format, time, locale);
 #else
-		return strftime_l(str, capacity, format, time, locale);
+		return locale ? strftime_l(str, capacity, format, time, locale) : ::strftime(str, capacity, format, time);
 #endif
 	}
 
@@ -2815,7 +2815,7 @@ namespace stdex
 #ifdef _WIN32
 		return _wcsftime_l(str, capacity, format, time, locale);
 #else
-		return wcsftime_l(str, capacity, format, time, locale);
+		return locale ? wcsftime_l(str, capacity, format, time, locale) : ::wcsftime(str, capacity, format, time);
 #endif
 	}
 	/// \endcond
-- 
2.43.0


From 09d0172074cba5e2818297153a78ca9bd97efceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 019/128] fix: skipping a few bytes over the end of a stream
 reports the state instead of throwing

---
 include/stdex/stream.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 60a0cdb..f52b464 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -147,14 +147,9 @@ namespace stdex
 			///
 			virtual void skip(_In_ fsize_t amount)
 			{
-				if (amount == 1)
-					read_byte();
-				else if (amount < iterate_count) {
-					for (size_t i = 0; i < static_cast<size_t>(amount); i++) {
-						read_byte();
-						if (!ok()) _Unlikely_
-							break;
-					}
+				if (amount < iterate_count) {
+					uint8_t dummy[iterate_count];
+					read_array(dummy, sizeof(uint8_t), static_cast<size_t>(amount));
 				}
 				else {
 					size_t block = static_cast<size_t>(std::min<fsize_t>(amount, default_block_size));
-- 
2.43.0


From 66fa903d61ab2c6a5c95c53d0580a36a0f5245cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 020/128] fix: reading an array no longer counts the last
 element as read when only a part of it was

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f52b464..9a8a0ba 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -376,7 +376,7 @@ namespace stdex
 					if (!to_read)
 						return count;
 					if (!ok()) _Unlikely_
-						return count - to_read / size;
+						return (size * count - to_read) / size;
 					reinterpret_cast<uint8_t*&>(array) += num_read;
 				}
 			}
-- 
2.43.0


From 8da5bee772faa9acc532ab50f5f76ed91f827fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 021/128] fix: copying a stream reports failure to write
 instead of overwriting it with the state of the source

---
 include/stdex/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 9a8a0ba..3996f1b 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -562,6 +562,8 @@ namespace stdex
 					size_t num_written = write(data.get(), num_read);
 					num_copied += num_written;
 					to_write -= num_written;
+					if (num_read && !ok()) _Unlikely_
+						break;
 					if (stream.m_state == state_t::eof) {
 						// EOF is not an error.
 						m_state = state_t::ok;
-- 
2.43.0


From cb4539fe777f9e079130ba77520d3167e9ce1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 022/128] fix: reading vectors and sets from a stream returns
 the stream

---
 include/stdex/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 3996f1b..4b70315 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -704,6 +704,7 @@ namespace stdex
 						return *this;
 					data.push_back(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
@@ -733,6 +734,7 @@ namespace stdex
 						return *this;
 					data.insert(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
-- 
2.43.0


From af9d37f306c67fa63c7bba3e23501d6ab0921ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 023/128] fix: reading strings and vectors does not reserve
 memory for more elements than there may be in the stream

---
 include/stdex/stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 4b70315..323a7c9 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -472,7 +472,7 @@ namespace stdex
 				read_data(num_chars);
 				if (!ok()) _Unlikely_
 					return *this;
-				data.reserve(num_chars);
+				data.reserve(std::min<uint32_t>(num_chars, default_block_size));
 				for (;;) {
 					constexpr uint32_t buf_chars = 0x400;
 					T buf[buf_chars];
@@ -696,7 +696,7 @@ namespace stdex
 				*this >> num;
 				if (!ok()) _Unlikely_
 					return *this;
-				data.reserve(num);
+				data.reserve(std::min<uint32_t>(num, default_block_size));
 				for (uint32_t i = 0; i < num; ++i) {
 					T el;
 					*this >> el;
-- 
2.43.0


From b201b6bc1e0826024bb83d2542fe1d61cd4f9a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 024/128] fix: reading the remainder of a file positioned
 beyond its end

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 323a7c9..a839667 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -815,7 +815,9 @@ namespace stdex
 		public:
 			virtual std::vector<uint8_t> read_remainder(_In_ size_t max_length = SIZE_MAX)
 			{
-				size_t length = std::min<size_t>(max_length, static_cast<size_t>(size() - tell()));
+				fsize_t end = size();
+				fpos_t offset = tell();
+				size_t length = static_cast<size_t>(std::min<fsize_t>(max_length, offset < end ? end - offset : 0));
 				std::vector<uint8_t> result;
 				try { result.resize(length); }
 				catch (const std::bad_alloc&) {
-- 
2.43.0


From 66c52e465df45b6d054e423d42ae7fa43f55b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 025/128] fix: reading a memory file positioned beyond its end

---
 include/stdex/stream.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index a839667..dbcc72f 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3556,14 +3556,14 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = time_point::now();
 #endif
-				size_t available = m_size - m_offset;
+				size_t available = m_offset < m_size ? m_size - m_offset : 0;
 				if (length <= available) {
 					memcpy(data, &m_data[m_offset], length);
 					m_offset += length;
 					m_state = state_t::ok;
 					return length;
 				}
-				if (length && !available) {
+				if (!available) {
 					m_state = state_t::eof;
 					return 0;
 				}
@@ -3607,7 +3607,7 @@ namespace stdex
 				}
 				else {
 					data = 0;
-					m_offset = m_size;
+					m_offset = std::max(m_offset, m_size);
 					m_state = state_t::eof;
 				}
 				return *this;
@@ -3654,7 +3654,7 @@ namespace stdex
 					if (end_offset <= m_size)
 						data.assign(start, reinterpret_cast<T*>(&m_data[m_size]));
 				}
-				m_offset = m_size;
+				m_offset = std::max(m_offset, m_size);
 				m_state = state_t::eof;
 				return *this;
 			}
-- 
2.43.0


From e98f5b19a486bd1424af02b8b7f623e0100b0be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 026/128] fix: reading a string cut short from a memory file
 leaves no previous text in it

---
 include/stdex/stream.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index dbcc72f..3464194 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3651,9 +3651,10 @@ namespace stdex
 #endif
 						return *this;
 					}
-					if (end_offset <= m_size)
-						data.assign(start, reinterpret_cast<T*>(&m_data[m_size]));
+					data.assign(start, start + (m_size - m_offset) / sizeof(T));
 				}
+				else
+					data.clear();
 				m_offset = std::max(m_offset, m_size);
 				m_state = state_t::eof;
 				return *this;
-- 
2.43.0


From 3a7b2e0a4f02a6d05342f1fce58dd78b85d07960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 027/128] fix: gaps in memory files read as zeros

---
 include/stdex/stream.hpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 3464194..206d1ef 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3667,12 +3667,17 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (!length) _Unlikely_ {
+					m_state = state_t::ok;
+					return 0;
+				}
 				size_t end_offset = m_offset + length;
 				if (end_offset > m_reserved) {
 					reserve(end_offset);
 					if (!ok()) _Unlikely_
 						return 0;
 				}
+				fill_gap();
 				memcpy(&m_data[m_offset], data, length);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3689,12 +3694,17 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (!amount) _Unlikely_ {
+					m_state = state_t::ok;
+					return;
+				}
 				size_t end_offset = m_offset + amount;
 				if (end_offset > m_reserved) {
 					reserve(end_offset);
 					if (!ok()) _Unlikely_
 						return;
 				}
+				fill_gap();
 				memset(&m_data[m_offset], byte, amount);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3730,6 +3740,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				(*reinterpret_cast<T*>(&m_data[m_offset])) = HE2LE(data);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3773,6 +3784,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data, size_chars);
@@ -3818,6 +3830,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data.data(), size_chars);
@@ -3879,9 +3892,12 @@ namespace stdex
 						}
 					};
 				}
-				m_offset = dst_offset;
-				if (m_offset > m_size)
-					m_size = m_offset;
+				if (num_copied) {
+					fill_gap();
+					m_offset = dst_offset;
+					if (m_offset > m_size)
+						m_size = m_offset;
+				}
 				return num_copied;
 			}
 
@@ -3930,8 +3946,11 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
-				m_size = m_offset;
 				reserve(m_offset);
+				if (!ok()) _Unlikely_
+					return;
+				fill_gap();
+				m_size = m_offset;
 			}
 
 #if SET_FILE_OP_TIMES
@@ -4068,6 +4087,17 @@ namespace stdex
 			memory_file& operator <<(_In_ const std::basic_string<T, TR, AX>& data) { return write_str(data); }
 
 		protected:
+			///
+			/// Fills the gap left by seeking beyond the end of file with zeros
+			///
+			void fill_gap() noexcept
+			{
+				if (m_offset > m_size) {
+					memset(&m_data[m_size], 0, m_offset - m_size);
+					m_size = m_offset;
+				}
+			}
+
 			uint8_t* m_data; ///< file data
 			bool m_manage; ///< may reallocate m_data?
 			size_t m_offset; ///< file pointer
-- 
2.43.0


From b852e41b2c1d4538964a81cce204afd32f49079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 028/128] fix: saving a memory file sets the state

---
 include/stdex/stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 206d1ef..6c7d189 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3525,6 +3525,7 @@ namespace stdex
 					return;
 				}
 				f.truncate();
+				m_state = f.state();
 #if SET_FILE_OP_TIMES
 				f.set_ctime(m_ctime);
 				f.set_atime(m_atime);
-- 
2.43.0


From b0e207acca28c5262eb733d386c2044d2505aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 029/128] fix: failure to lock a file section is reported

---
 include/stdex/stream.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 6c7d189..21c555d 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2882,7 +2882,6 @@ namespace stdex
 						throw std::invalid_argument("file section length too big");
 					m_state = lseek64(m_h, static_cast<off64_t>(offset), SEEK_SET) >= 0 && lockf64(m_h, F_LOCK, static_cast<off64_t>(length)) >= 0 ? state_t::ok : state_t::fail;
 					lseek64(m_h, orig, SEEK_SET);
-					m_state = state_t::ok;
 					return;
 				}
 #endif
-- 
2.43.0


From 44fa39ff1ff51b0e28cbd1938e1a91da83700781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 030/128] fix: setting file times in seconds

---
 include/stdex/stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 21c555d..43afc74 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3041,7 +3041,7 @@ namespace stdex
 				throw std::system_error(GetLastError(), std::system_category(), "SetFileTime failed");
 #else
 				struct timespec ts[2] = {
-					{ date.time_since_epoch().count(), 0 },
+					{ clock::to_time_t(date), 0 },
 					{ 0, UTIME_OMIT },
 				};
 				if (futimens(m_h, ts) >= 0)
@@ -3061,7 +3061,7 @@ namespace stdex
 #else
 				struct timespec ts[2] = {
 					{ 0, UTIME_OMIT },
-					{ date.time_since_epoch().count(), 0 },
+					{ clock::to_time_t(date), 0 },
 				};
 				if (futimens(m_h, ts) >= 0)
 					return;
-- 
2.43.0


From 59ebf31658214eb4a57bc402b8d085cb6bfe440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 031/128] fix: gaps in cached files are filled with zeros

---
 include/stdex/stream.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 43afc74..af37402 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1945,6 +1945,11 @@ namespace stdex
 						fpos_t end_max = m_cache.region.start + m_cache.capacity;
 						if (m_cache.region.start <= m_offset && m_offset < end_max) {
 							size_t remaining_cache = static_cast<size_t>(end_max - m_offset);
+							if (m_cache.region.end < m_offset) {
+								// Fill the gap left by seeking beyond the end of data.
+								memset(m_cache.data + static_cast<size_t>(m_cache.region.end - m_cache.region.start), 0, static_cast<size_t>(m_offset - m_cache.region.end));
+								m_cache.region.end = m_offset;
+							}
 							if (to_write <= remaining_cache) {
 								memcpy(m_cache.data + static_cast<size_t>(m_offset - m_cache.region.start), data, to_write);
 								m_offset += to_write;
-- 
2.43.0


From f7cf6df16069b5cdd678389d041bbe3fb10f6378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 032/128] fix: size of a cached file does not grow by reading
 beyond its end

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index af37402..0d9e2b0 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2056,7 +2056,7 @@ namespace stdex
 
 			virtual fsize_t size() const
 			{
-				return m_cache.status != cache_t::cache_t::status_t::empty ?
+				return m_cache.status == cache_t::cache_t::status_t::dirty && !m_cache.region.empty() ?
 					std::max(m_source->size(), m_cache.region.end) :
 					m_source->size();
 			}
-- 
2.43.0


From f3a0d8109711df07bd4b19d7eabb618eff7610ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 033/128] fix: cached file does not keep a block overwritten
 directly

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 0d9e2b0..33c7719 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1965,7 +1965,7 @@ namespace stdex
 							m_cache.status = cache_t::cache_t::status_t::dirty;
 							m_cache.region.end = end_max;
 						}
-						flush_cache();
+						invalidate_cache();
 						if (!ok()) _Unlikely_
 							return length - to_write;
 					}
-- 
2.43.0


From ca32860d565fe130d89e84422e72021a2091d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 034/128] fix: null reads and writes of cached files

---
 include/stdex/stream.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 33c7719..3d47691 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1927,7 +1927,7 @@ namespace stdex
 						return length - to_read;
 					}
 					if (m_cache.region.end <= m_offset) _Unlikely_ {
-						m_state = to_read < length ? state_t::ok : state_t::eof;
+						m_state = to_read < length || !length ? state_t::ok : state_t::eof;
 						return length - to_read;
 					}
 				}
@@ -1940,6 +1940,10 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (!length) _Unlikely_ {
+					m_state = state_t::ok;
+					return 0;
+				}
 				for (size_t to_write = length;;) {
 					if (m_cache.status != cache_t::cache_t::status_t::empty) {
 						fpos_t end_max = m_cache.region.start + m_cache.capacity;
-- 
2.43.0


From 6b46d5bcdb76bbeb3caa43ab6feb86d3d97ef6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 035/128] fix: cached file reports failures of its source

---
 include/stdex/stream.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 3d47691..26784be 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1978,6 +1978,7 @@ namespace stdex
 						if (m_offset / m_cache.capacity < end_max / m_cache.capacity) {
 							// Write spans multiple cache blocks. Bypass cache to the last block.
 							m_source->seekbeg(m_offset);
+							m_state = m_source->state();
 							if (!ok()) _Unlikely_
 								return length - to_write;
 							size_t num_written = m_source->write(data, to_write - static_cast<size_t>(end_max % m_cache.capacity));
@@ -2013,6 +2014,7 @@ namespace stdex
 				if (!ok()) _Unlikely_
 					return;
 				m_source->flush();
+				m_state = m_source->state();
 			}
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
@@ -2071,6 +2073,9 @@ namespace stdex
 				m_atime = m_mtime = time_point::now();
 #endif
 				m_source->seekbeg(m_offset);
+				m_state = m_source->state();
+				if (!ok()) _Unlikely_
+					return;
 				if (m_cache.region.end <= m_offset) {
 					// Truncation does not affect cache.
 				}
@@ -2176,7 +2181,8 @@ namespace stdex
 			{
 				stdex_assert(m_cache.status == cache_t::cache_t::status_t::dirty);
 				m_source->seekbeg(m_cache.region.start);
-				m_source->write(m_cache.data, static_cast<size_t>(m_cache.region.size()));
+				if (m_source->ok())
+					m_source->write(m_cache.data, static_cast<size_t>(m_cache.region.size()));
 				m_state = m_source->state();
 			}
 
-- 
2.43.0


From 70150c4bcf963e02d968c42674b8443c7f26e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 036/128] fix: cached file does not take a short read for the
 end of its source

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 26784be..98d8ad1 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2169,7 +2169,7 @@ namespace stdex
 				start -= start % m_cache.capacity; // Align to cache block size.
 				m_source->seekbeg(m_cache.region.start = start);
 				if (m_source->ok()) {
-					m_cache.region.end = start + m_source->read(m_cache.data, m_cache.capacity);
+					m_cache.region.end = start + m_source->read_array(m_cache.data, sizeof(uint8_t), m_cache.capacity);
 					m_cache.status = cache_t::cache_t::status_t::loaded;
 					m_state = state_t::ok; // Regardless the read failure, we still might have cached some data.
 				}
-- 
2.43.0


From 3a807aab3c645ec26063617362412ffb07ad211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 037/128] fix: cached file tells failure to read its source
 from its end

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 98d8ad1..21e916d 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1927,7 +1927,7 @@ namespace stdex
 						return length - to_read;
 					}
 					if (m_cache.region.end <= m_offset) _Unlikely_ {
-						m_state = to_read < length || !length ? state_t::ok : state_t::eof;
+						m_state = to_read < length || !length ? state_t::ok : m_source->state() == state_t::fail ? state_t::fail : state_t::eof;
 						return length - to_read;
 					}
 				}
@@ -1991,6 +1991,8 @@ namespace stdex
 						}
 					}
 					load_cache(m_offset);
+					if (ok() && m_cache.region.end < m_offset && m_source->state() == state_t::fail) _Unlikely_
+						m_state = state_t::fail; // Contents before the offset are not known.
 					if (!ok()) _Unlikely_
 						return length - to_write;
 				}
-- 
2.43.0


From 861487c6112926710c710226be25083b772f4ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 038/128] fix: destroying a cached file that cannot be flushed
 does not use the closed file

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 21e916d..7e3a467 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1829,8 +1829,10 @@ namespace stdex
 			{
 				if (m_source) {
 					flush_cache();
-					if (!ok()) _Unlikely_
+					if (!ok()) _Unlikely_ {
+						m_source = nullptr;
 						throw std::system_error(sys_error(), std::system_category(), "failed to flush cache"); // Data loss occurred
+					}
 					m_source->seekbeg(m_offset);
 #if SET_FILE_OP_TIMES
 					m_source->set_atime(m_atime);
-- 
2.43.0


From f170fd56f070e60c665fcab9c6c3fd92e1ef8cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 039/128] fix: cached file that failed to seek its source does
 not take data of another block for it

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 7e3a467..6061498 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2177,8 +2177,10 @@ namespace stdex
 					m_cache.status = cache_t::cache_t::status_t::loaded;
 					m_state = state_t::ok; // Regardless the read failure, we still might have cached some data.
 				}
-				else
+				else {
+					m_cache.status = cache_t::cache_t::status_t::empty;
 					m_state = state_t::fail;
+				}
 			}
 
 			void write_cache()
-- 
2.43.0


From d97390f86d28cb1657b5640557a2c94aac9260d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 040/128] fix: writing over the end of a file window reports
 failure

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 6061498..597ad8d 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1721,9 +1721,11 @@ namespace stdex
 					size_t num_written = m_source.write(data, static_cast<size_t>(std::min<fpos_t>(length, m_region.end - m_offset)));
 					m_state = m_source.state();
 					m_offset += num_written;
+					if (ok() && num_written < length) _Unlikely_
+						m_state = state_t::fail;
 					return num_written;
 				}
-				m_state = state_t::fail;
+				m_state = length ? state_t::fail : state_t::ok;
 				return 0;
 			}
 
-- 
2.43.0


From aad9410985e83318d68ae90e26934e30358b728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 041/128] fix: seeking, skipping and telling position of a file
 window is relative to the window

---
 include/stdex/stream.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 597ad8d..7983ee9 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1743,21 +1743,30 @@ namespace stdex
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
 			{
-				m_offset = m_source.seek(offset, how);
+				switch (how) {
+				case seek_t::beg: break;
+				case seek_t::cur: offset = static_cast<foff_t>(m_offset - m_region.start) + offset; break;
+				case seek_t::end: offset = static_cast<foff_t>(m_region.size()) + offset; break;
+				default: throw std::invalid_argument("unknown seek origin");
+				}
+				if (offset < 0) _Unlikely_
+					throw std::invalid_argument("negative file offset");
+				fpos_t position = m_source.seekbeg(m_region.start + static_cast<fpos_t>(offset));
 				m_state = m_source.state();
-				return ok() ? m_offset - m_region.start : fpos_max;
+				if (!ok()) _Unlikely_
+					return fpos_max;
+				m_offset = position;
+				return m_offset - m_region.start;
 			}
 
 			virtual void skip(_In_ fsize_t amount)
 			{
-				m_source.skip(amount);
-				m_state = m_source.state();
+				basic_file::skip(amount);
 			}
 
 			virtual fpos_t tell() const
 			{
-				fpos_t offset = m_source.tell();
-				return m_region.contains(offset) ? offset - m_region.start : fpos_max;
+				return m_offset >= m_region.start ? m_offset - m_region.start : fpos_max;
 			}
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
-- 
2.43.0


From 6ddfa288e1e595f724752e241cb7760e54bd830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 042/128] fix: locking sections of a file window

---
 include/stdex/stream.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 7983ee9..ad91863 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1771,8 +1771,8 @@ namespace stdex
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
@@ -1781,8 +1781,8 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
-- 
2.43.0


From c09f80b3f9fe0d7c46c3e1cdfaf14d6b992859ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 043/128] fix: ring gives no room for data after it was quit

---
 include/stdex/ring.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stdex/ring.hpp b/include/stdex/ring.hpp
index d596437..62a20fe 100644
--- a/include/stdex/ring.hpp
+++ b/include/stdex/ring.hpp
@@ -43,11 +43,10 @@ namespace stdex
 		std::tuple<T*, size_t> back()
 		{
 			std::unique_lock<std::mutex> lk(m_mutex);
-			if (!space()) {
+			if (!m_quit && !space())
 				m_head_moved.wait(lk, [&]{return m_quit || space();});
-				if (m_quit) _Unlikely_
-					return { nullptr, 0 };
-			}
+			if (m_quit) _Unlikely_
+				return { nullptr, 0 };
 			size_t tail = wrap(m_head + m_size);
 			return { &m_data[tail], m_head <= tail ? N_cap - tail : m_head - tail };
 		}
-- 
2.43.0


From 42480c78781b34774413a15f9cc54e4d35c8342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 044/128] fix: asynchronous writer writes everything before
 closing and reports failure to write

---
 include/stdex/stream.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index ad91863..d6c38ca 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1356,10 +1356,20 @@ namespace stdex
 				}
 			}
 
+			virtual void close()
+			{
+				bool complete = sync();
+				converter::close();
+				if (!complete)
+					m_state = state_t::fail;
+			}
+
 			virtual void flush()
 			{
-				m_ring.sync();
-				converter::flush();
+				if (sync())
+					converter::flush();
+				else
+					m_state = state_t::fail;
 			}
 
 		protected:
@@ -1379,6 +1389,17 @@ namespace stdex
 				}
 			}
 
+			///
+			/// Waits until all the data is written
+			///
+			/// \return true if all the data has been written; false if writing failed
+			///
+			bool sync()
+			{
+				m_ring.sync();
+				return std::get<0>(m_ring.back()) != nullptr;
+			}
+
 		protected:
 			ring<uint8_t, N_cap> m_ring;
 			std::thread m_worker;
-- 
2.43.0


From a2bc8fa457ee81a3e154b480bc28beaa3aa93be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 045/128] fix: closing a buffered stream writes the buffer
 first

---
 include/stdex/stream.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index d6c38ca..9c5cdb0 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1520,6 +1520,15 @@ namespace stdex
 				}
 			}
 
+			virtual void close()
+			{
+				flush_write();
+				state_t state = m_state;
+				converter::close();
+				if (state != state_t::ok) _Unlikely_
+					m_state = state;
+			}
+
 			virtual void flush()
 			{
 				flush_write();
-- 
2.43.0


From eeeb651a8b17d36551bd1ecc2e78e25a0963ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 046/128] fix: writing over the limit of a stream reports
 failure

---
 include/stdex/stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 9c5cdb0..4af57b0 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1623,6 +1623,7 @@ namespace stdex
 				else {
 					num_written = converter::write(data, static_cast<size_t>(write_limit));
 					write_limit -= num_written;
+					m_state = state_t::fail;
 				}
 				return num_written;
 			}
-- 
2.43.0


From ac1d6ab7566bbe06ab8a5ffcbe69a16378871e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 047/128] fix: nodes of the FIFO queue are released the way
 they were allocated

---
 include/stdex/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 4af57b0..308ba55 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4270,6 +4270,8 @@ namespace stdex
 				size_t size;
 #pragma warning(suppress:4200)
 				uint8_t data[0];
+
+				static void operator delete(void* p) { delete[] reinterpret_cast<uint8_t*>(p); } // Nodes are allocated as arrays of bytes.
 			} *m_head, * m_tail;
 		};
 
-- 
2.43.0


From 44b6466da700e051ef16d62b2ea48e39590f659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 048/128] fix: cached file does not write over data it failed
 to read

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 308ba55..721ac75 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1988,10 +1988,11 @@ namespace stdex
 					m_state = state_t::ok;
 					return 0;
 				}
+				bool reloaded = false;
 				for (size_t to_write = length;;) {
 					if (m_cache.status != cache_t::cache_t::status_t::empty) {
 						fpos_t end_max = m_cache.region.start + m_cache.capacity;
-						if (m_cache.region.start <= m_offset && m_offset < end_max) {
+						if (m_cache.region.start <= m_offset && m_offset < end_max && (m_offset <= m_cache.region.end || reloaded)) {
 							size_t remaining_cache = static_cast<size_t>(end_max - m_offset);
 							if (m_cache.region.end < m_offset) {
 								// Fill the gap left by seeking beyond the end of data.
@@ -2039,6 +2040,7 @@ namespace stdex
 						m_state = state_t::fail; // Contents before the offset are not known.
 					if (!ok()) _Unlikely_
 						return length - to_write;
+					reloaded = true;
 				}
 			}
 
-- 
2.43.0


From 2e4f169b2860ae19df59a6fc9a8d1a86278a70f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 049/128] fix: locking, unlocking and truncating an empty
 diag_file

---
 include/stdex/stream.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 721ac75..fd5516e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4391,8 +4391,10 @@ namespace stdex
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->lock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4404,8 +4406,10 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->unlock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4429,8 +4433,10 @@ namespace stdex
 
 			virtual void truncate()
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->truncate();
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
-- 
2.43.0


From 34c0601e69a076fff532478b478f980725a6e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 050/128] fix: copying a stream into fixed memory failed even
 when it would fit

---
 include/stdex/stream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index fd5516e..56890a5 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3918,6 +3918,9 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				// Memory we don't manage cannot grow in advance. Only the data actually read has to fit in.
+				if (!m_manage)
+					return static_cast<size_t>(basic::write_stream(stream, amount));
 				size_t num_read, dst_offset = m_offset, dst_size = m_offset;
 				size_t num_copied = 0, to_write = amount;
 				m_state = state_t::ok;
-- 
2.43.0


From 3bad0c44bddf2660961296e94457043b220f8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 051/128] fix: converting to UTF-7 writes the end of the text
 and conversions do not share the shift state

---
 include/stdex/unicode.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/stdex/unicode.hpp b/include/stdex/unicode.hpp
index 404e2d3..185c96e 100644
--- a/include/stdex/unicode.hpp
+++ b/include/stdex/unicode.hpp
@@ -312,8 +312,15 @@ namespace stdex
 					break;
 				if (errno == E2BIG)
 					continue;
-				throw std::system_error(errno, std::system_category(), "iconv failed");
+				int err = errno;
+				clear();
+				throw std::system_error(err, std::system_category(), "iconv failed");
 			}
+			// Complete the text: write what a stateful encoding keeps and return to the initial state.
+			T_to* output = &buf[0];
+			size_t output_size = sizeof(buf);
+			iconv(m_handle, NULL, NULL, reinterpret_cast<char**>(&output), &output_size);
+			dst.append(buf, reinterpret_cast<T_to*>(reinterpret_cast<char*>(buf) + sizeof(buf) - output_size));
 #endif
 		}
 
-- 
2.43.0


From 8fa6dcbf6ebe7b9eb57ca24371a9bd2b7181ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 052/128] fix: characters are not encoded as entities that
 stand for other characters

---
 include/stdex/sgml_unicode.hpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/include/stdex/sgml_unicode.hpp b/include/stdex/sgml_unicode.hpp
index 03d214c..1771fc9 100644
--- a/include/stdex/sgml_unicode.hpp
+++ b/include/stdex/sgml_unicode.hpp
@@ -1967,7 +1967,6 @@ namespace stdex
 		0x3f3,
 		0x3dc,
 		0x3c4,
-		0x3ce,
 		0x3f8,
 		0x3c7,
 		0x3c5,
@@ -1997,7 +1996,6 @@ namespace stdex
 		0x488,
 		0x47b,
 		0x463,
-		0x46e,
 		0x48b,
 		0x466,
 		0x464,
@@ -2037,7 +2035,6 @@ namespace stdex
 		0x53a,
 		0x525,
 		0x4fe,
-		0x512,
 		0x541,
 		0x503,
 		0x4ff,
@@ -2047,7 +2044,6 @@ namespace stdex
 		0x570,
 		0x568,
 		0x54f,
-		0x557,
 		0x571,
 		0x552,
 		0x550,
@@ -2083,7 +2079,6 @@ namespace stdex
 		0x5bb,
 		0x5d0,
 		0x5c7,
-		0x5cc,
 		0x5d7,
 		0x5d5,
 		0x5c8,
@@ -2344,7 +2339,6 @@ namespace stdex
 		0x508,
 		0x50b,
 		0x509,
-		0x1fc,
 		0x290,
 		0x27f,
 		0x271,
@@ -3089,7 +3083,6 @@ namespace stdex
 		0x2a5,
 		0x3fd,
 		0x3e5,
-		0x3e4,
 		0x517,
 		0x318,
 		0x31b,
-- 
2.43.0


From bf31624ac723b1bca0fcf9391e8c764703d9231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 053/128] fix: encoding to SGML does not overflow the fixed
 buffer by a numeric entity

---
 include/stdex/sgml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 0618c26..3da5c1a 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -744,7 +744,7 @@ namespace stdex
 						char tmp[3 + 8 + 1 + 1];
 						int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(src[i++]));
 						stdex_assert(m >= 0);
-						if (static_cast<size_t>(m) >= count_dst)
+						if (j + static_cast<size_t>(m) >= count_dst)
 							throw buffer_overrun;
 						memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 						j += static_cast<size_t>(m);
@@ -772,7 +772,7 @@ namespace stdex
 							char tmp[3 + 8 + 1 + 1];
 							int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(wstr_to_utf32(src, i, end)));
 							stdex_assert(m >= 0);
-							if (static_cast<size_t>(m) >= count_dst)
+							if (j + static_cast<size_t>(m) >= count_dst)
 								throw buffer_overrun;
 							memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 							j += static_cast<size_t>(m);
-- 
2.43.0


From 1c7033bc51f1c04b06c626caeee144a618ad288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 054/128] fix: numeric entities that are not a character number
 are left unchanged

---
 include/stdex/sgml.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 3da5c1a..ab67c7f 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -49,9 +49,13 @@ namespace stdex
 			return nullptr;
 		}
 
-		buf[0] = entity[1] == 'x' || entity[1] == 'X' ?
-			static_cast<utf32_t>(strtou32(&entity[2], count - 2, nullptr, 16)) :
-			static_cast<utf32_t>(strtou32(&entity[1], count - 1, nullptr, 10));
+		const bool hex = entity[1] == 'x' || entity[1] == 'X';
+		const size_t offset = hex ? 2 : 1;
+		size_t end;
+		const uint32_t value = strtou32(&entity[offset], count - offset, &end, hex ? 16 : 10);
+		if (!value || value > 0x10ffff || offset + end < count)
+			return nullptr; // Not a character number.
+		buf[0] = static_cast<utf32_t>(value);
 		buf[1] = 0;
 		return buf;
 	}
-- 
2.43.0


From 26a4e8081c28851e038fa4a7872ff0087bc4e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 055/128] fix: converting characters to upper case

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ff9cd28..8d0caf5 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -302,7 +302,7 @@ namespace stdex
 	template <class T>
 	T toupper(_In_ T chr)
 	{
-		return islower(chr) ? chr | ~0x20 : chr;
+		return islower(chr) ? chr & ~0x20 : chr;
 	}
 
 	///
-- 
2.43.0


From aa94c9cd4902de4ef94974e27d032f6005862b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 056/128] fix: line break at the end of text is recognized

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 8d0caf5..b623cdb 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -131,7 +131,7 @@ namespace stdex
 		stdex_assert(chr || !count);
 		if (count >= 2 && ((chr[0] == '\r' && chr[1] == '\n') || (chr[0] == '\n' && chr[1] == '\r')))
 			return 2;
-		if (count > 1 && (chr[0] == '\n' || chr[0] == '\r'))
+		if (count >= 1 && (chr[0] == '\n' || chr[0] == '\r'))
 			return 1;
 		return 0;
 	}
-- 
2.43.0


From 1f464ff44fc67c7b86e5f8d2a2c3303a2c699fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 057/128] fix: length of the last glyph of UTF-32 text

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index b623cdb..bc43930 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -274,7 +274,7 @@ namespace stdex
 		stdex_assert(count && str && str[count - 1]);
 		for (size_t i = count; i--;) {
 			if (!iscombining(str[i]))
-				return count - (i == 0 ? i : i - 1);
+				return count - i;
 		}
 		return count;
 	}
-- 
2.43.0


From 00b9481cdc3d79c67a6e544884a463af1c986a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 058/128] fix: comparing arrays without letter case returns the
 result

---
 include/stdex/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index bc43930..a881e56 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1307,7 +1307,7 @@ namespace stdex
 		_In_ const T1 (&str1)[N1],
 		_In_ const T2 (&str2)[N2])
 	{
-		strnicmp(str1, N1, str2, N2);
+		return strnicmp(str1, N1, str2, N2);
 	}
 
 	///
@@ -1325,7 +1325,7 @@ namespace stdex
 		_In_ const T2 (&str2)[N2],
 		_In_ const std::locale& locale)
 	{
-		strnicmp(str1, N1, str2, N2, locale);
+		return strnicmp(str1, N1, str2, N2, locale);
 	}
 
 	///
-- 
2.43.0


From fda9163aff4733f7e2b5e69688d55dedd9e99943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 059/128] fix: collating stops at the terminator

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index a881e56..6faacae 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1369,7 +1369,7 @@ namespace stdex
 		stdex_assert(str1 || !count1);
 		stdex_assert(str2 || !count2);
 		auto& collate = std::use_facet<std::collate<T>>(locale);
-		return collate.compare(str1, str1 + count1, str2, str2 + count2);
+		return collate.compare(str1, str1 + strnlen(str1, count1), str2, str2 + strnlen(str2, count2));
 	}
 
 	///
-- 
2.43.0


From 7e144e0b9a44542e9fa3be568a44cdddb165a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 060/128] fix: appending a limited number of characters
 terminates the string

---
 include/stdex/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 6faacae..5139efa 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1796,8 +1796,10 @@ namespace stdex
 		stdex_assert(dst || !count);
 		stdex_assert(src || !count);
 		for (size_t i = 0, j = stdex::strlen<T1>(dst); ; ++i, ++j) {
-			if (i >= count)
+			if (i >= count) {
+				dst[j] = 0;
 				return j;
+			}
 			if ((dst[j] = static_cast<T1>(src[i])) == 0)
 				return j;
 		}
-- 
2.43.0


From 9dd91a0ae1b9e302a2308ef56afcfdec65a29d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 061/128] fix: duplicating a limited number of characters
 terminates the string

---
 include/stdex/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 5139efa..2d2a9d4 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1872,8 +1872,9 @@ namespace stdex
 		_In_reads_or_z_opt_(count) const T* str,
 		_In_ size_t count)
 	{
-		T* dst = new T[count];
-		strncpy(dst, count, str, SIZE_MAX);
+		count = strnlen(str, count);
+		T* dst = new T[count + 1];
+		strncpy(dst, count + 1, str, count);
 		return dst;
 	}
 
-- 
2.43.0


From cfea68f96134796491a0f57fa7676ed535e90a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 062/128] fix: numbers over the signed range saturate

---
 include/stdex/string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 2d2a9d4..a24b5f7 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2080,7 +2080,7 @@ namespace stdex
 		switch (sizeof(T_bin)) {
 		case 1:
 			value = (T_bin)strtoint<T, uint8_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80)) {
+			if (value & static_cast<T_bin>(0x80)) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2090,7 +2090,7 @@ namespace stdex
 
 		case 2:
 			value = (T_bin)strtoint<T, uint16_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000)) {
+			if (value & static_cast<T_bin>(0x8000)) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2100,7 +2100,7 @@ namespace stdex
 
 		case 4:
 			value = (T_bin)strtoint<T, uint32_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80000000)) {
+			if (value & static_cast<T_bin>(0x80000000)) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2110,7 +2110,7 @@ namespace stdex
 
 		case 8:
 			value = (T_bin)strtoint<T, uint64_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000000000000000)) {
+			if (value & static_cast<T_bin>(0x8000000000000000)) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
-- 
2.43.0


From 3f8cbe87f062a73db3d373ade2be22346da71da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 063/128] fix: negative numbers read as unsigned wrap around

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index a24b5f7..cdb63d2 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2171,7 +2171,7 @@ namespace stdex
 
 		return (flags & 0x02) ?
 			(flags & 0x01) ? (T_bin)0 : (T_bin)-1 :
-			(flags & 0x01) ? ~value : value;
+			(flags & 0x01) ? static_cast<T_bin>(0 - value) : value;
 	}
 
 	///
-- 
2.43.0


From cf56c689a56921ad027b5186de8f0cddf2b90b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 064/128] fix: formatted text of 1024 and more characters

---
 include/stdex/string.hpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index cdb63d2..8bf9310 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2675,7 +2675,12 @@ namespace stdex
 
 		// Try with stack buffer first.
 		int count = vsnprintf(buf, _countof(buf), format, locale, arg);
-		if (0 <= count && static_cast<size_t>(count) <= _countof(buf)) {
+#ifdef _WIN32
+		const size_t count_max = _countof(buf);
+#else
+		const size_t count_max = _countof(buf) - 1;
+#endif
+		if (0 <= count && static_cast<size_t>(count) <= count_max) {
 			// Copy from stack.
 			str.append(buf, static_cast<size_t>(count));
 			return static_cast<size_t>(count);
@@ -2699,20 +2704,27 @@ namespace stdex
 #else
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
-			switch (errno) {
-			case EOVERFLOW:
-				// Allocate on heap and retry.
-				str.resize(offset + capacity);
-				count = vsnprintf(&str[offset], capacity, format, locale, arg);
-				if (0 <= count && static_cast<size_t>(count) <= capacity) {
-					str.resize(offset + static_cast<size_t>(count));
-					return static_cast<size_t>(count);
+			if (count >= 0) {
+				// The required length is known.
+				capacity = std::max(capacity, static_cast<size_t>(count) + 1);
+			}
+			else {
+				switch (errno) {
+				case EOVERFLOW: break;
+				case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
+				case EILSEQ: throw std::runtime_error("encoding error");
+				default: throw std::runtime_error("failed to format string");
 				}
-				break;
-			case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
-			case EILSEQ: throw std::runtime_error("encoding error");
-			default: throw std::runtime_error("failed to format string");
 			}
+
+			// Allocate on heap and retry.
+			str.resize(offset + capacity);
+			count = vsnprintf(&str[offset], capacity, format, locale, arg);
+			if (0 <= count && static_cast<size_t>(count) < capacity) {
+				str.resize(offset + static_cast<size_t>(count));
+				return static_cast<size_t>(count);
+			}
+			str.resize(offset);
 		}
 #endif
 		return static_cast<size_t>(count);
-- 
2.43.0


From 95a1c14c6d475f4a956f8c535d9c9a2258baf418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 065/128] fix: asynchronous writer checks the outcome of a
 write before letting go of it

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 56890a5..30881a7 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1381,11 +1381,11 @@ namespace stdex
 					if (!ptr)
 						break;
 					num_read = m_source->write(ptr, num_read);
-					m_ring.pop(num_read);
 					if (!m_source->ok()) {
 						m_ring.quit();
 						break;
 					}
+					m_ring.pop(num_read);
 				}
 			}
 
-- 
2.43.0


From 0ff9017147a828cc5844cda4173f3741c209650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 066/128] fix: unsuccessful search leaves no previous match

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 03e6f13..5ca6610 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -92,6 +92,7 @@ namespace stdex
 				for (size_t i = start; i < end && text[i]; i++)
 					if (match(text, i, end, flags))
 						return true;
+				invalidate();
 				return false;
 			}
 
-- 
2.43.0


From 5f3d428f2e8f6a5019a820210ed4926377112bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 067/128] fix: digits written with several code units count as
 one digit

---
 include/stdex/parser.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 5ca6610..dd29c97 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -1276,17 +1276,20 @@ namespace stdex
 		public:
 			basic_integer(_In_ const std::locale& locale = std::locale()) :
 				basic_parser<T>(locale),
-				value(0)
+				value(0),
+				digit_count(0)
 			{}
 
 			virtual void invalidate()
 			{
 				value = 0;
+				digit_count = 0;
 				basic_parser<T>::invalidate();
 			}
 
 		public:
 			size_t value; ///< Calculated value of the numeral
+			size_t digit_count; ///< Total number of digits in integer
 		};
 
 		///
@@ -1329,7 +1332,7 @@ namespace stdex
 				_In_ int flags = match_default)
 			{
 				stdex_assert(text || start >= end);
-				for (this->interval.end = start, this->value = 0; this->interval.end < end && text[this->interval.end];) {
+				for (this->interval.end = start, this->value = this->digit_count = 0; this->interval.end < end && text[this->interval.end]; this->digit_count++) {
 					size_t dig;
 					if (m_digit_0->match(text, this->interval.end, end, flags)) { dig = 0; this->interval.end = m_digit_0->interval.end; }
 					else if (m_digit_1->match(text, this->interval.end, end, flags)) { dig = 1; this->interval.end = m_digit_1->interval.end; }
@@ -1386,7 +1389,6 @@ namespace stdex
 				_In_ const std::shared_ptr<basic_set<T>>& separator,
 				_In_ const std::locale& locale = std::locale()) :
 				basic_integer<T>(locale),
-				digit_count(0),
 				has_separators(false),
 				m_digits(digits),
 				m_separator(separator)
@@ -1394,12 +1396,10 @@ namespace stdex
 
 			virtual void invalidate()
 			{
-				digit_count = 0;
 				has_separators = false;
 				basic_integer<T>::invalidate();
 			}
 
-			size_t digit_count; ///< Total number of digits in integer
 			bool has_separators; ///< Did integer have any separators?
 
 		protected:
@@ -1413,21 +1413,21 @@ namespace stdex
 				if (m_digits->match(text, start, end, flags)) {
 					// Leading part match.
 					this->value = m_digits->value;
-					digit_count = m_digits->interval.size();
+					this->digit_count = m_digits->digit_count;
 					has_separators = false;
 					this->interval.start = start;
 					this->interval.end = m_digits->interval.end;
-					if (m_digits->interval.size() <= 3) {
+					if (m_digits->digit_count <= 3) {
 						// Maybe separated with thousand separators?
 						size_t hit_offset = SIZE_MAX;
 						while (m_separator->match(text, this->interval.end, end, flags) &&
 							(hit_offset == SIZE_MAX || hit_offset == m_separator->hit_offset) && // All separators must be the same, no mixing.
 							m_digits->match(text, m_separator->interval.end, end, flags) &&
-							m_digits->interval.size() == 3)
+							m_digits->digit_count == 3)
 						{
 							// Thousand separator and three-digit integer followed.
 							this->value = this->value * 1000 + m_digits->value;
-							digit_count += 3;
+							this->digit_count += 3;
 							has_separators = true;
 							this->interval.end = m_digits->interval.end;
 							hit_offset = m_separator->hit_offset;
@@ -1506,7 +1506,7 @@ namespace stdex
 				_In_ int flags = match_default)
 			{
 				stdex_assert(text || start >= end);
-				for (this->interval.end = start, this->value = 0; this->interval.end < end && text[this->interval.end];) {
+				for (this->interval.end = start, this->value = this->digit_count = 0; this->interval.end < end && text[this->interval.end]; this->digit_count++) {
 					size_t dig;
 					if (m_digit_0->match(text, this->interval.end, end, flags)) { dig = 0; this->interval.end = m_digit_0->interval.end; }
 					else if (m_digit_1->match(text, this->interval.end, end, flags)) { dig = 1; this->interval.end = m_digit_1->interval.end; }
@@ -1605,7 +1605,7 @@ namespace stdex
 					dig[5] = { SIZE_MAX, SIZE_MAX, SIZE_MAX, SIZE_MAX, SIZE_MAX },
 					end2;
 
-				for (this->interval.end = start, this->value = 0; this->interval.end < end && text[this->interval.end]; dig[3] = dig[2], dig[2] = dig[1], dig[1] = dig[0], this->interval.end = end2) {
+				for (this->interval.end = start, this->value = this->digit_count = 0; this->interval.end < end && text[this->interval.end]; this->digit_count++, dig[3] = dig[2], dig[2] = dig[1], dig[1] = dig[0], this->interval.end = end2) {
 					if (m_digit_1 && m_digit_1->match(text, this->interval.end, end, flags)) { dig[0] = 1; end2 = m_digit_1->interval.end; }
 					else if (m_digit_5 && m_digit_5->match(text, this->interval.end, end, flags)) { dig[0] = 5; end2 = m_digit_5->interval.end; }
 					else if (m_digit_10 && m_digit_10->match(text, this->interval.end, end, flags)) { dig[0] = 10; end2 = m_digit_10->interval.end; }
@@ -2184,7 +2184,7 @@ namespace stdex
 
 				value = (double)integer->value;
 				if (decimal->interval)
-					value += (double)decimal->value * pow(10.0, -(double)decimal->interval.size());
+					value += (double)decimal->value * pow(10.0, -(double)decimal->digit_count);
 				if (negative_sign && negative_sign->interval)
 					value = -value;
 				if (exponent && exponent->interval) {
-- 
2.43.0


From 2697d3bafb475d5dd185fd9e3280361767e1ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 068/128] fix: optional signs of a monetary numeral may be left
 out

---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index dd29c97..de43388 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2264,17 +2264,17 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 
-				if (positive_sign->match(text, this->interval.end, end, flags)) {
+				if (positive_sign && positive_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = positive_sign->interval.end;
 					if (negative_sign) negative_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (negative_sign->match(text, this->interval.end, end, flags)) {
+				else if (negative_sign && negative_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = negative_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (special_sign->match(text, this->interval.end, end, flags)) {
+				else if (special_sign && special_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = special_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (negative_sign) negative_sign->invalidate();
-- 
2.43.0


From 9fb166cae284335fe54fc10834851a4765be259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:09 +0000
Subject: [PATCH 069/128] fix: zero stays zero whatever its exponent

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index de43388..85e3766 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2187,7 +2187,7 @@ namespace stdex
 					value += (double)decimal->value * pow(10.0, -(double)decimal->digit_count);
 				if (negative_sign && negative_sign->interval)
 					value = -value;
-				if (exponent && exponent->interval) {
+				if (exponent && exponent->interval && value != 0.0) {
 					double e = (double)exponent->value;
 					if (negative_exp_sign && negative_exp_sign->interval)
 						e = -e;
-- 
2.43.0


From 4637fc958c52a3a685ff14e77fd160816d10f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 070/128] fix: value of an IPv6 address is stored

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 85e3766..c42306a 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2707,6 +2707,7 @@ namespace stdex
 						goto error;
 					}
 					components[i].end = this->interval.end;
+					this->value.s6_words[i] = static_cast<uint16_t>(x);
 					HE2BE(reinterpret_cast<uint16_t&>(this->value.s6_words[i]));
 				}
 
-- 
2.43.0


From 828e25678caa2f44d95715f90ace29573ab334b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 071/128] fix: IPv6 address does not include a colon after it

---
 include/stdex/parser.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c42306a..896078d 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2642,6 +2642,7 @@ namespace stdex
 				size_t i, compaction_i = SIZE_MAX, compaction_start = start;
 				for (i = 0; i < 8; i++) {
 					bool is_empty = true;
+					const size_t previous_end = this->interval.end;
 
 					if (m_separator->match(text, this->interval.end, end, flags)) {
 						// : found
@@ -2656,6 +2657,7 @@ namespace stdex
 							}
 							else {
 								// More than one zero compaction
+								this->interval.end = previous_end;
 								break;
 							}
 						}
@@ -2668,6 +2670,12 @@ namespace stdex
 						// : missing
 						break;
 					}
+					if (compaction_i != SIZE_MAX && i >= 7) {
+						// Zero compaction stands for one component at least.
+						if (compaction_i != i)
+							this->interval.end = previous_end;
+						break;
+					}
 
 					components[i].start = this->interval.end;
 					size_t x;
@@ -2702,6 +2710,8 @@ namespace stdex
 					if (is_empty) {
 						if (compaction_i != SIZE_MAX) {
 							// Zero compaction active: no sweat.
+							if (compaction_i != i)
+								this->interval.end = previous_end;
 							break;
 						}
 						goto error;
-- 
2.43.0


From 04d735fae94bfb640c4bf6d41fac64b4b24eba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 072/128] fix: values of IP addresses are in network byte order

---
 include/stdex/parser.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 896078d..4cd102a 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2443,7 +2443,7 @@ namespace stdex
 				if (i < 4)
 					goto error;
 
-				HE2BE(reinterpret_cast<uint32_t&>(value.s_addr));
+				value.s_addr = HE2BE(reinterpret_cast<uint32_t&>(value.s_addr));
 				this->interval.start = start;
 				return true;
 
@@ -2717,8 +2717,7 @@ namespace stdex
 						goto error;
 					}
 					components[i].end = this->interval.end;
-					this->value.s6_words[i] = static_cast<uint16_t>(x);
-					HE2BE(reinterpret_cast<uint16_t&>(this->value.s6_words[i]));
+					this->value.s6_words[i] = HE2BE(static_cast<uint16_t>(x));
 				}
 
 				if (compaction_i != SIZE_MAX) {
-- 
2.43.0


From 2d1d93437751a7718be7acc220f3d3262b773405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 073/128] fix: UUID groups have no sign

---
 include/stdex/uuid.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 1f4d384..6991afc 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -99,6 +99,7 @@ namespace stdex
 		if (i >= count || str[i] != '{') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
+		if (i >= count || str[i] == '-' || str[i] == '+') return false;
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
 		if (n > UINT32_MAX) return false;
 #ifdef _WIN32
@@ -111,6 +112,7 @@ namespace stdex
 		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
+		if (i >= count || str[i] == '-' || str[i] == '+') return false;
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
 		if (n > UINT16_MAX) return false;
 #ifdef _WIN32
@@ -123,6 +125,7 @@ namespace stdex
 		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
+		if (i >= count || str[i] == '-' || str[i] == '+') return false;
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
 		if (n > UINT16_MAX) return false;
 #ifdef _WIN32
@@ -135,6 +138,7 @@ namespace stdex
 		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
+		if (i >= count || str[i] == '-' || str[i] == '+') return false;
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
 		if (n > UINT16_MAX) return false;
 #ifdef _WIN32
@@ -149,6 +153,7 @@ namespace stdex
 		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
+		if (i >= count || str[i] == '-' || str[i] == '+') return false;
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
 		if (n > 0xffffffffffff) return false;
 #ifdef _WIN32
-- 
2.43.0


From 5baa80fb3013aafb7719475f0d2e5fcccb7a4259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 074/128] fix: user name without password in FTP URLs

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 4cd102a..a8a64d2 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3557,7 +3557,7 @@ namespace stdex
 							// Username and password
 							this->interval.end = m_at->interval.end;
 						}
-						else if (m_at->match(text, this->interval.end, end, flags)) {
+						else if (m_at->match(text, username->interval.end, end, flags)) {
 							// Username only
 							this->interval.end = m_at->interval.end;
 							password->invalidate();
-- 
2.43.0


From 684fd2dfb628f801f2b40ca2cbecb551e45d4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 075/128] fix: creditor reference of letters overflows its
 buffer

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index a8a64d2..8df35a1 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5012,7 +5012,7 @@ namespace stdex
 					this->reference[--j] = '0';
 
 				// Normalize creditor reference.
-				T normalized[47];
+				T normalized[49];
 				available = 0;
 				for (size_t i = 0; ; ++i) {
 					if (!this->reference[i]) {
-- 
2.43.0


From b318a59b790ebe4f64c760cfc394f6251dd9ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 076/128] fix: creditor reference does not include a space
 after it

---
 include/stdex/parser.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 8df35a1..0ad4e8f 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4986,17 +4986,18 @@ namespace stdex
 				this->check_digits[2] = 0;
 
 				for (n = 0;;) {
-					if (m_space && m_space->match(text, this->interval.end, end, flags))
-						this->interval.end = m_space->interval.end;
+					size_t pos = this->interval.end;
+					if (m_space && m_space->match(text, pos, end, flags))
+						pos = m_space->interval.end;
 					for (size_t j = 0; j < 4; ++j) {
-						if (this->interval.end >= end || !text[this->interval.end])
+						if (pos >= end || !text[pos])
 							goto out;
-						T chr = case_insensitive ? ctype.toupper(text[this->interval.end]) : text[this->interval.end];
+						T chr = case_insensitive ? ctype.toupper(text[pos]) : text[pos];
 						if (('0' <= chr && chr <= '9') || ('A' <= chr && chr <= 'Z')) {
 							if (n >= _countof(reference) - 1)
 								goto error; // reference overflow
 							this->reference[n++] = chr;
-							this->interval.end++;
+							this->interval.end = ++pos;
 						}
 						else
 							goto out;
-- 
2.43.0


From e8aec84b9f0ac9d197696b282186ea06fa18f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 077/128] fix: control digit of SI references with remainder 0

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 0ad4e8f..6de1bf4 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5455,7 +5455,7 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
 				return control == part2[num_part2 - 1] - '0';
 			}
@@ -5476,7 +5476,7 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
 				return control == part2[num_part3 - 1] - '0';
 			}
-- 
2.43.0


From e44a78227d0e5b141d52d4ba814705632530e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 078/128] fix: control digit of SI references of three parts

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 6de1bf4..b2449d5 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5478,7 +5478,7 @@ namespace stdex
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
 				if (control >= 10)
 					control = 0;
-				return control == part2[num_part3 - 1] - '0';
+				return control == part3[num_part3 - 1] - '0';
 			}
 
 			std::shared_ptr<basic_parser<T>> m_space;
-- 
2.43.0


From cc7ad1ce24c01caea9d8e6370a480a1ed8b237a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 079/128] fix: day or month of SIZE_MAX is not a date

---
 include/stdex/parser.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index b2449d5..d572b40 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4130,7 +4130,7 @@ namespace stdex
 						if (m_separator->match(text, this->interval.end, end, flags)) {
 							for (this->interval.end = m_separator->interval.end; m_space->match(text, this->interval.end, end, space_match_flags); this->interval.end = m_space->interval.end);
 							if (month->match(text, this->interval.end, end, flags) &&
-								is_valid(SIZE_MAX, month->value))
+								is_valid(1, month->value))
 							{
 								if (day) day->invalidate();
 								this->interval.start = start;
@@ -4148,7 +4148,7 @@ namespace stdex
 						if (m_separator->match(text, this->interval.end, end, flags)) {
 							for (this->interval.end = m_separator->interval.end; m_space->match(text, this->interval.end, end, space_match_flags); this->interval.end = m_space->interval.end);
 							if (year->match(text, this->interval.end, end, flags) &&
-								is_valid(SIZE_MAX, month->value))
+								is_valid(1, month->value))
 							{
 								if (day) day->invalidate();
 								this->interval.start = start;
@@ -4218,14 +4218,6 @@ namespace stdex
 
 			static bool is_valid(size_t day, size_t month)
 			{
-				if (month == SIZE_MAX) {
-					// Default to January. This allows validating day only, as January has all 31 days.
-					month = 1;
-				}
-				if (day == SIZE_MAX) {
-					// Default to 1st day in month. This allows validating month only, as each month has 1st day.
-					day = 1;
-				}
 
 				switch (month) {
 				case 1:
-- 
2.43.0


From a3a04f2c644be6d1313260ffb910f985ac0a9247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 080/128] fix: phone numbers without parentheses

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index d572b40..e3467ed 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4526,8 +4526,8 @@ namespace stdex
 
 				this->interval.end = start;
 				value.clear();
-				m_lparenthesis->invalidate();
-				m_rparenthesis->invalidate();
+				if (m_lparenthesis) m_lparenthesis->invalidate();
+				if (m_rparenthesis) m_rparenthesis->invalidate();
 
 				if (m_plus_sign && m_plus_sign->match(text, this->interval.end, end, flags)) {
 					value.append(text + m_plus_sign->interval.start, text + m_plus_sign->interval.end);
-- 
2.43.0


From 87ef5366026a6aad722333cfb287449eee119bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 081/128] fix: HTTP URL path at the end of text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index e3467ed..486bdd7 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6177,7 +6177,7 @@ namespace stdex
 				this->interval.end = start;
 				segments.clear();
 				stdex_assert(text || this->interval.end >= end);
-				if (this->interval.end < end && text[this->interval.end] != '/')
+				if (this->interval.end >= end || text[this->interval.end] != '/')
 					goto error;
 				this->interval.end++;
 				s.match(text, this->interval.end, end, flags);
-- 
2.43.0


From 5c824a4b97b0ca7951b21660ca59f301f5d8347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 082/128] fix: HTTP URL parameter read past the end of text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 486bdd7..f1b1864 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6252,7 +6252,7 @@ namespace stdex
 					name.end = this->interval.end;
 				else
 					goto error;
-				if (text[this->interval.end] == '=') {
+				if (this->interval.end < end && text[this->interval.end] == '=') {
 					this->interval.end++;
 					value.start = this->interval.end;
 					for (;;) {
-- 
2.43.0


From fe871b6b01497f6db054ec1a4a3fd251fb4ddca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 083/128] fix: HTTP text of characters over 0x7f

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index f1b1864..ea7d9d2 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5660,7 +5660,7 @@ namespace stdex
 					this->interval.end = m_space.interval.end;
 					return true;
 				}
-				else if (this->interval.end < end && text[this->interval.end] && text[this->interval.end] >= 0x20) {
+				else if (this->interval.end < end && text[this->interval.end] && static_cast<unsigned char>(text[this->interval.end]) >= 0x20) {
 					this->interval.start = start;
 					this->interval.end++;
 					return true;
-- 
2.43.0


From ba702be14d378664fcccab2fbc4bd1d4ac28ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 084/128] fix: HTTP parameter has an equal sign

---
 include/stdex/parser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index ea7d9d2..466431d 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5868,8 +5868,9 @@ namespace stdex
 				if (this->interval.end < end && text[this->interval.end] == '=')
 					this->interval.end++;
 				else
-					while (m_space.match(text, this->interval.end, end, flags))
-						this->interval.end = m_space.interval.end;
+					goto error;
+				while (m_space.match(text, this->interval.end, end, flags))
+					this->interval.end = m_space.interval.end;
 				if (value.match(text, this->interval.end, end, flags))
 					this->interval.end = value.interval.end;
 				else
-- 
2.43.0


From ba04833a05cf6e94cf8dddcd33ab3120430b1893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 085/128] fix: HTTP weight of an earlier value

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 466431d..50cedac 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6569,6 +6569,7 @@ namespace stdex
 			{
 				stdex_assert(text || start >= end);
 				size_t konec_vrednosti;
+				factor.invalidate();
 				this->interval.end = start;
 				if (asterisk.match(text, this->interval.end, end, flags)) {
 					this->interval.end = konec_vrednosti = asterisk.interval.end;
-- 
2.43.0


From ba2b878d00181661c9d12e5ef346b298fedf5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 086/128] fix: HTTP agent without version

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 50cedac..66c35b8 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6772,6 +6772,8 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 				type.start = this->interval.end;
+				version.start = 1;
+				version.end = 0;
 				for (;;) {
 					if (this->interval.end < end && text[this->interval.end]) {
 						if (text[this->interval.end] == '/') {
-- 
2.43.0


From 8587aa3f646224e188538ccab70f082f70c9751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 087/128] fix: surrogate pairs in JSON strings

---
 include/stdex/parser.hpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 66c35b8..7602d4c 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7296,22 +7296,40 @@ namespace stdex
 								m_hex->interval.size() == 4 /* JSON requests 4-digit Unicode sequneces: \u.... */)
 							{
 								stdex_assert(m_hex->value <= 0xffff);
+								size_t cp = m_hex->value;
+								this->interval.end = m_hex->interval.end;
+								if (sizeof(T) != 2 &&
+									0xd800 <= cp && cp < 0xdc00 && // High surrogate, followed by
+									m_escape->match(text, this->interval.end, end, flags) &&
+									m_uni->match(text, m_escape->interval.end, end, flags) &&
+									m_hex->match(text, m_uni->interval.end, std::min(m_uni->interval.end + 4, end), flags | match_case_insensitive) &&
+									m_hex->interval.size() == 4 &&
+									0xdc00 <= m_hex->value && m_hex->value < 0xe000) // low surrogate
+								{
+									cp = 0x10000 + ((cp - 0xd800) << 10) + (m_hex->value - 0xdc00);
+									this->interval.end = m_hex->interval.end;
+								}
 								if (sizeof(T) == 1) {
-									if (m_hex->value > 0x7ff) {
-										value += (T)(0xe0 | ((m_hex->value >> 12) & 0x0f));
-										value += (T)(0x80 | ((m_hex->value >> 6) & 0x3f));
-										value += (T)(0x80 | (m_hex->value & 0x3f));
+									if (cp > 0xffff) {
+										value += (T)(0xf0 | ((cp >> 18) & 0x07));
+										value += (T)(0x80 | ((cp >> 12) & 0x3f));
+										value += (T)(0x80 | ((cp >> 6) & 0x3f));
+										value += (T)(0x80 | (cp & 0x3f));
 									}
-									else if (m_hex->value > 0x7f) {
-										value += (T)(0xc0 | ((m_hex->value >> 6) & 0x1f));
-										value += (T)(0x80 | (m_hex->value & 0x3f));
+									else if (cp > 0x7ff) {
+										value += (T)(0xe0 | ((cp >> 12) & 0x0f));
+										value += (T)(0x80 | ((cp >> 6) & 0x3f));
+										value += (T)(0x80 | (cp & 0x3f));
+									}
+									else if (cp > 0x7f) {
+										value += (T)(0xc0 | ((cp >> 6) & 0x1f));
+										value += (T)(0x80 | (cp & 0x3f));
 									}
 									else
-										value += (T)(m_hex->value & 0x7f);
+										value += (T)(cp & 0x7f);
 								}
 								else
-									value += (T)m_hex->value;
-								this->interval.end = m_hex->interval.end;
+									value += (T)cp;
 								continue;
 							}
 							if (m_escape->match(text, m_escape->interval.end, end, flags)) {
-- 
2.43.0


From 89e55cc58ce8668503f14480633492297897f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 088/128] fix: escaped backslash in CSS strings

---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 7602d4c..df7ba05 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7549,7 +7549,7 @@ namespace stdex
 						}
 						if (this->interval.end + 1 < end &&
 							text[this->interval.end] == '\\' &&
-							(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+							(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\'' || text[this->interval.end + 1] == '\\'))
 						{
 							// Escaped quote
 							this->interval.end = this->interval.end + 2;
@@ -7628,7 +7628,7 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\'' || text[this->interval.end + 1] == '\\'))
 							{
 								// Escaped quote
 								this->interval.end = this->interval.end + 2;
@@ -7742,7 +7742,7 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\'' || text[this->interval.end + 1] == '\\'))
 							{
 								// Escaped quote
 								this->interval.end = this->interval.end + 2;
-- 
2.43.0


From 29dd8b6b5d88b5501254b76d496290f72589b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 089/128] fix: escaped characters in unquoted CSS URIs

---
 include/stdex/parser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index df7ba05..cd30808 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7661,7 +7661,14 @@ namespace stdex
 								this->interval.end++;
 								return true;
 							}
-							if (ctype.is(ctype.space, text[this->interval.end]))
+							if (this->interval.end + 1 < end &&
+								text[this->interval.end] == '\\' &&
+								text[this->interval.end + 1])
+							{
+								// Escaped character
+								this->content.end = this->interval.end = this->interval.end + 2;
+							}
+							else if (ctype.is(ctype.space, text[this->interval.end]))
 								this->interval.end++;
 							else
 								this->content.end = ++this->interval.end;
-- 
2.43.0


From 832bcb353796afe53d297a09f5a2c5d8c809648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 090/128] fix: MIME charset ends at a semicolon

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index cd30808..0f08161 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7881,6 +7881,7 @@ namespace stdex
 							this->charset.start = this->interval.end;
 							for (;;) {
 								if (this->interval.end >= end || !text[this->interval.end] ||
+									text[this->interval.end] == ';' ||
 									ctype.is(ctype.space, text[this->interval.end])) {
 									this->charset.end = this->interval.end;
 									break;
-- 
2.43.0


From 45dd8920d19bea89ac74716c92c5d9cd4ca5030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 091/128] fix: HTML end tag and declaration closed with />

---
 include/stdex/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 0f08161..acab650 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -8239,7 +8239,9 @@ namespace stdex
 
 						// Attributes follow...
 						html_attribute* a = nullptr;
-						if (this->m_ident.match(text, this->interval.end, end, flags)) {
+						if (this->m_ident.match(text, this->interval.end, end, flags) &&
+							(!this->m_ident.interval.empty() || text[this->interval.end] == '='))
+						{
 							this->attributes.push_back(std::move(html_attribute{ this->m_ident.interval }));
 							a = &this->attributes.back();
 							stdex_assert(a);
-- 
2.43.0


From 58af246e673974d9a5fcfdfbed84d183760f10e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 092/128] fix: string parser at a start beyond the end

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index acab650..80c4322 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -833,7 +833,7 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				size_t
 					m = m_str.size(),
-					n = std::min<size_t>(end - start, m);
+					n = start < end ? std::min<size_t>(end - start, m) : 0;
 				bool r = ((flags & match_case_insensitive) ?
 					stdex::strnicmp(text + start, n, m_str.data(), m, this->m_locale) :
 					stdex::strncmp(text + start, n, m_str.data(), m)) == 0;
-- 
2.43.0


From 001c2c36721904e1b188e3e6d7aaf39e58aff66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 093/128] fix: emoticon mouth

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 80c4322..3dfc45b 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3947,6 +3947,7 @@ namespace stdex
 						for (this->interval.end = mouth->interval.end; mouth->match(text, this->interval.end, end, flags) && mouth->hit_offset == hit_offset; this->interval.end = mouth->interval.end);
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
+						mouth->hit_offset = hit_offset;
 						this->interval.start = start;
 						return true;
 					}
@@ -3959,6 +3960,7 @@ namespace stdex
 						if (nose) nose->invalidate();
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
+						mouth->hit_offset = hit_offset;
 						this->interval.start = start;
 						return true;
 					}
-- 
2.43.0


From 67c7666e49333a64d0e6619bb8dd60512e701d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 094/128] fix: URL unescape reading past the end

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5657416..8d6aa54 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -250,10 +250,12 @@ namespace stdex
 					i++;
 
 					char chr;
+					if (i >= num_chars) { dst += '%'; continue; }
 					if ('0' <= src[i] && src[i] <= '9') chr = static_cast<char>((src[i++] - '0') << 4);
 					else if ('A' <= src[i] && src[i] <= 'F') chr = static_cast<char>((src[i++] - 'A' + 10) << 4);
 					else if ('a' <= src[i] && src[i] <= 'f') chr = static_cast<char>((src[i++] - 'a' + 10) << 4);
 					else { dst += '%'; continue; }
+					if (i >= num_chars) { dst += '%'; dst += src[i - 1]; continue; }
 					if ('0' <= src[i] && src[i] <= '9') chr |= static_cast<char>((src[i++] - '0'));
 					else if ('A' <= src[i] && src[i] <= 'F') chr |= static_cast<char>((src[i++] - 'A' + 10));
 					else if ('a' <= src[i] && src[i] <= 'f') chr |= static_cast<char>((src[i++] - 'a' + 10));
-- 
2.43.0


From e43ed2bf8336b1eaabc99eb532c0f42e12ecd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 095/128] fix: CSS unescape of a backslash at the end

---
 include/stdex/html.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 8d6aa54..01bd73a 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -393,9 +393,9 @@ namespace stdex
 		{
 			stdex_assert(src || !num_chars);
 			for (size_t i = 0; i < num_chars && src[i];) {
-				if (src[i] != '\\')
+				if (src[i] != '\\' || i + 1 >= num_chars || !src[i + 1])
 					dst += src[i++];
-				else if (i + 1 < num_chars) {
+				else {
 					i++;
 
 					switch (src[i]) {
-- 
2.43.0


From 23e1fa9931062af646ceb5be86114759c6eb785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 096/128] fix: CSS space after six digits

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 01bd73a..1b28cd2 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -436,7 +436,7 @@ namespace stdex
 
 						dst += static_cast<T>(chr);
 
-						if (i < end && src[i] == ' ') {
+						if (i < num_chars && src[i] == ' ') {
 							// Skip space after `\nnnn`.
 							i++;
 						}
-- 
2.43.0


From 4d6e32f58772a81b29f03d3027392cdac8816e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 097/128] fix: HTML elements never ended

---
 include/stdex/html.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 1b28cd2..c81b74a 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1815,7 +1815,9 @@ namespace stdex
 								{
 									e->start = starting_tag;
 									e->parent = starting_tag->parent;
-									starting_tag->end = e.get();
+									// This tag also ends all elements started inside and not ended yet.
+									for (size_t k = j; k < m_element_stack.size(); ++k)
+										m_element_stack[k]->end = e.get();
 									m_element_stack.resize(j);
 									break;
 								}
@@ -2539,23 +2541,23 @@ namespace stdex
 							{
 								// Non-localizable
 								auto s_end = s_el_start->end;
-								stdex_assert(s_end);
+								const size_t content_end = s_end ? s_end->interval.start : m_document.source().size(); // Elements never ended span to the end of document.
 
-								if (s->interval.end < s_end->interval.start) {
+								if (s->interval.end < content_end && m_offset != m_document.m_sequences.end()) {
 									if (s_el_start->code != element_t::style) {
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
 										rel.to += append_token(std::move(std::unique_ptr<text_token<T, TR, AX>>(
 											new text_token<T, TR, AX>(
 												token_t::complete,
-												m_source + s->interval.end, s_end->interval.start - s->interval.end,
+												m_source + s->interval.end, content_end - s->interval.end,
 												0,
 												m_offset->get()))),
 											token->text);
 									}
 									else {
 										// Partially parse CSS. It may contain URLs we need to make absolute.
-										auto t = parse_css(s->interval.end, s_end->interval.start);
+										auto t = parse_css(s->interval.end, content_end);
 										stdex_assert(t);
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
-- 
2.43.0


From d44b49ad868065287e9db0d46f9bd45fde8fb2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 098/128] fix: text before an HTML conditional section

---
 include/stdex/html.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index c81b74a..83713fb 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1696,6 +1696,9 @@ namespace stdex
 					}
 
 					if (m_condition_start.match(source, i, num_chars)) {
+						if (m_num_parsed < i)
+							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
+
 						auto condition_src(replace_entities(source + m_condition_start.condition.start, m_condition_start.condition.size()));
 						if (stdex::strncmp(condition_src.data(), condition_src.size(), "CDATA", SIZE_MAX) == 0)
 							m_is_cdata = true;
-- 
2.43.0


From ec618bd9142cff86e790ebdcae3ebc06e2b029b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 099/128] fix: ]]> in text after an HTML CDATA section

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 83713fb..ff4c96e 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1704,7 +1704,7 @@ namespace stdex
 							m_is_cdata = true;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "RCDATA", SIZE_MAX) == 0)
 							m_is_rcdata = true;
-						if (m_num_invalid_conditions)
+						else if (m_num_invalid_conditions)
 							m_num_invalid_conditions++;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "IGNORE", SIZE_MAX) == 0)
 							m_num_invalid_conditions++;
-- 
2.43.0


From 48772b0e900ff3f7007712529715698a00b1920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 100/128] fix: HTML text posing as token tags and its mapping

---
 include/stdex/html.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index ff4c96e..8694ff5 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2437,6 +2437,26 @@ namespace stdex
 				return n;
 			}
 
+			///
+			/// Decodes HTML text and appends it to the token text
+			///
+			/// \param[in,out] token      Token to append text to
+			/// \param[in]     source     HTML text
+			/// \param[in]     num_chars  Code unit limit in `source`
+			/// \param[in]     offset     Position of `source` in document
+			///
+			static void append_text(_Inout_ text_token<T, TR, AX>& token, _In_reads_or_z_opt_(num_chars) const T* source, _In_ size_t num_chars, _In_ size_t offset)
+			{
+				size_t i = token.text.size();
+				stdex::sgml2strcat(token.text, source, num_chars, 0, stdex::mapping<size_t>(offset, 0), &token.mapping);
+
+				// Decoded entities must not pose as token tags.
+				for (; i < token.text.size(); ++i)
+					if (token.text[i] == static_cast<T>(token_tag_start) ||
+						token.text[i] == static_cast<T>(token_tag_end))
+						token.text[i] = ' ';
+			}
+
 			///
 			/// Recursively parses HTML document
 			///
@@ -2471,7 +2491,7 @@ namespace stdex
 					if (s->type == stdex::parser::html_sequence_t::text) {
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
-						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, rel, &token->mapping);
+						append_text(*token, m_source + s->interval.start, s->interval.size(), rel.from);
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
 							!stdex::isblank(m_source + s->interval.start, s->interval.size()))
@@ -2515,9 +2535,8 @@ namespace stdex
 										nullptr, 0,
 										has_text | is_title,
 										s.get()));
-									stdex::mapping<size_t> rel_value(a.value.start, 0);
-									t_value->mapping.push_back(rel_value);
-									stdex::sgml2strcat(t_value->text, m_source + a.value.start, a.value.size(), 0, rel_value, &t_value->mapping);
+									t_value->mapping.push_back(stdex::mapping<size_t>(a.value.start, 0));
+									append_text(*t_value, m_source + a.value.start, a.value.size(), a.value.start);
 									append_token(std::move(t_value), t->text);
 									t->text_type |= has_tokens;
 									offset = a.value.end;
-- 
2.43.0


From 5abb607ec32479c60fdeef045c1cb5d70fca250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 101/128] fix: quotes in HTML attribute text

---
 include/stdex/html.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 8694ff5..00c4b16 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2080,6 +2080,7 @@ namespace stdex
 			has_text = 1 << 1,   ///< Token text contains text
 			is_title = 1 << 2,   ///< Token text contains title text
 			is_bullet = 1 << 3,  ///< Token text contains bullet text
+			is_attribute = 1 << 4, ///< Token text is an attribute value
 		};
 
 		///
@@ -2259,7 +2260,10 @@ namespace stdex
 							}
 						}
 						else if (t->text_type & has_text) {
-							escape_min(source, root[i]);
+							if (t->text_type & is_attribute)
+								escape(source, root + i, 1);
+							else
+								escape_min(source, root[i]);
 							i++;
 						}
 						else
@@ -2268,7 +2272,10 @@ namespace stdex
 				}
 				else if (t->text_type & has_text) {
 					// Token contains no references to other tokens. But, it does contain text that requires escaping.
-					escape_min(source, t->text.data(), t->text.size());
+					if (t->text_type & is_attribute)
+						escape(source, t->text.data(), t->text.size());
+					else
+						escape_min(source, t->text.data(), t->text.size());
 				}
 				else
 					source += t->text;
@@ -2533,7 +2540,7 @@ namespace stdex
 									std::unique_ptr<text_token<T, TR, AX>> t_value(new text_token<T, TR, AX>(
 										token_t::complete,
 										nullptr, 0,
-										has_text | is_title,
+										has_text | is_title | is_attribute,
 										s.get()));
 									t_value->mapping.push_back(stdex::mapping<size_t>(a.value.start, 0));
 									append_text(*t_value, m_source + a.value.start, a.value.size(), a.value.start);
-- 
2.43.0


From 2f5f2032be5133b8d3d52b6e095b9ea0d1bcc526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 102/128] fix: merging HTML token lists

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 00c4b16..b305fc3 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2378,7 +2378,7 @@ namespace stdex
 			{
 				for (auto i2 = b.begin(); i2 != b.end(); ++i2) {
 					auto t2 = *i2;
-					for (auto i1 = a.begin(); i1 != a.end(); ++i1) {
+					for (auto i1 = a.begin(); ; ++i1) {
 						if (i1 == a.end()) {
 							a.push_back(t2);
 							break;
-- 
2.43.0


From 8795144cbdef67d64e34702754cfa3cc3219ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 103/128] fix: end tags of unknown HTML elements

---
 include/stdex/html.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index b305fc3..f4dc76a 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1813,8 +1813,8 @@ namespace stdex
 							for (size_t j = m_element_stack.size(); j--; ) {
 								auto starting_tag = m_element_stack[j];
 								stdex_assert(starting_tag && starting_tag->type == stdex::parser::html_sequence_t::element_start);
-								if (starting_tag->code == e->code ||
-									(starting_tag->code == element_t::unknown && e->code == element_t::unknown && stdex::strnicmp(source + starting_tag->name.start, starting_tag->name.size(), source + e->name.start, e->name.size()) == 0))
+								if (starting_tag->code == e->code &&
+									(e->code != element_t::unknown || stdex::strnicmp(source + starting_tag->name.start, starting_tag->name.size(), source + e->name.start, e->name.size()) == 0))
 								{
 									e->start = starting_tag;
 									e->parent = starting_tag->parent;
-- 
2.43.0


From 38e27419864b0d1f1e00c3039b6a1d6f6c4f1540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:18 +0000
Subject: [PATCH 104/128] fix: idrec: skipping records with near-maximum size

---
 include/stdex/idrec.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 6856f7d..e26aa8c 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -86,8 +86,7 @@ namespace stdex {
 			if (!stream.good()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
-			stream.ignore(size);
+			stream.ignore(static_cast<std::streamsize>(size) + padding<T_size, N_align>(size));
 			if (!stream.good()) _Unlikely_ return false;
 
 			return true;
@@ -111,8 +110,7 @@ namespace stdex {
 			if (!stream.ok()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
-			stream.skip(size);
+			stream.skip(static_cast<stdex::stream::fsize_t>(size) + padding<T_size, N_align>(size));
 			if (!stream.ok()) _Unlikely_ return false;
 
 			return true;
@@ -492,8 +490,7 @@ namespace stdex {
 				stream >> r.data; // TODO: operator >> should not read past the record data! Make a size limited stream and read from it instead.
 				if (!stream.good()) _Unlikely_ return stream;
 
-				size += padding<T_size, N_align>(size);
-				stream.seekg(start + size);
+				stream.seekg(start + static_cast<std::streamoff>(size) + padding<T_size, N_align>(size));
 
 				return stream;
 			}
@@ -523,8 +520,7 @@ namespace stdex {
 					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
 				}
 
-				size += padding<T_size, N_align>(size);
-				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size));
+				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size) + padding<T_size, N_align>(size));
 
 				return stream;
 			}
-- 
2.43.0


From 186d9fd79de69d1d08e1c4fa5659d1905b3fbfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 105/128] fix: WAV: allocation by untrusted number of cues

---
 include/stdex/wav.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5bc8f9d..1d37067 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -250,8 +250,17 @@ namespace stdex
 			uint32_t num_cues;
 			dat >> num_cues;
 			if (!dat.ok()) _Unlikely_ goto error1;
-			data.resize(num_cues);
-			data.resize(dat.read_array(data.data(), sizeof(cue), num_cues));
+			data.clear();
+			while (num_cues) {
+				// The number of cues in the file is not to be trusted. Read in blocks.
+				size_t offset = data.size(), num_block = std::min<size_t>(num_cues, 0x1000);
+				data.resize(offset + num_block);
+				size_t num_read = dat.read_array(data.data() + offset, sizeof(cue), num_block);
+				data.resize(offset + num_read);
+				if (num_read < num_block) _Unlikely_
+					break;
+				num_cues -= static_cast<uint32_t>(num_block);
+			}
 			return dat;
 
 		error1:
@@ -523,10 +532,12 @@ namespace stdex
 					uint32_t num_cues;
 					_dat >> num_cues;
 					if (!_dat.ok()) _Unlikely_ return false;
-					cues.resize(num_cues);
 					size_t i;
 					bool ordered = true;
 					for (i = 0; i < num_cues; i++) {
+						// The number of cues in the file is not to be trusted.
+						if (cues.size() <= i)
+							cues.resize(i + 1);
 						_dat.read_array(static_cast<cue*>(&cues[i]), sizeof(cue), 1);
 						if (!_dat.ok()) _Unlikely_
 							break;
-- 
2.43.0


From 2e2465a71de2a8768aa8825b13cf2b0e8b74ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 106/128] fix: WAV: skipping odd-sized blocks

---
 include/stdex/wav.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 1d37067..438ecc9 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -489,8 +489,7 @@ namespace stdex
 				}
 
 				// Block was found, but sub-ID is different.
-				end += (align - end) % align;
-				dat.seekbeg(end);
+				dat.seekbeg(end + stdex::idrec::padding<length_t, align>(size));
 			}
 			return false;
 		}
-- 
2.43.0


From 4fef78a83bc897841e641f03847dec72729aa15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 107/128] fix: WAV: endless loop reading cues

---
 include/stdex/wav.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 438ecc9..5617095 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -527,6 +527,7 @@ namespace stdex
 					length_t size;
 					dat >> size;
 					if (!dat.ok()) _Unlikely_ return false;
+					stdex::stream::fpos_t end = dat.tell() + size;
 					stdex::stream::file_window _dat(dat, dat.tell(), size);
 					uint32_t num_cues;
 					_dat >> num_cues;
@@ -546,7 +547,10 @@ namespace stdex
 					cues.resize(i);
 					if (!ordered)
 						std::sort(cues.begin(), cues.end(), cue_less);
+					dat.seekbeg(end + stdex::idrec::padding<length_t, align>(size));
 				}
+				else
+					break;
 			}
 
 			// Cues are loaded. Add other data.
@@ -554,6 +558,7 @@ namespace stdex
 			while (dat.tell() < block_end) {
 				stdex::stream::fpos_t found_block_end;
 				if (find_first<list>(dat, *(const id_t*)"adtl", block_end, &found_block_end)) {
+					length_t size = static_cast<length_t>(found_block_end - dat.tell() + sizeof(id_t));
 					while (dat.tell() < found_block_end) {
 						id_t id;
 						dat >> id;
@@ -596,7 +601,12 @@ namespace stdex
 						else if (!stdex::idrec::ignore<length_t, align>(dat)) _Unlikely_
 							return false;
 					}
+					found_block_end += stdex::idrec::padding<length_t, align>(size);
+					if (dat.tell() < found_block_end)
+						dat.seekbeg(found_block_end);
 				}
+				else
+					break;
 			}
 
 			dat.seekbeg(start);
-- 
2.43.0


From ec859f2e5ae8b8121d2bffe0c41ed5c690ec5ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 108/128] fix: WAV: remove_cues() kept cues and removed
 everything else

---
 include/stdex/wav.hpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5617095..fed6513 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -629,40 +629,38 @@ namespace stdex
 				id_t id;
 				input >> id;
 				if (!input.ok()) break;
-				for (size_t i = 0; i < _countof(removable); i++)
-					if (id == removable[i])
-						goto remove;
-				if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
-					return false;
-				continue;
+				if (std::find(std::begin(removable), std::end(removable), id) != std::end(removable)) {
+					if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
+						return false;
+					continue;
+				}
 
-			remove:
 				length_t size;
 				input >> size;
 				if (!input.ok()) _Unlikely_ return false;
 				auto start = stdex::idrec::open<id_t, length_t>(output, id);
-				id_t id2 = id;
-				stdex::strupr(reinterpret_cast<char*>(&id2), sizeof(id_t) / sizeof(char));
-				if (id != id2 || id == *reinterpret_cast<const id_t*>("ICRD")) {
-					// ID is not all uppercase (or is an exception). Element is trivial and may be copied.
+				if (id != header::record::id() && id != list::record::id()) {
+					// Element is trivial and may be copied.
 					if (!output.ok()) _Unlikely_ return false;
 					output.write_stream(input, size);
 					if (!input.ok()) _Unlikely_ return false;
 					stdex::idrec::close<id_t, length_t, align>(output, start);
-					size = static_cast<length_t>(align - size) % align;
-					if (size)
-						input.seekcur(size);
+					input.seekcur(stdex::idrec::padding<length_t, align>(size));
 				}
 				else {
-					// ID is all uppercase. Needs recursive treatment.
+					// Element contains other elements. Needs recursive treatment.
 					id_t id3;
 					input >> id3;
 					if (!input.ok()) _Unlikely_ return false;
 					output << id3;
 					if (!output.ok()) _Unlikely_ return false;
 					stdex::stream::fpos_t end = output.tell();
-					if (!remove_cues(input, output, input.tell() + size - sizeof(id_t))) _Unlikely_
+					stdex::stream::fpos_t input_end = input.tell() + size - sizeof(id_t);
+					if (!remove_cues(input, output, input_end)) _Unlikely_
 						return false;
+					input_end += stdex::idrec::padding<length_t, align>(size);
+					if (input.tell() < input_end)
+						input.seekbeg(input_end);
 					if (end != output.tell())
 						stdex::idrec::close<id_t, length_t, align>(output, start);
 					else
-- 
2.43.0


From 2c9047288f43335a40f2bdf7b7f93c0fc1e45f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 109/128] fix: SGML parsers return numeric entities from a dead
 local buffer

---
 include/stdex/sgml.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index ab67c7f..33f4f7a 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -80,8 +80,13 @@ namespace stdex
 
 	inline const utf32_t* utf32_to_wstr(_In_opt_z_ const utf32_t* str, utf32_t* buf)
 	{
-		_Unreferenced_(buf);
-		return str;
+		if (!str)
+			return nullptr;
+		for (size_t i = 0;; ++i) {
+			buf[i] = str[i];
+			if (!str[i])
+				return buf;
+		}
 	}
 
 	template <class T>
-- 
2.43.0


From 08c737a818719b4df9c0dfda2c3398530f63fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:25 +0000
Subject: [PATCH 110/128] fix: Assigning a handle closes the old one twice when
 duplication fails

---
 include/stdex/system.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stdex/system.hpp b/include/stdex/system.hpp
index 737a8fc..1e5a8d3 100644
--- a/include/stdex/system.hpp
+++ b/include/stdex/system.hpp
@@ -148,9 +148,12 @@ namespace stdex
 		basic_sys_object& operator =(_In_ const basic_sys_object<T, TR>& other)
 		{
 			if (this != std::addressof(other)) {
-				if (m_h != TR::invalid_handle)
+				if (m_h != TR::invalid_handle) {
 					TR::close(m_h);
-				m_h = other.m_h != TR::invalid_handle ? TR::duplicate(other.m_h) : TR::invalid_handle;
+					m_h = TR::invalid_handle;
+				}
+				if (other.m_h != TR::invalid_handle)
+					m_h = TR::duplicate(other.m_h);
 			}
 			return *this;
 		}
-- 
2.43.0


From 879f5702a5641dcafd6f20daa8d7db9a8c95ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:25 +0000
Subject: [PATCH 111/128] fix: Empty SGML entity breaks an assertion

---
 include/stdex/sgml.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 33f4f7a..5c064d0 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -25,7 +25,9 @@ namespace stdex
 	template <class T>
 	const utf32_t* sgml2uni(_In_reads_or_z_(count) const T* entity, _In_ size_t count, utf32_t buf[2])
 	{
-		stdex_assert(entity && count);
+		stdex_assert(entity || !count);
+		if (!count)
+			return nullptr;
 
 		if (count < 2 || entity[0] != '#') {
 			for (size_t i = 0, j = _countof(sgml_unicode); i < j; ) {
-- 
2.43.0


From 7cff97d98f79b48114c7504239cb9231b1d863b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:25 +0000
Subject: [PATCH 112/128] fix: Typed access to the end of a memory file breaks
 an assertion

---
 include/stdex/stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 30881a7..2c8e227 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4067,7 +4067,7 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
-				stdex_assert(offset + sizeof(T) < m_size);
+				stdex_assert(offset + sizeof(T) <= m_reserved);
 				(*reinterpret_cast<T*>(&m_data[offset])) = HE2LE(data);
 			}
 
@@ -4098,7 +4098,7 @@ namespace stdex
 			template <class T>
 			void get(_In_ fpos_t offset, _Out_ T & data)
 			{
-				stdex_assert(offset + sizeof(T) < m_size);
+				stdex_assert(offset + sizeof(T) <= m_size);
 				data = LE2HE(*(T*)(&m_data[offset]));
 #if SET_FILE_OP_TIMES
 				m_atime = time_point::now();
-- 
2.43.0


From 8ac52a2265d32b32db25bcdf113ed4ef30cb308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:15 +0000
Subject: [PATCH 113/128] fix: Scoped executor runs a lambda that no longer
 exists

---
 include/stdex/scoped_executor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stdex/scoped_executor.hpp b/include/stdex/scoped_executor.hpp
index 7819367..b59cdee 100644
--- a/include/stdex/scoped_executor.hpp
+++ b/include/stdex/scoped_executor.hpp
@@ -6,6 +6,7 @@
 #pragma once
 
 #include "compat.hpp"
+#include <utility>
 
 namespace stdex
 {
@@ -18,7 +19,7 @@ namespace stdex
 	template <typename F_init, typename F_done>
 	class scoped_executor
 	{
-		F_done&& m_done;
+		F_done m_done; // Stored by value: lambdas written in place do not outlive the declaration.
 
 	public:
 		///
@@ -32,6 +33,9 @@ namespace stdex
 			std::forward<F_init&&>(init)();
 		}
 
+		scoped_executor(_In_ const scoped_executor& other) = delete;
+		scoped_executor& operator =(_In_ const scoped_executor& other) = delete;
+
 		///
 		/// Executes done lambda
 		///
-- 
2.43.0


From 40b9f2fa3406f1161bfc4bb3568283891c4d97c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:16 +0000
Subject: [PATCH 114/128] fix: Quotes around the value of an HTML entity are
 taken for a part of it

---
 include/stdex/html.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index f4dc76a..807cfd3 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1839,7 +1839,19 @@ namespace stdex
 								{
 									std::unique_ptr<entity<T, TR, AX>> e(new entity<T, TR, AX>());
 									e->name = m_tag.attributes[2].name;
-									e->value = std::move(replace_entities(source + m_tag.attributes[3].name.start, m_tag.attributes[3].name.size()));
+									auto value = m_tag.attributes[3].name;
+									const T quote = source[value.start];
+									if (quote == '"' || quote == '\'') {
+										// The value is a literal: it spans to the closing quote.
+										size_t literal_end = value.start + 1;
+										while (literal_end < m_tag.interval.end && source[literal_end] != quote)
+											++literal_end;
+										if (literal_end < m_tag.interval.end) {
+											++value.start;
+											value.end = literal_end;
+										}
+									}
+									e->value = std::move(replace_entities(source + value.start, value.size()));
 									m_entities.push_back(std::move(e));
 								}
 
-- 
2.43.0


From 4502024e1aea08a904598fb3ceccdb0cf0fad068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:16 +0000
Subject: [PATCH 115/128] fix: Ignored HTML section ends with the first section
 nested in it

---
 include/stdex/html.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 807cfd3..ae8572c 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1683,6 +1683,11 @@ namespace stdex
 							i = m_num_parsed = m_condition_end.interval.end;
 							continue;
 						}
+						if (m_condition_start.match(source, i, num_chars)) {
+							m_num_invalid_conditions++;
+							i = m_num_parsed = m_condition_start.interval.end;
+							continue;
+						}
 						goto next_char;
 					}
 
@@ -1704,8 +1709,6 @@ namespace stdex
 							m_is_cdata = true;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "RCDATA", SIZE_MAX) == 0)
 							m_is_rcdata = true;
-						else if (m_num_invalid_conditions)
-							m_num_invalid_conditions++;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "IGNORE", SIZE_MAX) == 0)
 							m_num_invalid_conditions++;
 						else
-- 
2.43.0


From 6af3bcfb3947e118c2c1be5bdb7757fc93db73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:52 +0000
Subject: [PATCH 116/128] fix: give locale_utf8 a locale that exists on other
 systems than Windows

---
 include/stdex/locale.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdex/locale.hpp b/include/stdex/locale.hpp
index 4d55274..cdd8956 100644
--- a/include/stdex/locale.hpp
+++ b/include/stdex/locale.hpp
@@ -100,7 +100,13 @@ namespace stdex
 	///
 	/// Reusable UTF-8 locale
 	///
+#if defined(_WIN32)
 	const inline locale locale_utf8(create_locale(LC_ALL, ".UTF-8"));
+#elif defined(__APPLE__)
+	const inline locale locale_utf8(create_locale(LC_ALL, "en_US.UTF-8"));
+#else
+	const inline locale locale_utf8(create_locale(LC_ALL, "C.UTF-8"));
+#endif
 
 	///
 	/// Reusable default locale
-- 
2.43.0


From 4bb3371acf4495f8c42e33206590a31fe6b293cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:52 +0000
Subject: [PATCH 117/128] fix: print benchmark duration with the standard
 64-bit format

---
 include/stdex/debug.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/debug.hpp b/include/stdex/debug.hpp
index 85863c4..42b2b38 100644
--- a/include/stdex/debug.hpp
+++ b/include/stdex/debug.hpp
@@ -7,6 +7,7 @@
 
 #include "compat.hpp"
 #include "string.hpp"
+#include <inttypes.h>
 #include <stdarg.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -140,7 +141,7 @@ namespace stdex
 		~benchmark()
 		{
 			auto duration(std::chrono::high_resolution_clock::now() - m_start);
-			stdex::diag::printf("%s took %I64i ns\n", m_task_name, static_cast<int64_t>(duration.count()));
+			stdex::diag::printf("%s took %" PRIi64 " ns\n", m_task_name, static_cast<int64_t>(duration.count()));
 		}
 
 	protected:
-- 
2.43.0


From cd960edc3a44be5f99ff04d2ed0454094ec5df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:52 +0000
Subject: [PATCH 118/128] fix: wake all threads waiting for ring data to be
 taken

---
 include/stdex/ring.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/ring.hpp b/include/stdex/ring.hpp
index 62a20fe..8d28e25 100644
--- a/include/stdex/ring.hpp
+++ b/include/stdex/ring.hpp
@@ -102,7 +102,7 @@ namespace stdex
 				m_head = wrap(m_head + size);
 				m_size -= size;
 			}
-			m_head_moved.notify_one();
+			m_head_moved.notify_all(); // Besides the writer, there may be threads in sync() waiting.
 		}
 
 		///
@@ -114,7 +114,7 @@ namespace stdex
 				const std::lock_guard<std::mutex> lg(m_mutex);
 				m_quit = true;
 			}
-			m_head_moved.notify_one();
+			m_head_moved.notify_all(); // Besides the writer, there may be threads in sync() waiting.
 			m_tail_moved.notify_one();
 		}
 
-- 
2.43.0


From adbd3029e0939fc6c0b8097971d77674ea64611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:04 +0000
Subject: [PATCH 119/128] fix: copying a vector_queue neither leaks nor
 destroys elements twice when an element fails to copy

---
 include/stdex/vector_queue.hpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index d6218e4..3d04937 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -6,6 +6,7 @@
 #pragma once
 
 #include "compat.hpp"
+#include <memory>
 #include <stdexcept>
 #include <utility>
 
@@ -73,10 +74,12 @@ namespace stdex
 			m_size_max(other.m_size_max)
 		{
 			// Copy elements.
+			std::unique_ptr<value_type[]> data(m_data); // Release the data should copying throw.
 			for (size_type i = 0; i < m_count; i++) {
 				size_type i_l = abs(i);
 				m_data[i_l] =  other.m_data[i_l];
 			}
+			data.release();
 		}
 
 		///
@@ -113,17 +116,7 @@ namespace stdex
 		vector_queue<value_type>& operator=(_In_ const vector_queue<value_type> &other)
 		{
 			if (this != std::addressof(other)) {
-				m_head     = other.m_head;
-				m_count    = other.m_count;
-				m_size_max = other.m_size_max;
-
-				// Copy elements.
-				if (m_data) delete [] m_data;
-				m_data = new value_type[other.m_size_max];
-				for (size_type i = 0; i < m_count; i++) {
-					size_type i_l = abs(i);
-					m_data[i_l] =  other.m_data[i_l];
-				}
+				*this = vector_queue<value_type>(other); // Leaves this queue as it is should copying throw.
 			}
 
 			return *this;
@@ -317,11 +310,12 @@ namespace stdex
 		///
 		size_type push_front(_In_ const value_type &v)
 		{
-			m_head = abs(m_size_max - 1);
+			size_type pos = abs(m_size_max - 1);
+			m_data[pos] = v;
+			m_head = pos;
 			if (m_count < m_size_max)
 				m_count++;
-			m_data[m_head] = v;
-			return m_head;
+			return pos;
 		}
 
 		///
@@ -333,11 +327,12 @@ namespace stdex
 		///
 		size_type push_front(_Inout_ value_type&&v)
 		{
-			m_head = abs(m_size_max - 1);
+			size_type pos = abs(m_size_max - 1);
+			m_data[pos] = std::move(v);
+			m_head = pos;
 			if (m_count < m_size_max)
 				m_count++;
-			m_data[m_head] = std::move(v);
-			return m_head;
+			return pos;
 		}
 
 		///
-- 
2.43.0


From 74796d671ecc734efa157c942e66bd3c8515f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:04 +0000
Subject: [PATCH 120/128] fix: memory_file does not show data it failed to
 allocate after an assignment

---
 include/stdex/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 2c8e227..ad6afa9 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3413,6 +3413,8 @@ namespace stdex
 						free(m_data);
 					m_data = reinterpret_cast<uint8_t*>(malloc(other.m_size));
 					if (!m_data) {
+						m_offset = m_size = m_reserved = 0;
+						m_manage = true;
 						m_state = state_t::fail;
 						throw std::bad_alloc();
 					}
-- 
2.43.0


From cd8b90b977b65f82bd3adcc580c03a019ba0c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:04 +0000
Subject: [PATCH 121/128] fix: replicator does not terminate the process when
 it fails to add a stream

---
 include/stdex/stream.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index ad6afa9..a13b341 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1104,7 +1104,12 @@ namespace stdex
 			///
 			void push_back(_In_ basic* source)
 			{
-				m_workers.push_back(std::unique_ptr<worker>(new worker(source)));
+				m_workers.emplace_back(); // Before the worker starts: should this throw, there would be nobody to stop it.
+				try { m_workers.back().reset(new worker(source)); }
+				catch (...) {
+					m_workers.pop_back();
+					throw;
+				}
 			}
 
 			///
-- 
2.43.0


From ceee10abdd2bd9f0a694fb4d98bac7a22d661950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:04 +0000
Subject: [PATCH 122/128] fix: reading wave data keeps the state of contents
 that could not be stored

---
 include/stdex/wav.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index fed6513..a321a30 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -134,7 +134,8 @@ namespace stdex
 				if (!dat.ok() || !tmp16) goto error7;
 				data.extra.seek(0);
 				data.extra.write_stream(dat, tmp16);
-				data.extra.truncate();
+				if (data.extra.ok())
+					data.extra.truncate();
 
 				return dat;
 
@@ -172,7 +173,8 @@ namespace stdex
 			{
 				data.content.seek(0);
 				data.content.write_stream(dat);
-				data.content.truncate();
+				if (data.content.ok())
+					data.content.truncate();
 				return dat;
 			}
 
-- 
2.43.0


From 71c0f4377131c174de648eed098f18ac172121c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:04 +0000
Subject: [PATCH 123/128] fix: honour CHECK_STREAM_STATE given by the user

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index a13b341..68c02e5 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -49,7 +49,7 @@
 #if !defined(CHECK_STREAM_STATE) && defined(RDAT_NE_PREVERJAJ_STANJA_VER)
 #define CHECK_STREAM_STATE 0
 #pragma message("RDAT_NE_PREVERJAJ_EOF_VER is deprecated. Use CHECK_STREAM_STATE=0 instead.")
-#else
+#elif !defined(CHECK_STREAM_STATE)
 #define CHECK_STREAM_STATE 1
 #endif
 
-- 
2.43.0


From 0d81dbcdbcedbb850428434e9cddd61898f08f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:04 +0000
Subject: [PATCH 124/128] fix: asynchronous streams report sources that throw
 instead of terminating the process

---
 include/stdex/stream.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 68c02e5..2d91378 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1279,7 +1279,7 @@ namespace stdex
 					uint8_t* ptr; size_t num_read;
 					std::tie(ptr, num_read) = m_ring.front();
 					if (!ptr) _Unlikely_ {
-						m_state = to_read < length || !length ? state_t::ok : m_source->state();
+						m_state = to_read < length || !length ? state_t::ok : m_failed ? state_t::fail : m_source->state();
 						return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.
 					}
 					if (to_read < num_read)
@@ -1303,7 +1303,12 @@ namespace stdex
 					std::tie(ptr, num_write) = m_ring.back();
 					if (!ptr) _Unlikely_
 						break;
-					num_write = m_source->read(ptr, num_write);
+					try { num_write = m_source->read(ptr, num_write); }
+					catch (...) {
+						m_failed = true;
+						m_ring.quit();
+						break;
+					}
 					m_ring.push(num_write);
 					if (!m_source->ok()) {
 						m_ring.quit();
@@ -1313,6 +1318,7 @@ namespace stdex
 			}
 
 		protected:
+			bool m_failed = false; ///< Did reading throw? Written before m_ring.quit(), read after m_ring ended.
 			ring<uint8_t, N_cap> m_ring;
 			std::thread m_worker;
 		};
@@ -1385,7 +1391,11 @@ namespace stdex
 					std::tie(ptr, num_read) = m_ring.front();
 					if (!ptr)
 						break;
-					num_read = m_source->write(ptr, num_read);
+					try { num_read = m_source->write(ptr, num_read); }
+					catch (...) {
+						m_ring.quit();
+						break;
+					}
 					if (!m_source->ok()) {
 						m_ring.quit();
 						break;
-- 
2.43.0


From 154b272ce60ff1f83a23674a65e5b949189e1afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:04 +0000
Subject: [PATCH 125/128] fix: replicator reports streams that throw instead of
 terminating the process

---
 include/stdex/stream.hpp | 43 ++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 2d91378..07cc063 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1153,8 +1153,8 @@ namespace stdex
 					_w->cv.wait(lk, [&] {return _w->op == worker::op_t::noop; });
 					if (_w->num_written < num_written)
 						num_written = _w->num_written;
-					if (ok() && !_w->source->ok())
-						m_state = _w->source->state();
+					if (ok() && (_w->failed || !_w->source->ok()))
+						m_state = _w->failed ? state_t::fail : _w->source->state();
 				}
 				return num_written;
 			}
@@ -1178,7 +1178,8 @@ namespace stdex
 					op(op_t::noop),
 					data(nullptr),
 					length(0),
-					num_written(0)
+					num_written(0),
+					failed(false)
 				{
 					*static_cast<std::thread*>(this) = std::thread([](_Inout_ worker& w) { w.process_op(); }, std::ref(*this));
 				}
@@ -1189,19 +1190,26 @@ namespace stdex
 					for (;;) {
 						std::unique_lock<std::mutex> lk(mutex);
 						cv.wait(lk, [&] {return op != op_t::noop; });
-						switch (op) {
-						case op_t::quit:
-							return;
-						case op_t::write:
-							num_written = source->write(data, length);
-							break;
-						case op_t::close:
-							source->close();
-							break;
-						case op_t::flush:
-							source->flush();
-							break;
-						case op_t::noop:;
+						failed = false;
+						try {
+							switch (op) {
+							case op_t::quit:
+								return;
+							case op_t::write:
+								num_written = source->write(data, length);
+								break;
+							case op_t::close:
+								source->close();
+								break;
+							case op_t::flush:
+								source->flush();
+								break;
+							case op_t::noop:;
+							}
+						}
+						catch (...) {
+							num_written = 0;
+							failed = true;
 						}
 						op = op_t::noop;
 						lk.unlock();
@@ -1221,6 +1229,7 @@ namespace stdex
 				const void* data; ///< Data to write
 				size_t length; ///< Byte limit of data to write
 				size_t num_written; ///< Number of bytes written
+				bool failed; ///< Did the source throw?
 				std::mutex mutex;
 				std::condition_variable cv;
 			};
@@ -1241,7 +1250,7 @@ namespace stdex
 					std::unique_lock<std::mutex> lk(_w->mutex);
 					_w->cv.wait(lk, [&] {return _w->op == worker::op_t::noop; });
 					if (ok())
-						m_state = _w->source->state();
+						m_state = _w->failed ? state_t::fail : _w->source->state();
 				}
 			}
 
-- 
2.43.0


From 0b7a73baa90a8f63a5a51b8e9844a551ce40e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:04 +0000
Subject: [PATCH 126/128] fix: zlib_writer does not leak when it fails to flush

---
 include/stdex/zlib.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 832f1d3..155ea9d 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -61,6 +61,10 @@ namespace stdex
 
 		virtual ~zlib_writer()
 		{
+			struct deflate_end {
+				z_stream* zlib;
+				~deflate_end() { deflateEnd(zlib); }
+			} end = { &m_zlib }; // Also when flushing fails.
 			m_zlib.avail_in = 0;
 			m_zlib.next_in = NULL;
 			do {
@@ -74,7 +78,6 @@ namespace stdex
 			// m_zlib.avail_out = m_block_size;
 			// m_zlib.next_out = m_block.get();
 			// deflateReset(&m_zlib);
-			deflateEnd(&m_zlib);
 		}
 
 		virtual _Success_(return != 0) size_t write(
-- 
2.43.0


From 54c065a187f14c7d7bc36cc374002f48ea4afec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:01 +0000
Subject: [PATCH 127/128] fix: buffer does not deliver the same data again
 after its source throws

---
 include/stdex/stream.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 07cc063..0194679 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1482,10 +1482,9 @@ namespace stdex
 						reinterpret_cast<uint8_t*&>(data) += buffer_size;
 						to_read -= buffer_size;
 					}
-					m_read_buffer.head = 0;
+					m_read_buffer.head = m_read_buffer.tail = 0;
 					if (to_read > m_read_buffer.capacity) {
 						// When needing to read more data than buffer capacity, bypass the buffer.
-						m_read_buffer.tail = 0;
 						to_read -= m_source->read(data, to_read);
 						m_state = to_read < length ? state_t::ok : m_source->state();
 						return length - to_read;
-- 
2.43.0


From be4c716ef5d486ce5ff6679bc35141543cd2c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:01 +0000
Subject: [PATCH 128/128] fix: cache does not mistake data for that of another
 block after its source throws

---
 include/stdex/stream.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 0194679..1d6e9de 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2238,16 +2238,15 @@ namespace stdex
 			{
 				stdex_assert(m_cache.status != cache_t::cache_t::status_t::dirty);
 				start -= start % m_cache.capacity; // Align to cache block size.
+				m_cache.status = cache_t::cache_t::status_t::empty; // Should the source throw, the cache describes nothing.
 				m_source->seekbeg(m_cache.region.start = start);
 				if (m_source->ok()) {
 					m_cache.region.end = start + m_source->read_array(m_cache.data, sizeof(uint8_t), m_cache.capacity);
 					m_cache.status = cache_t::cache_t::status_t::loaded;
 					m_state = state_t::ok; // Regardless the read failure, we still might have cached some data.
 				}
-				else {
-					m_cache.status = cache_t::cache_t::status_t::empty;
+				else
 					m_state = state_t::fail;
-				}
 			}
 
 			void write_cache()
-- 
2.43.0

